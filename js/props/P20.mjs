// Proxied requests and static files arrive unchanged; everything else reaches the program.
import http from 'node:http';
import fs from 'node:fs';
import path from 'node:path';
import { fail } from '../engine.mjs';
import { request, scratchDir, startServer } from '../ssr.mjs';
import { J } from './hostprop.mjs';

const TINY = 'target/tiny/wasm32-unknown-unknown/debug/vp_tiny.wasm';
const MOUNTS = ['/build', '/b', '/static/files', '/build.d', '/a-b/c_d~', '/api', '/x/build'];
const PROXIES = ['/api', '/api/v2', '/apix', '/API', '/a', '/p-1', '/up.v1', '/x/y/z', '/ap', '/api/v2/deep', '/build2', '/x', '/slash/', '/%C5%BC', '/q~'];
const BASES = ['', '', '/base', '/a/b', '/api', '/with%20space', '/v2.1'];
const NAMES = ['f.js', 'style.css', 'a b.txt', 'żółw.svg', 'x%y.bin', '.hidden', 'sub/deep/f.js', 'sub/f.js', 'data.unknown', 'noext', 'index.html', 'sub/index.html', "q'u(o)t.html", 'plus+and&.txt', 'api/v2', '漢.wasm', '100%25.txt', 'secret.txt.gz'];
const SEGS = ['a', 'b', 'v2', 'api', 'build', '', 'x%20y', '%C5%BC', '%2F', '%3F', 'a:b@c', ";,=!$&'()*+", '~t_e-s.t', 'index.html', '%00', '%25', 'deep', '...', 'x..', '0'];
const QUERY = ['x=1', 'x=a%20b', '', 'q=%C5%BC&r=', '?', 'a=/b?c', '&&', "it's", 'u=http://h/?p=1', '%26', 'a+b', 'x=%00', 'proxy=/api'];
const REQ_HEADERS = [['accept', 'text/html, */*;q=0.1'], ['authorization', 'Bearer abc.def=='], ['cookie', 'a=b; c="d e"'], ['x-custom', 'v 1'], ['x-custom', 'v2'], ['user-agent', 'vp/1.0'], ['if-none-match', 'W/"x"'], ['accept-encoding', 'gzip, br'], ['accept-language', 'pl'], ['origin', 'http://localhost'], ['referer', 'http://localhost/x?y'], ['x-empty', ''], ['x-latin', 'caf\xe9']];
const ANS_HEADERS = [['set-cookie', 'a=b; Path=/; HttpOnly'], ['set-cookie', 'c=d'], ['x-a', '1'], ['x-a', '2'], ['etag', '"e"'], ['cache-control', 'no-store'], ['content-language', 'pl'], ['x-latin', 'caf\xe9'], ['last-modified', 'Thu, 19 Nov 2026 10:00:00 GMT'], ['content-disposition', 'attachment; filename="a"'], ['location', '/elsewhere'], ['vary', 'accept'], ['content-encoding', 'gzip'], ['x-empty', ''], ['access-control-allow-origin', '*'], ['www-authenticate', 'Basic realm="x"']];
const TYPES = [null, 'text/plain', 'application/json', 'text/html; charset=utf-8', 'application/octet-stream', 'application/x-www-form-urlencoded'];

const bytes = (s, big) => s.weighted([
    [3, () => [0, s.pick(['{"b": 1.50, "a":[1e3]}', '{}', 'null', '{"a":"ż","a":2}', ' [1, 2,3 ] ', '"s"', '{bad', 'a=b&c=d', 'text', '12345678901234567890'])]],
    [1, () => [1, s.list(0, 12, () => s.draw(256), 5)]],
    [1, () => [0, '']],
    [big, () => [2, s.int(1, 3000), s.draw(256)]], // kilobytes
])();
const toBytes = (b) => (b[0] === 0 ? Buffer.from(b[1]) : b[0] === 1 ? Buffer.from(b[1]) : Buffer.alloc(b[1] * 1024, Buffer.from([b[2], 10, 13, 0, 200])));
const tail = (s) => { const t = s.list(0, 4, () => s.pick(SEGS), 1.5).map((x) => '/' + x).join('').replace(/^\/+/, '/'); return t; };
const query = (s) => (s.bool(0.4) ? '?' + s.pick(QUERY) : '');
const config = (s) => {
    const mount = s.weighted([[3, '/build'], [2, s.pick(MOUNTS)]]);
    const proxies = [];
    for (let n = s.draw(5); n > 0; n--) {
        const p = s.pick(PROXIES);
        if (p === mount || proxies.some((x) => x[0] === p)) continue;
        proxies.push([p, s.weighted([[4, 0], [3, 1], [1, 2]]), s.pick(BASES)]);
    }
    const files = [];
    for (let n = s.draw(6); n > 0; n--) {
        const f = s.pick(NAMES);
        if (files.some((x) => x[0] === f || x[0].startsWith(f + '/') || f.startsWith(x[0] + '/'))) continue;
        files.push([f, bytes(s, 0.5)]);
    }
    return { mount, proxies, files };
};
const answer = (s) => ({
    s: s.weighted([[5, 200], [3, s.pick([201, 202, 204, 206, 301, 302, 303, 307, 308, 304, 400, 401, 403, 404, 405, 409, 418, 422, 429, 500, 502, 503, 599])]]),
    t: s.pick(TYPES), b: bytes(s, 0.1), h: s.list(0, 4, () => s.draw(ANS_HEADERS.length), 1), c: s.bool(0.4),
    d: s.weighted([[3, 0], [1, s.int(1, 20)]]), f: s.weighted([[12, 0], [1, 1], [1, 2]]),
});
const req = (s, c) => s.weighted([
    [c.proxies.length ? 6 : 0, () => ({
        k: 'proxy', i: s.draw(c.proxies.length), tail: tail(s), q: query(s), a: answer(s),
        m: s.pick(['GET', 'POST', 'PUT', 'PATCH', 'DELETE', 'OPTIONS', 'HEAD', 'GET', 'POST']), h: s.list(0, 4, () => s.draw(REQ_HEADERS.length), 1.2), t: s.pick(TYPES), b: bytes(s, 0.1), chunked: s.bool(0.3),
    })],
    [3, () => ({ k: 'file', i: s.draw(c.files.length + 2), m: s.weighted([[4, 'GET'], [1, 'HEAD']]), q: query(s), raw: s.bool(0.3), range: s.weighted([[5, null], [1, [s.draw(20), s.draw(20)]]]) })],
    [0.7, () => ({ k: 'missing', name: s.pick(['nix.js', 'x/y', 'index.jso', 'index.json.map', 'APP.wasm', '%00', 'app.wasm/x']) })],
    [1.5, () => ({ k: 'out', how: s.draw(14) })],
    [3, () => ({ k: 'program', p: s.weighted([[2, () => tail(s) || '/'], [2, () => s.pick([c.mount, ...c.proxies.map((x) => x[0])]).replace(/\/$/, '') + s.pick(['x', '-', '.', '%2Fa', '2/a', '_/'])], [1, () => '/in' + s.pick([c.mount, ...c.proxies.map((x) => x[0])]) + '/a'], [1, () => { const p = s.pick([c.mount, ...c.proxies.map((x) => x[0])]); return p.slice(0, 1 + s.draw(p.length)) || '/'; }], [1, () => s.pick([c.mount, ...c.proxies.map((x) => x[0])]).toUpperCase() + '/f.js']])(), q: query(s), m: s.weighted([[6, 'GET'], [1, s.pick(['POST', 'HEAD', 'PUT', 'DELETE'])]]) })],
])();
const under = (p, prefix) => { const x = prefix.replace(/\/$/, ''); return p === x || p.startsWith(x + '/'); };
/** which of the configured paths an address belongs to */
const owner = (c, p) => [c.mount, ...c.proxies.map((x) => x[0])].filter((x) => under(p, x)).sort((a, b) => b.replace(/\/$/, '').length - a.replace(/\/$/, '').length)[0];

/** upstream answering by the number in the query or header of the request */
const startUp = async (env) => {
    const server = http.createServer({ keepAliveTimeout: 1000, requireHostHeader: false }, (q, r) => {
        const parts = [];
        q.on('data', (d) => parts.push(d));
        q.on('error', () => {});
        q.on('end', () => {
            const id = q.headers['x-vp-id'];
            const raw = [];
            for (let i = 0; i < q.rawHeaders.length; i += 2) raw.push([q.rawHeaders[i].toLowerCase(), q.rawHeaders[i + 1]]);
            const e = { up: server.which, method: q.method, url: q.url, raw, body: Buffer.concat(parts) };
            const list = env.log.get(id);
            if (!list) { env.strange.push(e); r.statusCode = 404; r.end('?'); return; }
            list.push(e);
            const a = env.answers.get(id);
            setTimeout(() => {
                if (a.f === 1) { q.socket.destroy(); return; }
                r.statusCode = a.s;
                if (a.t !== null) r.setHeader('content-type', a.t);
                for (const i of a.h) r.appendHeader(ANS_HEADERS[i][0], ANS_HEADERS[i][1]);
                const body = [204, 304].includes(a.s) ? Buffer.alloc(0) : toBytes(a.b);
                if (a.f === 2) { r.setHeader('content-length', body.length + 10); r.write(body.length ? body : 'x'); setTimeout(() => q.socket.destroy(), 5); return; }
                if (!a.c && ![204, 304].includes(a.s)) r.setHeader('content-length', body.length);
                if (q.method === 'HEAD') { r.end(); return; }
                if (a.c && body.length > 1) { r.write(body.subarray(0, body.length >> 1)); r.end(body.subarray(body.length >> 1)); } else r.end(body);
            }, a.d);
        });
    });
    server.on('connection', (x) => { x.setNoDelay(true); x.on('error', () => {}); });
    await new Promise((ok) => server.listen(0, '127.0.0.1', ok));
    return server;
};
export default {
    id: 'P20', quick: 160, thorough: 6000, hangS: 200, shrinkTries: 400,
    rule: 'One server per case with a random mount path, static files and proxies (overlapping and similar paths, several upstreams, one of them down) and 1-5 rounds of 1-16 concurrent requests: proxied (method, path, query, headers, body, answer with status, headers, body, failures), static files, ranges, missing files, addresses that try to leave the folder, and addresses of the program. Non-trivial = a proxied request with body, a file and a program address in one case.',
    assumptions: ['mount and proxy paths are distinct, not empty, and contain no ":" or "*"; targets have no trailing slash', 'addresses contain no "." or ".." segments below a proxy and no empty one right behind its path (axum drops it)', 'connection-level headers are not passed on'],
    async prepare({ root }) { return { base: scratchDir(root) }; },
    async init(env) {
        env.log = new Map(); env.answers = new Map(); env.strange = []; env.n = 0;
        env.ups = [await startUp(env), await startUp(env)];
        env.ups.forEach((u, i) => { u.which = i; });
        const dead = http.createServer();
        await new Promise((ok) => dead.listen(0, '127.0.0.1', ok));
        env.deadPort = dead.address().port;
        await new Promise((ok) => dead.close(ok));
    },
    async close(env) { for (const u of env.ups) { u.closeAllConnections(); u.close(); } },
    generate: (s) => { const c = config(s); return { ...c, rounds: s.list(1, 5, () => s.list(1, 16, () => req(s, c), 8), 2.5) }; },
    run: async (c, env) => {
        const port = (i) => (i === 2 ? env.deadPort : env.ups[i].address().port);
        const args = c.proxies.flatMap(([p, u, b]) => ['--proxy', `${p}=http://127.0.0.1:${port(u)}${b}`]);
        const files = c.files.map(([n, b]) => [n, toBytes(b)]);
        const server = await startServer(env.root, { base: env.extra.base, wasm: path.join(env.root, TINY), mount: c.mount, args, files });
        const classes = new Set();
        try {
            const secret = `secret-${server.port}-${Math.random()}`;
            fs.writeFileSync(path.join(path.dirname(server.dir), 'secret.txt'), secret);
            fs.writeFileSync(server.dir + '-other.txt', secret);
            const all = [...files, ['index.json', fs.readFileSync(path.join(server.dir, 'index.json'))], ['app.wasm', fs.readFileSync(path.join(server.dir, 'app.wasm'))]];
            for (const [n, round] of c.rounds.entries()) {
                await Promise.all(round.map((r, i) => { classes.add(r.k); return one(r, c, server, env, { all, secret, port, classes }, `round ${n}, request ${i} of ${round.length} (${J(r).slice(0, 500)})`); }));
            }
            if (env.strange.length) { const e = env.strange.pop(); env.strange.length = 0; fail(`an upstream received a request nobody sent: ${e.method} ${e.url} ${J(e.raw)}`, 'strange'); }
        } finally { server.stop(); env.log.clear(); env.answers.clear(); }
        return { nontrivial: classes.has('proxy-body') && classes.has('file') && classes.has('program'), classes: [...classes], evaluations: c.rounds.reduce((a, r) => a + r.length, 0) };
    },
};
const enc = (name) => name.split('/').map(encodeURIComponent).join('/');
const one = async (r, c, server, env, x, what) => {
    const id = String(++env.n);
    env.log.set(id, []);
    const ask = async (o) => { const a = await request(server.port, { ...o, headers: [...(o.headers ?? []), 'x-vp-id', id] }); if (a.error) fail(`${what}: no answer: ${a.error}`, 'no-answer'); return a; };
    const quiet = () => { if (env.log.get(id).length) fail(`${what}: an upstream was asked for ${env.log.get(id)[0].url}`, 'upstream-asked'); };
    if (r.k === 'program') {
        // only addresses that belong to nobody else
        if (owner(c, r.p) !== undefined) return;
        const a = await ask({ path: r.p + r.q, method: r.m, ...(r.m === 'POST' || r.m === 'PUT' ? { body: 'x' } : {}) });
        quiet();
        if (a.status !== 200) fail(`${what}: the status is ${a.status} (${J(a.body.toString().slice(0, 200))})`, 'program-status');
        if (!/no-store/.test(a.headers['cache-control'] ?? '')) fail(`${what}: a browser would keep the answer of the program: cache-control ${a.headers['cache-control']}`, 'program-cache');
        if (r.m !== 'HEAD' && a.body.toString() !== 'vp-tiny:' + r.p + r.q) fail(`${what}: the program did not get its address: ${J(a.body.toString().slice(0, 300))}`, 'program');
        return;
    }
    const shadowed = (p) => owner(c, p) !== c.mount;
    if (r.k === 'file') {
        const [name, data] = x.all[r.i % x.all.length];
        const p = `${c.mount}/${r.raw ? encodeURI(name).replace(/\?/g, '%3F') : enc(name)}`;
        if (shadowed(p)) return;
        const range = r.range && data.length > 0 ? [Math.min(r.range[0], data.length - 1), Math.min(r.range[0] + r.range[1], data.length - 1)] : null;
        const a = await ask({ path: p + r.q, method: r.m, headers: range ? ['range', `bytes=${range[0]}-${range[1]}`] : [] });
        quiet();
        if (range ? a.status !== 206 && a.status !== 200 : a.status !== 200) fail(`${what}: the status of the file is ${a.status}`, 'file-status');
        // names contain a hash of the content, so browsers may keep the files; modules need their types
        if (!/(^|[ ,])max-age=[1-9]/.test(a.headers['cache-control'] ?? '') || /no-store|no-cache/.test(a.headers['cache-control'])) fail(`${what}: a browser would not keep the file: cache-control ${a.headers['cache-control']}`, 'file-cache');
        const type = { js: /^(text|application)\/javascript\b/, wasm: /^application\/wasm\b/, css: /^text\/css\b/, json: /^application\/json\b/ }[name.match(/\.(\w+)$/)?.[1]];
        if (type && !type.test(a.headers['content-type'] ?? '')) fail(`${what}: the type of ${name} is ${a.headers['content-type']}`, 'file-type');
        const want = a.status === 206 ? data.subarray(range[0], range[1] + 1) : data;
        if (r.m === 'HEAD') { if (a.headers['content-length'] !== undefined && Number(a.headers['content-length']) !== want.length) fail(`${what}: the length ${a.headers['content-length']} instead of ${want.length}`, 'file-length'); } else if (!a.body.equals(want)) fail(`${what}: the file has other bytes: ${a.body.length} instead of ${want.length}: ${J(a.body.toString('latin1').slice(0, 200))}`, 'file-bytes');
        return;
    }
    if (r.k === 'missing') {
        const p = `${c.mount}/${r.name}`;
        if (shadowed(p) || x.all.some(([n]) => n === r.name)) return;
        const a = await ask({ path: p });
        quiet();
        if (a.status < 400) fail(`${what}: a file that does not exist is answered with ${a.status}: ${J(a.body.toString().slice(0, 200))}`, 'missing');
        return;
    }
    if (r.k === 'out') {
        const up = path.dirname(server.dir);
        const p = [`${c.mount}/../secret.txt`, `${c.mount}/%2e%2e/secret.txt`, `${c.mount}/..%2fsecret.txt`, `${c.mount}/%2e%2e%2fsecret.txt`, `${c.mount}/..%5csecret.txt`, `${c.mount}/sub/../../secret.txt`, `${c.mount}/${up}/secret.txt`, `${c.mount}//${up}/secret.txt`, `${c.mount}/%2f${enc(up)}/secret.txt`, `${c.mount}/..;/secret.txt`, `/secret.txt`, `${c.mount}/../../${c.mount}/../secret.txt`, `${c.mount}/.%2e/secret.txt`, `${c.mount}-other.txt`][r.how];
        const a = await ask({ path: p });
        quietOut(env, id);
        if (a.body.includes(x.secret)) fail(`${what}: ${p} shows a file outside of the folder`, 'outside');
        return;
    }
    // proxied
    const [prefix, up, base] = c.proxies[r.i];
    const p = prefix.replace(/\/$/, '') + (prefix.endsWith('/') && !r.tail ? '/' : r.tail);
    if (owner(c, p) !== prefix) return;
    env.answers.set(id, r.a);
    const withBody = !['GET', 'HEAD', 'OPTIONS'].includes(r.m);
    const body = withBody ? toBytes(r.b) : null;
    const sent = r.h.map((i) => REQ_HEADERS[i]).filter(([n], i, l) => n.startsWith('x-') || l.findIndex((y) => y[0] === n) === i);
    if (withBody && r.t !== null) sent.push(['content-type', r.t]);
    const headers = ['host', `127.0.0.1:${server.port}`, ...sent.flat()];
    if (withBody) { if (r.chunked && body.length) headers.push('transfer-encoding', 'chunked'); else headers.push('content-length', String(body.length)); }
    if (withBody && body.length) x.classes.add('proxy-body');
    const a = await ask({ path: p + r.q, method: r.m, headers, body: body && body.length ? body : undefined });
    const log = env.log.get(id);
    if (up === 2 || r.a.f) {
        x.classes.add('upstream-fails');
        if (a.status < 500) fail(`${what}: an upstream that fails is answered with the status ${a.status}`, 'upstream-fails');
        if (up === 2) { quiet(); return; }
        if (log.length < 1) fail(`${what}: the upstream was not asked`, 'not-asked');
    } else {
        if (log.length !== 1) fail(`${what}: the upstream got ${log.length} requests (answer ${a.status} ${J(a.body.toString().slice(0, 200))})`, 'requests');
    }
    const e = log[0];
    const full = `http://127.0.0.1:${x.port(up)}${base}`;
    const wants = [new URL(full + r.tail + r.q)];
    if (!r.tail) wants.push(new URL(full + '/' + r.q));
    const texts = wants.map((u) => u.href.slice(u.origin.length));
    if (e.up !== up) fail(`${what}: another upstream was asked`, 'other-upstream');
    if (!texts.includes(e.url)) fail(`${what}: the upstream was asked for ${e.url} instead of ${texts[0]}`, 'url');
    if (e.method !== r.m) fail(`${what}: the method is ${e.method} at the upstream`, 'method');
    if (!e.body.equals(body ?? Buffer.alloc(0))) fail(`${what}: the body at the upstream is ${J(e.body.toString('latin1').slice(0, 200))} (${e.body.length}) instead of ${J((body ?? Buffer.alloc(0)).toString('latin1').slice(0, 200))} (${body?.length ?? 0})`, 'body');
    likeHeaders(what, 'at the upstream', sent, e.raw);
    const host = e.raw.filter(([n]) => n === 'host').map((y) => y[1]);
    if (J(host) !== J([`127.0.0.1:${x.port(up)}`])) fail(`${what}: the host at the upstream is ${J(host)}`, 'host');
    if (r.a.f) return;
    if (a.status !== r.a.s) fail(`${what}: the status is ${a.status} instead of ${r.a.s}`, 'status');
    const want = r.m === 'HEAD' || [204, 304].includes(r.a.s) ? Buffer.alloc(0) : toBytes(r.a.b);
    if (!a.body.equals(want)) fail(`${what}: the answer is ${J(a.body.toString('latin1').slice(0, 200))} (${a.body.length}) instead of ${J(want.toString('latin1').slice(0, 200))} (${want.length})`, 'answer');
    const answered = r.a.h.map((i) => ANS_HEADERS[i]);
    if (r.a.t !== null) answered.push(['content-type', r.a.t]);
    likeHeaders(what, 'of the answer', answered, a.raw);
};
const quietOut = (env, id) => { if (env.log.get(id).length) env.answers.delete(id); };
const likeHeaders = (what, where, sent, got) => {
    for (const name of new Set(sent.map((y) => y[0]))) {
        const w = sent.filter((y) => y[0] === name).map((y) => y[1]);
        const g = got.filter((y) => y[0] === name).map((y) => y[1]);
        if (w.join(', ') !== g.join(', ')) fail(`${what}: the header ${name} ${where} is ${J(g)} instead of ${J(w)}`, 'header');
    }
    if (where === 'of the answer') for (const [n] of got) if (n === 'set-cookie' && !sent.some((y) => y[0] === n)) fail(`${what}: a cookie nobody set`, 'cookie');
};
