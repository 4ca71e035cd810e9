import { fail } from '../engine.mjs';
import { open, noErrors, str, json, toJs, fromJs, same, cmpStr, J } from './hostprop.mjs';

const METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'CONNECT', 'OPTIONS', 'TRACE', 'PATCH'];
const URLS = ['/', '/api', '/api/a b', '/api?x=1&y=ż#h', 'http://other.test/z', 'https://app.test:8080/q?%41=%zz', '', '?q', 'rel/path', '//host.test/x', '/żółw/漢', '/😀', 'http://', 'http://[', 'http://u:p@h.test/', '/' + 'u'.repeat(300)];
const NAMES = ['x-a', 'X-B', 'Accept', 'content-type', 'Content-Type', 'X-Żółw', 'bad name', '', 'x_y', 'authorization', 'constructor', 'toString', "x!#$%&'*+-.^_`|~9"];
const VALUES = ['', 'v', 'application/json', 'text/html; charset=x', 'a, b', 'Bearer t', 'caf\u00e9', 'ż', 'line\nbreak', 'tab\there', '"q"', 'x'.repeat(200), '漢'];
const TYPES = [null, '', 'application/json', 'application/json', 'application/json; charset=utf-8', 'Application/JSON ;x=y', 'text/plain', 'text/plain;charset=UTF-8', 'TEXT/PLAIN', 'text/html', 'application/problem+json', 'application/octet-stream', 'image/png', ';', 'text/plain2', 'application/jsonp'];
const STATUS = [200, 200, 200, 200, 201, 202, 206, 299, 301, 304, 400, 401, 403, 404, 404, 418, 500, 502, 503, 599];
export const builder = (s) => {
    const method = s.weighted([[4, 'GET'], [4, 'POST'], [3, s.pick(METHODS)]]);
    const names = new Map();
    for (const n of s.list(0, 3, () => s.pick(NAMES), 0.7)) names.set(n.toLowerCase(), n);
    const headers = s.bool(0.5) ? [...names.values()].map((n) => [n, s.weighted([[4, () => s.pick(VALUES)], [1, () => str(s)]])()]) : null;
    const body = s.weighted([[method === 'GET' || method === 'HEAD' ? 20 : 2, () => null], [1, () => ['t', str(s)]], [1, () => ['x', Uint8Array.from(s.list(0, 30, () => s.draw(256), 6))]], [2, () => ['j', json(s)]], [1, () => ['js', str(s)]]])();
    return [method, s.weighted([[4, () => s.pick(URLS)], [1, () => '/' + str(s)]])(), headers, body, null, s.draw(3), s.bool(0.15) && !names.has('authorization') ? s.pick(['t', 'a.b-c', 'x y', 'ż']) : null];
};
export const answer = (s) => {
    if (s.bool(0.15)) return ['fail', str(s)];
    const type = s.pick(TYPES), json_ = type && /^application\/json *(;|$)/i.test(type);
    const bytes = s.weighted([
        [json_ ? 6 : 1, () => new TextEncoder().encode(JSON.stringify(toJs(s.weighted([[3, () => json(s)], [1, () => ['l', s.list(0, 5, () => ({ f: s.int(-5, 1000) }))]], [1, () => ['o', [['a', { f: 1 }], ['żółw', { f: s.int(-9, 9) }]]]]])())))],
        [json_ ? 1 : 0.2, () => new TextEncoder().encode(s.pick(['', '{', '[1,', 'nul', 'NaN', "{'a':1}", '1 2', '[1e999]', '{"a":1,"a":2}', '{"__proto__":{"x":1}}', '-0', ' 5 ', '\ufeff7', '"\\ud800"', '[[[[[[[[1]]]]]]]]', '9007199254740993', '[' + '1,'.repeat(300) + '1]']))],
        [json_ ? 0.2 : 3, () => new TextEncoder().encode(str(s))],
        [json_ ? 0.2 : 2, () => Uint8Array.from(s.list(0, 400, () => s.draw(256), 10))],
        [0.3, () => new Uint8Array(s.int(1000, 200000)).fill(s.int(32, 126))],
    ])();
    return ['ok', s.pick(STATUS), type, bytes, s.bool(0.05)];
};
/** what must be sent, or null if the browser refuses the request */
const expected = (b) => {
    const [method, url, headers, body, , , bearer] = b;
    let h;
    try {
        h = new Headers();
        for (const [k, v] of headers ?? []) h.set(k, v);
        if (bearer !== null && bearer !== undefined) h.set('Authorization', 'Bearer ' + bearer);
    } catch { return null; }
    if (['CONNECT', 'TRACE'].includes(method)) return null;
    if (body && (method === 'GET' || method === 'HEAD')) return null;
    try { const u = new URL(url, 'http://app.test/'); if (u.username) return null; } catch { return null; }
    const type = !body ? null : body[0] === 't' ? 'text/plain; charset=utf-8' : body[0] === 'x' ? 'application/octet-stream' : 'application/json; charset=utf-8';
    if (type && !h.has('content-type')) h.set('content-type', type);
    return { method, url, headers: [...h].sort((x, y) => cmpStr(x[0], y[0])), body };
};
const sentBody = (want, got, what) => {
    if (!want) { if (got !== undefined && got !== null) fail(`${what}: a body is sent: ${J(got)}`, 'body'); return; }
    if (want[0] === 't') { if (got !== want[1]) fail(`${what}: the body ${J(got)} is sent instead of ${J(want[1])}`, 'body'); return; }
    if (want[0] === 'x') { if (!(got instanceof Uint8Array) || !same(want[1], got)) fail(`${what}: the body ${J(got)} is sent instead of ${J(want[1])}`, 'body'); return; }
    let v;
    try { if (typeof got !== 'string') throw Error('not a text'); v = JSON.parse(got); } catch (e) { fail(`${what}: the body ${J(got)} is not JSON (${e.message})`, 'json-body'); }
    const j = want[0] === 'js' ? want[1] : want[1];
    if (!same(fromJs(v), j)) fail(`${what}: the JSON body ${J(got)} is sent instead of ${J(j)}`, 'json-body');
};
/** the outcome the program must get: [status, "ok", value] or [null, "err"] */
export const outcome = (a, how) => {
    if (!a || a[0] === 'fail' || a[4]) return ['err', null, a && a[0] === 'ok' ? null : null];
    const [, status, type, bytes] = a;
    const t = (type ?? '').trim() === '' ? '' : type.split(';')[0].toLowerCase().trim();
    let body;
    if (t === 'application/json') {
        let v;
        try { v = JSON.parse(new TextDecoder().decode(bytes)); } catch { return ['err', null]; }
        body = ['j', fromJs(JSON.parse(JSON.stringify(v), (k, x) => x) === v ? v : v)];
    } else if (t === 'text/plain') body = ['t', new TextDecoder().decode(bytes)];
    else body = ['x', bytes];
    if (how === 0) return ['ok', status, [status, body]];
    if (how === 4) return ['err', status];
    if (how === 3 && status !== 200) return ['err', status];
    if (body[0] !== 'j') return ['err', status];
    const v = body[1];
    if (how === 2) return typeof v === 'string' ? ['ok', status, v] : ['err', status];
    const int = (x) => x && typeof x === 'object' && !Array.isArray(x) && Number.isInteger(x.f) && Math.abs(x.f) < 2147483648 || (x && x.f === -2147483648);
    if (how === 1) {
        if (!Array.isArray(v) || v[0] !== 'l') return ['err', status];
        if (v[1].every(int)) return ['ok', status, v[1].map((x) => x.f | 0)];
        return ['err', status];
    }
    if (!Array.isArray(v) || v[0] !== 'o') return ['err', status];
    if (v[1].every(([, x]) => int(x))) return ['ok', status, v[1].map(([k, x]) => [k, x.f | 0])];
    return ['err', status];
};
const wf = (x) => (typeof x === 'string' ? x.isWellFormed() : Array.isArray(x) ? x.every(wf) : true);
export default {
    id: 'P21', quick: 8000, thorough: 300000,
    rule: 'Up to 6 requests at once with any method, address, headers (valid and not), bodies (text, bytes, JSON of every kind), made by tasks and from within answers, answered in any order with any status, content type and content (matching or not, broken off, failing). Every request that reaches the browser is compared with the one described, and every outcome the program gets - raw, typed as list, string or map, or as error - with the answer. Non-trivial = a request with body or headers and an answer that is a success.',
    assumptions: ['header names that differ only in case are not used twice in one request', 'numbers in JSON bodies are finite', 'JSON nesting is below a few hundred levels'],
    generate: (s) => {
        const reqs = s.list(1, 6, () => ({ b: builder(s), how: s.weighted([[4, 0], [1, 1], [1, 2], [1, 3], [1, 4]]), a: answer(s) }), 2.5);
        return { ts: s.bool(0.3), chain: s.bool(0.3), reqs, order: s.shuffle(reqs.map((_, i) => i)), late: s.bool(0.3) };
    },
    run: async (c, env) => {
        const b = await open(c, env);
        let ok = 0, rich = 0, refused = 0, answered = 0;
        try {
            c = { ...c, reqs: c.reqs.map((r, i) => (i ? { ...r, b: [r.b[0], r.b[1] + '#' + i, ...r.b.slice(2)] } : r)) }; // each can be told apart
            const step = (i) => ['fetch', i, c.reqs[i].b, c.reqs[i].how];
            const ops = [];
            // one task each, or some requests made one after another by one task
            if (c.chain && c.reqs.length > 2) { ops.push(['task', 1, [step(0), step(1)]]); for (let i = 2; i < c.reqs.length; i++) ops.push(['task', i, [step(i)]]); }
            else for (let i = 0; i < c.reqs.length; i++) ops.push(['task', i, [step(i)]]);
            const started = new Set(c.reqs.map((_, i) => i));
            const chained = c.chain && c.reqs.length > 2;
            if (chained) started.delete(1);
            const got = new Map();
            const sent = new Map();
            let seen = 0;
            const expectResp = [];
            const read = (what) => {
                b.check();
                const log = b.exec(['log']).filter((e) => e[0] === 'resp');
                if (chained && log.some((e) => e[1] === 0)) started.add(1);
                for (; seen < b.fetches.length; seen++) {
                    const f = b.fetches[seen];
                    // the request of the program this one is for: the first not yet sent with this description
                    const i = [...started].find((i) => { const e = expected(c.reqs[i].b); return !sent.has(i) && e && e.url === f.url && e.method === f.method && J(e.headers) === J(Object.entries(f.headers).sort((x, y) => cmpStr(x[0], y[0]))) && (() => { try { sentBody(e.body, f.body, ''); return true; } catch { return false; } })(); });
                    if (i === undefined) {
                        const rest = [...started].filter((i) => !sent.has(i)).map((i) => expected(c.reqs[i].b)).filter(Boolean);
                        if (rest.length === 1) sentBody(rest[0].body, f.body, what);
                        fail(`${what}: the browser is asked for ${J({ ...f, headers: Object.entries(f.headers) })}, the program asks for ${J(rest)}`, 'request');
                    }
                    sent.set(i, f);
                }
                for (const e of log) {
                    const i = e[1];
                    if (got.has(i)) fail(`${what}: the request ${i} has a second outcome ${J(e)}`, 'twice');
                    const f = sent.get(i);
                    if (expected(c.reqs[i].b) && !f?.done) fail(`${what}: the request ${i} has the outcome ${J(e)} before its answer`, 'early');
                    got.set(i, e);
                }
                for (const i of started) {
                    const e = expected(c.reqs[i].b);
                    if (e && !sent.has(i)) fail(`${what}: the request ${J(c.reqs[i].b)} was not made`, 'not-made');
                    if ((!e || sent.get(i).done) && !got.has(i)) fail(`${what}: the program gets no outcome of the request ${J(c.reqs[i].b).slice(0, 500)}${e ? ' answered with ' + J(c.reqs[i].a).slice(0, 500) : ', which the browser refuses'}`, 'no-outcome');
                    if (!got.has(i)) continue;
                    const g = got.get(i), { a, how } = c.reqs[i];
                    const w = outcome(e ? a : null, how);
                    const text = `${what}: the answer ${J(e ? a : 'refused').slice(0, 400)} (converted by ${how})`;
                    if (g[3][0] !== w[0]) fail(`${text} gives ${J(g).slice(0, 600)}`, 'outcome');
                    if (w[1] !== g[2] && !(w[1] === null && g[2] === null)) fail(`${text} gives the status ${J(g[2])}`, 'status');
                    if (w[0] === 'ok' && wf(w[2]) && !same(w[2], g[3][1])) fail(`${text} gives ${J(g[3][1]).slice(0, 500)}`, 'value');
                    if (g[3][0] === 'err' && !g[3][1]) fail(`${text} gives an error without a message`, 'message');
                    if (how === 4 && w[1] !== null && !g[3][1].includes(String(w[1]))) fail(`${text}: the error message ${g[3][1]} lacks the status`, 'message');
                }
            };
            // the conversion of a request refused at once comes with the transaction it belongs to
            b.exec(['rx', c.late ? [['tx', ops]] : ops]);
            for (let n = 0; n < 2; n++) { await b.advance(0); await b.settle(); }
            read('start');
            for (const i of [...c.order, ...c.order]) {
                const f = sent.get(i);
                if (!f || f.done) continue;
                const a = c.reqs[i].a;
                if (a[0] === 'fail') b.failFetch(f, a[1]); else b.respond(f, { status: a[1], type: a[2], body: a[3], broken: a[4] });
                answered++;
                await b.advance(0);
                await b.advance(0);
                read(`after the answer to ${i}`);
            }
            for (const [i, r] of c.reqs.entries()) {
                if (!expected(r.b)) refused++;
                if (got.get(i)?.[3][0] === 'ok') { ok++; if (r.b[2]?.length || r.b[3]) rich++; }
            }
            await b.advance(1000);
            read('at the end');
            if (got.size !== c.reqs.length) fail(`${got.size} outcomes for ${c.reqs.length} requests`, 'no-outcome');
            const left = b.exec(['toks']).filter((t) => t[0] === 'task');
            if (left.length) fail(`the tasks ${J(left)} did not end`, 'task');
        } finally { b.close(); }
        return { nontrivial: rich > 0 && ok > 0, classes: [c.ts ? 'ts' : 'bundle', refused ? 'refused' : 'accepted', ok ? 'success' : 'error', ...c.reqs.map((r) => 'how' + r.how), ...c.reqs.map((r) => r.b[0])] };
    },
};
