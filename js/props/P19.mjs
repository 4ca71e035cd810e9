// What the server answers depends on the request alone.
import http from 'node:http';
import path_ from 'node:path';
import { fail } from '../engine.mjs';
import { makeRng, Src } from '../engine.mjs';
import { letters, request, startServer } from '../ssr.mjs';
import { at, startUpstream } from '../upstream.mjs';
import { J, str } from './hostprop.mjs';
import { Data, Inst } from './page.mjs';
import { likePage, readPage } from './P16.mjs';
import { show } from './P18.mjs';

const enc = new TextEncoder();
const SEGS = ['', 'a', 'robots.txt', '%20', '%C5%BC', '%2F', '%zz'.slice(0, 0), '.', '..', '%2e%2e', 'build', 'buildx', 'x:y@z', "a;b,c=d!$'()*", '~user', 'A-Z_0', '+', '%25', '%00', 'index.html', '*', 'favicon.ico', '-'];
const QUERY = ['x=1', 'x=a%20b', 'p=abc', '?', 'a[]=1'.replace(/[[\]]/g, ''), 'q=%C5%BC', '', '&', '=', 'utm_source=x&utm_medium=y', "'x'", '/', ':@', 'x=%00', '+', '%26'];
const noNul = (t) => t.replace(/\0/g, '');
const ENV_NAMES = ['api', 'API_URL', 'vp.x', 'a', 'x-1', 'VP', 'long-name-of-a-setting', '_', 'constructor', 'Api2'];
const config = (s) => {
    const env = new Map();
    for (let n = s.draw(7); n > 0; n--) env.set(s.pick(ENV_NAMES), noNul(s.weighted([[3, () => str(s)], [1, () => 'http://h.test/a?b=c&d=e'], [1, () => s.pick(['', '=', 'a=b=c', ' x ', '-v', '"', '<&>'])]])()));
    return [...env];
};
const path = (s) => {
    const p = '/' + s.list(0, 4, () => s.pick(SEGS), 1.5).join('/');
    // the mounted folder and addresses that look like another host belong to others
    return /^\/build(\/|$)/.test(p) ? '/x' + p : p;
};
const page = (s) => ({
    k: 'page', path: path(s), more: s.list(0, 3, () => s.pick(QUERY), 0.7),
    shows: s.list(0, 4, () => s.weighted([[3, () => ['env', s.pick(ENV_NAMES)]], [1, () => ['env', noNul(str(s))]], [3, () => ['route', '']], [2, () => ['seq', '']], [1, () => ['isb', '']]])(), 2),
    data: s.list(0, 2, () => [s.draw(3), s.weighted([[3, 0], [2, s.int(1, 30)]]), s.pick(['a', 'b', 'żółw']), s.draw(2)], 0.7),
    at: s.draw(3), // where a crash happens
});
const req = (s) => s.weighted([
    [6, () => page(s)],
    [2, () => ({ ...page(s), k: 'crash', how: s.draw(4), msg: s.pick(['boom', 'x'.repeat(50), 'żółw "q" <b>', 'a: b']) })],
    [2, () => ({ ...page(s), k: 'plain', list: s.list(1, 3, () => [s.weighted([[2, null], [2, s.int(0, 4)], [1, '/nothing']]), s.weighted([[3, () => str(s)], [1, () => 'User-Agent: *\nDisallow: /search'], [0.3, () => 'x'.repeat(s.int(1000, 5000))]])()], 1.5) })],
    [0.7, () => ({ k: 'none', path: path(s), method: s.pick(['GET', 'GET', 'POST', 'PUT', 'HEAD']), q: s.pick(['', '?', '?x=1', '?p=', '?p=zz', '?p=abcdef', '?pp=aa']) })],
    [1, () => ({ ...page(s), k: 'left', ms: s.draw(10) })],
    [1.5, () => ({ k: 'echo', path: path(s), q: s.pick(['', '?']) , more: s.list(0, 3, () => s.pick(QUERY), 1) })],
])();
const SERVERS = 3;
const TINY = 'target/tiny/wasm32-unknown-unknown/debug/vp_tiny.wasm';
export default {
    id: 'P19', quick: 2500, thorough: 60000, hangS: 200,
    rule: 'Rounds of 1-12 requests at once, to servers with random settings: pages that show the address, settings, a running number of the program and data of a slow upstream; plain responses; programs that crash (by panic or trap) at the start, later, after data arrived or inside a transaction; requests without a program; a program that answers with its address; clients that leave. Each answer is compared with what the request alone calls for, and with the bytes answered to the same request at another time. Non-trivial = a crash and a page at the same time.',
    assumptions: ['names of settings differ in more than case'],
    async prepare({ root }) {
        const src = new Src(makeRng(`${process.env.VERIF_SEED ?? 1}|P19|servers`));
        return { echo: await startServer(root, { wasm: path_.join(root, TINY) }), servers: await Promise.all(Array.from({ length: SERVERS }, async (_, i) => { let env = i === 0 ? [] : config(src); const low = new Set(); env = env.filter(([k]) => !low.has(k.toLowerCase()) && low.add(k.toLowerCase())); return { env, ...await startServer(root, { args: env.flatMap(([k, v]) => [`--env=${k}=${v}`]) }) }; })) };
    },
    async init(env) { env.up = await startUpstream(); env.pages = 0; env.known = new Map(); },
    async close(env) { await env.up.close(); },
    generate: (s, tier) => {
        const rounds = s.list(1, 3, () => s.list(1, tier === 'thorough' && s.bool(0.05) ? 40 : 12, () => [s.draw(SERVERS), req(s)], 4), 1.5);
        return { rounds, again: s.bool(0.4), never: s.bool(0.002) };
    },
    run: async (c, env) => {
        const classes = new Set();
        const id = 's' + (env.pages++).toString(36);
        let mixed = false;
        if (c.never) c = { ...c, rounds: [...c.rounds, [[0, { k: 'page', path: '/slow', more: [], shows: [], data: [[0, 0, 'a', 3]], at: 0 }], ...c.rounds[0]]] };
        const rounds = c.again ? [...c.rounds, c.rounds[0]] : c.rounds;
        for (const [n, round] of rounds.entries()) {
            const kinds = round.map((x) => x[1].k);
            if (kinds.includes('crash') && kinds.includes('page')) mixed = true;
            await Promise.all(round.map(async ([si, r], i) => {
                classes.add(r.k);
                const server = env.extra.servers[si % SERVERS];
                await one(r, server, env, id, `round ${n}, request ${i} of ${round.length} (${J(r).slice(0, 600)})`);
            }));
        }
        env.up.forget(id);
        if (c.never) classes.add('never');
        return { nontrivial: mixed, classes: [...classes], evaluations: 1 };
    },
};
const one = async (r, server, env, id, what) => {
    if (r.k === 'none') {
        const a = await request(server.port, { path: r.path + r.q, method: r.method });
        if (a.error) fail(`${what}: no answer: ${a.error}`, 'no-answer');
        if (a.status !== 500) fail(`${what}: a program that fails is answered with the status ${a.status}`, 'crash-status');
        return;
    }
    if (r.k === 'echo') {
        // a program that answers with the address it was told
        const p = r.path + (r.more.length ? '?' + r.more.join('&') : r.q);
        const a = await request(env.extra.echo.port, { path: p });
        if (a.error) fail(`${what}: no answer: ${a.error}`, 'no-answer');
        if (a.status !== 200 || a.body.toString() !== 'vp-tiny:' + p) fail(`${what}: the program was not told its address ${J(p)}: ${a.status} ${J(a.body.toString().slice(0, 300))}`, 'address');
        return;
    }
    // the program
    const setup = [], root = [];
    const data = new Data();
    let slot = 0;
    const say = (text, title = true) => { root.push(['e', 'p', title ? [['vs', 'title', slot]] : [], [['tvs', slot, 0]], 0]); data.strs[slot] = text; return slot++; };
    let seq = 0, never = false;
    const route = { slots: [] };
    for (const [k, name] of r.shows) {
        const i = say(k === 'seq' ? String(++seq) : k === 'isb' ? 'false true' : '');
        setup.push(['show', i, k, name]);
        if (k === 'route') route.slots.push(i);
        if (k === 'env') { const v = server.env.find((x) => x[0] === name); data.strs[i] = v ? '=' + v[1] : 'none'; }
    }
    const panic = r.k !== 'crash' ? null : r.how === 3 ? ['tx', [['trap']]] : r.how === 2 ? ['trap'] : r.how === 1 ? ['tx', [['panic', r.msg]]] : ['panic', r.msg];
    const steps = [];
    for (const [t, d, b, f] of r.data) {
        const i = say('', f !== 1);
        const spec = { s: 200, t: ['text/plain', 'application/json', null][t], b: enc.encode(t === 1 ? JSON.stringify(b) : b), d, f };
        const url = at(env.up.port, id, spec);
        steps.push(['fetch', i, ['GET', url, null, null, null, 0, null], 0, i]);
        if (f === 3) never = true; else data.strs[i] = show(f === 1 ? ['fail'] : ['ok', 200, spec.t, spec.b, false], 0);
        if (r.at === 2) setup.push(['task', i, [steps.pop()]]);
    }
    if (r.k === 'left') steps.push(['fetch', 900, ['GET', at(env.up.port, id, { s: 200, t: null, b: enc.encode('x'), d: 15, f: 0 }), null, null, null, 0, null], 0, say('')]);
    if (panic && r.at > 0) steps.push(['sleep', 0, 0], ['ops', [panic]]);
    if (steps.length) setup.push(['task', 99, steps]);
    if (panic && r.at === 0) setup.push(panic);
    const tail = r.more.map((x) => '&' + x).join('');
    if (r.k === 'plain') {
        const list = r.list.map(([how, body]) => [how === null ? '' : typeof how === 'string' ? how : r.path.slice(0, how), body]);
        setup.unshift(['plain', list]);
    }
    const boot = ['boot', setup, ['e', 'html', [], [['e', 'head', [], [], 0], ['e', 'body', [], root, 0]], 0]];
    const address = `${r.path}?p=${letters(boot)}${tail}`;
    if (address.length > 60000) return;
    for (const i of route.slots) data.strs[i] = address;
    if (r.k === 'left') {
        await new Promise((ok) => {
            const q = http.request({ host: '127.0.0.1', port: server.port, path: address, agent: false }, (res) => { res.resume(); res.on('close', ok); res.on('error', ok); });
            q.on('error', ok);
            q.end();
            setTimeout(() => { q.destroy(); ok(); }, r.ms);
        });
        return;
    }
    const a = await request(server.port, { path: address });
    if (a.error) fail(`${what}: no answer: ${a.error}`, 'no-answer');
    a.text = a.body.toString('utf8');
    if (r.k === 'crash') {
        if (a.status !== 500) fail(`${what}: a program that crashed is answered with the status ${a.status}`, 'crash-status');
        if (r.how < 2 && !a.text.includes(r.msg)) fail(`${what}: the answer to a crash (${J(a.text.slice(0, 200))}) lacks the message`, 'crash-message');
        return;
    }
    if (r.k === 'plain') {
        const list = setup[0][1];
        const hit = list.find((x) => address.startsWith(x[0]));
        if (hit) {
            if (a.status !== 200) fail(`${what}: the plain response has the status ${a.status}`, 'plain-status');
            if (a.headers['content-type'] !== 'text/plain') fail(`${what}: the plain response has the type ${a.headers['content-type']}`, 'plain-type');
            if (a.text !== hit[1] || !a.body.equals(Buffer.from(hit[1]))) fail(`${what}: the plain response is ${J(a.text).slice(0, 300)} instead of ${J(hit[1]).slice(0, 300)}`, 'plain-body');
            return;
        }
    }
    try { likePage(readPage(a, server.env), new Inst(boot[2], [], data, null), data); } catch (e) { e.message = `${what}: ${e.message}`; throw e; }
    // the same request is answered with the same bytes (the addresses of the upstream contain the number of the case)
    const key = server.port + address;
    const seen = env.known.get(key);
    if (seen !== undefined && seen !== a.text) fail(`${what}: the same request is answered differently: ${J(seen).slice(0, 1000)} and ${J(a.text).slice(0, 1000)}`, 'differs');
    if (env.known.size > 200) env.known.clear();
    env.known.set(key, a.text);
};
