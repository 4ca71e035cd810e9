// Time, zone, random numbers, settings: what programs ask their environment for, in the browser and on the server.
import { fail, makeRng, Src } from '../engine.mjs';
import { parseDocument } from '../html.mjs';
import * as D from '../minidom.mjs';
import { page as serverPage, startServer } from '../ssr.mjs';
import { J, noErrors, open, str } from './hostprop.mjs';

const K = 3;
const U32 = 2 ** 32 - 1;
const NAMES = ['a', 'b', 'port', 'API', 'apiUrl', 'x-y', 'x_y', 'ws.host', 'a1', 'data', 'ż'];
const noNul = (t) => t.replace(/\0/g, '');
const bounds = (s) => s.weighted([
    [4, () => { const a = s.int(0, 10); return [a, a + s.int(0, 6)]; }], [1, () => { const a = s.int(0, 1000); return [a, a + s.int(0, 100000)]; }],
    [1, () => [s.pick([0, 1, 2147483646, 2147483647, 2147483648, U32 - 1]), s.pick([2147483647, 2147483648, 2147483649, U32 - 1, U32])]],
])();
const inOrder = ([a, b]) => (a <= b ? [a, b] : [b, a]);
const browser = (s) => ({
    k: 'browser', ts: s.bool(0.3), tz: s.weighted([[3, s.pick([0, -60, 60, 300, -330, -345, 210, 720, -840])], [1, s.int(-56, 48) * 15]]),
    now: s.weighted([[4, 1700000000000], [1, s.pick([4300000000, 10000000001, 4102444800123, 8640000000000])]]),
    env: s.list(0, 4, () => [s.pick(NAMES), noNul(str(s))], 2),
    ops: s.list(1, 12, () => s.weighted([
        [2, () => ['inst', s.draw(K)]], [3, () => ['instq', s.draw(K), s.pick([0, 0, 1, 500, 999, 1000, 1001, 60000, 86400000])]],
        [3, () => ['wait', s.weighted([[3, () => s.pick([0, 1, 2, 500, 999, 1000, 1001, 60000])], [1, () => s.int(0, 100000)]])()]], [0.7, () => ['back', s.pick([1, 1000, 3600000])]],
        [2, () => ['now']], [2, () => ['rand', ...inOrder(bounds(s)), s.weighted([[4, s.int(1, 6)], [1, 0]]), s.pick([0, 0.25, 0.5, 0.999999, 1 - 2 ** -53, s.int(0, 999) / 1000])]],
        [1.5, () => ['all', s.int(0, 20), s.int(1, 7)]], [1.5, () => ['env', s.weighted([[4, s.pick(NAMES)], [1, 'none']])]], [0.5, () => ['isb']],
    ])(), 7),
});
const service = (s, d = 1) => s.weighted([
    [1, () => ['int', s.draw(K), s.pick([0, 1, 1000]), [], 1, -1]], [0.7, () => ['intdrop', s.draw(K), s.draw(2)]],
    [1, () => ['ws', s.draw(K), 'ws://h/', [[], [], []], 1]], [0.5, () => ['wssend', s.draw(K), str(s)]], [0.5, () => ['wsdrop', s.draw(K), s.draw(2)]],
    [1, () => ['router', s.draw(K), s.draw(3)]], [0.6, () => ['rtset', s.draw(K), s.pick(['x', '/x', '']), s.draw(2)]], [0.5, () => ['rtget', s.draw(K)]], [0.5, () => ['rtsub', s.draw(K), s.draw(4)]], [0.3, () => ['rtdrop', s.draw(K)]],
    [0.5, () => ['back']], [0.5, () => ['replace', s.pick(['/x', '?q'])]],
    [0.7, () => ['cset', s.pick(['a', 'b']), str(s), s.int(0, 100)]], [0.7, () => ['csetj', 'a', ['o', [['x', null]]], 5]], [0.7, () => ['cget', 'a']], [0.7, () => ['cgetj', 'a']],
    [0.7, () => ['js', s.pick(['window', 'document']), s.list(0, 3, () => s.pick([['get', 'a'], ['call', 'f', [['str', 'x'], ['u32', 5]]], ['set', 'p', ['null']], ['props', ['a', 'b']]]), 1)]],
    [0.7, () => ['now']], [0.7, () => ['inst', s.draw(K)]], [0.7, () => ['instq', s.draw(K), s.pick([0, 1, 1000])]], [0.7, () => ['rand', ...inOrder(bounds(s)), s.int(0, 5)]],
    [0.4, () => ['env', s.pick(NAMES)]], [0.4, () => ['isb']], [0.4, () => ['print', s.draw(4), str(s)]],
    ...(d > 0 ? [[1.5, () => ['task', -1, s.list(1, 4, () => s.weighted([[2, () => ['sleep', s.pick([0, 0, 0, 10, 1000]), 1]], [2, () => ['ops', s.list(1, 2, () => service(s, 0), 1)]]])(), 2)]], [0.7, () => ['tx', s.list(1, 3, () => service(s, 0), 2)]]] : []),
])();
const SERVERS = 3;
const server = (s) => ({
    k: 'server', to: s.draw(SERVERS), at: s.pick(['/', '/a/b', '/x%20y']),
    ops: s.list(0, 10, () => service(s), 5),
    shows: s.list(1, 6, () => s.weighted([[1, () => ['now', '']], [0.5, () => ['inst', '']], [1, () => ['tz', '']], [2, () => ['rand', [...inOrder(bounds(s)), s.int(1, 5)]]], [1, () => ['rand', [3, 6, 250]]], [1, () => ['pick', [s.int(0, 5), s.pick([1, 2, 250])]]], [1, () => ['cget', 'a']], [1, () => ['cgetj', 'a']], [1, () => ['env', s.pick(NAMES)]], [1, () => ['isb', '']]])(), 3),
    late: s.bool(0.3),
});
const PAGE = (n) => ['e', 'html', [], [['e', 'head', [], [], 0], ['e', 'body', [], [['e', 'h1', [], [['t', ['hello'], 0]], 0], ...Array.from({ length: n }, (_, i) => ['e', 'p', [['vs', 'title', i]], [], 0])], 0]], 0];
export default {
    id: 'P34', quick: 16000, thorough: 300000,
    rule: 'In the browser: up to 12 operations under a drawn time zone, clock (also set back meanwhile), random source and settings of the served document: current time, kept moments and what is known of them later, random numbers (bounds over the whole range; all values of small ranges) and choices, settings, where the program runs. On the server: programs that use up to 10 services at random (timers, sockets, routers, cookies, direct access, output, tasks, ...) before and while the page is made and show what they are told. Non-trivial = at least three answers compared.',
    assumptions: ['the lower bound is not above the upper one', 'names of settings differ in more than case', 'the clock shows a time after 1970'],
    corpus: [
        { k: 'browser', ts: false, tz: -60, now: 1700000000000, env: [['a', 'x']], ops: [['inst', 0], ['wait', 1500], ['instq', 0, 1000], ['back', 1000], ['instq', 0, 1000], ['back', 3600000], ['instq', 0, 0], ['rand', 0, U32, 0, 0.75], ['env', 'a']] },
        { k: 'server', to: 0, at: '/', ops: [['rand', 1, 6, 3], ['now']], shows: [['rand', [1, 6, 3]], ['tz', ''], ['now', '']], late: false },
    ],
    async prepare({ root }) {
        const src = new Src(makeRng(`${process.env.VERIF_SEED ?? 1}|P34|servers`));
        return { servers: await Promise.all(Array.from({ length: SERVERS }, async (_, i) => {
            const low = new Set();
            const env = src.list(i ? 1 : 0, 5, () => [src.pick(NAMES), noNul(str(src))], 3).filter(([k]) => !low.has(k.toLowerCase()) && low.add(k.toLowerCase()));
            return { env, ...await startServer(root, { args: env.flatMap(([k, v]) => [`--env=${k}=${v}`]) }) };
        })) };
    },
    generate: (s) => s.weighted([[9, () => browser(s)], [1, () => server(s)]])(),
    run: async (c, env) => (c.k === 'browser' ? inBrowser(c, env) : onServer(c, env)),
};
const inBrowser = async (c, env) => {
    let next = 0.5;
    const settings = new Map();
    for (const [k, v] of c.env) if (![...settings.keys()].some((x) => x.toLowerCase() === k.toLowerCase())) settings.set(k, v);
    const b = await open(c, env, { tz: c.tz, now: c.now, random: () => (typeof next === 'function' ? next() : next), setup: (b) => { for (const [k, v] of settings) b.document.documentElement.setAttribute('data-env-' + k, v); } });
    let answers = 0, wide = false;
    const kept = new Map();
    try {
        for (const o of c.ops) {
            const what = J(o);
            const say = (op) => { return b.exec(['rx', [op]]).filter((e) => e[0] === op[0]).pop(); };
            switch (o[0]) {
                case 'wait': await b.advance(o[1]); break;
                case 'back': b.now = Math.max(4295000000, b.now - o[1]); break;
                case 'inst': b.exec(['rx', [o]]); kept.set(o[1], b.now); break;
                case 'instq': {
                    if (!kept.has(o[1])) break;
                    const t = kept.get(o[1]), e = say(o), past = Math.max(0, b.now - t);
                    b.check();
                    const want = ['instq', o[1], t, past, Math.floor(past / 1000), t + o[2], b.now > t + o[2], b.now, t === b.now];
                    // a clock that was set back: time may also be taken to stand still
                    const still = ['instq', o[1], t, past, Math.floor(past / 1000), t + o[2], b.now > t + o[2], e?.[7], t === e?.[7]];
                    if (!(J(norm(e)) === J(norm(want)) || (b.now < Math.max(...kept.values(), 0) && e && e[7] >= b.now && J(norm(e)) === J(norm(still))))) fail(`${what}: ${J(e)} instead of ${J(want)}`, 'instant');
                    answers++;
                    break;
                }
                case 'now': {
                    const e = say(o);
                    if (J(e) !== J(['now', b.now, b.now, -c.tz * 60 + 0])) fail(`${what}: ${J(e)} at ${b.now}, ${c.tz} minutes behind UTC`, 'now');
                    answers++;
                    break;
                }
                case 'rand': {
                    next = o[4];
                    const e = say(o.slice(0, 4));
                    if (!e || e[0] !== 'rand' || !(e[1] >= o[1] && e[1] <= o[2])) fail(`${what}: ${J(e)} is not within the bounds`, 'random');
                    if (o[3] === 0 ? e[2] !== -1 : !(e[2] % 3 === 1 && e[2] < o[3] * 3)) fail(`${what}: ${J(e)} is not a member of the list of ${o[3]}`, 'choice');
                    if (o[2] >= 2 ** 31) wide = true;
                    answers++;
                    break;
                }
                case 'all': {
                    // every number of the range can come
                    const [, min, n] = o, seen = new Set(), chosen = new Set();
                    for (let i = 0; i < n; i++) { next = (i + 0.5) / n; const e = say(['rand', min, min + n - 1, n]); seen.add(e[1]); chosen.add(e[2]); }
                    if (seen.size !== n) fail(`${what}: of ${n} numbers only ${J([...seen])} can come`, 'random-all');
                    if (chosen.size !== n) fail(`${what}: of ${n} members only ${J([...chosen])} can be chosen`, 'choice-all');
                    // ... and also far apart
                    for (const [r, v] of [[0, 0], [1 - 2 ** -53, U32]]) { next = r; const e = say(['rand', 0, U32, 0]); if (e[1] !== v && n === 7) fail(`${what}: the bound ${v} cannot come (${e[1]})`, 'random-all'); }
                    wide = true;
                    answers++;
                    break;
                }
                case 'env': {
                    const e = say(o), v = settings.has(o[1]) ? settings.get(o[1]) : null;
                    if (J(e) !== J(['env', o[1], v])) fail(`${what}: the setting is ${J(e)} instead of ${J(v)}`, 'env');
                    answers++;
                    break;
                }
                default: { const e = say(o); if (J(e) !== J(['isb', true, false]) && J(e) !== J(['isb', 1, 0])) fail(`${what}: ${J(e)} in a browser`, 'where'); }
            }
            b.check();
            noErrors(b, what);
        }
    } finally { b.close(); }
    return { nontrivial: answers >= 3, classes: ['browser', c.ts ? 'ts' : 'bundle', ...(wide ? ['wide'] : []), ...(c.ops.some((o) => o[0] === 'back') ? ['clock-back'] : [])] };
};
const norm = (e) => (Array.isArray(e) ? e.map((x) => (typeof x === 'boolean' ? Number(x) : x)) : e);
const onServer = async (c, env) => {
    const srv = env.extra.servers[c.to % SERVERS];
    const shows = c.shows.map(([k, a], i) => ['show', i, k, a]);
    const setup = c.late ? [...c.ops, ['task', -1, [['sleep', 0, 1], ['ops', shows]]]] : [...c.ops, ...shows];
    const t0 = Date.now();
    const r = await serverPage(srv.port, ['boot', setup, PAGE(shows.length)], c.at);
    const t1 = Date.now();
    if (!r) return { nontrivial: false, classes: ['long'] };
    if (r.status !== 200) fail(`the page is answered with the status ${r.status}: ${r.text.slice(0, 500)}`, 'status');
    const doc = parseDocument(r.text), all = [];
    const go = (n) => { for (const x of n.childNodes) if (x instanceof D.Element_) { all.push(x); go(x); } };
    go(doc);
    if (all.filter((x) => x.localName === 'h1').map((x) => x.textContent).join() !== 'hello') fail(`not the page: ${r.text.slice(0, 500)}`, 'page');
    const got = all.filter((x) => x.localName === 'p').map((x) => x.getAttribute('title'));
    for (const [i, [k, a]] of c.shows.entries()) {
        const v = got[i], bad = (sig) => fail(`the program on the server is told ${k} ${J(a)}: ${J(v)}`, sig), n = Number(v);
        switch (k) {
            case 'now': case 'inst': if (!/^\d+$/.test(v) || n < t0 - 2 || n > t1 + 2) bad('server-now'); break;
            case 'tz': if (!/^-?\d+$/.test(v) || Math.abs(n) > 14 * 3600 || n % 60 !== 0) bad('server-zone'); break;
            case 'rand': {
                const l = v.split(',').map(Number);
                if (l.length !== a[2] || l.some((x) => !Number.isInteger(x) || x < a[0] || x > a[1])) bad('server-random');
                if (a[2] === 250 && new Set(l).size !== a[1] - a[0] + 1) bad('server-random-all');
                break;
            }
            case 'pick': {
                const l = v.split(',');
                if (l.length !== a[1] || l.some((x) => (a[0] === 0 ? x !== 'none' : !(Number(x) % 3 === 1 && Number(x) < a[0] * 3)))) bad('server-choice');
                if (a[1] === 250 && a[0] && new Set(l).size !== a[0]) bad('server-choice-all');
                break;
            }
            case 'cget': if (v !== '=') bad('server-cookie'); break;
            case 'cgetj': if (v !== 'true') bad('server-cookie'); break;
            case 'env': { const e = srv.env.find((x) => x[0] === a); if (v !== (e ? '=' + e[1] : 'none')) bad('server-env'); break; }
            default: if (v !== 'false true') bad('server-where');
        }
    }
    return { nontrivial: shows.length >= 3, classes: ['server', c.late ? 'late' : 'early'] };
};
