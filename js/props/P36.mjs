// What a program does again and again leaves nothing behind: neither in the program nor in the runtime nor in the browser.
import { fail } from '../engine.mjs';
import { open, noErrors, str, json, J } from './hostprop.mjs';
import { genProgram } from './rxmodel.mjs';
import { cacheOp, cacheUse } from './P22.mjs';
import { ws } from './P25.mjs';
import { builder, answer } from './P21.mjs';

const K = 4, SLOTS = 7;
const ms = (s) => s.pick([0, 0, 1, 2, 5, 10, 100, 999, 1000, 5000]);
const timed = (s, d) => s.weighted([
    [3, () => ['task', -1, steps(s, d - 1)]],
    [2, () => ['int', s.draw(K), ms(s), d > 0 ? s.list(0, 2, () => timed(s, d - 1), 0.5) : [], s.pick([1, 1, 2]), -1]],
    [1, () => ['intdrop', s.draw(K), s.draw(2)]],
    [1.5, () => ['fb', s.draw(K)]], [2, () => ['publish', s.draw(K), s.int(-5, 100)]],
    [1, () => ['wake', s.draw(K), s.draw(2)]],
])();
let ids = 0;
const steps = (s, d) => s.list(0, 4, () => s.weighted([
    [4, () => ['sleep', ms(s), 0]], [1, () => ['yield', s.int(0, 5), 0]], [1, () => [s.pick(['both', 'first']), ms(s), ms(s), 0]], [1, () => ['keep', s.draw(K)]], [1.5, () => ['await', s.draw(K)]],
    [3, () => ['fetch', ids++, builder(s), s.draw(5)]],
    [1, () => ['ops', [any(s, d)]]], ...(d > 0 ? [[1, () => ['spawn', -1, steps(s, d - 1)]]] : []),
])(), 2);
const route = (s, hash) => {
    const k = s.draw(3), text = () => s.pick(hash ? ['a', 'b/c', 'ż', ''] : ['/a', '/b?c', '/ż', '/']);
    return s.weighted([[2, () => ['router', k, hash ? 0 : s.int(1, 2)]], [2, () => ['rtsub', k, s.draw(4)]], [1, () => ['rtget', k]], [2, () => ['rtset', k, text(), s.draw(2)]], [1, () => ['rtunsub', s.draw(4)]], [1, () => ['rtdrop', k]], [0.5, () => ['rtchg', k, 'x']]])();
};
const cookie = (s) => s.weighted([[2, () => ['cset', s.pick(['a', 'b c', 'ż']), str(s), s.pick([0, 1, 3600])]], [1, () => ['cget', s.pick(['a', 'b c', 'zz'])]], [1, () => ['csetj', 'j', json(s), 60]], [1, () => ['cgetj', s.pick(['j', 'a'])]]])();
const js = (s) => ['js', s.pick(['window', 'document', 'missing']), [...s.list(0, 2, () => s.weighted([[2, () => ['get', s.pick(['location', 'href', 'vpx', 'length'])]], [1, () => ['set', 'vpx', s.pick([['str', 'żółw'], ['u32', 7], ['vec', Uint8Array.from([1, 2, 255])], ['list', [['null'], ['str', 'x']]], ['json', ['l', ['a', { f: 1 }]]], ['obj', [['k', ['i64', -5]]]]])]], [1, () => ['call', s.pick(['decodeURIComponent', 'missing', 'String']), [['str', s.pick(['%41', '%', 'x'])]]]], ])(), 1), s.pick([['get', 'length'], ['get', 'vpx'], ['call', 'String', [['str', 'żółw']]], ['call', 'missing', []], ['props', ['length', 'vpx']]])]];
const node = (s, d) => ['e', s.pick(['div', 'p', 'svg']), [
    ...(s.bool(0.3) ? [['on', s.pick(['click', 'input', 'keydown', 'hook_keydown', 'drop']), 1, [], 0, null]] : []), ...(s.bool(0.3) ? [['vs', 'title', s.draw(2)]] : []), ...(s.bool(0.2) ? [['css', [['dyn', s.pick(['color: red', 'color: blue'])]]]] : []), ...(s.bool(0.2) ? [['sus', 0]] : []),
], s.list(0, 3, () => s.weighted([[2, () => ['t', ['x'], 0]], [2, () => ['tvs', s.draw(2), 0]], [1, () => ['lazy', s.draw(3), s.draw(3), ['t', ['y'], 0]]], ...(d > 0 ? [[2, () => node(s, d - 1)]] : [])])(), 1.5), 0];
/** sockets get an address */
const address = (o) => (o[0] !== 'ws' ? o : ['ws', o[1], `ws://h.test/${o[1]}`, o[3].map((l) => l.map(address)), o[4]]);
const any = (s, d = 1) => s.weighted([
    [3, () => timed(s, d)], [1, () => cacheOp(s)], [3, () => cacheUse(s)], [1.5, () => address(ws(s))], [0.7, () => ['wssend', s.draw(3), str(s)]], [0.7, () => ['wsdrop', s.draw(3), s.draw(2)]],
    [0.7, () => cookie(s)], [1, () => js(s)], [0.5, () => s.pick([['now'], ['inst', 0], ['instq', 0, 5], ['rand', 1, 9, 3], ['env', 'x'], ['isb'], ['print', 2, 'text'], ['show', 0, 'now', ''], ['show', 1, 'route', '']])],
    ...(d > 0 ? [[0.7, () => ['tx', s.list(1, 4, () => any(s, 0), 2)]]] : []),
])();
/** what happens around the program */
const outside = (s) => s.weighted([
    [3, () => ['wait', ms(s)]], [3, () => ['answer', s.draw(8), answer(s)]], [2, () => ['open', s.draw(8)]], [2, () => ['msg', s.draw(8), str(s)]], [0.7, () => ['close', s.draw(8)]], [0.7, () => ['fail', s.draw(8)]], [0.3, () => ['back']],
])();
const RX = { w: { get: 4, sub: 6, suba: 2, set: 10, tx: 6, drop: 3, unsub: 3, clone: 2, conn: 2, emit: 2, automap: 2, mapget: 4, hook: 1.5 }, body: 0.3, inner: 0.7, preConn: true };
/** every handle is given back */
const CLEAN = [
    ...Array.from({ length: K }, (_, k) => [['intdrop', k, 0], ['publish', k, 1], ['lzunsub', k], ['lzdrop', k], ['rtunsub', k], ['rtdrop', k], ['wsdrop', k, 0], ['rm', k], ['unsub', k], ['unhook', k], ['dropmap', k], ['wake', k, 1]]).flat(),
    ...Array.from({ length: SLOTS }, (_, k) => ['drop', k]),
];
/** sizes of all tables that can be reached from the interface of the runtime */
const tables = (b) => {
    const seen = new Set(), out = new Map();
    const put = (path, n) => out.set(path, (out.get(path) ?? 0) + n);
    const go = (v, path, depth) => {
        if (v === null || (typeof v !== 'object' && typeof v !== 'function') || seen.has(v) || v === b.window || v === b.document || v === b.inst || v === b.globals || depth > 12) return;
        seen.add(v);
        const tag = Object.prototype.toString.call(v);
        if (/^\[object (WebAssembly|Memory|Instance|Module|Promise|ArrayBuffer|Uint|Int|Float|BigInt|DataView)/.test(tag) || ArrayBuffer.isView(v) || 'nodeType' in v || 'childNodes' in v) return;
        if (tag === '[object Map]') { put(path, v.size); for (const [k, x] of v) { go(k, path + '.key', depth + 1); go(x, path + '.value', depth + 1); } } else if (tag === '[object Set]') { put(path, v.size); for (const x of v) go(x, path + '.value', depth + 1); } else if (Array.isArray(v)) { put(path, v.length); for (const x of v) go(x, path + '.value', depth + 1); } else if (typeof v === 'object') put(path, Object.keys(v).length);
        if (!Array.isArray(v)) for (const k of Object.keys(v)) { const d = Object.getOwnPropertyDescriptor(v, k); if (d && 'value' in d) go(d.value, Array.isArray(v) ? path : `${path}.${/^[0-9]+$/.test(k) ? '#' : k}`, depth + 1); }
    };
    go(b.api, 'api', 0);
    return out;
};
const WARM = 6, CYCLES = 24;
export default {
    id: 'P36', quick: 3000, thorough: 100000,
    rule: 'A random program of up to 16 operations with timers, tasks, requests, cached remote values, routers, sockets, cookies, JavaScript access, nodes outside of the page and a reactive graph, with answers, messages, failures and time in between, ends with all its handles given back and everything answered; then no captured value, timer, socket or listener is left. It is repeated 30 times: the memory of the program and every table of the runtime keep their sizes. Non-trivial = at least 3 operations besides the reactive graph.',
    assumptions: ['growth is measured over 24 repetitions after 6, in blocks and bytes of the program allocator; less than one block per two repetitions is taken for growth of tables, as are bytes that do not grow further when the repetitions are doubled'],
    generate: (s) => {
        const hash = s.draw(2), rx = s.bool(0.4) ? genProgram(s, { ...RX, max: 12, mean: 5 }) : [];
        return {
            ts: s.bool(0.3), hash, ops: [
                ...rx.map((o) => ['p', o]),
                ...s.list(1, 16, () => s.weighted([
                    [5, () => ['p', any(s)]], [1, () => ['p', route(s, hash)]], [0.7, () => ['p', s.bool(0.7) ? ['mk', s.draw(K), node(s, 2)] : ['rm', s.draw(K)]]], [0.5, () => ['p', ['sset', s.draw(2), str(s)]]], [5, () => outside(s)],
                ])(), 8),
            ],
        };
    },
    run: async (c, env) => {
        const b = await open(c, env);
        try {
            const fetches = () => b.fetches.filter((f) => !f.done), sockets = (l) => b.sockets.filter((x) => l.includes(x.readyState));
            const count = () => { let n = 0; for (const m of [b.window, b.document]) for (const v of m.listeners?.values?.() ?? []) n += v.length ?? v.size ?? 1; return n; };
            const reply = (f, a) => { if (a[0] === 'fail') b.failFetch(f, a[1]); else b.respond(f, { status: a[1], type: a[2] && /[^\x20-\x7e]/.test(a[2]) ? null : a[2], body: a[3], broken: a[4] }); };
            const once = async () => {
                for (const o of c.ops) {
                    if (o[0] === 'p') b.exec(['rx', [o[1]]]);
                    else if (o[0] === 'wait') await b.advance(o[1]);
                    else if (o[0] === 'answer') { const l = fetches(); if (l.length) { reply(l[o[1] % l.length], o[2]); await b.settle(); } } else if (o[0] === 'back') { b.history.back(); await b.settle(); } else {
                        const l = sockets(o[0] === 'open' ? [0] : o[0] === 'msg' ? [1] : [0, 1]), x = l[o[1] % l.length];
                        if (x) { if (o[0] === 'open') b.wsOpen(x); else if (o[0] === 'msg') b.wsMessage(x, o[2]); else if (o[0] === 'close') b.wsClose(x); else b.wsFail(x); await b.settle(); }
                    }
                    b.exec(['log']);
                }
                // everything is given back and answered
                for (let i = 0; ; i++) {
                    b.exec(['rx', CLEAN]);
                    await b.settle();
                    for (const f of fetches()) b.respond(f, { status: 404, type: 'text/plain', body: 'none' });
                    await b.advance(6000);
                    for (const x of sockets([2])) b.wsClose(x);
                    await b.settle();
                    b.exec(['log']);
                    if (!fetches().length && !b.timers.size && !b.timers.length && i) break;
                    if (i > 30) fail(`everything is given back and answered, but left are ${fetches().length} requests and the timers ${J([...(b.timers.values?.() ?? b.timers)].slice(0, 3))}`, 'timers');
                }
                b.exec(['rx', CLEAN]);
                b.exec(['log']);
                b.console.length = 0; b.fetches.length = 0;
                b.check();
                if (sockets([0, 1]).length) fail(`all handles are dropped, but a socket to ${sockets([0, 1])[0].url} is open`, 'socket');
                b.sockets.length = 0;
            };
            if (c.look) { await once(); b.memory(); await once(); b.memory(); return b.exec(['log']).length; }
            for (let i = 0; i < WARM; i++) await once();
            const toks = b.exec(['toks']);
            if (toks.length) fail(`all handles are dropped and everything is answered, but what was captured is kept: ${J(toks)}`, 'kept');
            const m0 = b.exec(['mem']), t0 = tables(b), l0 = count();
            for (let i = 0; i < CYCLES; i++) await once();
            const m1 = b.exec(['mem']), t1 = tables(b), l1 = count();
            if (process.env.DBG) console.log(m0, m1, [...t0].map((x) => x.join(' ')).join(', '), l0, l1);
            if (m1[1] - m0[1] >= CYCLES / 2) fail(`${CYCLES} repetitions left ${m1[1] - m0[1]} blocks (${m1[0] - m0[0]} bytes) of the program behind`, 'memory');
            if (m1[0] > m0[0]) {
                // a table which grows once, or one that grows for ever: that one does whenever the number of repetitions doubles
                const sizes = [m0[0], m1[0]];
                let n = WARM + CYCLES;
                for (const end of [64, 130, 262]) { for (; n < end; n++) await once(); sizes.push(b.exec(['mem'])[0]); if (sizes.at(-1) <= sizes.at(-2)) break; }
                if (sizes.length === 5 && sizes[4] > sizes[3]) fail(`the program needs more and more memory: after ${WARM}, ${WARM + CYCLES}, 64, 130, 262 repetitions ${sizes} bytes`, 'bytes');
            }
            for (const [k, n] of t1) if (n - (t0.get(k) ?? 0) >= CYCLES / 2) fail(`${CYCLES} repetitions grew the table ${k} of the runtime from ${t0.get(k) ?? 0} to ${n}`, 'table');
            if (l1 !== l0) fail(`${CYCLES} repetitions changed the listeners of window and document from ${l0} to ${l1}`, 'listeners');
            const kinds = new Set(JSON.stringify(c.ops).match(/"(task|fetch|lz|ws|int|router|mk|js|cset|automap|conn|hook|rtsub|await)"/g) ?? []);
            return { nontrivial: c.ops.filter((o) => o[0] !== 'p').length + kinds.size >= 3, classes: [c.ts ? 'ts' : 'bundle', 'grow' + Math.sign(m1[1] - m0[1]), 'bytes' + Math.sign(m1[0] - m0[0]), ...[...kinds].map((k) => JSON.parse(k))] };
        } finally { b.close(); }
    },
};
