// No function of a program, whenever the framework calls it, finds memory that was released.
import { fail, Violation } from '../engine.mjs';
import { open, J } from './hostprop.mjs';
import { genProgram, simulate } from './rxmodel.mjs';
import { last, misuse } from '../bare.mjs';
import P04 from './P04.mjs';
import P05 from './P05.mjs';
import P06 from './P06.mjs';
import P09 from './P09.mjs';
import P11 from './P11.mjs';
import P12 from './P12.mjs';
import P14 from './P14.mjs';
import P15 from './P15.mjs';
import P21 from './P21.mjs';
import P22 from './P22.mjs';
import P23 from './P23.mjs';
import P24 from './P24.mjs';
import P25 from './P25.mjs';
import P26 from './P26.mjs';
import P27 from './P27.mjs';
import P36 from './P36.mjs';
import P37 from './P37.mjs';
import { Event_ } from '../minidom.mjs';

const IDS = 9;
const src = (s, top = 104) => (s.bool(0.5) ? s.draw(4) : 100 + s.draw(Math.max(1, top - 100)));
/** operations allowed in any function (reading, making, dropping) */
const quiet = (s, d) => s.weighted([
    [3, () => ['p:get', src(s)]],
    [3, () => ['p:drop', s.draw(8)]],
    [1.5, () => ['p:dropc', 100 + s.draw(4)]],
    [1, () => ['p:dropv', s.draw(4)]],
    [0.5, () => ['p:dropl', s.draw(2)]],
    [0.5, () => ['p:dropm', s.draw(2)]],
    [0.5, () => ['p:dropw', s.draw(2)]],
    [0.7, () => ['p:wake', s.draw(2), s.draw(4)]],
    [0.5, () => [s.pick(['p:lzget', 'p:lzforce', 'p:lzget', 'p:droplz']), s.draw(2), s.draw(2)]],
    [0.2, () => ['p:droprt', s.draw(2)]],
    [0.7, () => ['p:val', s.draw(4), s.draw(IDS)]],
    [0.4, () => ['p:list', s.draw(2), ids(s)]],
    [1.5, () => ['p:amget', s.draw(2), s.draw(IDS)]],
    [3, () => make(s, d)],
])();
const ids = (s) => s.list(0, 5, () => s.draw(IDS), 3);
const body = (s, d, write = false) => (d <= 0 ? [] : s.list(0, 3, () => (write && s.bool(0.6) ? writing(s, d - 1) : quiet(s, d - 1)), 1.3));
const make = (s, d) => s.weighted([
    [2, () => { const i = 100 + s.draw(4); return ['p:comp', i, s.list(0, 3, () => (i > 100 && s.bool(0.4) ? 100 + s.draw(i - 100) : s.draw(4)), 1.5), body(s, d)]; }],
    [1, () => { const i = 101 + s.draw(3); return ['p:map', i, src(s, i), body(s, d)]; }],
    [1, () => ['p:conn', 100 + s.draw(4), s.draw(IDS), body(s, d), body(s, d)]],
    [3, () => [s.bool(0.7) ? 'p:sub' : 'p:suba', s.draw(8), src(s), body(s, d), s.draw(IDS)]],
    [1, () => ['p:hook', s.draw(8), body(s, d, true)]],
    [1, () => ['p:res', s.draw(8), body(s, d), s.draw(IDS)]],
    [1, () => ['p:amap', s.draw(2), body(s, d)]],
    [3, () => { const k = s.draw(6); return ['p:node', s.draw(8), k === 2 ? s.draw(2) : src(s), k, body(s, d), s.bool(0.5) ? 1 : null]; }],
    [0.5, () => ['p:timer', s.draw(8), s.int(1, 20), body(s, d, true)]],
    [1, () => ['p:task', s.draw(2), body(s, d, true), s.draw(IDS)]],
    [1, () => ['p:many', s.draw(8), s.int(2, 12), s.draw(5), src(s), s.draw(IDS)]],
    [0.7, () => ['p:lazy', s.draw(2), body(s, d, true), s.draw(IDS), s.draw(3)]],
    [0.5, () => ['p:lzcomp', 100 + s.draw(4), s.draw(2), body(s, d)]],
    [0.5, () => ['p:ws', s.draw(8), body(s, d, true), s.draw(IDS)]],
    [0.3, () => ['p:router', s.draw(2)]],
    [0.4, () => ['p:rtcomp', 100 + s.draw(4), s.draw(2)]],
    [1, () => ['p:turns', 0, s.list(0, 5, () => s.draw(12), 2), body(s, d, true), s.draw(IDS)]],
])();
const writing = (s, d) => s.weighted([
    [4, () => [s.bool(0.7) ? 'p:set' : 'p:setc', s.draw(4), s.draw(IDS)]],
    [2, () => ['p:chg', s.draw(4), s.draw(IDS), body(s, d, true)]],
    [3, () => ['p:lset', s.draw(2), ids(s)]],
    [2, () => ['p:lchg', s.draw(2), s.draw(IDS), s.draw(12), body(s, d, true)]],
    [1.5, () => ['p:tx', s.list(1, 4, () => (s.bool(0.6) ? writing(s, d - 1) : quiet(s, d - 1)), 2)]],
    [0.4, () => ['p:lzforget', s.draw(2)]],
    [0.5, () => ['p:go', s.draw(2), s.draw(IDS)]],
    [1, () => ['p:publish', s.draw(2), s.draw(IDS)]],
])();
const any = (s) => (s.bool(0.4) ? writing(s, 2) : quiet(s, 2));
const CLEAN = [...Array(8).keys()].map((i) => ['p:drop', i]);

const RX = { w: { get: 2, sub: 6, suba: 2, set: 9, tx: 6, drop: 6, unsub: 5 }, body: 0.35, max: 35, mean: 15, subs: 5, inner: 1 };
const OTHERS = [P04, P05, P06, P09, P11, P12, P14, P15, P21, P22, P23, P24, P25, P26, P27, P37];
/** mostly elements with loading indications, whose functions make and drop more of them */
const waits = (s) => {
    const bold = s.bool(0.3);
    const node = (d) => ['p:node', s.draw(8), s.draw(4), 5, body(s, d), s.bool(0.5) ? 1 : null];
    const inner = () => s.list(1, 4, () => s.weighted([[3, () => node(0)], [3, () => ['p:drop', s.draw(8)]], [1, () => quiet(s, 0)], [bold ? 2 : 0.001, () => (bold ? writing(s, 0) : quiet(s, 0))]])(), 2);
    return {
        ts: s.bool(0.2), bold, bodies: [[9, 0, inner()], [9, 1, inner()], ...s.list(0, 2, () => [0, s.draw(IDS), body(s, 1)], 1)], click: [],
        ops: s.list(2, 25, () => s.weighted([[4, () => node(1)], [4, () => ['p:set', s.draw(4), s.draw(IDS)]], [2, () => ['p:drop', s.draw(8)]], [2, () => any(s)]])(), 11),
    };
};
const own = (s) => {
    if (s.bool(0.12)) return waits(s);
    const bold = s.bool(0.3);
    return {
        ts: s.bool(0.2), bold,
        bodies: s.list(0, 5, () => (s.bool(0.25) ? [s.pick([9, 10]), s.draw(2), body(s, 2, bold)] : [0, s.draw(IDS), body(s, 2, bold)]), 2.5),
        click: body(s, 2, true),
        ops: s.list(2, 25, () => s.weighted([[10, () => any(s)], [1, () => ['wait', s.pick([0, 1, 5, 10, 30, 1200])]], [1, () => ['click']], [1, () => ['answer', s.draw(4), s.pick([200, 200, 404, 500, 0])]], [0.7, () => ['socket', s.draw(4), s.pick(['open', 'msg', 'close', 'fail'])]], [0.3, () => ['hash', s.draw(IDS)]]])(), 11),
    };
};
export default {
    id: 'P38', quick: 12000, thorough: 500000, shrinkTries: 4000,
    rule: 'A random program of up to 25 operations with values, derived values, lists, subscribers, connection routines, hooks, loading indications, keyed caches, nodes, resources, remote data, routers, sockets, timers, tasks (woken in every way) and event handlers, whose functions run operations of their own whenever they are called, as does their data when it is dropped: reading, making and dropping anything, and writing where it is allowed. Data must always be whole; released memory, which the allocator of the program fills with a pattern and keeps, must stay untouched and not be released again, blocks are released as what they were allocated, nothing is written behind their ends; the program must not crash. Three in ten are programs of seventeen other properties under the same watch (what they do is judged there). Non-trivial = at least 3 operations ran inside of functions of the program.',
    assumptions: ['functions called while values are refreshed do not write (rejected by design)', 'copying, comparing and hashing data only looks at it', 'nesting up to 4 levels, 300 operations inside of functions'],
    generate: (s) => s.weighted([
        [1, () => ({ rx: genProgram(s, RX) })],
        [0.5, () => ({ prop: 'P36', case: { ...P36.generate(s), look: true } })],
        [2, () => { const p = s.pick(OTHERS); return { prop: p.id, case: p.generate(s, 'quick') }; }],
        [7, () => own(s)],
    ])(),
    run: async (c, env) => {
        try {
            return await watched(c, env);
        } catch (e) {
            // the operations are data of the program's functions: they were well-formed when it started
            if (/harness failure in guest/.test(e?.message)) fail('a function of the program found other operations than it was made with: ' + e.message, 'memory');
            throw e;
        }
    },
};
const watched = async (c, env) => {
    if (c.rx || c.prop) {
        last.inst = null;
        let res = { nontrivial: false };
        try {
            if (c.rx) { const r = simulate(c.rx, env); res.nontrivial = r.stat.drops > 0 && r.stat.recalcs > 2; } else res = (await [...OTHERS, P36].find((p) => p.id === c.prop).run(c.case, env)) ?? res;
        } catch (e) {
            // what it does is judged by that property
            if (!(e instanceof Violation) || e.sig === 'memory') throw e;
            res.nontrivial = false;
        }
        misuse(last.inst);
        return { nontrivial: !!res.nontrivial, classes: [c.prop ?? 'graph'] };
    }
    const root = ['e', 'html', [], [['e', 'head', [], [], 0], ['e', 'body', [], [['e', 'button', [['on', 'click', 1, [['p:tx', c.click]], 0, null]], [], 0]], 0]], 0];
    const setup = [['p:fuel', 0], ...[0, 1, 2, 3].map((i) => ['p:val', i, i]), ['p:list', 0, [1, 2, 3]], ['p:list', 1, []], ['p:comp', 100, [0, 1], []], ['p:comp', 101, [100], []], ...c.bodies.map((x) => ['p:body', ...x]), ...(c.bold ? [['p:bold', 1]] : []), ['p:fuel', 300]];
    const b = await open({ ...c, setup, root }, env);
    b.exec(['log']);
    let inside = 0, rejected = false;
    try {
        b.inst.exports.vp_keep(1 << 20);
        const look = (log, where) => {
            for (const l of log) if (l[0] === 'torn') fail(`${where}: data number ${l[2]} ${l[1]} was not whole`, 'torn');
            inside += log.filter((l) => l[0] === 'd').length - 1;
        };
        const memory = (where) => { try { b.memory(); } catch (e) { fail(`${where}: ${e.message}`, 'memory'); } };
        let n = 0;
        for (const o of [...c.ops, ...CLEAN.map((x) => ['end', x]), ['wait', 60]]) {
            const where = `operation ${++n} ${J(o)}`;
            try {
                if (o[0] === 'wait') { await b.advance(o[1]); look(b.exec(['log']), where); } else if (o[0] === 'answer') {
                    const open = b.fetches.filter((f) => !f.done);
                    if (!open.length) continue;
                    const f = open[o[1] % open.length];
                    if (o[2]) b.respond(f, { status: o[2], type: 'text/plain', body: 'x' }); else b.failFetch(f, 'failed');
                    await b.settle();
                    look(b.exec(['log']), where);
                } else if (o[0] === 'socket') {
                    const can = b.sockets.filter((k) => (o[2] === 'open' ? k.readyState === 0 : o[2] === 'msg' ? k.readyState === 1 : k.readyState < 2));
                    if (!can.length) continue;
                    const k = can[o[1] % can.length];
                    if (o[2] === 'open') b.wsOpen(k); else if (o[2] === 'msg') b.wsMessage(k, 'text'); else if (o[2] === 'close') b.wsClose(k); else b.wsFail(k);
                    await b.settle();
                    look(b.exec(['log']), where);
                } else if (o[0] === 'hash') {
                    b.window.location.hash = '#' + o[1];
                    await b.settle();
                    look(b.exec(['log']), where);
                } else if (o[0] === 'click') {
                    const el = b.document.body.childNodes.find((x) => x.localName === 'button');
                    if (el) b.dispatch(el, new Event_('click', { bubbles: true, cancelable: true }));
                    await b.settle();
                    look(b.exec(['log']), where);
                } else look(b.exec(['rx', [o[0] === 'end' ? o[1] : o]]), where);
                b.check();
            } catch (e) {
                // writing while values are refreshed is rejected
                if (!c.bold || !/You cannot change the source value while the dependency graph is being refreshed/.test(e.message)) throw e;
                rejected = true;
            }
            memory(where);
            if (rejected) return { nontrivial: inside >= 3, classes: ['rejected'] };
        }
        const kinds = new Set(JSON.stringify([c.ops, c.bodies]).match(/"p:\w+"/g) ?? []);
        return { nontrivial: inside >= 3, classes: [c.ts ? 'ts' : 'bundle', ...[...kinds].map((k) => JSON.parse(k).slice(2))] };
    } finally { b.close(); }
};
