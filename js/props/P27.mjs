import { fail } from '../engine.mjs';
import { open, noErrors, J } from './hostprop.mjs';
import { value } from './value.mjs';
import { jsOf, eq, jsval, build } from './P12.mjs';

// an object graph whose methods record what happens to it
const graph = (log, spec) => {
    const o = (name, extra) => Object.assign({
        id(...a) { log.push([name, 'id', a]); return a[0]; },
        args(...a) { log.push([name, 'args', a]); return a; },
        who() { log.push([name, 'who', []]); return this === self ? name : 'lost'; },
        peer(...a) { log.push([name, 'peer', a]); return o('made', { v: a.length }); },
        boom(...a) { log.push([name, 'boom', a]); throw new Error('boom'); },
        none(...a) { log.push([name, 'none', a]); },
        nil: null, undef: undefined,
    }, extra);
    let self;
    const inner = o('inner', { v: build(spec[0]), deep: o('deep', { v: build(spec[1]) }) });
    self = o('top', { inner, v: build(spec[2]), list: [build(spec[0]), inner, build(spec[1])] });
    return self;
};
const strip = (x) => (x instanceof Uint8Array ? x : Array.isArray(x) ? x.map(strip) : x && typeof x === 'object' ? Object.fromEntries(Object.entries(x).filter(([, v]) => typeof v !== 'function').map(([k, v]) => [k, strip(v)])) : x);
const native = (start, steps) => {
    let cur = start;
    for (const s of steps) {
        if (s[0] === 'get') cur = cur[s[1]];
        else if (s[0] === 'set') { cur[s[1]] = jsOf(s[2]); cur = undefined; }
        else if (s[0] === 'call') cur = cur[s[1]](...s[2].map(jsOf));
        else cur = Object.fromEntries(s[1].map((n) => [n, cur[n]]));
    }
    return cur;
};
const hasFn = (x) => typeof x === 'function' || (x && typeof x === 'object' && Object.values(x).some(hasFn));
const N = 4;
const DATA = ['v', 'x', 'y', 'list', 'inner', 'deep', 'nil', 'undef', '0', '1', 'length', 'missing', 'type', '__x'];
const step = (s) => s.weighted([
    [5, () => ['get', s.pick(['inner', 'deep', 'list', 'v', 'x', '1', 'inner', 'deep', 'nil', 'missing'])]],
    [4, () => ['call', s.pick(['id', 'args', 'who', 'peer', 'none', 'boom', 'args', 'id', 'gone']), s.list(0, 4, () => value(s, 2), 1.5)]],
    [2, () => ['set', s.pick(DATA), value(s, 2)]],
    [1, () => ['props', [...new Set(s.list(0, 4, () => s.pick(DATA), 2))]]],
])();
export default {
    id: 'P27', quick: 6000, thorough: 250000,
    rule: 'Up to 10 chains of up to 6 property reads, writes, calls and multi-property reads with arguments of every kind, starting at the window, the document or elements that are on the page, were removed or re-created; the object graphs record who is called with what, and the same chain is carried out natively on a copy. Results, calls with receiver and arguments in order, and the objects afterwards must agree; chains on elements not on the page do nothing. Non-trivial = a chain that reaches an element or a method call with arguments.',
    assumptions: ['a chain that throws or ends in something that is not plain data gives undefined', 'no cyclic objects'],
    generate: (s) => ({
        ts: s.bool(0.3), spec: [jsval(s, 1), jsval(s, 1), jsval(s, 2)], vals: Array.from({ length: N }, () => s.draw(3)), tags: Array.from({ length: N }, () => s.pick(['div', 'input', 'svg', 'a', 'b'])),
        ops: s.list(1, 10, () => s.weighted([
            [6, () => ['js', s.weighted([[2, 'window'], [1, 'document'], [4, s.draw(N)]]), s.list(0, 6, () => step(s), 2.5), s.bool(0.2)]],
            [3, () => ['set', s.draw(N), s.draw(4)]],
            [1, () => ['tx', s.list(1, 4, () => ['set', s.draw(N), s.draw(4)], 2)]],
        ])(), 6),
    }),
    run: async (c, env) => {
        const box = (i) => ['e', 'p', [], [['ro', i, [null, ['e', c.tags[i], [['ref', i], ['s', 'id', ['r' + i + 'a']]], [], i % 3], ['fr', [['t', ['x']], ['e', 'i', [['s', 'id', ['r' + i + 'b']], ['ref', i]], [['t', ['y']]], 0]]]], 10 + i]], 0];
        const root = ['e', 'html', [], [['e', 'head', [], [], 0], ['e', 'body', [], Array.from({ length: N }, (_, i) => box(i)), 0]], 0];
        const b = await open(c, env, { boot: ['boot', c.vals.map((v, i) => ['val', i, v]), root] });
        let hits = 0, gone = 0;
        try {
            const vals = [...c.vals];
            const made = vals.map((v) => v % 3 !== 0);
            const write = (op) => { if (op[0] === 'tx') op[1].forEach(write); else vals[op[1]] = op[2]; };
            for (const op of c.ops) {
                b.console = [];
                const what = J(op).slice(0, 700);
                if (op[0] !== 'js') { write(op); vals.forEach((v, i) => { made[i] ||= v % 3 !== 0; }); b.exec(['rx', [op]]); b.check(); noErrors(b, what); continue; }
                const [, start, steps0, props] = op;
                let real = start === 'window' ? b.window : start === 'document' ? b.document : null;
                if (typeof start === 'number') {
                    if (!made[start]) continue;
                    if (vals[start] % 3) real = b.document.getElementById('r' + start + (vals[start] % 3 === 1 ? 'a' : 'b'));
                    if (vals[start] % 3 && !real) throw Error('harness: no element');
                }
                const log1 = [], log2 = [];
                const g1 = graph(log1, c.spec), g2 = graph(log2, c.spec);
                const mirror = { vpTop: g2, id: real?.id, tagName: real?.tagName };
                const steps = props ? [['get', typeof start === 'number' ? 'id' : 'vpTop'], ...(typeof start === 'number' ? [] : [['get', 'v']])] : [['get', 'vpTop'], ...steps0];
                if (real) real.vpTop = g1;
                let want, threw = !real;
                if (real) {
                    try { want = native(mirror, steps); } catch { threw = true; want = undefined; }
                    if (hasFn(want)) { threw = true; want = undefined; } // no data
                    if (typeof start === 'number') hits++; else if (steps.some((x) => x[0] === 'call' && x[2].length)) hits++;
                } else gone++;
                const log = b.exec(['rx', [['js', start, steps]]]);
                b.check();
                const got = log.find((x) => x[0] === 'js')[1];
                if (!eq(jsOf(got), want)) fail(`${what} gives ${J(got)} instead of ${J(want)}`, real ? 'result' : 'gone');
                if (real) {
                    if (!eq(log1, log2)) fail(`${what}: calls ${J(log1)} instead of ${J(log2)}`, 'calls');
                    if (!eq(strip(real.vpTop), strip(mirror.vpTop))) fail(`${what}: the objects are ${J(strip(real.vpTop))} instead of ${J(strip(mirror.vpTop))}`, 'effect');
                    delete real.vpTop;
                }
                if (!threw) noErrors(b, what);
            }
        } finally { b.close(); }
        return { nontrivial: hits > 0, classes: [c.ts ? 'ts' : 'bundle', hits ? 'hit' : 'nohit', gone ? 'gone' : 'nogone'] };
    },
};
