import { fail } from '../engine.mjs';
import { open, noErrors, J } from './hostprop.mjs';

const K = 4;
const MS = [0, 0, 1, 1, 2, 3, 5, 10, 10, 50, 100, 999, 1000, 1001, 60000];
const ms = (s) => s.weighted([[5, () => s.pick(MS)], [1, () => s.int(0, 3000)], [0.2, () => s.pick([86400000, 2147483647])]])();
const op = (s, d) => s.weighted([
    [3, () => ['task', -1, steps(s, d - 1)]],
    [3, () => ['int', s.draw(K), ms(s), d > 0 ? s.list(0, 2, () => op(s, d - 1), 0.7) : [], s.pick([1, 1, 2, 3]), -1]],
    [2, () => ['intdrop', s.draw(K), s.draw(2)]],
    [1.5, () => ['fb', s.draw(K)]], [3, () => ['publish', s.draw(K), s.int(-5, 100)]],
    [1, () => ['mark', s.draw(100)]], [1.5, () => ['wake', s.draw(K), s.draw(2)]],
    ...(d > 0 ? [[1, () => ['tx', s.list(0, 3, () => op(s, d - 1), 1.5)]]] : []),
])();
const steps = (s, d) => s.list(0, 5, () => s.weighted([
    [4, () => ['sleep', ms(s), s.draw(10)]], [1, () => ['yield', s.int(0, 5), s.draw(10)]], [1, () => [s.pick(['both', 'first']), ms(s), ms(s), s.draw(10)]], [1, () => ['keep', s.draw(K)]], [2, () => ['await', s.draw(K)]],
    [2, () => ['ops', d > 0 ? s.list(0, 2, () => op(s, d - 1), 1) : [['mark', s.draw(100)]]]], ...(d > 0 ? [[1, () => ['spawn', -1, steps(s, d - 1)]]] : []),
])(), 2);

class Model {
    constructor(b) { this.b = b; this.seq = 0; this.tasks = new Map(); this.ints = new Map(); this.handles = new Map(); this.slots = new Map(); this.ends = 0; this.fired = 0; this.dropped = 0; }
    get now() { return this.b.now; }
    op(o, out) {
        switch (o[0]) {
            case 'task': { const id = ++this.seq; this.tasks.set(id, { id, steps: o[2], pc: -1, due: this.now, slot: null }); break; }
            case 'int': {
                const id = ++this.seq, every = Math.max(1, o[2]);
                this.ints.set(id, { id, body: o[3], limit: o[4], every, next: this.now + every, n: 0 });
                this.drop(o[1]);
                this.handles.set(o[1], id);
                break;
            }
            case 'intdrop': this.drop(o[1]); break;
            case 'fb': this.slots.set(o[1], { values: [], taken: false }); break;
            case 'publish': { const s = this.slots.get(o[1]); if (s) s.values.push(o[2]); break; }
            case 'wake': break; // what waits for something goes on waiting
            case 'mark': out.push(['mark', o[1]]); break;
            case 'tx': for (const x of o[1]) this.op(x, out); break;
            default: throw Error('harness: op ' + o[0]);
        }
    }
    drop(k) { const id = this.handles.get(k); if (id !== undefined) { this.ints.delete(id); this.handles.delete(k); this.dropped++; } }
    ready(t) { return t.slot ? t.slot.values.length > 0 : t.due <= this.now; }
    /** checks the log of what ran from callbacks: a sequence of uninterrupted runs of tasks and timers */
    replay(log, what) {
        let i = 0;
        const take = (want) => { for (const w of want) { if (J(log[i]) !== J(w)) fail(`${what}: after ${J(log.slice(Math.max(0, i - 3), i))} comes ${J(log[i])} instead of ${J(w)}`, 'run'); i++; } };
        while (i < log.length) {
            const e = log[i];
            if (e[0] === 'tick') {
                const t = this.ints.get(e[1]);
                if (!t) fail(`${what}: the timer ${e[1]} fires after it was dropped`, 'dropped-fires');
                if (t.next > this.now) fail(`${what}: the timer ${e[1]} fires ${t.next - this.now} ms early`, 'early');
                t.n++;
                t.next += t.every;
                this.fired++;
                const out = [['tick', t.id, t.n]];
                if (t.n <= t.limit) for (const o of t.body) this.op(o, out);
                out.push(['tickx', t.id]);
                take(out);
                continue;
            }
            if (!['start', 'woke', 'got', 'yield', 'both', 'first'].includes(e[0])) fail(`${what}: unexpected ${J(log.slice(i, i + 4))}`, 'run');
            const t = this.tasks.get(e[1]);
            if (!t) fail(`${what}: the task ${e[1]} runs after its end: ${J(e)}`, 'run-again');
            if (!this.ready(t)) fail(`${what}: the task ${e[1]} runs before what it waits for is ready: ${J(e)}`, 'early');
            this.fired++;
            if (t.pc < 0) { take([['start', t.id]]); t.pc = 0; }
            else {
                const st = t.steps[t.pc++];
                if (WAITS[st[0]]) take([[st[0] === 'sleep' ? 'woke' : st[0], t.id, st[st.length - 1]]]);
                else {
                    if (e[0] !== 'got' || !t.slot.values.includes(e[3])) fail(`${what}: the task ${e[1]} gets ${J(e)}, published was ${J(t.slot.values)}`, 'got');
                    take([['got', t.id, st[1], e[3]]]);
                }
                t.slot = null;
            }
            for (; ; t.pc++) {
                const st = t.steps[t.pc], out = [];
                if (!st) { take([['end', t.id]]); this.tasks.delete(t.id); this.ends++; break; }
                if (st[0] === 'yield' && st[1] <= 0) { take([['yield', t.id, st[2]]]); continue; }
                if (st[0] === 'keep') continue;
                if (WAITS[st[0]]) { t.due = this.now + WAITS[st[0]](st); break; }
                if (st[0] === 'await') {
                    const s = this.slots.get(st[1]);
                    if (!s || s.taken) { take([['got', t.id, st[1], null]]); continue; }
                    s.taken = true;
                    if (!s.values.length) { t.slot = s; break; }
                    if (log[i]?.[0] !== 'got' || !s.values.includes(log[i][3])) fail(`${what}: the task ${t.id} gets ${J(log[i])}, published was ${J(s.values)}`, 'got');
                    take([['got', t.id, st[1], log[i][3]]]);
                    continue;
                }
                if (st[0] === 'ops') for (const o of st[1]) this.op(o, out);
                else if (st[0] === 'spawn') this.op(['task', st[1], st[2]], out);
                take(out);
            }
        }
        for (const t of this.tasks.values()) if (this.ready(t)) fail(`${what}: the task ${t.id} is not resumed (${t.pc < 0 ? 'not started' : J(t.steps[t.pc])})`, 'not-resumed');
        for (const t of this.ints.values()) if (t.next <= this.now) fail(`${what}: the timer ${t.id} (every ${t.every} ms) did not fire at ${t.next - 1700000000000}`, 'not-fired');
    }
    next() {
        let n = Infinity;
        for (const t of this.tasks.values()) if (!t.slot) n = Math.min(n, t.due);
        for (const t of this.ints.values()) n = Math.min(n, t.next);
        return n;
    }
}
const KINDS = new Set(['start', 'woke', 'got', 'yield', 'both', 'first', 'end', 'tick', 'tickx', 'mark']);
const WAITS = { sleep: (st) => st[1], yield: () => 0, both: (st) => Math.max(st[1], st[2]), first: (st) => Math.min(st[1], st[2]) };
export default {
    id: 'P23', quick: 6000, thorough: 250000,
    rule: 'Up to 14 operations: spawning tasks (sleeps of 0 ms to 24 days, one or two at a time waiting for both or the first, awaited values, steps that wake themselves during their poll, wakers kept and used later at any time, further tasks, timers and drops inside), repeating timers with such bodies, dropping and replacing them, publishing values, inside transactions too, and passing time. The clock stops 1 ms before and at every moment at which something is due: the log of everything that ran must be a sequence of uninterrupted runs, each of something that was due or ready, and nothing due may be left. Captures must be released with the task or handle. Order among things due at the same instant is free. Non-trivial = at least three runs and a task ended.',
    assumptions: ['periods and sleeps are at most 2147483647 ms (the limit of browser timers)', 'a period of 0 is rounded up to 1 ms, as browsers do', 'the clock of the simulated browser is exact'],
    corpus: [
        { ts: false, ops: [['task', -1, [['sleep', 10, 1], ['sleep', 0, 2]]], ['int', 0, 5, [['intdrop', 0, 0]], 3, -1], ['wait', 100]] },
        { ts: false, ops: [['fb', 0], ['task', -1, [['await', 0], ['sleep', 5, 1]]], ['publish', 0, 4], ['publish', 0, 5], ['wait', 100]] },
    ],
    generate: (s) => ({ ts: s.bool(0.3), ops: s.list(1, 14, () => s.weighted([[7, () => op(s, 3)], [4, () => ['wait', s.weighted([[3, () => s.pick([0, 1, 2, 5, 10, 50])], [2, () => s.int(0, 300)], [1, () => s.int(0, 3000)], [0.2, () => 90000000]])()]]])(), 7) }),
    run: async (c, env) => {
        const b = await open(c, env);
        const m = new Model(b);
        let steps = 0;
        try {
            const read = () => b.exec(['log']).filter((e) => KINDS.has(e[0]));
            const check = (what) => {
                b.check();
                m.replay(read(), what);
                const toks = b.exec(['toks']);
                const ids = (k) => toks.filter((t) => t[0] === k).map((t) => t[1]).sort((x, y) => x - y);
                for (const [k, want, name] of [['int', m.ints, 'timers'], ['task', m.tasks, 'tasks']]) {
                    const a = ids(k), w = [...want.keys()].sort((x, y) => x - y);
                    if (J(a) !== J(w)) fail(`${what}: the captures of the ${name} ${J(a)} are kept, live are ${J(w)}`, 'kept');
                }
                noErrors(b, what);
            };
            const wait = async (ms, what) => {
                const end = b.now + ms;
                for (;;) {
                    const n = m.next();
                    if (n > end || steps > 150) break;
                    steps++;
                    if (n - 1 > b.now) { await b.advance(n - 1 - b.now); check(what + ' (just before)'); }
                    await b.advance(n - b.now);
                    check(`${what} (at ${n - 1700000000000})`);
                }
                if (steps <= 150 && end > b.now) { await b.advance(end - b.now); check(what); }
            };
            for (const o of c.ops) {
                const what = J(o).slice(0, 300);
                if (o[0] === 'wait') { await wait(o[1], what); continue; }
                const out = [];
                m.op(o, out);
                const log = b.exec(['rx', [o]]).filter((e) => KINDS.has(e[0]));
                if (J(log) !== J(out)) fail(`${what}: at once runs ${J(log)} instead of ${J(out)}`, 'at-once');
                await b.settle();
                await b.advance(0);
                check(what);
            }
            await wait(2000, 'at the end');
        } finally { b.close(); }
        return { nontrivial: m.fired >= 3 && m.ends > 0, classes: [c.ts ? 'ts' : 'bundle', m.dropped ? 'drop' : 'nodrop', m.ends ? 'ended' : 'noend', steps > 150 ? 'long' : 'short'] };
    },
};
