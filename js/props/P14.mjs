import { fail } from '../engine.mjs';
import { Gen, Inst, loading } from './page.mjs';
import { genPage, runPage, kinds } from './pageprop.mjs';

const K = 3;
const cfg = { depth: 4, budget: 45, ops: 16, meanOps: 9, sus: 0.6, lw: 2, w: { rv: 3, ro: 3, rl: 2, e: 6 } };
class G extends Gen {
    children(depth, env, max = 5) { return this.s.list(1, max, () => this.node(depth - 1, env), 3); }
    extra(depth, env, leaf) {
        const s = this.s;
        if (s.bool(0.08)) return ['e', 'vertigo-suspense', s.bool(0.2) ? this.attrs('vertigo-suspense', env) : [], !leaf && s.bool(0.1) ? this.children(depth, env, 2) : [], s.draw(3)];
        if (!s.bool(0.2)) return null;
        const style = s.weighted([[5, 0], [leaf ? 0.01 : 3, 1], [1, 2]]);
        return style === 1 ? ['lazy', s.draw(K), 1, leaf ? ['t', ['x'], 0] : this.node(depth - 1, env)] : ['lazy', s.draw(K), style];
    }
    setup() {
        const out = super.setup();
        for (let i = 0; i < K; i++) out.push(['lz', i, ['GET', '/r' + i, null, null, null, 0, null], 2, 0]);
        return out;
    }
    answer() { const s = this.s; return s.weighted([[5, () => ['ok', s.pick(['one', 'two', 'three', ''])]], [2, ['missing']]].map(([w, x]) => [w, typeof x === 'function' ? x() : x])); }
    op() {
        const s = this.s;
        return s.weighted([[5, () => super.op()], [5, () => ['answer', s.draw(K), this.answer()]], [1.5, () => ['lzforce', s.draw(K), s.draw(2)]], [2, () => ['lzforget', s.draw(K)]],
            [1, () => ['tx', s.list(1, 4, () => s.bool(0.4) ? ['lzforget', s.draw(K)] : s.bool(0.2) ? ['lzforce', s.draw(K), s.draw(2)] : this.write(), 2)]]])();
    }
}
const layers = (inst, out = []) => { if (inst.desc[0] === 'e' && inst.desc[2].some((a) => a[0] === 'sus')) out.push(inst); for (const k of inst.kids) layers(k, out); return out; };
export default {
    id: 'P14', quick: 12000, thorough: 300000,
    rule: 'Random pages whose elements declare loading indications, with loading markers inside conditional content, lists and fragments and with content that waits for up to 3 remote values; up to 14 operations: writes, transactions, answers of every kind in any order, forgetting and renewing values. After each the page, with the indication of every element, is compared with a model. Non-trivial = an operation switched an indication on or off.',
    assumptions: ['remote values have no lifetime (P22 covers expiry)'],
    generate: (src) => {
        const c = genPage(src, cfg, G);
        c.first = src.list(0, 6, () => [src.draw(K), new G(src, cfg).answer()], 3);
        return c;
    },
    run: async (c, env) => {
        let switched = 0, apart = 0, on = 0, answers = 0;
        const run = async (st) => {
            const { b, data, root } = st;
            for (let i = 0; i < 3; i++) { data.start(); root.update(data); data.calm(); }
            await b.settle(); await b.advance(0); await b.advance(0);
            for (const m of data.caches) {
                const made = b.fetches.filter((f) => f.url === m.url);
                if (made.length !== m.fetches) fail(`${m.url} was requested ${made.length} times instead of ${m.fetches}`, 'requests');
                m.fetch = made[made.length - 1];
            }
        };
        const answer = async (st, i, a) => {
            const { b, data, root } = st;
            const open = data.caches.filter((m) => m.flight);
            if (!open.length) return false;
            const m = open[i % open.length];
            answers++;
            b.respond(m.fetch, a[0] === 'ok' ? { status: 200, type: 'application/json', body: JSON.stringify(a[1]) } : { status: 404, type: 'text/plain', body: 'x' });
            m.value = a[0] === 'ok' ? ['ready', a[1]] : ['error', 'not found'];
            m.changed = true;
            m.queued = { loading: false, force: false };
            root.update(data);
            data.calm();
            m.flight = false; m.queued = null;
            await run(st);
            b.console = b.console.filter((x) => !x.some((y) => String(y).includes('Error fetching GET /r')));
            return true;
        };
        const st = await runPage(c, env, {
            begin: async (st) => {
                await run(st);
                for (let i = 0; st.data.caches.some((m) => m.flight); i++) { const x = c.first[i] ?? [0, ['ok', 'one']]; await answer(st, x[0], x[1]); }
                await st.b.advance(0);
            },
            op: async (st, op, check) => {
                const { b, data, root } = st;
                const before = new Map(layers(root).map((x) => [x, loading(x)]));
                if (op[0] === 'answer') { if (!await answer(st, op[1], op[2])) return true; } else {
                    data.apply(op);
                    root.update(data);
                    data.calm();
                    b.exec(['rx', [op]]);
                    await run(st);
                }
                let a = 0, z = 0;
                for (const x of layers(root)) { if (loading(x)) on++; if (before.has(x)) if (before.get(x) === loading(x)) a++; else z++; }
                if (z) switched++;
                if (a && z) apart++;
                check(`after ${JSON.stringify(op)}`);
                return true;
            },
        });
        return { nontrivial: switched > 0, classes: [c.ts ? 'ts' : 'bundle', switched ? 'switched' : 'same', apart ? 'apart' : 'together', on ? 'on' : 'off', answers ? 'answered' : 'unanswered', ...Object.keys(kinds(c.root)).map((k) => 'k-' + k)] };
    },
};
