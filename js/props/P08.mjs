import { fail } from '../engine.mjs';
import { Comment_, Element_ } from '../minidom.mjs';
import { Gen, Inst } from './page.mjs';
import { genPage, runPage, kinds } from './pageprop.mjs';

const cfg = { depth: 4, budget: 25, ops: 8, meanOps: 4, events: 0.5, sus: 0.15, dups: 0.1, w: { rv: 4, ro: 3, rl: 3, fr: 2, tc: 3, e: 5 } };
/** the captured objects and listeners that should exist for what is on the page */
const alive = (inst, toks, on) => {
    const d = inst.desc;
    if (d[0] === 'rv' || d[0] === 'ro') toks.set('tok,' + d[3], (toks.get('tok,' + d[3]) ?? 0) + 1);
    if (d[0] === 'rl') toks.set('tok,' + d[4], (toks.get('tok,' + d[4]) ?? 0) + 1);
    if (d[0] === 'e') for (const a of d[2]) if (a[0] === 'on') { toks.set('htok,' + a[2], (toks.get('htok,' + a[2]) ?? 0) + 1); on.push([inst, a[1]]); }
    for (const k of inst.kids) alive(k, toks, on);
};
const audit = (st, where) => {
    const { b } = st;
    const toks = new Map(), on = [];
    alive(st.root, toks, on);
    for (const [id, desc] of Object.entries(st.mk ?? {})) count(desc, toks, st);
    const now = new Map();
    for (const [k, i, n] of b.exec(['toks'])) if (!(k === 'tok' && i >= 1000 && i < 1000 + 10)) now.set(k + ',' + i, n);
    for (const k of new Set([...toks.keys(), ...now.keys()])) {
        if ((toks.get(k) ?? 0) !== (now.get(k) ?? 0)) fail(`${where}: ${now.get(k) ?? 0} closures of ${k} are alive, ${toks.get(k) ?? 0} belong to the page`, (now.get(k) ?? 0) > (toks.get(k) ?? 0) ? 'closure-leak' : 'closure-lost');
    }
    // the browser side
    const dom = b.api.dom;
    const outside = Object.keys(st.mk ?? {}).length > 0;
    const known = new Set(dom.nodes.data.values());
    if (!outside) for (const n of known) if (!n.isConnected) fail(`${where}: the runtime keeps a node that is not on the page: ${n instanceof Element_ ? '<' + n.localName + '>' : JSON.stringify(n.data)}`, 'node-leak');
    const roots = new Set([b.document.documentElement, b.document.head, b.document.body]);
    const walk = (n) => { if (n.localName !== 'textarea') for (const c of n.childNodes) { if (c instanceof Element_ && c.localName === 'style' && n === b.document.head) continue; if (!roots.has(c) && !known.has(c)) fail(`${where}: a node on the page is not known to the runtime`, 'node-unknown'); walk(c); } };
    walk(b.document.documentElement);
    if (!outside) {
        if (dom.callbacks.size !== on.length) fail(`${where}: the runtime keeps ${dom.callbacks.size} event callbacks, ${on.length} are declared`, 'callback-count');
        const hooks = on.filter((x) => x[1] === 'hook_keydown').length;
        const docKeys = (b.document.listeners.get('keydown') ?? []).length;
        if (docKeys !== hooks) fail(`${where}: ${docKeys} keydown listeners on the document, ${hooks} declared`, 'hook-count');
    }
    for (const [inst, ev] of on) {
        if (ev === 'hook_keydown' || !inst.node) continue;
        const n = (inst.node.listeners.get(ev) ?? []).length;
        const own = inst.desc[2].filter((a) => a[0] === 'on' && a[1] === ev).length + (ev === 'click' && inst.desc[1] === 'a' ? 1 : 0);
        if (n !== own) fail(`${where}: ${n} ${ev} listeners on <${inst.desc[1]}>, ${own} declared`, 'listener-count');
    }
};
/** closures of a node that stands outside of the page: nothing in it is mounted below its markers */
const count = (d, toks) => {
    const add = (k) => toks.set(k, (toks.get(k) ?? 0) + 1);
    if (d[0] === 'rv' || d[0] === 'ro') add('tok,' + d[3]);
    if (d[0] === 'rl') add('tok,' + d[4]);
    if (d[0] === 'fr') d[1].forEach((x) => count(x, toks));
    if (d[0] === 'e') { for (const a of d[2]) if (a[0] === 'on') add('htok,' + a[2]); }
};
class G extends Gen {
    op() {
        const s = this.s;
        if (s.bool(0.08)) return s.bool(0.6) ? ['mk', s.draw(2), ['e', 'div', this.attrs('div', 0), s.list(0, 2, () => ['t', ['z'], 0], 1), 0]] : ['rm', s.draw(2)];
        return super.op();
    }
}
const restore = (c) => c.setup.filter((o) => ['val', 'lset', 'sset', 'oset'].includes(o[0])).map((o) => (o[0] === 'val' ? ['set', o[1], o[2]] : o));
export default {
    id: 'P08', quick: 12000, thorough: 150000,
    rule: 'Random pages with conditional content, lists, fragments, reactive attributes and event handlers; up to 8 checked operations (writes, transactions, nodes made and dropped outside the page), after each of which the closures alive in the program, the nodes, callbacks and listeners of the runtime are compared with what is on the page; then a cycle of writes that ends in the initial data is repeated: memory, nodes and callbacks must not grow. Non-trivial = some operation changed data and content was removed.',
    assumptions: ['memory growth is measured over 24 cycles after 4 warm-up cycles, in blocks of the program allocator; less than one block per cycle is taken for growth of tables'],
    generate: (src) => {
        const c = genPage(src, cfg, G);
        const g = new Gen(src, cfg); g.id = 10000;
        c.cycle = [...src.list(1, 4, () => g.op(), 2), ['tx', restore(c)]];
        return c;
    },
    run: async (c, env) => {
        let removed = 0, grown = 0;
        const st = await runPage(c, env, {
            identity: false,
            atStart: (st) => audit(st, 'start'),
            op: (st, op, check) => {
                if (op[0] !== 'mk' && op[0] !== 'rm') return false;
                st.mk ??= {};
                if (op[0] === 'mk') st.mk[op[1]] = op[2]; else delete st.mk[op[1]];
                st.b.exec(['rx', [op]]);
                check('after ' + op[0]);
                audit(st, 'after ' + op[0]);
                return true;
            },
            before: (st) => Inst.kills,
            after: (st, op) => { if (Inst.kills > st.prev) removed++; audit(st, `after operation ${st.steps} ${JSON.stringify(op)}`); },
            atEnd: (st) => {
                const { b } = st;
                const size = () => [b.api.dom.nodes.data.size, b.api.dom.callbacks.size, b.document.head.childNodes.length];
                const once = () => b.exec(['rx', c.cycle]);
                for (let i = 0; i < 4; i++) once();
                const s0 = size(), m0 = b.exec(['mem']);
                for (let i = 0; i < 24; i++) once();
                const s1 = size(), m1 = b.exec(['mem']);
                b.check();
                if (b.errors().length) fail(`cycle: the runtime reports ${b.errors().map((e) => e.slice(1).map(String).join(' ')).slice(0, 3).join(' | ')}`, 'console-error');
                if (JSON.stringify(s0) !== JSON.stringify(s1)) fail(`24 repetitions of a cycle of writes changed [nodes, callbacks, head children] of the runtime from ${s0} to ${s1}`, 'cycle-nodes');
                grown = m1[1] - m0[1];
                if (grown >= 24) fail(`24 repetitions of a cycle of writes left ${grown} blocks (${m1[0] - m0[0]} bytes) behind`, 'memory');
                for (const o of c.cycle) st.data.apply(o);
                st.root.update(st.data);
                st.root.loosen();
                st.check('after the cycles');
                audit(st, 'after the cycles');
            },
        });
        return { nontrivial: st.changed > 0 && removed > 0, classes: [c.ts ? 'ts' : 'bundle', removed ? 'removed' : 'kept', 'grow' + Math.sign(grown), ...Object.keys(kinds(c.root)).map((k) => 'k-' + k)] };
    },
};
