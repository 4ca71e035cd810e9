import { fail } from '../engine.mjs';
import { Gen } from './page.mjs';
import { genPage, runPage } from './pageprop.mjs';

class ListGen extends Gen {
    constructor(s, cfg) { super(s, cfg); this.cur = [[], []]; this.dup = s.bool(0.35); this.size = s.bool(0.1) ? 20 : 9; }
    root() {
        const s = this.s;
        const kids = s.list(1, 6, () => s.weighted([[5, 1], [1, 0]]) ? this.list(3, 0) : this.leafy(0), 3);
        const body = ['e', 'body', [], s.bool(0.3) ? [['e', 'ul', [], kids, s.draw(3)]] : s.bool(0.2) ? [['fr', kids]] : kids, s.draw(3)];
        return ['e', 'html', [], [['e', 'head', [], [], 0], body], 0];
    }
    leafy(env) {
        const s = this.s;
        return s.weighted([[3, ['e', 'b', [], [['t', ['x'], 0]], 0]], [2, ['t', ['t' + s.draw(4)], s.draw(2)]], [2, ['tc', s.draw(4), ['u', 'v', 'w'], s.draw(3)]],
            [1, ['rv', s.draw(4), [['e', 'i', [], [], 0], ['t', ['alt'], 0]], this.id++]], [1, ['cm', 'c']]]);
    }
    item(depth, env, mode) {
        const s = this.s;
        const own = [env, env + 1];
        const label = () => ['t', ['k', s.pick(own)], s.draw(2)];
        const k = s.weighted([[6, 'e'], [2, 't'], [1, 'tc'], [2, 'rv'], [1, 'ro'], [2, 'fr'], [depth > 1 ? 2 : 0, 'rl']]);
        const el = (kids) => ['e', s.pick(['li', 'p', 'a', 'input']), [['s', 'id', ['i', env]]], kids, s.draw(3)];
        switch (k) {
            case 't': return label();
            case 'tc': return ['tc', s.draw(4), ['q', 'r'], s.draw(3)];
            case 'rv': return ['rv', s.draw(4), s.list(1, 3, () => s.bool() ? ['e', 'li', [], [label()], 0] : label(), 2), this.id++];
            case 'ro': return ['ro', s.draw(4), [null, ['e', 'li', [], [label()], 0]], this.id++];
            case 'fr': return ['fr', s.list(0, 3, () => s.bool() ? label() : this.leafy(env), 2)];
            case 'rl': return this.list(depth - 1, env + own.length);
            default: {
                const e = el(s.list(0, 2, () => s.bool(0.6) ? label() : depth > 1 && s.bool(0.3) ? this.list(depth - 1, env + own.length) : this.leafy(env), 1));
                if (e[1] === 'input') e[3] = [];
                return e;
            }
        }
    }
    elem() { return [this.s.draw(this.size), this.s.draw(2)]; }
    listValue() {
        return this.norm(this.s.list(0, this.size, () => this.elem(), this.size / 2));
    }
    norm(l) {
        if (this.dup) return l;
        const seen = new Set();
        return l.filter((x) => !seen.has(x[0]) && seen.add(x[0]));
    }
    edit(l) {
        const s = this.s;
        l = l.slice();
        const n = l.length;
        switch (s.weighted([[3, 'ins'], [3, 'del'], [3, 'move'], [1, 'rev'], [2, 'swap'], [1, 'rot'], [1, 'shuf'], [2, 'second'], [1, 'new'], [1, 'cut'], [1, 'empty']])) {
            case 'ins': for (const x of s.list(1, 3, () => this.elem())) l.splice(s.draw(l.length + 1), 0, x); break;
            case 'del': for (const _ of s.list(1, 3, () => 0)) l.splice(s.draw(l.length), 1); break;
            case 'move': if (n) { const [x] = l.splice(s.draw(n), 1); l.splice(s.draw(n), 0, x); } break;
            case 'rev': { const a = s.draw(n + 1), b = s.draw(n + 1); const [i, j] = a < b ? [a, b] : [b, a]; l = [...l.slice(0, i), ...l.slice(i, j).reverse(), ...l.slice(j)]; break; }
            case 'swap': if (n > 1) { const a = s.draw(n), b = s.draw(n); [l[a], l[b]] = [l[b], l[a]]; } break;
            case 'rot': if (n) { const k = s.draw(n); l = [...l.slice(k), ...l.slice(0, k)]; } break;
            case 'shuf': l = s.shuffle(l); break;
            case 'second': if (n) { const i = s.draw(n); l[i] = [l[i][0], 1 - l[i][1]]; } break;
            case 'cut': l = l.slice(s.draw(n + 1), s.draw(n + 1)); break;
            case 'empty': l = []; break;
            default: l = s.list(0, this.size, () => this.elem(), this.size / 2);
        }
        return this.norm(l);
    }
    setup() {
        const out = super.setup();
        for (const o of out) if (o[0] === 'lset') this.cur[o[1]] = o[2];
        return out;
    }
    write() {
        const s = this.s;
        if (s.bool(0.25)) return ['set', s.draw(4), s.draw(6)];
        const i = s.draw(2);
        this.cur[i] = this.edit(this.cur[i]);
        return ['lset', i, this.cur[i]];
    }
}

const lists = (inst, out = []) => { if (inst.desc[0] === 'rl') out.push(inst); for (const k of inst.kids) lists(k, out); return out; };
const key = (d, x) => (d[3] === 0 ? String(x[0]) : x.join());
const byKey = (inst) => {
    const m = new Map();
    inst.list.forEach((x, i) => { const n = inst.kids[i].node; if (n) { const k = key(inst.desc, x); if (!m.has(k)) m.set(k, []); m.get(k).push(n); } });
    return m;
};
const cfg = { ops: 12, meanOps: 7 };
export default {
    id: 'P07', quick: 20000, thorough: 400000,
    rule: 'Pages of one or more (possibly nested) keyed lists whose items are elements, texts, values, conditional content, fragments or lists, between other reactive siblings; up to 12 transactions of list edits (insertions, removals, moves, reversals, swaps, rotations, shuffles, duplicates, replacement) of up to 20 elements. The document, node identity and the calls of the item renderers are compared. Non-trivial = at least three operations changed data, and a list kept an element whose position changed.',
    assumptions: ['the order of the renderer calls is left to the code', 'with duplicated keys only the number of kept nodes per key is determined'],
    generate: (src) => genPage(src, cfg, ListGen),
    run: async (c, env) => {
        let kept = 0, dups = 0, nested = 0;
        const descs = new Map(), parents = new Map();
        const walk = (d, up) => {
            if (!Array.isArray(d)) return;
            if (d[0] === 'e') d[3].forEach((x) => walk(x, up));
            if (d[0] === 'fr') d[1].forEach((x) => walk(x, up));
            if (d[0] === 'rv' || d[0] === 'ro') d[2].forEach((x) => x && walk(x, up));
            if (d[0] === 'rl') { descs.set(d[4], d); parents.set(d[4], up); walk(d[2], [...up, d[4]]); }
        };
        walk(c.root, []);
        const st = await runPage(c, env, {
            before: (st) => lists(st.root).map((l) => (l.remade = false, l)).map((l) => [l, byKey(l), l.list]),
            after: (st, op) => {
                // identity with duplicated keys: as many nodes are kept as can be
                for (const [l, old, before] of st.prev) {
                    if (l.dead || l.remade || l.list === before) continue;
                    const now = byKey(l);
                    for (const [k, nodes] of now) {
                        const o = old.get(k) ?? [];
                        if (!['e', 't'].includes(l.desc[2][0])) continue;
                        const same = nodes.filter((n) => o.includes(n)).length;
                        if (same !== Math.min(o.length, nodes.length)) fail(`list ${l.desc[4]}: ${o.length} nodes of key ${k} were on the page, ${nodes.length} are wanted, only ${same} were kept; operation ${JSON.stringify(op)}`, 'dup-identity');
                        if (o.length > 1) dups++;
                        kept += same;
                    }
                }
                const multi = (log, what) => {
                    const m = new Map();
                    for (const r of log) if (r[0] === 'ri') { const d = what.get(r[1]); const k = r[1] + ':' + key(d, [r[2], r[3]]); m.set(k, (m.get(k) ?? 0) + 1); }
                    return m;
                };
                const have = multi(st.log, descs), want = multi(st.data.renders, descs);
                const moved = new Set(st.prev.filter(([l, , b]) => l.dead || l.list !== b).map(([l]) => l.desc[4]));
                for (const k of new Set([...have.keys(), ...want.keys()])) {
                    const h = have.get(k) ?? 0, w = want.get(k) ?? 0;
                    if (h === w) continue;
                    const id = Number(k.split(':')[0]);
                    // a nested list may have been refreshed before its item went away in the same transaction; items that
                    // are markers are re-mounted when moved
                    if (h > w && parents.get(id)?.some((p) => moved.has(p))) { nested++; continue; }
                    fail(`the renderer of list ${id} was called ${h} times for ${k.split(':')[1]} instead of ${w}; operation ${JSON.stringify(op)}`, 'render-calls');
                }
            },
        });
        return { nontrivial: st.changed >= 3 && kept > 0, classes: [dups ? 'dups' : 'nodups', nested ? 'nested' : 'flat', c.ts ? 'ts' : 'bundle'] };
    },
};
