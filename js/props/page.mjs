// Page descriptions: generator, model of what they mean, comparison with the simulated browser's document.
import { fail } from '../engine.mjs';
import { Text_, Comment_, Element_, HTML_NS, SVG_NS } from '../minidom.mjs';

export const TEXTS = ['a', 'b', 'hello', 'x y', '', '<b>', '&amp;', '"q"', "it's", 'żółw', '漢字', '😀', ' ', 'line\nbreak', '0', 'null', 'a\u00a0b', '\u202etxt', '</div>', '<!-- -->'];
const TAGS = ['div', 'span', 'p', 'ul', 'li', 'b', 'a', 'input', 'textarea', 'svg', 'path', 'button', 'my-tag'];
export const EVENTS = ['click', 'mousedown', 'mouseup', 'mouseenter', 'mouseleave', 'blur', 'input', 'change', 'keydown', 'hook_keydown', 'drop', 'load'];
const ATTRS = ['id', 'title', 'data-x', 'value', 'href', 'aria-label', 'disabled', 'class', 'class'];
export const STATIC_CSS = ['color: st0', 'color: st1; width: 1px', 'color: st2', 'color: st3; &:hover { color: hov }'];
export const VALS = 4, COMPS = 3;
export const SLOTS = VALS + COMPS;

// ---- generation ---------------------------------------------------------------------------------------------------
export class Gen {
    constructor(src, cfg) { this.s = src; this.cfg = cfg; this.id = 1; this.budget = cfg.budget ?? 30; }
    text() { return this.s.pick(TEXTS) + (this.s.bool(0.3) ? this.s.draw(10) : ''); }
    slot() { return this.s.draw(SLOTS); }
    strings(opt) { return this.s.list(1, 4, () => (opt && this.s.bool(0.35) ? null : this.text()), 2); }
    css() { return this.s.list(1, 2, () => this.s.weighted([[3, ['st', this.s.draw(4)]], [3, ['dyn', `color: d${this.s.draw(5)}`]], [1, ['ext', [['dyn', `margin: ${this.s.draw(3)}px`]]]]]), 1); }
    attrs(tag, env) {
        const s = this.s;
        const used = new Set();
        const out = [];
        for (const _ of s.list(0, 3, () => 0, 1)) {
            const name = s.pick(ATTRS);
            if (used.has(name)) continue;
            used.add(name);
            const k = s.weighted([[3, 's'], [3, 'c'], [3, 'o'], [1, 'n'], [1, 'vs'], [2, 'vo']]);
            if (k === 's') out.push(['s', name, env && s.bool(0.5) ? [this.text(), s.draw(env)] : [this.text()]]);
            else if (k === 'n') out.push(['n', name, s.draw(100)]);
            else if (k === 'vs' || k === 'vo') out.push([k, name, s.draw(2)]);
            else out.push([k, name, this.slot(), this.strings(k === 'o')]);
        }
        if (s.bool(0.25)) out.push(s.bool(0.4) ? ['cssc', this.slot(), s.list(1, 3, () => this.css(), 2)] : ['css', this.css()]);
        if (this.cfg.sus && s.bool(this.cfg.sus)) for (let n = s.bool(0.1) ? 2 : 1; n > 0; n--) out.splice(s.draw(out.length + 1), 0, ['sus', n === 1 && s.bool(0.9) ? s.draw(2) : s.draw(3)]);
        if (this.cfg.events && s.bool(this.cfg.events)) {
            for (const a of this.events(tag)) out.push(a);
        }
        return out;
    }
    events() {
        const s = this.s;
        const used = new Set();
        return s.list(1, 3, () => s.pick(EVENTS)).filter((n) => !used.has(n) && used.add(n)).map((n) => ['on', n, this.id++, this.body(), s.draw(2), s.bool(0.4) ? this.slot() : null]);
    }
    /** what an event handler does */
    body() { return this.s.list(0, 2, () => this.write(), 0.7); }
    children(depth, env, max = 4) { return this.s.list(0, max, () => this.node(depth - 1, env), 2); }
    element(depth, env) {
        const tag = this.s.pick(TAGS);
        const kids = tag === 'input' || tag === 'textarea' ? [] : depth > 0 ? this.children(depth, env) : [];
        return ['e', tag, this.attrs(tag, env), kids, this.s.draw(3)];
    }
    node(depth, env = 0) {
        const s = this.s;
        this.budget--;
        const w = this.cfg.w ?? {};
        const leaf = depth <= 0 || this.budget <= 0;
        if (this.extra) { const n = this.extra(depth, env, leaf); if (n) return n; }
        const k = s.weighted([
            [3, 't'], [w.tc ?? 2, 'tc'], [1, 'tvs'], [leaf ? 1 : w.e ?? 5, 'e'],
            ...(leaf ? [] : [[w.rv ?? 2, 'rv'], [w.ro ?? 2, 'ro'], [w.rl ?? 2, 'rl'], [w.fr ?? 2, 'fr']]), [0.4, 'cm'],
        ]);
        if (k === 't') return env && s.bool(0.5) ? ['t', [s.pick(['i', 'n:', '']), s.draw(env)], s.draw(2)] : ['t', [this.text()], s.draw(2)];
        if (k === 'tc') return s.bool(0.25) ? ['tc', this.slot(), null, s.draw(3)] : ['tc', this.slot(), this.strings(false), s.draw(3)];
        if (k === 'tvs') return ['tvs', s.draw(2), s.draw(3)];
        if (k === 'cm') return ['cm', 'note'];
        if (k === 'e') return this.element(leaf ? 0 : depth, env);
        if (k === 'rv') { const id = this.id++; return ['rv', this.slot(), s.list(1, 3, () => this.node(depth - 1, env + 1), 2), id]; }
        if (k === 'ro') { const id = this.id++; return ['ro', this.slot(), s.list(1, 3, () => (s.bool(0.35) ? null : this.node(depth - 1, env + 1)), 2), id]; }
        if (k === 'fr') return ['fr', s.list(0, 4, () => this.node(depth - 1, env), 2)];
        return this.list(depth, env);
    }
    list(depth, env) {
        const id = this.id++;
        const s = this.s;
        const src = s.bool(0.7) ? ['l', s.draw(2)] : ['lf', s.draw(2), this.slot(), s.draw(3)];
        // key mode 1: the whole item is the key; mode 0: the first component, and then only that one is shown
        const mode = s.draw(2);
        const item = this.item ? this.item(depth, env, mode) : this.node(depth - 1, env + 2);
        return ['rl', src, item, mode, id];
    }
    root() {
        const head = ['e', 'head', [], this.s.list(0, 2, () => this.s.bool(0.5) ? ['e', 'title', [], [['tc', this.slot(), this.strings(false), 0]], 0] : ['e', 'meta', [['s', 'name', [this.text()]]], [], 0], 1), 0];
        const body = ['e', 'body', this.s.bool(0.2) ? this.attrs('body', 0).filter((a) => a[0] !== 'on') : [], this.children(this.cfg.depth ?? 4, 0, 5), 0];
        return ['e', 'html', [], [head, body], 0];
    }
    expr() {
        const s = this.s;
        const r = () => ['r', s.draw(VALS)];
        return s.weighted([[3, ['mod', r(), s.int(1, 4)]], [2, ['add', r(), r()]], [3, ['if', ['mod', r(), 2], r(), ['mod', r(), 3]]], [1, ['k', s.draw(5)]]]);
    }
    setup() {
        const out = [];
        for (let i = 0; i < VALS; i++) out.push(['val', i, this.s.draw(6)]);
        for (let i = 0; i < COMPS; i++) out.push(['comp', VALS + i, 1000 + i, this.expr()]);
        for (let i = 0; i < 2; i++) out.push(['lset', i, this.listValue()]);
        for (let i = 0; i < 2; i++) out.push(['sset', i, this.text()], ['oset', i, this.s.bool(0.5) ? null : this.text()]);
        return out;
    }
    listValue() {
        const s = this.s;
        const l = s.list(0, 7, () => [s.draw(9), s.draw(3)], 3);
        if (this.cfg.dups && s.bool(this.cfg.dups)) return l;
        const seen = new Set();
        return l.filter((x) => !seen.has(x[0]) && seen.add(x[0]));
    }
    write() {
        const s = this.s;
        return s.weighted([[6, 'set'], [2, 'chg'], [this.cfg.lw ?? 4, 'lset'], [1, 'sset'], [1, 'oset']]) === 'lset' ? ['lset', s.draw(2), this.listValue()]
            : s.weighted([[4, ['set', s.draw(VALS), s.draw(6)]], [1, ['chg', s.draw(VALS), s.int(-2, 3)]], [1, ['sset', s.draw(2), this.text()]], [1, ['oset', s.draw(2), s.bool(0.4) ? null : this.text()]]]);
    }
    op() {
        const s = this.s;
        return s.weighted([[6, 0], [3, 1]]) === 0 ? this.write() : ['tx', s.list(0, 5, () => this.write(), 3)];
    }
}

// ---- model --------------------------------------------------------------------------------------------------------
const mod = (a, n) => ((a % n) + n) % n;
export class Data {
    constructor() { this.vals = {}; this.exprs = {}; this.lists = [[], []]; this.strs = ['', '']; this.opts = [null, null]; }
    get(i) { return i in this.vals ? this.vals[i] : this.eval(this.exprs[i]); }
    eval(e) {
        switch (e[0]) {
            case 'k': return e[1];
            case 'r': return this.get(e[1]);
            case 'add': return this.eval(e[1]) + this.eval(e[2]);
            case 'mod': return mod(this.eval(e[1]), e[2]);
            case 'if': return this.eval(e[1]) !== 0 ? this.eval(e[2]) : this.eval(e[3]);
        }
        throw Error('harness: expr ' + e[0]);
    }
    apply(op) {
        switch (op[0]) {
            case 'val': case 'set': this.vals[op[1]] = op[2]; break;
            case 'chg': this.vals[op[1]] += op[2]; break;
            case 'comp': this.exprs[op[1]] = op[3]; break;
            case 'lset': this.lists[op[1]] = op[2]; break;
            case 'sset': this.strs[op[1]] = op[2]; break;
            case 'oset': this.opts[op[1]] = op[2]; break;
            case 'tx': for (const o of op[1]) this.apply(o); break;
            case 'mk': case 'rm': case 'drop': break;
            case 'lz': (this.caches ??= [])[op[1]] = { url: op[2][1], value: null, queued: null, flight: false, fetches: 0 }; break;
            case 'lzforget': { const m = this.caches[op[1]]; m.value = null; m.changed = true; break; }
            case 'lzforce': this.renew(this.caches[op[1]], !!op[2], true); break;
            default: throw Error('harness: op ' + op[0]);
        }
    }
    // remote values (of unlimited lifetime)
    shown(i) { return this.caches[i].value ?? ['loading']; }
    use(i) { const m = this.caches[i]; if (!m.queued && !m.flight && m.value === null) this.renew(m, false, false); }
    renew(m, loading, force) {
        if (m.flight) return;
        if (m.queued) { m.queued.force ||= force; m.queued.loading ||= loading; } else m.queued = { loading, force };
    }
    /** the scheduled updates start, -> true: something changed */
    start() {
        for (const m of this.caches ?? []) {
            const q = m.queued;
            if (!q || m.flight) continue;
            m.queued = null;
            if (!q.force && m.value !== null) continue;
            m.flight = true;
            m.fetches++;
            if (q.loading) { m.value = ['loading']; m.changed = true; }
        }
    }
    calm() { for (const m of this.caches ?? []) m.changed = false; }
    list(src) {
        let l = this.lists[src[1]].slice();
        if (src[0] === 'lf') {
            const v = this.get(src[2]);
            if (src[3] === 0) l = l.filter((x) => mod(x[0] + v, 3) !== 0);
            else if (src[3] === 1) { if (mod(v, 2) === 1) l.reverse(); } else if (l.length) { const k = mod(v, l.length); l = l.slice(k).concat(l.slice(0, k)); }
        }
        return l;
    }
}
const text = (t, env) => (typeof t === 'string' ? t : t.map((x) => (typeof x === 'string' ? x : String(env[x] ?? -1))).join(''));
export const cssTexts = (groups) => groups.flatMap((g) => (g[0] === 'st' ? [STATIC_CSS[g[1] % 4]] : g[0] === 'ext' ? cssTexts(g[1]) : [g[1]]));
const decls = (css) => css.split('{')[0].split(';').map((x) => x.trim()).filter((x) => x && !x.startsWith('&')).join('; ');

/** Instances: what exists on the page. `data` is read when they are made and in update(). */
export class Inst {
    constructor(desc, env, data, parent) { this.desc = desc; this.env = env; this.parent = parent; this.dead = false; this.build(data); }
    build(data) {
        const d = this.desc;
        const sub = (x, env = this.env) => new Inst(x, env, data, this);
        switch (d[0]) {
            case 'e': this.kids = d[3].map((c) => sub(c)); break;
            case 'fr': this.kids = d[1].map((c) => sub(c)); break;
            case 'rv': case 'ro': {
                this.v = data.get(d[1]);
                const alt = d[2][mod(this.v, d[2].length)];
                this.kids = alt === null ? [] : [sub(alt, [...this.env, this.v])];
                data.renders?.push(['rn', d[3], this.v]);
                break;
            }
            case 'rl':
                this.list = data.list(d[1]);
                this.kids = this.list.map((x) => { data.renders?.push(['ri', d[4], x[0], x[1]]); return sub(d[2], [...this.env, x[0], x[d[3] === 0 ? 0 : 1]]); });
                break;
            case 'lazy':
                data.use(d[1]);
                this.v = JSON.stringify(data.shown(d[1]));
                this.kids = lazyShown(d, data.shown(d[1])).map((x) => sub(x));
                break;
            default: this.kids = []; this.last = this.own(data);
        }
    }
    /** the value of an embedded reactive value (not a DomText): a change makes its text anew */
    own(data) {
        const d = this.desc;
        if (d[0] === 'tc' && d[3] !== 0) return data.get(d[1]);
        if (d[0] === 'tvs' && d[2] !== 0) return data.strs[d[1]];
    }
    kill() { Inst.kills++; this.dead = true; for (const k of this.kids) k.kill(); }
    /** after a transaction */
    update(data) {
        const d = this.desc;
        if (d[0] === 'rv' || d[0] === 'ro') {
            const v = data.get(d[1]);
            if (v !== this.v) { for (const k of this.kids) k.kill(); this.build(data); return; }
        }
        if (d[0] === 'lazy') {
            if (data.caches[d[1]].changed) data.use(d[1]);
            if (JSON.stringify(data.shown(d[1])) !== this.v) { for (const k of this.kids) k.kill(); this.build(data); return; }
        }
        if (d[0] === 'rl') {
            const list = data.list(d[1]);
            if (JSON.stringify(list) !== JSON.stringify(this.list)) {
                const key = (x) => (d[3] === 0 ? String(x[0]) : x.join());
                const dup = (l) => new Set(l.map(key)).size !== l.length;
                const loose = dup(list) || dup(this.list);
                const old = new Map();
                this.list.forEach((x, i) => { const k = key(x); if (!old.has(k)) old.set(k, []); old.get(k).push(this.kids[i]); });
                const fresh = new Set();
                this.kids = list.map((x) => {
                    const k = (old.get(key(x)) ?? []).shift();
                    if (k) { if (loose) k.loosen(true); return k; }
                    data.renders?.push(['ri', d[4], x[0], x[1]]);
                    const n = new Inst(d[2], [...this.env, x[0], x[d[3] === 0 ? 0 : 1]], data, this);
                    if (loose) n.loosen(true);
                    fresh.add(n);
                    return n;
                });
                for (const l of old.values()) for (const k of l) k.kill();
                this.list = list;
                for (const k of this.kids) if (!fresh.has(k)) { k.moved(data); k.update(data); }
                return;
            }
        }
        const own = this.own(data);
        if (own !== this.last) { this.last = own; this.loosen(); }
        for (const k of this.kids) k.update(data);
    }
    /** the list this item belongs to changed: content that stands before a marker may be made anew */
    moved() {
        if (this.desc[0] !== 'lazy' && ['e', 't', 'tc', 'tvs', 'cm'].includes(this.desc[0]) && !(this.desc[0] === 'tc' && this.desc[3] !== 0) && !(this.desc[0] === 'tvs' && this.desc[2] !== 0)) return;
        this.loosen(true);
    }
    loosen(remade = false) { this.node = undefined; this.loose = true; if (remade) this.remade = true; for (const k of this.kids) k.loosen(remade); }
    /** the elements and texts it shows */
    *shown(data) {
        const d = this.desc;
        switch (d[0]) {
            case 't': yield { t: text(d[1], this.env), inst: this }; break;
            case 'tc': yield { t: d[2] === null ? String(data.get(d[1])) : d[2][mod(data.get(d[1]), d[2].length)] ?? '', inst: this }; break;
            case 'tvs': yield { t: data.strs[d[1]], inst: this }; break;
            case 'cm': break;
            case 'e': yield { e: d, inst: this, attrs: attrsOf(d, this.env, data, this) }; break;
            default: for (const k of this.kids) yield* k.shown(data);
        }
    }
}
/** content that follows a remote value */
const lazyShown = (d, v) => {
    if (d[2] === 2) return [['t', [v[0] === 'loading' ? 'loading' : v[0] + ' ' + v[1]]]];
    if (v[0] === 'loading') return [['e', 'vertigo-suspense', [], [], 0]];
    if (v[0] === 'error') return [['e', 'div', [], [['t', ['error = ']], ['t', [v[1]]]], 0]];
    return [d[2] === 1 ? d[3] : ['t', [v[1]]]];
};
/** whether the element of the instance is or contains a loading marker */
const busy = (inst) => (inst.desc[0] === 'e' && inst.desc[1] === 'vertigo-suspense') || inst.kids.some(busy);
export const loading = (inst) => {
    let p = inst.parent;
    while (p && p.desc[0] !== 'e') p = p.parent;
    return p !== null && p !== undefined && busy(p);
};
export const SUS = [[['{content: idle-a}'], ['{content: busy-a}']], [['{content: idle-b}', '{content: extra-b}'], ['{content: busy-b}']]];
export const attrsOf = (d, env, data, inst) => {
    const attrs = {};
    const cls = [];
    for (const a of d[2]) {
        let v;
        switch (a[0]) {
            case 's': v = text(a[2], env); break;
            case 'n': v = String(a[2]); break;
            case 'c': v = a[3][mod(data.get(a[2]), a[3].length)] ?? ''; break;
            case 'o': v = a[3][mod(data.get(a[2]), a[3].length)]; break;
            case 'vs': v = data.strs[a[2]]; break;
            case 'vo': v = data.opts[a[2]]; break;
            case 'sus': if (inst && a[1] < 2 && d[2].filter((x) => x[0] === 'sus').pop() === a) cls.push(...SUS[a[1]][loading(inst) ? 1 : 0]); continue;
            case 'css': cls.push(...cssTexts(a[1]).map((x) => '{' + decls(x) + '}')); continue;
            case 'cssc': cls.push(...cssTexts(a[2][mod(data.get(a[1]), a[2].length)]).map((x) => '{' + decls(x) + '}')); continue;
            default: continue;
        }
        if (v === null || v === undefined) continue;
        if (a[1] === 'class') cls.push(...v.split(/[ \n]+/).filter(Boolean)); else attrs[a[1]] = v;
    }
    attrs.class = cls.sort().join(' ');
    return attrs;
};

Inst.kills = 0;
// ---- comparison ---------------------------------------------------------------------------------------------------
/** class name -> declarations of its plain rule */
export const sheet = (doc) => {
    const out = new Map();
    for (const st of doc.head.childNodes) {
        if (!(st instanceof Element_) || st.localName !== 'style') continue;
        const m = /^\.(autocss_[0-9]+) \{([^]*)\}$/.exec(st.textContent.trim());
        if (m) out.set(m[1], decls(m[2]));
    }
    return out;
};
const isSheet = (n) => n instanceof Element_ && n.localName === 'style' && /^\s*(\.autocss_|@keyframes|@media)/.test(n.textContent);

export const attrsNow = (el, css) => {
    const out = {};
    for (const [k, v] of el.attributes) if (k !== 'class') out[k] = v;
    out.class = (el.attributes.get('class') ?? '').split(/[ \n]+/).filter(Boolean).map((c) => (c.startsWith('autocss_') ? '{' + (css.get(c) ?? '?' + c) + '}' : c)).sort().join(' ');
    return out;
};
const nsOf = (tag) => (tag === 'svg' || tag === 'path' ? SVG_NS : HTML_NS);
const show = (x) => (x.e ? `<${x.e[1]}>` : JSON.stringify(x.t));
const showNode = (n) => (n instanceof Text_ ? JSON.stringify(n.data) : `<${n.localName}>`);

export const compare = (el, inst, data, css, path, o) => {
    const d = inst.desc;
    const want = attrsOf(d, inst.env, data, inst);
    const have = attrsNow(el, css);
    for (const k of new Set([...Object.keys(want), ...Object.keys(have)])) {
        if (o.sus && k === 'class') continue;
        if (want[k] !== have[k]) fail(`${path}: attribute ${k} is ${JSON.stringify(have[k])} instead of ${JSON.stringify(want[k])}`, 'attr' + (k === 'class' ? '-class' : ''));
    }
    if ((d[1] === 'input' || d[1] === 'textarea') && !o.typed) {
        const v = want.value;
        const prop = el.value;
        if (d[2].some((a) => a[1] === 'value') && prop !== (v ?? '')) fail(`${path}: the shown value is ${JSON.stringify(prop)} instead of ${JSON.stringify(v ?? '')}`, 'value-prop');
    }
    const kids = el.childNodes.filter((n) => !(n instanceof Comment_) && !(el === el.ownerDocument.head && isSheet(n)));
    const exp = [];
    for (const k of inst.kids) exp.push(...k.shown(data));
    if (d[1] === 'textarea') return;
    for (let i = 0; i < Math.max(kids.length, exp.length); i++) {
        const n = kids[i], x = exp[i];
        if (!n || !x || (n instanceof Text_) !== ('t' in x) || (x.e && n.localName !== x.e[1]) || ('t' in x && x.t !== n.data)) {
            fail(`${path}: child ${i} is ${n ? showNode(n) : 'missing'} instead of ${x ? show(x) : 'nothing'}; children: ${kids.map(showNode).join(' ')}; expected: ${exp.map(show).join(' ')}`, 'children');
        }
        const it = x.inst;
        if (o.identity && it.node && it.node !== n && !it.loose) fail(`${path}: child ${i} ${show(x)} was made anew although nothing it depends on changed`, 'identity');
        it.node = n;
        it.loose = false;
        if (x.e) {
            if (n.namespaceURI !== nsOf(x.e[1])) fail(`${path}: <${x.e[1]}> in namespace ${n.namespaceURI}`, 'namespace');
            compare(n, it, data, css, path + ' > ' + x.e[1] + '[' + i + ']', o);
        }
    }
};
