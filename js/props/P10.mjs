// Update streams fed to the browser runtime, against a model of what they mean.
import { fail } from '../engine.mjs';
import { Browser } from '../host.mjs';
import { Element_, Text_, Comment_, Event_, KeyboardEvent_, HTML_NS, SVG_NS } from '../minidom.mjs';
import { TEXTS } from './page.mjs';

const TAGS = ['div', 'span', 'p', 'a', 'input', 'textarea', 'select', 'svg', 'path', 'button', 'my-el', 'DIV', 'title', 'style', 'script', 'section'];
const ATTRS = ['id', 'title', 'class', 'value', 'data-x', 'autofocus', 'href', 'AUTOFOCUS', 'viewBox', 'xlink:href', 'aria-label', 'style', 'tabindex', 'onclick'];
const EVENTS = ['click', 'input', 'change', 'blur', 'mousedown', 'mouseup', 'mouseenter', 'mouseleave', 'keydown', 'hook_keydown', 'load'];

/** what a stream means */
class Model {
    constructor() {
        this.nodes = new Map();
        for (const [id, tag] of [[1, 'html'], [2, 'head'], [3, 'body']]) this.nodes.set(id, { id, kind: 'e', tag, attrs: new Map(), kids: [], parent: null, root: true });
        this.put(1, 2, null); this.put(1, 3, null);
        this.cb = new Map();
        this.css = 0;
        this.first = true;
    }
    put(p, c, ref) {
        this.cut(c);
        const P = this.nodes.get(p);
        const i = ref === null ? P.kids.length : P.kids.indexOf(ref);
        P.kids.splice(i, 0, c);
        this.nodes.get(c).parent = p;
    }
    cut(c) {
        const C = this.nodes.get(c);
        if (C.parent === null) return;
        const P = typeof C.parent === 'object' ? C.parent : this.nodes.get(C.parent);
        P.kids.splice(P.kids.indexOf(c), 1);
        C.parent = null;
    }
    has(p, c) { for (let n = c; n !== null && typeof n !== 'object'; n = this.nodes.get(n)?.parent ?? null) if (n === p) return true; return false; }
    apply(x, focus) {
        const n = this.nodes.get(x.id);
        switch (x.type) {
            case 'create_node': if (x.id > 3) this.nodes.set(x.id, { id: x.id, kind: 'e', tag: x.name, attrs: new Map(), kids: [], parent: null, value: null }); break;
            case 'create_text': this.nodes.set(x.id, { id: x.id, kind: 't', data: x.value, parent: null }); break;
            case 'create_comment': this.nodes.set(x.id, { id: x.id, kind: 'c', data: x.value, parent: null }); break;
            case 'update_text': n.data = x.value; break;
            case 'set_attr': {
                const ns = n.tag === 'svg' || n.tag === 'path';
                n.attrs.set(ns ? x.name : x.name.toLowerCase(), x.value);
                if (x.name === 'value' && (n.tag === 'input' || n.tag === 'textarea')) n.value = x.value;
                if (x.name.toLowerCase() === 'autofocus') focus.add(x.id);
                break;
            }
            case 'remove_attr': {
                const ns = n.tag === 'svg' || n.tag === 'path';
                n.attrs.delete(ns ? x.name : x.name.toLowerCase());
                if (x.name === 'value' && (n.tag === 'input' || n.tag === 'textarea')) n.value = '';
                break;
            }
            case 'insert_before': this.put(x.parent, x.child, x.ref_id); break;
            case 'remove_node': case 'remove_text': case 'remove_comment':
                this.cut(x.id);
                // what was inside goes with it, out of the page
                for (const k of n.kids ?? []) this.nodes.get(k).parent = n;
                this.nodes.delete(x.id);
                break;
            case 'insert_css': this.css++; this.sheet = [...(this.sheet ?? []), `${x.selector} { ${x.value} }`]; break;
            case 'callback_add': this.cb.set(x.callback_id, [x.id, x.event_name]); break;
            case 'callback_remove': this.cb.delete(x.callback_id); break;
        }
    }
}
const generate = (s) => {
    const m = new Model();
    let next = 4 + s.draw(3) * 100, cb = 1;
    const ids = (f) => [...m.nodes.values()].filter(f).map((n) => n.id);
    const text = () => s.pick(TEXTS) + (s.bool(0.2) ? s.draw(9) : '');
    const command = () => {
        const els = ids((n) => n.kind === 'e');
        const k = s.weighted([[6, 'new'], [2, 'text'], [1, 'comment'], [9, 'insert'], [4, 'attr'], [2, 'rmattr'], [2, 'update'], [3, 'remove'], [0.7, 'css'], [2, 'cb'], [1, 'rmcb'], [0.3, 'root']]);
        switch (k) {
            case 'new': return { type: 'create_node', id: next++, name: s.pick(TAGS) };
            case 'text': return { type: 'create_text', id: next++, value: text() };
            case 'comment': return { type: 'create_comment', id: next++, value: s.pick(['', 'value', 'list element']) };
            case 'root': { const id = 1 + s.draw(3); return { type: 'create_node', id, name: ['html', 'head', 'body'][id - 1] }; }
            case 'insert': {
                const free = ids((n) => n.id > 3);
                if (!free.length) return null;
                const c = s.bool(0.6) ? free[free.length - 1 - s.draw(Math.min(4, free.length))] : s.pick(free);
                const ps = els.filter((p) => p !== 1 && !m.has(c, p));
                if (!ps.length) return null;
                const p = s.bool(0.25) && ps.includes(3) ? 3 : s.pick(ps);
                const kids = m.nodes.get(p).kids.filter((x) => x !== c);
                return { type: 'insert_before', parent: p, child: c, ref_id: kids.length && s.bool(0.6) ? s.pick(kids) : null };
            }
            case 'attr': return { type: 'set_attr', id: s.pick(els), name: s.pick(ATTRS), value: text() };
            case 'rmattr': return { type: 'remove_attr', id: s.pick(els), name: s.pick(ATTRS) };
            case 'update': { const t = ids((n) => n.kind === 't'); return t.length ? { type: 'update_text', id: s.pick(t), value: text() } : null; }
            case 'remove': {
                const l = ids((n) => n.id > 3 && ![...m.cb.values()].some((x) => x[0] === n.id && x[1] !== 'hook_keydown'));
                if (!l.length) return null;
                const n = m.nodes.get(s.pick(l));
                return { type: n.kind === 'e' ? 'remove_node' : n.kind === 't' ? 'remove_text' : 'remove_comment', id: n.id };
            }
            case 'css': return { type: 'insert_css', selector: s.pick(['.autocss_1', '.autocss_2:hover', '@keyframes autocss_3', '@media (min-width: 1px) ']), value: s.pick(['color: red', 'margin: 0 auto;', 'content: "}"', '0% { a: b } 100% { a: c }']) };
            case 'cb': return { type: 'callback_add', id: s.pick(els), event_name: s.pick(EVENTS), callback_id: cb++ };
            case 'rmcb': { const l = [...m.cb]; if (!l.length) return null; const [k2, [id, ev]] = s.pick(l); return { type: 'callback_remove', id, event_name: ev, callback_id: k2 }; }
        }
        return null;
    };
    const batches = s.list(1, 8, () => s.bool(0.12)
        ? ['type', s.draw(50), text()]
        : ['cmds', s.list(0, 14, () => { const x = command(); if (x) m.apply(x, new Set()); return x; }, 7).filter(Boolean)], 5);
    return { batches, ssr: s.bool(0.7) ? [s.draw(3), 1 + s.draw(3)] : null };
};
const fake = () => {
    const memory = new WebAssembly.Memory({ initial: 1 });
    let top = 1024;
    const out = {
        memory, called: [],
        alloc: (n) => { const p = top; top += n; while (memory.buffer.byteLength < top + 16) memory.grow(1); return p; },
        free: () => {}, vertigo_entry_function: () => {},
        wasm_callback: (id) => { out.called.push(Number(id)); return 0n; },
    };
    return out;
};

const runOne = async (c, code, name) => {
    const b = new Browser({ code, fake, setup: (b) => {
        if (!c.ssr) return;
        for (let i = 0; i < c.ssr[0]; i++) b.document.head.appendChild(b.document.createElement('style'));
        for (let i = 0; i < c.ssr[1]; i++) b.document.body.appendChild(i % 2 ? b.document.createTextNode('ssr') : b.document.createElement('div'));
    } });
    try {
        await b.start();
        const dom = b.api.dom;
        const doc = b.document;
        const m = new Model();
        const real = new Map([[1, doc.documentElement], [2, doc.head], [3, doc.body]]);
        const known = new Map([...real].map(([k, v]) => [v, k]));
        let pre = [...doc.head.childNodes, ...doc.body.childNodes];
        const preSet = new Set(pre);
        let focusExp = [];
        const nop = () => {};
        for (let i = 0; i < c.batches.length; i++) {
            const [kind, arg, txt] = c.batches[i];
            const what = `${name}: batch ${i + 1}`;
            if (kind === 'type') {
                const l = [...m.nodes.values()].filter((n) => n.tag === 'input' || n.tag === 'textarea');
                if (!l.length) continue;
                const n = l[arg % l.length];
                real.get(n.id).value = txt;
                n.value = txt;
                continue;
            }
            const focus = new Set();
            dom.dom_bulk_update(arg);
            const removedNodes = [];
            for (const x of arg) {
                if (x.type.startsWith('remove_') && x.id !== undefined && x.type !== 'remove_attr') removedNodes.push(x.id);
                m.apply(x, focus);
            }
            for (const id of removedNodes) { const n = real.get(id); if (n) known.delete(n); real.delete(id); }
            for (const id of focus) { const n = m.nodes.get(id); if (n && n.tag !== 'svg' && n.tag !== 'path') focusExp.push([id]); }
            const err = b.errors();
            if (err.length) fail(`${what}: reported ${err.map((e) => e.slice(1).map((y) => (y instanceof Error ? y.message : JSON.stringify(y))).join(' ')).join(' | ')}`, 'console-error');
            // the nodes
            const ids = [...m.nodes.keys()];
            for (const id of ids) {
                const n = m.nodes.get(id);
                const r = dom.nodes.get_any_option(id);
                if (!r) fail(`${what}: node ${id} is missing`, 'missing');
                if (real.has(id) && real.get(id) !== r) fail(`${what}: node ${id} was made anew`, 'identity');
                if (!real.has(id)) { if (known.has(r)) fail(`${what}: nodes ${id} and ${known.get(r)} are the same`, 'identity'); real.set(id, r); known.set(r, id); }
            }
            for (const id of ids) {
                const n = m.nodes.get(id), r = real.get(id);
                if (n.kind !== 'e') {
                    if (!(r instanceof (n.kind === 't' ? Text_ : Comment_)) || r.data !== n.data) fail(`${what}: node ${id} holds ${JSON.stringify(r.data)} instead of ${JSON.stringify(n.data)}`, 'text');
                    continue;
                }
                if (!(r instanceof Element_) || r.localName.toLowerCase() !== n.tag.toLowerCase()) fail(`${what}: node ${id} is <${r.localName}> instead of <${n.tag}>`, 'tag');
                const ns = n.tag === 'svg' || n.tag === 'path' ? SVG_NS : HTML_NS;
                if (r.namespaceURI !== ns) fail(`${what}: <${n.tag}> in namespace ${r.namespaceURI}`, 'namespace');
                const a = JSON.stringify([...r.attributes].sort()), w = JSON.stringify([...n.attrs].sort());
                if (a !== w) fail(`${what}: attributes of ${id} <${n.tag}> are ${a} instead of ${w}`, 'attributes');
                if ((n.tag === 'input' || n.tag === 'textarea') && n.value !== null && r.value !== n.value) fail(`${what}: <${n.tag}> shows ${JSON.stringify(r.value)} instead of ${JSON.stringify(n.value)}`, 'value');
                let kids = r.childNodes;
                if (id === 2) {
                    const sheet = kids.filter((k) => !known.has(k) && !preSet.has(k)).map((k) => k.textContent);
                    if (JSON.stringify(sheet) !== JSON.stringify(m.sheet ?? [])) fail(`${what}: style sheet ${JSON.stringify(sheet)} instead of ${JSON.stringify(m.sheet ?? [])}`, 'css');
                    kids = kids.filter((k) => known.has(k) || preSet.has(k));
                }
                if (n.tag === 'textarea') continue;
                const list = kids.map((k) => known.get(k) ?? (preSet.has(k) ? 'old page' : 'unknown'));
                // nodes that were removed while they were children stay where they are told to be: nowhere
                if (JSON.stringify(list) !== JSON.stringify(n.kids)) fail(`${what}: children of ${id} <${n.tag}> are [${list}] instead of [${n.kids}]`, 'children');
            }
            // listeners
            for (const [cid, [id, ev]] of m.cb) {
                const hook = ev === 'hook_keydown';
                if (!hook && !m.nodes.has(id)) continue;
                const type = hook ? 'keydown' : ev;
                const target = hook ? doc : real.get(id);
                if ((type === 'input' || type === 'change') && !['input', 'textarea'].includes(target.localName)) continue;
                b.inst.exports.called.length = 0;
                const e = type === 'keydown' ? new KeyboardEvent_(type, {}) : new Event_(type);
                const saved = target.attributes?.get('href');
                target.attributes?.delete('href');
                b.dispatch(target, e);
                if (saved !== undefined) target.attributes.set('href', saved);
                const want = [...m.cb].filter(([, [i2, e2]]) => (hook ? e2 === ev : i2 === id && e2 === ev)).map((x) => x[0]);
                // on the document the hooks come from every node
                if (JSON.stringify(b.inst.exports.called.slice().sort()) !== JSON.stringify(want.slice().sort())) fail(`${what}: a ${type} event on ${id} calls [${b.inst.exports.called}] instead of [${want}]`, 'listeners');
            }
            if (dom.callbacks.size !== m.cb.size) fail(`${what}: ${dom.callbacks.size} callbacks kept, ${m.cb.size} added`, 'callbacks');
            if (c.settleEach?.[i] !== false) {
                await b.advance(1);
                const log = doc.focusLog.map((n) => known.get(n));
                const want = focusExp.map((x) => x[0]).filter((id) => m.nodes.has(id));
                if (JSON.stringify(log) !== JSON.stringify(want)) fail(`${what}: focus went to [${log}] instead of [${want}]`, 'focus');
                doc.focusLog.length = 0;
                focusExp = [];
            }
        }
        b.check();
        return { size: m.nodes.size };
    } finally { b.close(); }
};
export default {
    id: 'P10', quick: 15000, thorough: 500000,
    rule: 'Valid streams of up to 8 batches of up to 14 update commands of all kinds (nodes stay valid: references are live, no cycles, callbacks removed before their node), with text typed by the user in between, fed to the runtime over an old page, to the committed bundle and to the one built from the sources; after every batch all nodes (attached or not), attributes, texts, order, identity, listeners, style sheet and focus are compared with a model. Non-trivial = at least two batches and five commands that are not creations.',
    assumptions: ['focus requests in one batch are carried out in the order of the nodes first marked, for nodes that still exist'],
    generate: (src) => generate(src),
    run: async (c, env) => {
        await runOne(c, env.bundle, 'bundle');
        if (env.ts) await runOne(c, env.ts, 'sources');
        const cmds = c.batches.filter((x) => x[0] === 'cmds').flatMap((x) => x[1]);
        return { nontrivial: c.batches.length >= 2 && cmds.filter((x) => !x.type.startsWith('create')).length >= 5, classes: [...new Set(cmds.map((x) => x.type))] };
    },
};
