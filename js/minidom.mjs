// A small document object model: what the browser runtime of vertigo needs, with the DOM standard's rules.
export const HTML_NS = 'http://www.w3.org/1999/xhtml';
export const SVG_NS = 'http://www.w3.org/2000/svg';
let counter = 0;
/** counts every change of a tree, an attribute, a text or a typed value */
export const stats = { changes: 0 };

export class DomError extends Error { constructor(name, m) { super(m); this.name = name; } }

export class EventTarget_ {
    constructor() { this.listeners = new Map(); }
    addEventListener(type, fn) {
        if (fn === null || fn === undefined) return;
        const l = this.listeners.get(type) ?? [];
        if (!l.some((x) => x.fn === fn)) l.push({ fn });
        this.listeners.set(type, l);
    }
    removeEventListener(type, fn) {
        const l = this.listeners.get(type);
        if (!l) return;
        const i = l.findIndex((x) => x.fn === fn);
        if (i >= 0) { l[i].removed = true; l.splice(i, 1); }
        if (!l.length) this.listeners.delete(type);
    }
    listenerCount() { let n = 0; for (const l of this.listeners.values()) n += l.length; return n; }
    /** calls the listeners of this target only */
    fire(event, onError) {
        for (const x of (this.listeners.get(event.type) ?? []).slice()) {
            if (x.removed) continue;
            event.currentTarget = this;
            try { x.fn.call(this, event); } catch (e) { onError(e); }
        }
    }
}

export class Event_ {
    constructor(type, init = {}) {
        this.type = type;
        this.bubbles = init.bubbles ?? false;
        this.target = null;
        this.defaultPrevented = false;
        this.stopped = false;
    }
    preventDefault() { this.defaultPrevented = true; }
    stopPropagation() { this.stopped = true; }
}
export class KeyboardEvent_ extends Event_ {
    constructor(type, init = {}) {
        super(type, init);
        for (const k of ['key', 'code']) this[k] = init[k] ?? '';
        for (const k of ['altKey', 'ctrlKey', 'shiftKey', 'metaKey']) this[k] = init[k] ?? false;
    }
}
export class DragEvent_ extends Event_ {
    constructor(type, init = {}) { super(type, init); this.dataTransfer = init.dataTransfer ?? null; }
}

export class Node_ extends EventTarget_ {
    constructor(doc) { super(); this.ownerDocument = doc; this.parentNode = null; this.childNodes = []; this.uid = ++counter; }
    get firstChild() { return this.childNodes[0] ?? null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
    get nextSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) + 1] ?? null : null; }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === this.ownerDocument; }
    contains(x) { for (let n = x; n; n = n.parentNode) if (n === this) return true; return false; }
    appendChild(child) { return this.insertBefore(child, null); }
    insertBefore(child, ref) {
        if (!(child instanceof Node_)) throw new TypeError('insertBefore: not a node');
        if (!(this instanceof Element_ || this instanceof Document_)) throw new DomError('HierarchyRequestError', 'parent cannot have children');
        if (child.contains(this)) throw new DomError('HierarchyRequestError', 'the new child contains the parent');
        if (ref !== null && ref !== undefined && ref.parentNode !== this) throw new DomError('NotFoundError', 'the reference is not a child of this node');
        if (ref === child) ref = child.nextSibling;
        child.remove();
        stats.changes++;
        const i = ref === null || ref === undefined ? this.childNodes.length : this.childNodes.indexOf(ref);
        this.childNodes.splice(i, 0, child);
        child.parentNode = this;
        return child;
    }
    removeChild(child) {
        if (child.parentNode !== this) throw new DomError('NotFoundError', 'not a child');
        child.remove();
        return child;
    }
    remove() {
        const p = this.parentNode;
        if (!p) return;
        stats.changes++;
        p.childNodes.splice(p.childNodes.indexOf(this), 1);
        this.parentNode = null;
        this.ownerDocument?.onRemoved?.(this);
    }
    get textContent() { return this.childNodes.map((c) => (c instanceof Comment_ ? '' : c.textContent)).join(''); }
    set textContent(v) {
        for (const c of this.childNodes.slice()) c.remove();
        if (String(v) !== '') this.appendChild(new Text_(this.ownerDocument, String(v)));
    }
}
export class CharacterData_ extends Node_ {
    constructor(doc, data) { super(doc); this.data = String(data); }
    get textContent() { return this.data; }
    set textContent(v) { stats.changes++; this.data = v === null ? '' : String(v); }
    get nodeValue() { return this.data; }
    set nodeValue(v) { stats.changes++; this.data = String(v); }
}
export class Text_ extends CharacterData_ {}
export class Comment_ extends CharacterData_ {}

const attrName = /^[^\s"'<>/=\u0000-\u001f\u007f]+$/u;
export class Element_ extends Node_ {
    constructor(doc, name, ns) {
        super(doc);
        this.namespaceURI = ns;
        this.localName = name;
        this.attributes = new Map();
    }
    get tagName() { return this.namespaceURI === HTML_NS ? this.localName.toUpperCase() : this.localName; }
    normName(n) { n = String(n); return this.namespaceURI === HTML_NS ? n.replace(/[A-Z]/g, (c) => c.toLowerCase()) : n; }
    setAttribute(n, v) {
        if (!attrName.test(String(n))) throw new DomError('InvalidCharacterError', 'attribute name ' + n);
        stats.changes++;
        this.attributes.set(this.normName(n), String(v));
    }
    removeAttribute(n) { stats.changes++; this.attributes.delete(this.normName(n)); }
    getAttribute(n) { return this.attributes.get(this.normName(n)) ?? null; }
    hasAttribute(n) { return this.attributes.has(this.normName(n)); }
    get id() { return this.getAttribute('id') ?? ''; }
    set id(v) { this.setAttribute('id', v); }
    get className() { return this.getAttribute('class') ?? ''; }
    set className(v) { this.setAttribute('class', v); }
    get children() { return this.childNodes.filter((c) => c instanceof Element_); }
    *walk() { for (const c of this.childNodes) { yield c; if (c instanceof Element_) yield* c.walk(); } }
}
export class HTMLElement_ extends Element_ {
    constructor(doc, name) { super(doc, name, HTML_NS); }
    focus() { this.ownerDocument.activeElement = this; this.ownerDocument.focusLog.push(this); }
    click() { this.ownerDocument.dispatch(this, new Event_('click', { bubbles: true })); }
}
export class HTMLInputElement_ extends HTMLElement_ {
    constructor(doc, name) { super(doc, name); this.dirty = null; }
    get value() { return this.dirty ?? this.getAttribute('value') ?? ''; }
    set value(v) { this.dirty = String(v); }
}
export class HTMLTextAreaElement_ extends HTMLElement_ {
    constructor(doc, name) { super(doc, name); this.dirty = null; }
    get value() { return this.dirty ?? this.textContent; }
    set value(v) { this.dirty = String(v); }
    get defaultValue() { return this.textContent; }
    set defaultValue(v) { this.textContent = v; }
}
export class HTMLSelectElement_ extends HTMLElement_ {
    constructor(doc, name) { super(doc, name); this.dirty = null; }
    get value() { return this.dirty ?? ''; }
    set value(v) { this.dirty = String(v); }
}
export class Document_ extends Node_ {
    constructor() {
        super(null);
        this.ownerDocument = this;
        this.focusLog = [];
        this.activeElement = null;
        this.created = 0;
        this.documentElement = this.createElement('html');
        this.insertBefore(this.documentElement, null);
        this.head = this.documentElement.appendChild(this.createElement('head'));
        this.body = this.documentElement.appendChild(this.createElement('body'));
        this.onError = (e) => { throw e; };
    }
    createElement(name) {
        name = String(name);
        if (!/^[A-Za-z:_\u0080-\uffff][^\s<>/"'=\u0000]*$/.test(name)) throw new DomError('InvalidCharacterError', 'tag name ' + name);
        this.created++;
        const n = name.replace(/[A-Z]/g, (c) => c.toLowerCase());
        if (n === 'input') return new HTMLInputElement_(this, n);
        if (n === 'textarea') return new HTMLTextAreaElement_(this, n);
        if (n === 'select') return new HTMLSelectElement_(this, n);
        return new HTMLElement_(this, n);
    }
    createElementNS(ns, name) {
        if (ns === HTML_NS) return this.createElement(name);
        this.created++;
        return new Element_(this, String(name), ns);
    }
    createTextNode(v) { this.created++; return new Text_(this, v); }
    createComment(v) { this.created++; return new Comment_(this, v); }
    querySelectorAll(sel) {
        const m = /^\*\[([a-z-]+)\]$/.exec(sel);
        if (!m) throw Error('harness: selector ' + sel);
        const out = [];
        const go = (n) => { for (const c of n.childNodes) if (c instanceof Element_) { if (c.hasAttribute(m[1])) out.push(c); go(c); } };
        go(this);
        return out;
    }
    getElementById(id) {
        const go = (n) => { for (const c of n.childNodes) if (c instanceof Element_) { if (c.getAttribute('id') === id) return c; const r = go(c); if (r) return r; } return null; };
        return go(this);
    }
    /** dispatches along the path target .. document (and window) */
    dispatch(target, event) {
        event.target = target;
        const path = [];
        for (let n = target; n; n = n.parentNode) path.push(n);
        if (path[path.length - 1] === this && this.defaultView) path.push(this.defaultView);
        for (let i = 0; i < path.length; i++) {
            if (i > 0 && !event.bubbles) break;
            path[i].fire(event, this.onError);
            if (event.stopped) break;
        }
        return !event.defaultPrevented;
    }
}

/** [tag, {attrs}, children] / text; comments are left out; adjacent texts are kept apart when `split` */
export const snapshot = (node, o = {}) => {
    if (node instanceof Text_) return node.data;
    const attrs = {};
    for (const k of [...node.attributes.keys()].sort()) attrs[k] = node.attributes.get(k);
    const children = [];
    for (const c of node.childNodes) {
        if (c instanceof Comment_) continue;
        const s = snapshot(c, o);
        if (typeof s === 'string' && o.merge) {
            if (s === '') continue;
            if (typeof children[children.length - 1] === 'string') { children[children.length - 1] += s; continue; }
        }
        children.push(s);
    }
    return [node.localName + (node.namespaceURI === HTML_NS ? '' : node.namespaceURI === SVG_NS ? '@svg' : '@' + node.namespaceURI), attrs, children];
};
export const render = (s, ind = '') => {
    if (typeof s === 'string') return ind + JSON.stringify(s);
    const a = Object.entries(s[1]).map(([k, v]) => ` ${k}=${JSON.stringify(v)}`).join('');
    return `${ind}<${s[0]}${a}>` + s[2].map((c) => '\n' + render(c, ind + '  ')).join('');
};
