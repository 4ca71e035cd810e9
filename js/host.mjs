// A simulated browser: runs vertigo's JavaScript runtime (committed bundle or built from its sources) with the guest.
import * as D from './minidom.mjs';
import { encode, decode } from './n.mjs';
import { Violation } from './engine.mjs';
import { trap, misuse, last } from './bare.mjs';

const NAMES = ['window', 'document', 'location', 'history', 'fetch', 'Headers', 'WebSocket', 'setTimeout', 'setInterval', 'clearTimeout', 'clearInterval', 'console',
    'Element', 'HTMLElement', 'HTMLInputElement', 'HTMLTextAreaElement', 'HTMLSelectElement', 'Text', 'Comment', 'Event', 'DragEvent', 'KeyboardEvent', 'WebAssembly', 'Date', 'Math', 'navigator', 'performance', 'queueMicrotask', 'globalThis', 'self'];
const compiled = new Map();
const compile = (code) => {
    let f = compiled.get(code);
    if (!f) { f = new Function(...NAMES, code); compiled.set(code, f); }
    return f;
};

let current = null;
let hooked = false;
const hookRejections = () => {
    if (hooked) return;
    hooked = true;
    process.on('unhandledRejection', (e) => { if (current) current.jsErrors.push(e); else throw e; });
};
const RealDate = Date;

export class Browser {
    /** o: {module, code, url, boot?, runWasm?: bool, fake?: exports in place of the program's, ...} */
    constructor(o) {
        hookRejections();
        current = this;
        this.o = o;
        this.now = o.now ?? 1700000000000;
        this.timers = [];
        this.timerSeq = 1;
        this.tasks = [];
        this.jsErrors = [];
        this.console = [];
        this.panics = [];
        this.fetches = [];
        this.sockets = [];
        this.scrolls = [];
        this.starts = 0;
        this.callbacks = 0; // calls of the runtime into the program
        this.inst = null;
        const doc = this.document = o.document ?? new D.Document_();
        doc.onError = (e) => this.jsErrors.push(e);
        const win = this.window = new D.EventTarget_();
        doc.defaultView = win;
        this.entries = [new URL(o.url ?? 'http://app.test/')];
        this.index = 0;
        this.makeGlobals();
        if (o.runWasm !== false) {
            const s = doc.createElement('script');
            s.setAttribute('data-vertigo-run-wasm', o.wasmPath ?? '/app.wasm');
            doc.body.appendChild(s);
        }
        if (o.setup) o.setup(this);
        compile(o.code)(...NAMES.map((n) => this.globals[n]));
    }
    makeGlobals() {
        const self = this;
        const win = this.window, doc = this.document;
        const url = () => self.entries[self.index];
        const location = this.location = {
            get pathname() { return url().pathname; },
            get search() { return url().search; },
            get href() { return url().href; },
            get origin() { return url().origin; },
            get host() { return url().host; },
            get protocol() { return url().protocol; },
            get hash() { return url().hash; },
            set hash(v) {
                const u = new URL(url());
                u.hash = v;
                if (u.href === url().href) return;
                const old = url();
                self.entries.splice(self.index + 1);
                self.entries.push(u);
                self.index++;
                self.task(() => self.fireWindow('popstate'));
                if (old.hash !== u.hash) self.task(() => self.fireWindow('hashchange'));
            },
        };
        const traverse = (d) => {
            self.task(() => {
                const to = self.index + d;
                if (to < 0 || to >= self.entries.length || d === 0) return;
                const old = url();
                self.index = to;
                self.fireWindow('popstate');
                if (old.hash !== url().hash) self.fireWindow('hashchange');
            });
        };
        const history = this.history = {
            get length() { return self.entries.length; },
            pushState(_s, _t, u) { const n = new URL(u, url()); self.checkOrigin(n); self.entries.splice(self.index + 1); self.entries.push(n); self.index++; },
            replaceState(_s, _t, u) { const n = new URL(u, url()); self.checkOrigin(n); self.entries[self.index] = n; },
            back() { traverse(-1); },
            forward() { traverse(1); },
            go(d) { traverse(d); },
        };
        const cookies = this.cookies = new Map();
        Object.defineProperty(doc, 'cookie', {
            get: () => { self.expireCookies(); return [...cookies].map(([k, c]) => (k === '' ? c.value : k + '=' + c.value)).join('; '); },
            set: (text) => self.setCookie(String(text)),
            configurable: true,
        });
        class VDate extends RealDate {
            constructor(...a) { if (a.length) super(...a); else super(self.now); }
            static now() { return self.now; }
            getTimezoneOffset() { return self.o.tz ?? 0; }
        }
        const random = () => (self.o.random ? self.o.random() : Math.random());
        const VMath = Object.create(Math, { random: { value: random } });
        const log = (level) => (...a) => { self.console.push([level, ...a]); if (level === 'error' && a[0] === 'PANIC') self.panics.push(String(a[1])); };
        const cons = {};
        for (const l of ['debug', 'info', 'log', 'warn', 'error']) cons[l] = log(l);
        class WS extends D.EventTarget_ {
            constructor(u) {
                super();
                this.url = u;
                this.readyState = 0;
                this.sent = [];
                this.closeCalled = false;
                self.sockets.push(this);
            }
            send(m) {
                if (this.readyState === 0) throw new D.DomError('InvalidStateError', 'still connecting');
                if (this.readyState === 1) this.sent.push(m);
            }
            close() {
                this.closeCalled = true;
                if (this.readyState >= 2) return;
                const connecting = this.readyState === 0;
                this.readyState = 2;
                self.task(() => { this.readyState = 3; if (connecting) self.fireOn(this, new D.Event_('error')); self.fireOn(this, new D.Event_('close')); });
            }
        }
        const wa = {
            Memory: WebAssembly.Memory,
            RuntimeError: WebAssembly.RuntimeError,
            instantiateStreaming: async (src, imports) => {
                await src;
                if (self.o.watch) { for (const m of Object.values(imports)) for (const [k, f] of Object.entries(m)) if (typeof f === 'function') m[k] = (...a) => { const n = D.stats.changes; try { return f(...a); } finally { if (D.stats.changes !== n) self.o.watch(self); } }; }
                if (self.o.fake) { self.inst = { exports: self.o.fake(self, imports) }; return { instance: self.inst }; }
                last.inst = self.inst = new WebAssembly.Instance(self.o.module, imports);
                if (self.o.prepareInstance) self.o.prepareInstance(self.inst);
                if (self.o.boot) self.exec(self.o.boot);
                const entry = self.inst.exports;
                self.entryCalls = 0;
                return { module: self.o.module, instance: { exports: { ...entry, vertigo_entry_function: (...a) => { self.entryCalls++; return entry.vertigo_entry_function(...a); }, wasm_callback: (...a) => { self.callbacks++; return entry.wasm_callback(...a); } } } };
            },
        };
        const g = this.globals = {
            window: win, document: doc, location, history,
            fetch: (u, opts) => self.doFetch(u, opts),
            Headers, WebSocket: WS,
            setTimeout: (fn, ms) => self.addTimer(fn, ms, false),
            setInterval: (fn, ms) => self.addTimer(fn, ms, true),
            clearTimeout: (id) => self.clearTimer(id),
            clearInterval: (id) => self.clearTimer(id),
            console: cons,
            Element: D.Element_, HTMLElement: D.HTMLElement_, HTMLInputElement: D.HTMLInputElement_, HTMLTextAreaElement: D.HTMLTextAreaElement_, HTMLSelectElement: D.HTMLSelectElement_,
            Text: D.Text_, Comment: D.Comment_, Event: D.Event_, DragEvent: D.DragEvent_, KeyboardEvent: D.KeyboardEvent_,
            WebAssembly: wa, Date: VDate, Math: VMath, navigator: { userAgent: 'harness' },
            performance: { now: () => self.now - 1700000000000 },
            queueMicrotask, globalThis: win, self: win,
        };
        for (const k of NAMES) if (k !== 'window') win[k] = g[k];
        win.window = win;
        win.scrollTo = (x, y) => self.scrolls.push([x, y]);
    }
    checkOrigin(u) { if (u.origin !== this.entries[this.index].origin) throw new D.DomError('SecurityError', 'other origin'); }
    task(fn) { this.tasks.push(fn); }
    guard(fn) { try { fn(); } catch (e) { this.jsErrors.push(e); } }
    fireOn(target, ev) { ev.target = target; target.fire(ev, (e) => this.jsErrors.push(e)); }
    fireWindow(type) { this.fireOn(this.window, new D.Event_(type)); }

    // timers -------------------------------------------------------------------------------------------------------
    addTimer(fn, ms, repeat) {
        ms = Math.max(0, Number(ms) || 0);
        const t = { id: this.timerSeq++, fn, at: this.now + (repeat ? Math.max(1, ms) : ms), every: repeat ? Math.max(1, ms) : 0 };
        this.timers.push(t);
        return t.id;
    }
    clearTimer(id) { const i = this.timers.findIndex((t) => t.id === id); if (i >= 0) this.timers.splice(i, 1); }
    nextTimer() {
        let best = null;
        for (const t of this.timers) if (!best || t.at < best.at || (t.at === best.at && t.id < best.id && !t.every === !best.every)) best = t;
        return best;
    }
    /** lets everything that is ready run (promises, tasks) */
    async settle() {
        for (;;) {
            await new Promise((r) => setImmediate(r));
            const t = this.tasks.shift();
            if (!t) break;
            this.guard(t);
        }
        this.check();
    }
    /** moves the clock, running due timers in order */
    async advance(ms) {
        const end = this.now + ms;
        await this.settle();
        for (;;) {
            const t = this.nextTimer();
            if (!t || t.at > end) break;
            this.now = Math.max(this.now, t.at);
            if (t.every) t.at += t.every; else this.clearTimer(t.id);
            this.guard(() => t.fn());
            await this.settle();
        }
        this.now = end;
    }
    // requests -----------------------------------------------------------------------------------------------------
    doFetch(u, opts) {
        if (String(u) === (this.o.wasmPath ?? '/app.wasm')) { this.starts++; return this.o.wasmWait ?? Promise.resolve({ wasm: true }); }
        const headers = Object.create(null);
        if (opts?.headers) for (const [k, v] of opts.headers) headers[k] = v;
        const body = opts?.body instanceof Uint8Array ? opts.body.slice() : opts?.body;
        const r = { url: String(u), method: opts?.method ?? 'GET', headers, body, done: false };
        if (!/^[A-Z]+$/.test(r.method)) return Promise.reject(new TypeError('method'));
        if (['CONNECT', 'TRACE', 'TRACK'].includes(r.method)) return Promise.reject(new TypeError(`Failed to execute 'fetch': '${r.method}' HTTP method is unsupported.`));
        try { const at = new URL(r.url, this.entries[this.index]); if (at.username || at.password) throw Error(); } catch { return Promise.reject(new TypeError("Failed to execute 'fetch': Failed to parse URL from " + r.url)); }
        if (body !== undefined && body !== null && (r.method === 'GET' || r.method === 'HEAD')) return Promise.reject(new TypeError("Failed to execute 'fetch': Request with GET/HEAD method cannot have body."));
        const p = new Promise((resolve, reject) => { r.resolve = resolve; r.reject = reject; });
        this.fetches.push(r);
        return p;
    }
    /** answers request r: {status, type, body: Uint8Array|string, broken?} */
    respond(r, a) {
        r.done = true;
        const bytes = typeof a.body === 'string' ? new TextEncoder().encode(a.body) : a.body;
        const h = new Headers();
        if (a.type !== null && a.type !== undefined) h.set('content-type', a.type);
        r.resolve({
            status: a.status, ok: a.status >= 200 && a.status < 300, headers: h,
            json: async () => { if (a.broken) throw new TypeError('body broken'); return JSON.parse(new TextDecoder().decode(bytes)); },
            text: async () => { if (a.broken) throw new TypeError('body broken'); return new TextDecoder().decode(bytes); },
            arrayBuffer: async () => { if (a.broken) throw new TypeError('body broken'); return bytes.slice().buffer; },
        });
    }
    failFetch(r, message) { r.done = true; r.reject(new TypeError(message)); }
    // cookies ------------------------------------------------------------------------------------------------------
    expireCookies() { for (const [k, c] of this.cookies) if (c.expires !== null && c.expires <= this.now) this.cookies.delete(k); }
    setCookie(text) {
        const [pair, ...attrs] = text.split(';');
        const eq = pair.indexOf('=');
        const name = eq < 0 ? '' : pair.slice(0, eq).trim();
        const value = (eq < 0 ? pair : pair.slice(eq + 1)).trim();
        let expires = null, path = null;
        for (const a of attrs) {
            const i = a.indexOf('=');
            const k = (i < 0 ? a : a.slice(0, i)).trim().toLowerCase(), v = i < 0 ? '' : a.slice(i + 1).trim();
            if (k === 'expires') { const t = RealDate.parse(v); if (!Number.isNaN(t)) expires = t; }
            if (k === 'max-age' && /^-?[0-9]+$/.test(v)) expires = this.now + Number(v) * 1000;
            if (k === 'path') path = v;
        }
        if (/[\u0000-\u0008\u000a-\u001f\u007f]/.test(text)) return;
        if (this.cookies.has(name)) { const c = this.cookies.get(name); c.value = value; c.expires = expires; c.path = path; } else this.cookies.set(name, { value, expires, path });
        this.expireCookies();
    }
    // sockets ------------------------------------------------------------------------------------------------------
    wsOpen(s) { if (s.readyState !== 0) return false; s.readyState = 1; this.fireOn(s, new D.Event_('open')); return true; }
    wsMessage(s, data) { if (s.readyState !== 1) return false; const e = new D.Event_('message'); e.data = data; this.fireOn(s, e); return true; }
    wsFail(s) { if (s.readyState >= 3) return; s.readyState = 3; this.fireOn(s, new D.Event_('error')); this.fireOn(s, new D.Event_('close')); }
    wsClose(s) { if (s.readyState >= 3) return; s.readyState = 3; this.fireOn(s, new D.Event_('close')); }
    // events -------------------------------------------------------------------------------------------------------
    dispatch(target, ev) { this.document.dispatch(target, ev); return ev; }
    // the guest ----------------------------------------------------------------------------------------------------
    exec(req) {
        const b = encode(req);
        const e = this.inst.exports;
        const p = e.vp_alloc(b.length);
        new Uint8Array(e.memory.buffer).set(b, p);
        let r;
        try { r = e.vp_exec(p, b.length); } catch (err) { throw trap(err, this.panics, String(req[0])); }
        const ptr = Number((r >> 32n) & 0xffffffffn), len = Number(r & 0xffffffffn);
        const out = new Uint8Array(e.memory.buffer, ptr, len).slice();
        e.vp_free(ptr, len);
        return decode(out);
    }
    /** raises a violation when the program crashed or the runtime threw */
    check() {
        if (this.o.noCheck) return;
        for (const e of this.jsErrors) {
            const t = trap(e, this.panics, 'callback');
            if (t !== e) throw t;
            if (e instanceof Violation || /harness/.test(e.message)) throw e;
            throw new Violation(`the browser runtime threw ${e.stack}`, 'js-throw');
        }
        if (this.panics.length && !this.o.allowPanicMessage) throw new Violation(`the program reported: ${this.panics.join(' | ')}`, 'panic-message');
    }
    errors() { return this.console.filter((c) => c[0] === 'error'); }
    /** page load: the runtime starts the module */
    async start() {
        this.fireWindow('load');
        await this.settle();
        if (!this.inst) throw new Violation('the page is loaded, but the program was not started', 'not-started');
        return this;
    }
    get api() { return this.window.$vertigoApi; }
    close() { if (current === this) current = null; }
    /** memory used after its release (after the last look), found by the program's own allocator */
    memory() { misuse(this.inst); }
}
