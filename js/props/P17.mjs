// The page sent by the server is replaced once, when the first data is there; after that every change shows at once.
import { fail } from '../engine.mjs';
import { Browser } from '../host.mjs';
import { Comment_, Element_ } from '../minidom.mjs';
import { Gen, Data, Inst, compare, sheet } from './page.mjs';
import { kinds } from './pageprop.mjs';

const K = 3;
const cfg = { depth: 3, budget: 30, sus: 0.2, lw: 2, w: { rv: 3, ro: 3, rl: 2, e: 5 } };
class G extends Gen {
    constructor(s, c, lazy) { super(s, c); this.lazy = lazy; }
    children(depth, env, max = 5) { return this.s.list(1, max, () => this.node(depth - 1, env), 3); }
    extra(depth, env, leaf) {
        const s = this.s;
        if (!s.bool(this.lazy)) return null;
        const style = s.weighted([[4, 0], [leaf ? 0.01 : 4, 1], [1, 2]]);
        return style === 1 ? ['lazy', s.draw(K), 1, leaf ? ['t', ['x'], 0] : this.node(depth - 1, env)] : ['lazy', s.draw(K), style];
    }
    setup() {
        const s = this.s;
        const out = super.setup();
        for (let i = 0; i < K; i++) out.push(['lz', i, ['GET', '/r' + i, null, null, null, 0, null], 2, 0]);
        if (s.bool(0.3)) out.push(['lzforce', s.draw(K), s.draw(2)]);
        for (let n = s.weighted([[4, 0], [2, 1], [1, 2]]); n > 0; n--) out.push(this.raw());
        return out;
    }
    raw() { return ['task', 500 + this.id++, [['fetch', 900, ['GET', '/raw' + this.id, null, null, null, 0, null], 0]]]; }
    answer() { return this.s.weighted([[5, () => ['ok', this.s.pick(['one', 'two', 'three', ''])]], [2, () => ['missing']], [1.5, () => ['fail', this.s.pick(['boom', 'x y'])]], [1, () => ['broken']]])(); }
    op() {
        const s = this.s;
        return s.weighted([[5, () => super.op()], [7, () => ['answer', s.draw(6), this.answer()]], [1.5, () => ['lzforce', s.draw(K), s.draw(2)]], [1, () => ['lzforget', s.draw(K)]], [1.5, () => this.raw()], [1, () => ['wait', s.pick([1, 100, 3000, 60000])]],
            [1, () => ['tx', s.list(1, 4, () => s.bool(0.4) ? ['lzforget', s.draw(K)] : s.bool(0.2) ? ['lzforce', s.draw(K), s.draw(2)] : this.write(), 2)]]])();
    }
}
/** what the server sent: [tag, attributes, children] or a text */
const served = (s, depth) => s.weighted([[2, () => s.pick(['served', ' ', 'x'])], [1, () => ['#', 'note']], [3, () => [s.pick(['div', 'p', 'style', 'script', 'input', 'span', 'textarea']), s.bool(0.3) ? [['class', 'autocss_1']] : [], depth ? s.list(0, 3, () => served(s, depth - 1), 1) : []]]])();
const build = (doc, parent, l) => { for (const x of l) { if (typeof x === 'string') parent.appendChild(doc.createTextNode(x)); else if (x[0] === '#') parent.appendChild(doc.createComment(x[1])); else { const e = doc.createElement(x[0]); for (const [k, v] of x[1]) e.setAttribute(k, v); build(doc, e, x[2]); parent.appendChild(e); } } };
const shot = (n) => (n instanceof Element_ ? `<${n.uid} ${n.localName} ${JSON.stringify([...n.attributes])}>${n.childNodes.map(shot).join('')}</>` : `${n.uid}${n instanceof Comment_ ? '#' : ''}${JSON.stringify(n.data)}`);

export default {
    id: 'P17', quick: 12000, thorough: 300000,
    rule: 'A document as sent by a server with 1-3 start triggers in any order (load event early, late, repeated or never; several start elements; slow loading of the module), and a random program that uses up to 3 cached remote values and other requests at its start or in reaction to answers; then up to 14 operations (answers and failures in any order, writes, refreshes, further requests, passing time). After each: the served document is untouched while anything is outstanding, is replaced by one call when nothing is, and afterwards shows every change before the next event. Non-trivial = the take-over happened after at least one answer.',
    assumptions: ['attributes of html, head and body in the served document are those of the program'],
    generate: (s) => {
        const g = new G(s, cfg, s.weighted([[3, 0.15], [1, 0], [1, 0.4]]));
        const root = g.root();
        return {
            root, setup: g.setup(), ts: s.bool(0.3), ops: s.list(1, 14, () => g.op(), 8),
            head: s.list(0, 3, () => served(s, 0), 1), body: s.list(0, 4, () => served(s, 2), 2),
            starts: s.list(0, 4, () => s.weighted([[4, 'load'], [2, s.pick([10, 1000, 2999, 3001, 5000])], [1, 'loaded'], [1, 'same'], [1, 'other']]), 1.5), place: s.draw(3),
        };
    },
    run: async (c, env) => {
        let loaded;
        const old = [];
        let doc, steps = 0, first = null;
        const html = () => doc.childNodes.map(shot).join('');
        const b = new Browser({
            module: env.module, code: c.ts && env.ts ? env.ts : env.bundle, boot: ['boot', c.setup, c.root], now: 1700000000000, runWasm: false, wasmWait: new Promise((ok) => { loaded = ok; }),
            watch: () => { steps++; first ??= html(); if (process.env.DBG) console.log(steps, html()); },
            setup: (b) => {
                doc = b.document;
                build(doc, doc.head, c.head);
                build(doc, doc.body, c.body);
                const s = doc.createElement('script');
                s.setAttribute('data-vertigo-run-wasm', '/app.wasm');
                const where = [doc.head, doc.body, doc.body][c.place];
                where.insertBefore(s, c.place === 1 ? where.firstChild : null);
            },
        });
        const classes = new Set([c.ts ? 'ts' : 'bundle']);
        try {
            const data = new Data();
            for (const op of c.setup) if (op[0] !== 'task') data.apply(op);
            data.renders = [];
            // start triggers
            let isLoaded = false;
            const extra = (path) => { if (steps) return; const s = doc.createElement('script'); s.setAttribute('data-vertigo-run-wasm', path); doc.body.appendChild(s); };
            const collect = (n) => { for (const k of n.childNodes) { old.push(k); if (k instanceof Element_) collect(k); } };
            for (const t of [...c.starts, 3001, 'loaded']) {
                if (!steps) { old.length = 0; collect(doc.head); collect(doc.body); }
                if (t === 'load') b.fireWindow('load');
                else if (t === 'loaded') { isLoaded = true; loaded({ wasm: true }); } else if (t === 'same') extra('/app.wasm');
                else if (t === 'other') { if (b.starts) extra('/other.wasm'); } else await b.advance(t);
                await b.settle();
                if (!isLoaded) {
                    if (steps) fail(`start trigger ${t}: the document changed before the program was there`, 'early');
                }
            }
            const root = new Inst(c.root, [], data, null);
            const raws = () => b.fetches.filter((f) => f.url.startsWith('/raw') && !f.done);
            const noise = [/Error fetching/, /fetch error/, /Only one wasm module/];
            const run = async () => {
                for (let i = 0; i < 3; i++) { data.start(); root.update(data); data.calm(); }
                await b.settle(); await b.advance(0); await b.advance(0);
                for (const m of data.caches) {
                    const made = b.fetches.filter((f) => f.url === m.url);
                    if (made.length !== m.fetches) fail(`${m.url} was requested ${made.length} times instead of ${m.fetches}`, 'requests');
                    m.fetch = made[made.length - 1];
                }
            };
            let taken = false, answers = 0, reacted = 0;
            const full = (what) => {
                b.check();
                b.console = b.console.filter((x) => !x.some((y) => noise.some((r) => r.test(String(y)))));
                const err = b.errors();
                if (err.length) fail(`${what}: the runtime reports ${err.map((e) => e.slice(1).map(String).join(' ')).join(' | ')}`, 'console-error');
                if (b.starts !== 1 || b.entryCalls !== 1) fail(`${what}: the module was loaded ${b.starts} and started ${b.entryCalls} times`, 'starts');
                if (b.fetches.some((f) => f.url.endsWith('.wasm'))) fail(`${what}: another module was loaded`, 'starts');
                if (!taken) return;
                compare(doc.documentElement, root, data, sheet(doc), what + ': html', { identity: true });
            };
            const outstanding = () => data.caches.filter((m) => m.queued || m.flight).length + raws().length;
            const progress = (what, n = outstanding()) => {
                if (taken) return;
                if (n) {
                    if (steps) fail(`${what}: the document changed while ${n} requests are outstanding: ${first.slice(0, 500)}`, 'touched');
                    return;
                }
                if (steps !== 1) fail(`${what}: the new document appeared in ${steps} steps`, 'steps');
                taken = true;
                if (first !== html()) fail(`${what}: the new document was not complete at once: ${first.slice(0, 700)} then ${html().slice(0, 700)}`, 'incomplete');
                for (const k of old) if (k.isConnected) fail(`${what}: a part of the served document is left: ${shot(k).slice(0, 200)}`, 'left');
                if (answers) classes.add('late'); else classes.add('immediate');
            };
            // nothing is asked for while the first document is made: it appears at once (tasks run later)
            if (!data.caches.some((m) => m.queued)) progress('start', 0);
            await run();
            progress('start');
            full('start');
            for (const [n, op] of c.ops.entries()) {
                const what = `after operation ${n + 1} ${JSON.stringify(op).slice(0, 200)}`;
                if (op[0] === 'wait') { await b.advance(op[1]); await run(); progress(what); full(what); continue; }
                if (op[0] === 'task') { b.exec(['rx', [op]]); await run(); progress(what); full(what); continue; }
                if (op[0] === 'answer') {
                    const open = [...data.caches.filter((m) => m.flight), ...raws()];
                    if (!open.length) continue;
                    const m = open[op[1] % open.length], a = op[2];
                    answers++;
                    const f = m.fetch ?? m;
                    if (a[0] === 'fail') b.failFetch(f, a[1]);
                    else b.respond(f, a[0] === 'ok' ? { status: 200, type: 'application/json', body: JSON.stringify(a[1]) } : a[0] === 'missing' ? { status: 404, type: 'text/plain', body: 'x' } : { status: 200, type: 'application/json', body: '{', broken: true });
                    if (m.fetch) {
                        m.value = a[0] === 'ok' ? ['ready', a[1]] : ['error', a[0] === 'missing' ? 'not found' : ERR(a)];
                        m.changed = true;
                        m.queued = { loading: false, force: false };
                        root.update(data);
                        data.calm();
                        m.flight = false; m.queued = null;
                        if (data.caches.some((x) => x.queued)) reacted++;
                    }
                    await run();
                    progress(what); full(what);
                    continue;
                }
                data.apply(op);
                root.update(data);
                data.calm();
                b.exec(['rx', [op]]);
                if (taken) full(what + ', at once');
                await run();
                progress(what); full(what);
            }
            await b.advance(6000);
            full('end');
            classes.add(taken ? 'taken' : 'waiting');
            if (reacted) classes.add('reaction');
            return { nontrivial: taken && classes.has('late'), classes: [...classes, ...Object.keys(kinds(c.root)).filter((k) => k === 'lazy').map((k) => 'k-' + k)] };
        } finally { b.close(); }
    },
};
const ERR = (a) => `Text(\n    "TypeError: ${a[0] === 'fail' ? a[1] : 'body broken'}",\n)`;
