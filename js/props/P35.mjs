// From the server into the browser: the page a visitor gets is taken over by the same program without a visible change.
import { fail } from '../engine.mjs';
import fs from 'node:fs';
import { APP_WASM, BUNDLE } from '../env.mjs';
import { Browser } from '../host.mjs';
import { parseDocument } from '../html.mjs';
import { Comment_, Element_, Text_ } from '../minidom.mjs';
import { page, request, startServer } from '../ssr.mjs';
import { at, startUpstream } from '../upstream.mjs';
import { J } from './hostprop.mjs';
import { Data, Inst, compare, sheet } from './page.mjs';
import { kinds } from './pageprop.mjs';
import { likePage, PageGen, readPage } from './P16.mjs';

const K = 3, SLOT = 10;
const SERVERS = [['/build', []], ['/a-b/c', [['one', 'x"y<z>&amp; \'ę\' = 1'], ['TWO', ''], ['th-ree', 'a=b']]], ['/x', [['f_our', '1'], ['url', 'http://h/?a=1&b=2']]]];
const NAMES = ['one', 'f_our', 'TWO', 'th-ree', 'url', 'none'];
const PATHS = ['/', '/a/b', '/x%20y', '/%C5%BC', '/a/', '/a//b', '/a.b/index.html', '/q%3Fr', '/p%2Fq', '/~x-_', '/a;b=c', '/@x', '/(a)', "/it's", '/a+b,c'];
class G extends PageGen {
    constructor(s, cfg, lazy) { super(s, cfg); this.lazy = lazy; }
    element(depth, env) { const e = super.element(depth, env); if (e[1] === 'textarea' && e[2].some((a) => a[1] === 'value')) e[3] = []; return e; }
    tags() { return super.tags().filter((t) => t === t.toLowerCase()); }
    extra(depth, env, leaf) {
        const s = this.s, top = this.path[this.path.length - 1];
        const n = super.extra(depth, env, leaf);
        if (n || !s.bool(this.lazy) || ['svg', 'path'].includes(top) || this.path.includes('p')) return n;
        const style = s.weighted([[4, 0], [leaf ? 0.01 : 4, 1], [1, 2]]);
        return style === 1 ? ['lazy', s.draw(K), 1, leaf ? ['t', ['x'], 0] : this.node(depth - 1, env)] : ['lazy', s.draw(K), style];
    }
}
const body = (d) => d.documentElement.childNodes.find((n) => n.localName === 'body');
const norm = (s) => s.replace(/\r\n?/g, '\n');
const raw = (s) => norm(s).replace(/<\\(?=[/!])/g, '<');
const decls = (css) => css.split('{')[0].split(';').map((x) => x.trim()).filter((x) => x && !x.startsWith('&')).join('; ');
/** what is seen of a node: [tag, attributes, children], texts joined */
const seen = (el, css, skip, out = { n: 0 }) => {
    const attrs = {}, kids = [];
    for (const [k, v] of el.attributes) {
        if (k.startsWith('data-env-') && el.localName === 'html') continue;
        attrs[k] = k === 'class' ? v.split(/[ \n\t\f\r]+/).filter(Boolean).map((c) => (c.startsWith('autocss_') ? '{' + (css.get(c) ?? '?' + c) + '}' : c)).sort().join(' ') : norm(v);
    }
    if (attrs.class === '') delete attrs.class;
    const isRaw = ['script', 'style'].includes(el.localName);
    // what is shown in it is set by the program
    if (el.localName === 'textarea' && el.attributes.has('value')) return [el.localName, Object.fromEntries(Object.entries(attrs).sort()), []];
    for (const n of el.childNodes) {
        if (n instanceof Comment_ || skip(n)) continue;
        out.n++;
        if (n instanceof Text_) { const t = isRaw ? raw(n.data) : norm(n.data); if (t === '') continue; if (typeof kids[kids.length - 1] === 'string') kids[kids.length - 1] += t; else kids.push(t); continue; }
        kids.push(seen(n, css, skip, out));
    }
    return [el.localName, Object.fromEntries(Object.entries(attrs).sort()), kids];
};
const differs = (a, b, path = 'html') => {
    if (typeof a === 'string' || typeof b === 'string' || a === undefined || b === undefined) return J(a) === J(b) ? null : `${path}: the server shows ${J(a)?.slice(0, 200)}, the browser ${J(b)?.slice(0, 200)}`;
    if (a[0] !== b[0] || J(a[1]) !== J(b[1])) return `${path}: the server shows <${a[0]} ${J(a[1])}>, the browser <${b[0]} ${J(b[1])}>`;
    for (let i = 0; i < Math.max(a[2].length, b[2].length); i++) { const d = differs(a[2][i], b[2][i], `${path} > ${Array.isArray(a[2][i]) ? a[2][i][0] : '#'}[${i}]`); if (d) return d; }
    return null;
};
const thing = (s) => s.weighted([
    [5, () => ({ s: 200, t: 'application/json', v: s.pick(['one', 'two', '<b>&amp;', 'żółw', 'x y', '']) })],
    [1, () => ({ s: 404, t: 'text/plain', v: 'none' })],
])();
const bytes = (x) => new TextEncoder().encode(x.t === 'text/plain' ? x.v : JSON.stringify(x.v));

export default {
    id: 'P35', quick: 8000, thorough: 300000,
    rule: 'A random page (as in P16) at a random address that uses up to 3 cached remote values and up to 3 tasks that ask the upstream (one of which then writes), settings and the route, is asked from one of three real servers (mount points, settings); the answer, read as a browser reads it, is the document a simulated browser starts with: it loads the files the page names, runs the same program, and is answered by the same upstream in random order. The document stays untouched until then, and afterwards shows what the server had sent; then up to 8 changes are made. Non-trivial = at least one request, and 15 nodes or a change.',
    assumptions: ['the program describes the same page on the server and in the browser (it does not ask where it runs, for the time or for random numbers)', 'the page is one HTML can represent', 'the text shown in a text area with a value attribute is set when the program comes alive'],
    async prepare({ root }) {
        return { servers: await Promise.all(SERVERS.map(async ([mount, env]) => ({ env, ...await startServer(root, { mount, args: env.flatMap(([k, v]) => ['--env', `${k}=${v}`]), files: [['run.js', fs.readFileSync(BUNDLE)]] }) }))) };
    },
    async init(env) { env.up = await startUpstream(); env.pages = 0; env.files = new Map(); },
    async close(env) { await env.up.close(); },
    generate(s) {
        const g = new G(s, { budget: 25, depth: 4, dups: 0.1, sus: 0.1 }, s.weighted([[3, 0.12], [1, 0], [1, 0.3]]));
        const root = g.root();
        let tasks = 0, writes = 0;
        const fetches = s.list(0, 3, () => [s.draw(K), tasks++, s.bool(0.4) && !writes++ ? g.write() : null, s.draw(3)], 1);
        return {
            root, setup: g.setup(), things: [thing(s), thing(s), thing(s)], styles: [0, 1, 2].map(() => [2, s.draw(2)]), tasks: fetches, shows: s.list(0, 3, () => s.weighted([[2, ['env', s.pick(NAMES)]], [1.5, ['route', '']], [0.5, ['cget', 'c']]]), 1.5),
            to: s.draw(SERVERS.length), at: s.bool(0.4) ? '/' : s.pick(PATHS), more: s.pick(['', '', '&x=1', '&x=%C5%BC%20y', '&']), ts: s.bool(0.3), order: s.draw(1000), ops: s.list(0, 8, () => g.op(), 2),
        };
    },
    async run(c, env) {
        const srv = env.extra.servers[c.to], pageId = 'q' + (process.pid % 1000).toString(36) + (env.pages++).toString(36);
        const urls = c.things.map((x, i) => at(env.up.port, pageId + i, { s: x.s, t: x.t, b: bytes(x), d: 0, f: 0 }));
        const ask = (i) => ['GET', urls[i], null, null, null, 0, null];
        const dst = (n) => SLOT + n, shown = [...c.tasks.map((_, i) => dst(i)), ...c.shows.map((_, i) => dst(c.tasks.length + i))];
        // tasks change the page only when their answer is there, all in one go
        const setup = [...c.setup, ...c.things.map((_, i) => ['lz', i, ask(i), ...c.styles[i]]),
            ...c.shows.map(([k, a], i) => ['show', dst(c.tasks.length + i), k, a]),
            ...c.tasks.map(([t, id, w, k]) => ['task', id, [...(k === 1 ? [['sleep', 0, 0]] : []), ['fetch', id, ask(t), k === 2 ? 1 : 0, dst(id)], ...(w ? [['ops', [w]]] : [])]])];
        const root = structuredClone(c.root);
        body({ documentElement: { childNodes: root[3].map((x) => ({ localName: x[1], x })) } }).x[3].push(...shown.map((i) => ['e', 'p', [], [['tvs', i, 0]], 0]));
        const boot = ['boot', setup, root];
        let r = await page(srv.port, boot, c.at, c.more);
        if (!r) return { nontrivial: false, classes: ['too-long'] };
        const { doc: first, css } = readPage(r, srv.env, srv.mount);
        // what the page names is there
        const doc = parseDocument(r.text), start = body(doc).childNodes.filter((n) => n.localName === 'script').pop();
        const load = async (p) => {
            const key = srv.port + p;
            if (!env.files.has(key)) { const x = await request(srv.port, { path: p }); if (x.error || x.status !== 200) fail(`${p}, named in the page, is answered with ${x.error ?? x.status}`, 'files'); env.files.set(key, x.body); }
            return env.files.get(key);
        };
        const wasmPath = start.getAttribute('data-vertigo-run-wasm'), code = (await load(start.getAttribute('src'))).toString();
        if (code !== env.bundle) fail('the start script is not the one the server was given', 'files');
        env.wasm ??= fs.readFileSync(APP_WASM);
        if (!(await load(wasmPath)).equals(env.wasm)) fail('the module named in the page is not the one the server was given', 'files');
        // the browser
        let steps = 0;
        const shot = (n) => (n instanceof Element_ ? `<${n.localName} ${J([...n.attributes])}>${n.childNodes.map(shot).join('')}</>` : `${n instanceof Comment_ ? '#' : ''}${J(n.data)}`);
        const before = doc.childNodes.map(shot).join('');
        const address = `http://127.0.0.1:${srv.port}${r.path}`;
        const b = new Browser({ module: env.module, code: c.ts && env.ts ? env.ts : env.bundle, document: doc, url: address, wasmPath, runWasm: false, now: Date.now(), watch: () => { steps++; } });
        const classes = new Set([c.ts ? 'ts' : 'bundle']);
        let asked = 0;
        try {
            if (doc.childNodes.map(shot).join('') !== before) fail('the document changed when the script was read', 'touched');
            await b.start();
            await b.advance(0);
            const open = () => b.fetches.filter((f) => !f.done);
            const ready = () => (b.check(), open().length === 0);
            for (let n = c.order; !ready();) {
                if (steps && !c.tasks.length) fail('the document changed while requests are outstanding', 'touched');
                const l = open(), f = l[n % l.length];
                n = Math.floor(n / l.length) + 7;
                const i = urls.indexOf(f.url);
                if (i < 0) fail(`the browser asks for ${f.url}`, 'request');
                asked++;
                b.respond(f, { status: c.things[i].s, type: c.things[i].t, body: bytes(c.things[i]) });
                await b.settle(); await b.advance(0); await b.advance(0);
            }
            await b.advance(10);
            const calm = (what) => { b.check(); const err = b.errors().filter((x) => !x.some((y) => /Error fetching|fetch error/.test(String(y)))); if (err.length) fail(`${what}: the runtime reports ${err.map((e) => e.slice(1).map(String).join(' ')).join(' | ')}`, 'console-error'); };
            calm('start');
            if (steps !== 1 && !c.tasks.length) fail(`the new document appeared in ${steps} steps`, 'steps');
            if (b.starts !== 1 || b.entryCalls !== 1) fail(`the module was loaded ${b.starts} and started ${b.entryCalls} times`, 'starts');
            const count = { n: 0 };
            const isSheet = (n) => n.parentNode === doc.head && n instanceof Element_ && n.localName === 'style' && /^\s*(\.autocss_|@keyframes|@media)/.test(n.textContent);
            const trim = (m) => new Map([...m].map(([k, v]) => [k, decls(v)]));
            const was = seen(first.documentElement, trim(css), (n) => n.skip), is = seen(doc.documentElement, trim(sheet(doc)), isSheet, count);
            const d = differs(was, is);
            if (d) fail(`the page changed when the program came alive: ${d}`, 'changed');
            if (asked) classes.add('requests');
            for (const k of c.shows) classes.add('s-' + k[0]);
            for (const [k, v] of srv.env) { const e = b.exec(['rx', [['env', k]]]).filter((x) => x[0] === 'env').pop(); if (J(e) !== J(['env', k, v])) fail(`the setting ${k} is ${J(e)} in the browser`, 'env'); }
            // what it describes, and what becomes of it
            const data = new Data();
            for (const op of c.setup) data.apply(op);
            data.renders = [];
            data.caches = c.things.map((x) => ({ url: '', value: x.s === 200 ? ['ready', x.v] : ['error', 'not found'], queued: null, flight: false, fetches: 0 }));
            const texts = body(first).childNodes.filter((n) => n instanceof Element_ && !n.skip).slice(-shown.length);
            const order = c.tasks.filter((t) => t[2]);
            for (const t of order) data.apply(t[2]);
            shown.forEach((i, k) => { data.strs[i] = texts[k].textContent; });
            c.shows.forEach(([k, a], i) => { if (k === 'env') { const v = srv.env.find((x) => x[0] === a); const want = v ? '=' + v[1] : 'none'; if (norm(data.strs[dst(c.tasks.length + i)]) !== want) fail(`the setting ${a} is shown as ${J(data.strs[dst(c.tasks.length + i)])} instead of ${J(want)}`, 'env'); } });
            const inst = new Inst(root, [], data, null);
            likePage({ doc: first, css }, inst, data);
            // the settings stay
            inst.desc = [...root.slice(0, 2), [...root[2], ...srv.env.map(([k, v]) => ['s', 'data-env-' + k.toLowerCase(), [v]])], ...root.slice(3)];
            compare(doc.documentElement, inst, data, sheet(doc), 'html', { identity: true });
            for (const op of c.ops) {
                data.apply(op);
                inst.update(data);
                b.exec(['rx', [op]]);
                await b.settle(); await b.advance(0);
                // remote values shown for the first time
                for (let l; (l = open()).length;) {
                    for (const f of l) { const i = urls.indexOf(f.url); if (i < 0) fail(`the browser asks for ${f.url}`, 'request'); b.respond(f, { status: c.things[i].s, type: c.things[i].t, body: bytes(c.things[i]) }); }
                    await b.settle(); await b.advance(0); await b.advance(0);
                }
                calm(J(op));
                compare(doc.documentElement, inst, data, sheet(doc), `after ${J(op)}: html`, {});
            }
            for (const u of urls) { const n = b.fetches.filter((f) => f.url === u).length, tasks = c.tasks.filter((t) => urls[t[0]] === u).length; if (n > urls.filter((x) => x === u).length + tasks) fail(`the browser asked ${n} times for ${u}`, 'request'); }
            if (c.ops.length) classes.add('changes');
            return { nontrivial: asked > 0 && (count.n >= 15 || c.ops.length > 0), classes: [...classes, ...Object.keys(kinds(c.root)).filter((k) => k === 'lazy' || k === 'rl').map((k) => 'k-' + k)] };
        } finally { b.close(); for (let i = 0; i < K; i++) env.up.forget(pageId + i); }
    },
};
