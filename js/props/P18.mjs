// The server waits for the data a page asks for, and asks for each thing once.
import { fail } from '../engine.mjs';
import { page, startServer } from '../ssr.mjs';
import { at, startUpstream } from '../upstream.mjs';
import { cmpStr, J, json, str, same, fromJs, toJs } from './hostprop.mjs';
import { Data, Inst } from './page.mjs';
import { likePage, readPage } from './P16.mjs';
import { outcome } from './P21.mjs';

const enc = new TextEncoder();
const METHODS = ['HEAD', 'PUT', 'DELETE', 'OPTIONS', 'PATCH'];
const NAMES = ['x-a', 'X-B', 'Accept', 'X-Long-Name', 'authorization', 'x_y', 'X-C'];
const VALUES = ['', 'v', 'w', 'text/html; charset=x', 'a, b', 'Bearer t', '"q"', '%41', 'x'.repeat(100)];
const TYPES = ['application/json', 'application/json', 'application/json; charset=utf-8', 'Application/JSON ;x=y', 'text/plain', 'text/plain;charset=UTF-8', 'TEXT/PLAIN', 'text/html', 'image/png', null, 'application/problem+json'];
const STATUS = [200, 200, 200, 200, 200, 201, 202, 206, 299, 301, 400, 401, 403, 404, 404, 418, 500, 502, 503, 599];
const nice = (s) => s.weighted([[3, () => s.int(-5, 1000)], [1, () => s.pick([0.5, -0.25, 2147483647, 2147483648, -2147483648, 4294967296, 1e15])]])();
const clean = (t) => (typeof t === 'string' ? t.replace(/[\ufeff\0]/g, '') : t);
const thing = (s, tier) => {
    const type = s.pick(TYPES), isJson = type && /^application\/json *(;|$)/i.test(type);
    const b = s.weighted([
        [isJson ? 6 : 1, () => enc.encode(JSON.stringify(toJs(s.weighted([[3, () => clean(json(s, 3, { num: nice }))], [1, () => ['l', s.list(0, 5, () => ({ f: s.int(-5, 1000) }))]], [1, () => ['o', [['a', { f: 1 }], ['żółw', { f: s.int(-9, 9) }]]]], [2, () => clean(str(s))]])())))],
        [isJson ? 0.5 : 0.1, () => enc.encode(s.pick(['', '{', '[1,', 'nul', "{'a':1}", '1 2']))],
        [isJson ? 0.2 : 3, () => enc.encode(clean(str(s)))],
        [type && /plain/i.test(type) ? 0 : isJson ? 0.1 : 1, () => Uint8Array.from(s.list(0, 60, () => s.draw(256), 10))],
        [0.2, () => new Uint8Array(1).fill(s.int(97, 122))],
    ])();
    const names = new Map();
    for (const n of s.list(0, 4, () => s.pick(NAMES), 1)) names.set(n.toLowerCase(), n);
    const method = s.weighted([[6, 'GET'], [3, 'POST'], [1, s.pick(METHODS)]]);
    const t = {
        method, spec: { s: s.pick(STATUS), t: type, b, d: s.weighted([[4, () => 0], [2, () => s.int(1, 15)], [0.3, () => s.int(15, 80)]])(), f: s.weighted([[12, 0], [0.5, 1], [0.5, 2], [tier === 'thorough' ? 0.02 : 0.06, 3]]), c: s.bool(0.1) ? s.int(1, 20) : 0, r: b.length === 1 && s.bool(0.5) && !isJson ? s.int(1000, 60000) : 1 },
        url: s.weighted([[40, null], [0.4, 'http://['], [0.4, 'nothing']]),
        headers: [...names.values()].map((n) => [n, s.pick(VALUES)]),
        body: method === 'GET' || method === 'HEAD' ? null : s.weighted([[2, () => null], [1, () => ['t', str(s)]], [1, () => ['x', Uint8Array.from(s.list(1, 30, () => s.draw(256), 6))]], [2, () => ['j', json(s, 3, { num: (s) => s.bool(0.03) ? s.pick([NaN, Infinity]) : nice(s) })]]])(),
    };
    if (method === 'HEAD' && t.spec.f === 2) t.spec.f = 0;
    return t;
};
/** the same but for one thing */
const almost = (s, t) => s.pick([
    () => ({ ...t, headers: t.headers.length ? t.headers.map((h, i) => (i ? h : [h[0], h[1] + 'z'])) : [['X-B', 'n']] }),
    () => ({ ...t, headers: t.headers.length ? t.headers.slice(1) : [['x-a', '']] }),
    () => ({ ...t, method: t.method === 'POST' ? 'PUT' : t.method === 'PUT' ? 'PATCH' : 'POST' }),
    () => (t.method === 'GET' || t.method === 'HEAD' ? { ...t, spec: { ...t.spec, d: t.spec.d + 1 } } : { ...t, body: t.body && t.body[0] === 't' ? ['x', enc.encode(t.body[1] + '.')] : ['t', s.pick(['x', ''])] }),
])();
const key = (t, url) => J([t.method, url, [...t.headers].sort((a, b) => cmpStr(a[0], b[0])), t.body]);

export default {
    id: 'P18', quick: 3000, thorough: 100000, hangS: 200,
    rule: 'Pages whose tasks and cached values ask a scripted upstream (status, type, content, delay, failures, no answer) for up to 6 things, the same things from several places, at several times and in several styles, and almost the same things, and make further requests, tasks and changes after the answers. The page the server sends is compared with the one shown after all answers, and the requests the upstream got with the distinct ones of the page. Non-trivial = something was asked for twice and something was asked for after an answer.',
    assumptions: ['numbers in answers and bodies are integers or short binary fractions', 'no redirects to other addresses', 'header names that differ only in case are not mixed'],
    async prepare({ root }) { return { server: await startServer(root) }; },
    async init(env) { env.up = await startUpstream(); env.pages = 0; },
    async close(env) { await env.up.close(); },
    generate: (s, tier) => {
        const things = [thing(s, tier)];
        for (let n = s.draw(5); n > 0; n--) things.push(s.bool(0.3) ? almost(s, s.pick(things)) : thing(s, tier));
        const what = () => [s.draw(things.length), s.draw(3), s.draw(24)]; // thing, style, order of headers
        let rid = 0, id = 0;
        const caches = s.list(0, 3, () => [...what(), s.draw(3), s.draw(2)], 1.3);
        const task = (depth) => {
            const me = id++;
            let v = 0;
            return { id: me, steps: s.list(1, 5, () => s.weighted([
                [5, () => (rid < 12 ? ['fetch', rid++, what(), s.draw(5)] : ['set', ++v])], [2, () => ['set', ++v]], [1, () => ['sleep']], [depth > 0 ? 1 : 0.001, () => (depth > 0 && id < 6 ? ['spawn', task(depth - 1)] : ['set', ++v])],
            ])(), 2.5) };
        };
        const tasks = s.list(caches.length ? 0 : 1, 3, () => task(2), 1.5);
        const leaf = () => s.weighted([[1, () => ['t', ['x'], 0]], [4, () => ['val', s.draw(6)]], [3, () => (caches.length ? ['lazy', s.draw(caches.length), s.pick([0, 2])] : ['t', ['y'], 0])]])();
        const node = (depth) => (depth <= 0 ? leaf() : s.weighted([
            [2, leaf], [3, () => ['el', s.list(0, 3, () => node(depth - 1), 1.5)]],
            [2, () => ['sw', s.draw(6), s.list(1, 4, () => node(depth - 1), 2)]],
            [caches.length ? 3 : 0.001, () => (caches.length ? ['lazy', s.draw(caches.length), 1, node(depth - 1)] : leaf())],
        ])());
        return { things, caches, tasks, body: s.list(0, 4, () => node(3), 2.5), times: s.weighted([[5, 1], [1, 2], [0.3, 4]]) };
    },
    run: async (c, env) => {
        const pageId = 'p' + (process.pid % 1000).toString(36) + (env.pages++).toString(36);
        const url = (t) => t.url ?? at(env.up.port, pageId, t.spec);
        const ask = ([i, style, order]) => {
            const t = c.things[i];
            const h = [...t.headers];
            for (let k = order, n = h.length; n > 1; k = Math.floor(k / n), n--) h.push(h.splice(k % n, 1)[0]);
            // the bearer token is one of the ways to set the header
            const bearer = style === 1 && h.find((x) => x[0] === 'authorization' && x[1].startsWith('Bearer '));
            return [t.method, url(t), h.length || style === 2 ? h : null, t.body, null, style, null, bearer];
        };
        const answerOf = (t) => (t.url || t.spec.f === 1 ? ['fail'] : t.spec.f === 3 ? null : ['ok', t.spec.s, t.spec.t, t.method === 'HEAD' ? new Uint8Array() : t.spec.r > 1 ? new Uint8Array(t.spec.r).fill(t.spec.b[0]) : t.spec.b, t.spec.f === 2 && t.method !== 'HEAD']);
        // the program
        const node = (n) => {
            switch (n[0]) {
                case 'val': return ['tc', 20 + n[1], null, 0];
                case 'el': return ['e', 'div', [], n[1].map(node), 0];
                case 'sw': return ['rv', 20 + n[1], n[2].map(node), 0];
                case 'lazy': return n[2] === 1 ? ['lazy', n[1], 1, node(n[3])] : n;
                default: return n;
            }
        };
        const rids = [];
        const steps = (t) => t.steps.map((x) => (x[0] === 'fetch' ? (rids.push(x[1]), ['fetch', x[1], ask(x[2]), x[3], 10 + x[1]]) : x[0] === 'set' ? ['ops', [['set', 20 + t.id, x[1]]]] : x[0] === 'sleep' ? ['sleep', 0, 0] : ['spawn', x[1].id, steps(x[1])]));
        const tasks = c.tasks.map((t) => ['task', t.id, steps(t)]);
        const setup = [...[0, 1, 2, 3, 4, 5].map((i) => ['val', 20 + i, 0]), ...c.caches.map((x, i) => ['lz', i, ask(x), x[3], x[4]]), ...tasks];
        const root = ['e', 'html', [], [['e', 'head', [], [], 0], ['e', 'body', [], [...rids.map((r) => ['e', 'p', [], [['tvs', 10 + r, 0]], 0]), ...c.body.map((n) => ['e', 'div', [], [node(n)], 0])], 0]], 0];
        // what it comes to
        const data = new Data();
        for (let i = 0; i < 6; i++) data.vals[20 + i] = 0;
        for (const r of rids) data.strs[10 + r] = '';
        data.caches = [];
        const asked = new Map(); // request -> {t, n, first}
        let again = 0, after = 0, never = 0, failed = 0, okay = 0;
        const note = (w, late) => { const t = c.things[w[0]], k = key(t, url(t)); if (t.url) return; if (asked.has(k)) again++; else asked.set(k, { t, sure: true }); if (late) after++; };
        const play = (t, late) => {
            for (const x of t.steps) {
                if (x[0] === 'set') data.vals[20 + t.id] = x[1];
                else if (x[0] === 'spawn') play(x[1], late);
                else if (x[0] === 'fetch') {
                    const th = c.things[x[2][0]];
                    note(x[2], late);
                    const a = answerOf(th);
                    if (!a) { never++; return; }
                    late = true;
                    data.strs[10 + x[1]] = show(a, x[3]);
                    if (a[0] === 'ok' && !a[4]) okay++; else failed++;
                }
            }
        };
        for (const t of c.tasks) play(t, false);
        c.caches.forEach((x, i) => {
            const a = answerOf(c.things[x[0]]);
            data.caches[i] = { url: '', value: a ? lazyValue(a, x[3]) : null, queued: null, flight: false, fetches: 0 };
        });
        const inst = new Inst(root, [], data, null);
        // cached values that are shown, and those that may have been shown on the way
        const walk = (i, f) => { f(i); for (const k of i.kids) walk(k, f); };
        const shownLazy = new Set(), maybe = new Set();
        walk(inst, (i) => { if (i.desc[0] === 'lazy') shownLazy.add(i.desc[1]); });
        const all = (n) => { if (n[0] === 'lazy') maybe.add(n[1]); for (const k of n[0] === 'el' ? n[1] : n[0] === 'sw' ? n[2] : n[0] === 'lazy' && n[2] === 1 ? [n[3]] : []) all(k); };
        c.body.forEach(all);
        let lazyNever = false;
        for (const i of shownLazy) { note(c.caches[i], false); if (!answerOf(c.things[c.caches[i][0]])) lazyNever = true; }
        for (const i of maybe) {
            const t = c.things[c.caches[i][0]], k = key(t, url(t));
            if (!t.url && !asked.has(k)) asked.set(k, { t, sure: false });
            if (!answerOf(t)) lazyNever ||= 'maybe';
        }
        // ask for it
        const t0 = Date.now();
        const pages = await Promise.all(Array.from({ length: c.times }, async () => { const r = await page(env.extra.server.port, ['boot', setup, root]); return r && { r, ms: Date.now() - t0 }; }));
        const got = env.up.requests(pageId);
        env.up.forget(pageId);
        if (pages.some((p) => !p)) return { nontrivial: false, classes: ['too-long'] };
        for (const { r, ms } of pages) {
            const wait = never || lazyNever === true;
            if (wait && ms < 9000) fail(`the page is sent after ${ms} ms although a request has no answer`, 'early');
            if (wait && ms > 14000) fail(`the page is sent only after ${ms} ms`, 'late');
            likePage(readPage(r), inst, data);
        }
        const left = [...got];
        for (const { t, sure } of [...asked.values()].sort((a, b) => b.t.headers.length - a.t.headers.length)) {
            const mine = left.filter((e) => is(t, url(t), e));
            for (const e of mine) left.splice(left.indexOf(e), 1);
            if (mine.length !== c.times && (sure || mine.length)) fail(`${c.times} page(s) ask for ${t.method} ${url(t)} with ${J(t.headers)} and the body ${J(t.body)}; the upstream got it ${mine.length} times; it got ${J(got.map((e) => [e.method, e.url, e.raw, e.body.toString('latin1')])).slice(0, 3000)}`, mine.length < c.times ? 'not-asked' : 'asked-again');
        }
        if (left.length) fail(`the upstream got a request the page does not make: ${J(left.map((e) => [e.method, e.url, e.raw, e.body.toString('latin1')])).slice(0, 2000)}; it makes ${J([...asked.values()].map((x) => [x.t.method, url(x.t), x.t.headers, x.t.body])).slice(0, 2000)}`, 'unasked');
        return { nontrivial: again > 0 && after > 0, classes: [again ? 'again' : 'once', after ? 'chained' : 'flat', never || lazyNever ? 'unanswered' : 'answered', failed ? 'failures' : 'no-failure', okay ? 'success' : 'no-success', shownLazy.size ? 'cached' : 'uncached', `pages${c.times}`] };
    },
};
const is = (t, url, e) => {
    if (e.method !== t.method || `http://127.0.0.1:${new URL(url).port}${e.url}` !== url) return false;
    const have = e.raw.map(([k, v]) => [k.toLowerCase(), v]);
    const free = ['host', 'content-length', 'accept', 'connection', 'transfer-encoding', 'user-agent', 'content-type', 'accept-encoding'];
    for (const [k, v] of t.headers) { const h = have.filter((x) => x[0] === k.toLowerCase()); if (h.length !== 1 || h[0][1] !== v) return false; }
    for (const [k] of have) if (!free.includes(k) && !t.headers.some((x) => x[0].toLowerCase() === k)) return false;
    const type = have.find((x) => x[0] === 'content-type')?.[1] ?? '';
    if (!t.body) return e.body.length === 0 && type === '';
    if (t.body[0] === 't') return /^text\/plain/.test(type) && e.body.equals(Buffer.from(t.body[1]));
    if (t.body[0] === 'x') return !/^text\/plain|json/.test(type) && e.body.equals(Buffer.from(t.body[1]));
    if (!/^application\/json/.test(type)) return false;
    try { return same(fromJs(JSON.parse(e.body.toString())), finite(t.body[1])); } catch { return false; }
};
/** JSON has no other numbers */
const finite = (j) => (Array.isArray(j) ? j.map(finite) : j && typeof j === 'object' && !Number.isFinite(j.f) ? null : j);
const lit = (s) => { let out = '"'; for (let i = 0; i < s.length; i++) out += /[0-9A-Za-z ,.-]/.test(s[i]) ? s[i] : '\\u' + s.charCodeAt(i).toString(16).padStart(4, '0'); return out + '"'; };
const text = (v) => {
    if (v === null) return 'null';
    if (typeof v === 'string') return lit(v);
    if (typeof v === 'number') return String(v);
    if (v instanceof Uint8Array) return `{"x":"${Buffer.from(v).toString('hex')}"}`;
    if (Array.isArray(v)) return `[${v.map(text).join(',')}]`;
    const d = new DataView(new ArrayBuffer(8));
    d.setFloat64(0, v.f);
    return `{"f":"${d.getBigUint64(0).toString(16).padStart(16, '0')}"}`;
};
export const show = (a, how) => {
    const w = outcome(a, how);
    return w[0] === 'ok' ? text([w[1], ['ok', w[2]]]) : `[${w[1] ?? 'null'},["err","\u0002"]]`;
};
const lazyValue = (a, kind) => {
    if (a[0] !== 'ok' || a[4]) return ['error', '\u0002'];
    const w = outcome(a, 0);
    if (w[0] !== 'ok') return ['error', '\u0002'];
    const [status, body] = w[2];
    if (kind === 1) return ['ready', body[0] === 't' ? `${status} ${body[1]}` : `${status} \u0002`];
    if (status === 200) return body[0] === 'j' && typeof body[1] === 'string' ? ['ready', body[1]] : ['error', '\u0002'];
    return kind === 2 && status === 404 ? ['error', 'not found'] : ['error', '\u0002'];
};
