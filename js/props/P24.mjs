import { fail } from '../engine.mjs';
import { Event_ } from '../minidom.mjs';
import { open, noErrors, str, STRS, J } from './hostprop.mjs';

const ADDR = ['/', '/a', '/a/b', '/a?q=1', '/a#h', '/a?x=y&z=%20#f', '/%C5%BC', '/b/', '/a%2Fb', '/c?', '/ż', 'rel', '../u', '?q=2', '/a b', '/x%', '/d?a=1&a=2', '/#a/b?c', '/long/' + 'x'.repeat(200), '/a.b;c=d', '/:x', '/@u'];
const RAW = ['', 'a', 'b', 'a/b', '%', '100%', '%zz', '%41', '%C5%BC', 'ż', 'a b', 'x?y#z', '%2F', '%25'];
const LINKS = [['#l1', '#', '#l/ż'], ['/l1', '/l2?x#y', 'l3', '#frag']];
const PAGE = (hash) => ['e', 'html', [], [['e', 'head', [], [], 0], ['e', 'body', [], LINKS[hash ? 0 : 1].map((h, i) => ['e', 'a', [['s', 'href', [h]], ['s', 'id', ['l' + i]]], [['t', ['link']]], 0]), 0]], 0];
const decode = (t) => { try { return decodeURIComponent(t); } catch { return t; } };

export default {
    id: 'P24', quick: 8000, thorough: 300000,
    rule: 'Up to 16 operations on up to 3 routers of one style (hash or history): creating and dropping routers, setting and modifying routes (any text in hash style, addresses in history style; alone or several in a transaction), subscribing, reading, back and replace by the program, back/forward/go by the user, edited addresses (also with malformed escapes) and clicks on links. After every step the address, the history entries, every router and every subscriber are compared with a model; routers nobody uses cause no calls. Non-trivial = a subscriber saw two changes.',
    assumptions: ['a program uses routers of one style', 'in history style "unchanged" is claimed for addresses in normal form (others appear as the browser normalises them)', 'a router read once without being observed may keep its listener'],
    generate: (s) => {
        const hash = s.draw(2);
        const k = () => s.draw(3);
        const text = () => (hash ? (s.bool(0.5) ? s.pick(RAW) : str(s)) : s.pick(ADDR));
        const wr = () => s.weighted([[4, () => ['rtset', k(), text(), s.draw(2)]], [1, () => ['rtchg', k(), s.pick(['x', '-y', 'z1/w'])]]])();
        return {
            ts: s.bool(0.3), hash, url: 'http://app.test/' + s.pick(['', 'a', 'p/q?r=1']) + s.pick(['', '', '#h', '#a/b', '#%C5%BC', ...(hash ? ['#%', '#x%zz'] : [])]),
            ops: [...(s.bool(0.75) ? [['router', 0, hash ? 0 : s.int(1, 2)], ['rtsub', 0, s.draw(2)]] : []), ...s.list(1, 16, () => s.weighted([
                [2, () => ['router', k(), hash ? 0 : s.int(1, 2)]], [1, () => ['rtdrop', k()]],
                [5, wr], [1, () => ['tx', s.list(1, 4, () => wr(), 2)]],
                [3, () => ['rtsub', k(), s.draw(4)]], [2, () => ['rtunsub', s.draw(4)]],
                [s.bool(0.5) ? 2 : 0.3, () => ['rtget', k()]],
                [1, () => ['back']], ...(hash ? [] : [[1, () => ['replace', s.pick(ADDR)]]]),
                [3, () => ['go', s.pick([-1, -1, 1, 1, -2, 2, 0, -9])]],
                [1, () => ['edit', hash ? s.pick(RAW) : s.pick(['', 'e1', 'e2'])]],
                [1, () => ['link', s.draw(3)]],
            ])(), 10)],
        };
    },
    run: async (c, env) => {
        const b = await open(c, env, { url: c.url, root: undefined, boot: ['boot', [], PAGE(c.hash)] });
        let most = 0, unused = 0;
        try {
            const routers = new Map(), subs = new Map(), all = [];
            const route = () => (c.hash ? decode(b.location.hash.slice(1)) : b.location.pathname + b.location.search + b.location.hash);
            const norm = (t) => { const u = new URL(t, b.entries[b.index]); return u.pathname + u.search + u.hash; };
            const inUse = () => all.some((r) => r.read || r.subs > 0);
            const unsub = (k) => { const x = subs.get(k); if (!x) return; subs.delete(k); if (--x.r.subs === 0) x.r.read = false; };
            for (const op of c.ops) {
                b.console = [];
                const what = J(op).slice(0, 400);
                const before = route(), index = b.index, entries = [...b.entries];
                let want = null; // expected text afterwards
                let grow = null; // expected number of entries after the current one before
                const started = new Set();
                const write = (o) => {
                    if (!routers.has(o[1])) return;
                    const now = want ?? before;
                    const t = o[0] === 'rtset' ? o[2] : now + o[2];
                    if (o[0] === 'rtchg') routers.get(o[1]).read = true;
                    grow ??= 0;
                    if (t === now) return;
                    if (c.hash) want = t; else { const u = new URL(t, 'http://app.test' + now); want = u.pathname + u.search + u.hash; }
                    grow++;
                };
                const used = inUse();
                b.callbacks = 0;
                let log = [];
                if (op[0] === 'go') b.history.go(op[1]);
                else if (op[0] === 'edit') b.location.hash = op[1] === '' ? '' : '#' + op[1];
                else if (op[0] === 'link') {
                    const e = new Event_('click', { bubbles: true });
                    const a = b.document.getElementById('l' + op[1]);
                    const href = a.getAttribute('href');
                    b.dispatch(a, e);
                    if (href.startsWith('#')) { if (e.defaultPrevented) fail(`${what}: the click on ${href} is suppressed`, 'link'); b.location.hash = href; } else { if (!e.defaultPrevented) fail(`${what}: the click on ${href} loads a page`, 'link'); want = norm(href); grow = href === before ? 0 : 1; }
                } else {
                    if (op[0] === 'router') { if (routers.has(op[1])) routers.get(op[1]).gone = true; const r = { subs: 0, read: false }; routers.set(op[1], r); all.push(r); }
                    if (op[0] === 'rtdrop' && routers.has(op[1])) { routers.get(op[1]).gone = true; routers.delete(op[1]); }
                    if (op[0] === 'rtset' || op[0] === 'rtchg') write(op);
                    if (op[0] === 'tx') op[1].forEach(write);
                    if (op[0] === 'rtsub' && routers.has(op[1])) { const r = routers.get(op[1]); const old = subs.get(op[2]); r.subs++; subs.delete(op[2]); if (old && --old.r.subs === 0) old.r.read = false; subs.set(op[2], { r, last: undefined, n: 0 }); started.add(op[2]); }
                    if (op[0] === 'rtunsub') unsub(op[1]);
                    if (op[0] === 'rtget' && routers.has(op[1])) routers.get(op[1]).read = true;
                    if (op[0] === 'replace') { const n = norm(op[1]); if (before !== op[1]) want = n; grow = 'replace'; }
                    for (const r of all) if (r.gone && r.subs === 0) r.read = false;
                    log = b.exec(['rx', [op]]);
                }
                const early = route();
                await b.settle();
                log.push(...b.exec(['log']));
                const now = route();
                // the address
                if (want !== null && now !== want) fail(`${what}: the address is ${J(b.location.href)}, that is ${J(now)} instead of ${J(want)}`, 'address');
                if (want !== null && early !== want) fail(`${what}: the address is set late`, 'address');
                if (want === null && grow !== null && now !== before) fail(`${what} changed the address from ${J(before)} to ${J(now)}`, 'address');
                if (grow === 'replace') { if (b.index !== index || b.entries.length !== entries.length) fail(`${what}: the history has ${b.entries.length} entries (at ${b.index}) instead of ${entries.length} (at ${index})`, 'entries'); }
                else if (grow !== null) { const n = grow ? index + grow + 1 : entries.length; if (b.index !== index + grow || b.entries.length !== n) fail(`${what}: the history has ${b.entries.length} entries (at ${b.index}) instead of ${n} (at ${index + grow})`, 'entries'); }
                else if (op[0] === 'back') { if (b.index !== Math.max(0, index - 1) || b.entries.length !== entries.length) fail(`${what}: at entry ${b.index} of ${b.entries.length}`, 'entries'); }
                else if (!['go', 'edit', 'link'].includes(op[0]) && (b.index !== index || b.entries.length !== entries.length || now !== before)) fail(`${what} changed the history`, 'entries');
                for (let i = 0; i < b.index; i++) if (grow !== 'replace' && i <= index && i < b.entries.length && b.entries[i].href !== entries[i].href) fail(`${what}: entry ${i} became ${b.entries[i].href}`, 'entries');
                // subscribers
                for (const [k, x] of subs) {
                    const got = log.filter((e) => e[0] === 'rtsub' && e[1] === k).map((e) => e[2]);
                    const expect = x.last === now && !started.has(k) ? [] : [now];
                    if (J(got) !== J(expect)) fail(`${what}: subscriber ${k} is told ${J(got)} instead of ${J(expect)}`, 'subscriber');
                    x.last = now;
                    if (!started.has(k)) x.n += got.length;
                    most = Math.max(most, x.n);
                }
                for (const e of log) if (e[0] === 'rtsub' && !subs.has(e[1])) fail(`${what}: subscriber ${e[1]} is told after it was dropped`, 'dropped');
                if (op[0] === 'rtget' && routers.has(op[1])) {
                    const got = log.find((e) => e[0] === 'route')[2];
                    if (got !== now) fail(`${what}: the route reads ${J(got)} instead of ${J(now)}`, 'read');
                }
                if (!used && !inUse()) { unused++; if (b.callbacks) fail(`${what}: the program is called though no router is in use`, 'listener'); }
                noErrors(b, what);
            }
            // at the end every router still there reads the address
            for (const k of routers.keys()) { const got = b.exec(['rx', [['rtget', k]]]).find((e) => e[0] === 'route')[2]; if (got !== route()) fail(`at the end router ${k} reads ${J(got)} instead of ${J(route())}`, 'read'); }
        } finally { b.close(); }
        return { nontrivial: most >= 2, classes: [c.ts ? 'ts' : 'bundle', c.hash ? 'hash' : 'history', unused ? 'unused' : 'used'] };
    },
};
