import { fail } from '../engine.mjs';
import { open, noErrors, str, J } from './hostprop.mjs';

const K = 3;
const NET = [['GET', '/'], ['GET', '/a'], ['POST', '/p'], ['GET', 'http://[']];
export const cacheOp = (s) => {
    const [m, u] = s.weighted([[4, NET[0]], [3, NET[1]], [2, NET[2]], [0.3, NET[3]]]);
    const kind = s.weighted([[3, 0], [2, 1], [2, 2], [m === 'GET' ? 1 : 0.001, 3]]);
    const ttl = s.weighted([[2, null], [5, s.pick([0, 1, 1, 2, 5, 60, 120, 3600, 86400, 172800])]]);
    return ['lz', s.draw(K), [m, u, null, null, kind === 3 ? ttl ?? 5 : ttl, s.draw(4), null], kind, s.draw(2)];
};
export const cacheUse = (s) => s.weighted([
    [5, () => ['lzget', s.draw(K), s.draw(2)]], [2, () => ['lzsub', s.draw(4), s.draw(K)]], [1, () => ['lzunsub', s.draw(4)]],
    [1.2, () => ['lzforget', s.draw(K)]], [1.2, () => ['lzforce', s.draw(K), s.draw(2)]], [1, () => ['lzupd', s.draw(K), s.draw(2), s.draw(2)]], [0.4, () => ['lzdrop', s.draw(K)]], [0.7, () => cacheOp(s)],
])();
const answer = (s) => s.weighted([
    [1.5, () => ['fail', s.pick(['Failed to fetch', 'x "y"', ''])]],
    [6, () => ['ok', s.weighted([[5, 200], [2, 404], [2, s.pick([201, 301, 400, 500])]]), ...s.weighted([[5, () => ['application/json', JSON.stringify(str(s)).replace(/\\ud[89a-f]../g, '')]], [1, () => ['application/json', s.pick(['1', 'null', '[]', '{', '{"a":1}'])]], [2, () => ['text/plain', str(s)]], [1, () => ['image/png', 'abc']]])()]],
])();

export default {
    id: 'P22', quick: 8000, thorough: 300000,
    rule: 'Up to 24 operations on up to 3 cached remote values (with and without lifetime; all ways to make one): reads (also in transactions and through derived values), subscriptions, forgetting, explicit updates with and without force and loading indication, several of them at once, answers of every kind in any order and passing time around the lifetimes. Every value read or shown, and every request made, is compared with a model. Non-trivial = at least two answers, one of them a renewal.',
    assumptions: ['uses exactly at the millisecond of expiry are not generated (either answer would do)'],
    generate: (s) => ({ ts: s.bool(0.2), ops: [cacheOp(s), ...s.list(1, 24, () => s.weighted([
        [8, () => cacheUse(s)], [1.5, () => ['tx', s.list(1, 4, () => cacheUse(s), 2)]], [1.5, () => ['many', s.list(2, 4, () => cacheUse(s), 2)]],
        [5, () => ['answer', s.draw(8), answer(s)]], [3, () => ['wait', s.weighted([[3, () => s.pick([0, 500, 998, 1000, 1002, 2000, 5000])], [1, () => s.pick([59998, 60002, 120002, 3600002, 86400002])], [1, () => 2 * s.int(0, 3000)]])()]], [1.5, () => ['till', s.draw(K), s.pick([-2, 2])]],
    ])(), 13)] }),
    run: async (c, env) => {
        const b = await open(c, env);
        let answers = 0, renewed = 0, forced = 0;
        try {
            let seq = 0;
            const slots = new Map(); // slot -> cache
            const caches = [];
            const subs = new Map(); // k -> {cache, last}
            const retire = (k) => { const s = subs.get(k); if (s) gone.set(k, [...(gone.get(k) ?? []), s]); };
            const LOADING = ['loading'];
            const number = (o) => {
                if (o[0] === 'tx' || o[0] === 'many') return [o[0], o[1].map(number)];
                if (o[0] !== 'lz') return o;
                const d = [...o[2]];
                d[1] += '?' + ++seq;
                return ['lz', o[1], d, o[3], o[4], seq];
            };
            const due = (m) => m.value === null || (m.expiry !== null && b.now > m.expiry);
            const use = (m) => { if (!m.queued && due(m)) update(m, false, false); };
            const update = (m, loading, force) => {
                if (m.flight) return;
                if (m.queued) { m.queued.force ||= force; m.queued.loading ||= loading; m.merged = true; return; }
                m.queued = { loading, force };
            };
            const shown = (m) => m.value ?? LOADING;
            const touched = (m) => { for (const s of subs.values()) if (s.cache === m) { s.states.push(shown(m)); } m.changed = true; };
            const reread = () => { for (const s of subs.values()) if (s.cache.changed) use(s.cache); for (const m of caches) m.changed = false; };
            // one operation of the program; out receives what it logs at once
            const model = (o, out, inTx = false) => {
                const m = slots.get(o[0] === 'lzsub' ? o[2] : o[1]);
                switch (o[0]) {
                    case 'tx': case 'many': for (const x of o[1]) model(x, out, inTx || o[0] === 'tx'); break;
                    case 'lz': { const n = { id: o[5], url: o[2][1], method: o[2][0], ttl: o[2][4], kind: o[3], value: null, expiry: null, queued: null, flight: null, fetches: 0 }; caches.push(n); slots.set(o[1], n); break; }
                    case 'lzget': if (m) { out.push(['lzget', o[1], shown(m)]); use(m); } break;
                    case 'lzsub': if (m) { retire(o[1]); subs.set(o[1], { cache: m, states: [shown(m)], fresh: true }); use(m); } break;
                    case 'lzunsub': retire(o[1]); subs.delete(o[1]); break;
                    case 'lzforget': if (m) { m.value = null; m.expiry = null; touched(m); } break;
                    case 'lzforce': if (m) { update(m, !!o[2], true); forced++; } break;
                    case 'lzupd': if (m) update(m, !!o[2], !!o[3]); break;
                    case 'lzdrop': slots.delete(o[1]); break;
                    default: throw Error('harness: ' + o[0]);
                }
                if (!inTx) reread();
            };
            /** the scheduled updates run */
            const settled = () => {
                for (const m of caches) {
                    const q = m.queued;
                    if (!q || m.flight) continue;
                    if (!q.force && !due(m)) { m.queued = null; continue; }
                    if (q.loading) { m.value = LOADING; m.expiry = null; touched(m); }
                    m.flight = true;
                    m.fetches++;
                    if (m.fetches > 1) renewed++;
                    if (m.url.startsWith('http://[')) finish(m, ['error', '']);
                }
                reread();
            };
            const finish = (m, value) => {
                m.value = value;
                m.expiry = m.ttl === null ? null : b.now + m.ttl * 1000;
                m.flight = null;
                m.queued = { done: true };
                touched(m);
                reread();
                m.queued = null;
            };
            const match = (want, got) => want[0] === got[0] && (want[0] === 'loading' || (want[0] === 'error' ? got[1] && got[1].includes(want[1]) : want[2] ? got[1].startsWith(want[1]) : got[1] === want[1]));
            const seen = (log, what) => {
                for (const e of log.filter((e) => e[0] === 'lzsub' && e.length === 3)) {
                    const now = subs.get(e[1]), all = [...(now ? [now] : []), ...(gone.get(e[1]) ?? [])];
                    if (!all.length) fail(`${what}: the dropped subscriber ${e[1]} is called with ${J(e[2])}`, 'dropped');
                    if (now) { now.called = true; now.last = e[2]; }
                    if (!all.some((s) => s.states.some((x) => match(x, e[2])))) fail(`${what}: the subscriber ${e[1]} is shown ${J(e[2])} instead of ${J(all.map((s) => s.states))}`, 'shown');
                }
            };
            let gone = new Map();
            let at = 0;
            const check = (what) => {
                b.check();
                seen(b.exec(['log']), what);
                for (; at < b.fetches.length; at++) {
                    const f = b.fetches[at];
                    const m = caches.find((m) => m.url === f.url);
                    if (!m || f.method !== m.method) fail(`${what}: unexpected request ${f.method} ${f.url}`, 'request');
                    m.made = (m.made ?? 0) + 1;
                    m.fetch = f;
                    if (m.made > m.fetches) fail(`${what}: ${f.url} is requested again (shown: ${J(m.value)}, lifetime ${m.expiry === null ? 'unlimited' : m.expiry - b.now + ' ms left'})`, 'request-again');
                }
                for (const m of caches) if (!m.url.startsWith('http://[') && (m.made ?? 0) < m.fetches) fail(`${what}: ${m.url} is not requested (shown: ${J(m.value)})`, 'not-requested');
                for (const [k, s] of subs) {
                    if (s.fresh && !s.called) fail(`${what}: the new subscriber ${k} is not called`, 'not-called');
                    if (!match(shown(s.cache), s.last)) fail(`${what}: the subscriber ${k} was last shown ${J(s.last)}, current is ${J(shown(s.cache))}`, 'stale');
                    s.fresh = false;
                    s.states = [shown(s.cache)];
                }
                gone = new Map();
                noErrors(b, what, [/Error fetching/, /fetch error/, /No match found/]);
                b.console = [];
            };
            for (let o of c.ops) {
                o = number(o);
                const what = J(o).slice(0, 300);
                // close to the end of a lifetime
                if (o[0] === 'till') { const ends = slots.get(o[1])?.expiry; if (ends && ends + o[2] > b.now) { await b.advance(ends + o[2] - b.now); check(what); } continue; }
                if (o[0] === 'wait') { await b.advance(o[1]); check(what); continue; }
                if (o[0] === 'answer') {
                    const open = caches.filter((m) => m.flight && m.fetch && !m.fetch.done);
                    if (!open.length) continue;
                    const m = open[o[1] % open.length], a = o[2];
                    await b.advance(1);
                    answers++;
                    if (a[0] === 'fail') { b.failFetch(m.fetch, a[1]); finish(m, ['error', a[1].split(' ')[0]]); }
                    else {
                        const [, status, type, body] = a;
                        b.respond(m.fetch, { status, type, body });
                        let v, bad = false;
                        if (type === 'application/json') try { v = JSON.parse(body); } catch { bad = true; }
                        const text = type === 'application/json' && typeof v === 'string' ? ['ready', v] : ['error', ''];
                        finish(m, bad ? ['error', ''] : m.kind === 1 ? (type === 'text/plain' ? ['ready', `${status} ${body.replace(/^\ufeff/, '')}`] : ['ready', `${status} `, true]) : status === 200 ? text : m.kind === 2 && status === 404 ? ['error', 'not found'] : ['error', String(status)]);
                    }
                    await b.settle();
                    await b.advance(0);
                    settled();
                    await b.advance(1);
                    check(what);
                    continue;
                }
                const out = [];
                gone = new Map();
                model(o, out);
                const log = b.exec(['rx', o[0] === 'many' ? o[1] : [o]]);
                const gets = log.filter((e) => e[0] === 'lzget' && e.length === 3);
                for (const d of log.filter((e) => e[0] === 'differs')) fail(`${what}: the value ${J(d[2])} is passed on as ${J(d[3])} (way ${d[1]})`, 'passed-on');
                if (gets.length !== out.length || !gets.every((g, i) => g[1] === out[i][1] && match(out[i][2], g[2]))) fail(`${what}: read ${J(gets)} instead of ${J(out)}`, 'read');
                seen(log, what);
                settled();
                await b.settle();
                await b.advance(0);
                await b.advance(0);
                check(what);
            }
        } finally { b.close(); }
        return { nontrivial: answers >= 2 && renewed > 0, classes: [c.ts ? 'ts' : 'bundle', renewed ? 'renewed' : 'first', forced ? 'forced' : 'unforced'] };
    },
};
