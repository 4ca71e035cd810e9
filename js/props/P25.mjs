import { fail } from '../engine.mjs';
import { open, noErrors, str, J } from './hostprop.mjs';

const K = 3;
const body = (s, depth = 1) => s.list(0, 2, () => s.weighted([[3, () => ['wssend', s.draw(K), str(s)]], [1, () => ['wsdrop', s.draw(K), s.draw(2)]], ...(depth ? [[0.5, () => ws(s, 0)]] : [])])(), 0.6);
export const ws = (s, depth = 1) => ['ws', s.draw(K), '', [body(s, depth), body(s, depth), body(s, depth)], 0];
export default {
    id: 'P25', quick: 5000, thorough: 200000,
    rule: 'Up to 20 operations on up to 3 websocket handles: opening, dropping and sending from the program and from within handlers, sockets that open, deliver any text, close, fail or never answer, and passing time. Every call of every handler, every text sent, and every socket of the program is compared with a model at each step; lost, refused and unanswered connections must be retried within 10 s as long as the handle lives, never afterwards. Non-trivial = a message delivered and either a reconnection or a drop.',
    assumptions: ['messages are text (the program has no other kind)', 'addresses are valid'],
    generate: (s) => ({ ts: s.bool(0.3), ops: [...(s.bool(0.7) ? [ws(s), ['open', 0], ...(s.bool() ? [['msg', 0, str(s)]] : [])] : []), ...s.list(1, 20, () => s.weighted([
        [3, () => ws(s)], [2, () => ['wsdrop', s.draw(K), s.draw(2)]], [2, () => ['wssend', s.draw(K), str(s)]],
        [5, () => ['open', s.draw(8)]], [6, () => ['msg', s.draw(8), str(s)]], [2, () => ['close', s.draw(8)]], [2, () => ['fail', s.draw(8)]],
        [4, () => ['wait', s.pick([1, 100, 1000, 2999, 3000, 3001, 4999, 5000, 5001, 8000, 12000])]],
        [1, () => ['tx', s.list(1, 3, () => s.weighted([[1, () => ws(s)], [1, () => ['wsdrop', s.draw(K), 0]], [1, () => ['wssend', s.draw(K), str(s)]]])(), 2)]],
    ])(), 12)] }),
    run: async (c, env) => {
        const b = await open(c, env);
        let delivered = 0, redone = 0, drops = 0;
        try {
            const handles = []; // {id, k, bodies, live, socks: [], idle}
            const byK = new Map(), conn = new Map();
            let next = 1;
            let expect = [];
            let sends = []; // [socket, text]
            const number = (op) => { // gives each new handle its number and address
                if (op[0] === 'tx') return ['tx', op[1].map(number)];
                if (op[0] !== 'ws') return op;
                const id = next++;
                return ['ws', op[1], 'ws://h.test/' + id, op[3].map((l) => l.map(number)), id];
            };
            const drop = (h) => { if (h && h.live) { h.live = false; drops++; if (h.open) { h.open = null; } } };
            const model = (op) => {
                if (op[0] === 'tx') return op[1].forEach(model);
                if (op[0] === 'ws') {
                    const h = { id: op[4], k: op[1], bodies: op[3], live: true, socks: [], open: null, url: op[2], lost: b.now };
                    handles.push(h);
                    drop(byK.get(h.k));
                    byK.set(h.k, h);
                } else if (op[0] === 'wsdrop') { drop(byK.get(op[1])); byK.delete(op[1]); }
                else if (op[0] === 'wssend') { const h = conn.get(op[1]); if (h?.live && h.open) sends.push([h.open, op[2]]); }
            };
            const event = (h, which, text) => {
                expect.push(text === undefined ? ['ws', h.k, h.id, which] : ['ws', h.k, h.id, which, text]);
                if (which === 'open') conn.set(h.k, h);
                h.bodies[which === 'open' ? 0 : which === 'msg' ? 1 : 2].forEach(model);
            };
            const sockets = () => {
                for (const s of b.sockets) {
                    if (s.handle) continue;
                    // handles made by the same operation have the same address; at most one of them lives
                    const same = handles.filter((x) => x.url === s.url);
                    const h = same.find((x) => !x.socks.length) ?? same.find((x) => x.live) ?? same[0];
                    if (!h) fail(`a socket to ${s.url} is opened`, 'socket');
                    s.handle = h;
                    s.expected = [];
                    if (!h.live && h.socks.length) fail(`socket ${s.url} is opened again after its handle was dropped`, 'reopened');
                    if (h.socks.some((x) => x.readyState < 2 && !x.closeCalled)) fail(`a second socket to ${s.url} is opened while the first is in use`, 'parallel');
                    if (h.socks.length) redone++;
                    h.socks.push(s);
                }
            };
            const check = (what) => {
                b.check();
                const log = b.exec(['log']).filter((e) => e[0] === 'ws' && e.length > 2);
                if (J(log) !== J(expect)) fail(`${what}: the handlers are called ${J(log)} instead of ${J(expect)}`, 'handlers');
                expect = [];
                sockets();
                for (const [s, t] of sends) s.expected.push(t);
                sends = [];
                for (const s of b.sockets) if (J(s.sent) !== J(s.expected)) fail(`${what}: ${s.url} sent ${J(s.sent)} instead of ${J(s.expected)}`, 'sent');
                for (const h of handles) {
                    const active = h.socks.filter((s) => s.readyState < 2);
                    if (!h.live && active.length) fail(`${what}: handle ${h.id} is dropped but its socket ${active[0].readyState ? 'is open' : 'is still being connected'}`, 'left-open');
                    if (h.live && h.open && h.open.readyState !== 1) fail(`${what}: the runtime closed the open socket of handle ${h.id}`, 'closed');
                    if (h.live && active.length) h.lost = b.now;
                    if (h.live && !active.length && b.now - h.lost > 10000) fail(`${what}: handle ${h.id} has had no socket for ${b.now - h.lost} ms`, 'not-retried');
                }
                const toks = b.exec(['toks']).filter((t) => t[0] === 'ws').reduce((n, t) => n + t[2], 0);
                if (toks !== handles.filter((h) => h.live).length) fail(`${what}: ${toks} handlers are kept for ${handles.filter((h) => h.live).length} handles`, 'kept');
                noErrors(b, what, [/Socket ws/, /Missing socket connection/, /send fail/]);
                b.console = [];
            };
            const wait = async (ms, what) => { for (let left = ms; left > 0;) { const d = Math.min(left, 1000); await b.advance(d); left -= d; check(what); } };
            for (let op of c.ops) {
                const what = J(op).slice(0, 300);
                if (op[0] === 'wait') { await wait(op[1], what); continue; }
                if (['open', 'msg', 'close', 'fail'].includes(op[0])) {
                    const cand = b.sockets.filter((s) => (op[0] === 'open' ? s.readyState === 0 : op[0] === 'msg' ? s.readyState === 1 : s.readyState < 2));
                    if (!cand.length) continue;
                    const s = cand[op[1] % cand.length], h = s.handle;
                    if (op[0] === 'open') { if (h.live) { h.open = s; event(h, 'open'); } b.wsOpen(s); }
                    else if (op[0] === 'msg') { if (h.live) { delivered++; event(h, 'msg', op[2]); } b.wsMessage(s, op[2]); }
                    else {
                        const was = h.open === s;
                        h.open = was ? null : h.open;
                        if (h.live && was) event(h, 'close');
                        if (op[0] === 'close') b.wsClose(s); else b.wsFail(s);
                    }
                    await b.settle();
                    check(what);
                    continue;
                }
                op = number(op);
                model(op);
                const log = b.exec(['rx', [op]]);
                if (log.some((e) => e[0] === 'ws' && e.length > 2)) fail(`${what}: a handler is called at once`, 'handlers');
                await b.settle();
                check(what);
            }
            await wait(13000, 'at the end');
        } finally { b.close(); }
        return { nontrivial: delivered > 0 && (redone > 0 || drops > 0), classes: [c.ts ? 'ts' : 'bundle', redone ? 'retry' : 'noretry', drops ? 'drop' : 'nodrop', delivered ? 'message' : 'nomessage'] };
    },
};
