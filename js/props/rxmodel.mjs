// Generator and reference model for reactive-graph programs (properties P01-P05).
// The model re-executes the program next to the guest's log. Where the framework may choose
// (which subscriber is refreshed first), it follows the log and checks that the choice was allowed.
import { bare } from '../bare.mjs';

// ------------------------------------------------------------------ generator
export const genProgram = (src, cfg) => {
    const st = { slots: new Map(), nslots: cfg.slots ?? 7, nsubs: cfg.subs ?? 4, maps: new Map(), nextId: 1, conns: [], hooks: 2 };
    const live = (kind) => [...st.slots.keys()].filter((k) => !kind || st.slots.get(k) === kind);
    const konst = () => src.weighted([[5, 0], [5, 1], [3, 2], [2, 3], [1, -1], [1, 7]]);
    const ref = () => {
        const l = live();
        return l.length ? ['r', src.pick(l)] : ['k', konst()];
    };
    const expr = (d) => {
        if (d <= 0) return src.weighted([[6, 'r'], [1, 'k']]) === 'r' ? ref() : ['k', konst()];
        switch (src.weighted([[4, 'r'], [4, 'add'], [5, 'if'], [2, 'mod'], [1, 'mul'], [3, 'sw'],
            [cfg.inner ?? 1, 'in'], [cfg.inner ?? 1, 'inmap'], [st.maps.size ? (cfg.auto ?? 1) : 0, 'auto']])) {
            case 'r': return ref();
            case 'add': return ['add', expr(d - 1), expr(d - 1)];
            case 'mod': return ['mod', expr(d - 1), src.int(2, 3)];
            case 'mul': return ['mul', expr(d - 1), src.int(0, 3)];
            case 'if': return ['if', ['mod', expr(d - 2), 2], expr(d - 1), expr(d - 1)];
            case 'sw': return ['sw', expr(d - 2), [expr(d - 1), expr(d - 1), expr(d - 2)].slice(0, src.int(2, 3))];
            case 'in': return ['in', st.nextId++, expr(d - 1)];
            case 'inmap': { const l = live(); return l.length ? ['inmap', st.nextId++, src.pick(l), src.int(0, 2)] : ['k', 1]; }
            case 'auto': return ['auto', src.pick([...st.maps.keys()]), ['mod', expr(d - 1), 4]];
        }
    };
    const slotNo = () => src.draw(st.nslots);
    const anySlot = () => { const l = live(); return l.length ? src.pick(l) : 0; };
    const op = (where, depth) => {
        // where: 'top' | 'tx' | 'cb' (subscriber callback) | 'hook'
        const readable = where !== 'cb';
        const kinds = [
            [cfg.w.comp ?? 8, 'comp'], [cfg.w.val ?? 4, 'val'], [cfg.w.map ?? 2, 'map'], [1, 'conv'], [1, 'konst'], [cfg.w.map ?? 2, 'tup'],
            [where === 'cb' ? 0 : (cfg.w.conn ?? 0), 'conn'],
            [readable ? (cfg.w.set ?? 12) : 0, 'set'],
            [readable ? (cfg.w.set ?? 12) / 3 : 0, 'setc'],
            [readable ? (cfg.w.set ?? 12) / 3 : 0, 'chg'],
            [readable ? 1 : 0, 'rset'], [readable ? 1 : 0, 'rchg'],
            [readable ? (cfg.w.get ?? 6) : 0, 'get'],
            [readable && depth > 0 ? (cfg.w.tx ?? 8) : 0, 'tx'],
            [where === 'hook' ? 0 : (cfg.w.sub ?? 6), 'sub'],
            [where === 'hook' ? 0 : (cfg.w.suba ?? 2), 'suba'],
            [cfg.w.unsub ?? 3, 'unsub'], [cfg.w.drop ?? 2, 'drop'], [cfg.w.clone ?? 1, 'clone'],
            [readable ? (cfg.w.emit ?? 0) : 0, 'emit'],
            [where === 'hook' || where === 'cb' ? 0 : (cfg.w.automap ?? 0), 'automap'],
            [readable && st.maps.size ? (cfg.w.mapget ?? 0) : 0, 'mapget'],
            [readable && st.maps.size ? (cfg.w.mapget ?? 0) / 2 : 0, 'mapset'],
            [st.maps.size && where === 'top' ? (cfg.w.automap ?? 0) / 4 : 0, 'dropmap'],
            [where === 'hook' || where === 'cb' ? 0 : (cfg.w.hook ?? 0), 'hook'],
            [where === 'hook' || where === 'cb' ? 0 : (cfg.w.hook ?? 0), 'unhook'],
        ].map(([w, k]) => [Math.round(w * 4), k]).filter(([w]) => w > 0);
        const k = src.weighted(kinds);
        // In callbacks the definition may run later or repeatedly: slot bookkeeping stays approximate,
        // operations on slots that hold nothing suitable are no-ops on both sides.
        const mark = (s, kind) => { if (!st.slots.has(s) || where !== 'cb') st.slots.set(s, kind); };
        switch (k) {
            case 'val': { const s = slotNo(); const o = ['val', s, konst()]; mark(s, 'v'); return o; }
            case 'konst': { const s = slotNo(); const o = ['konst', s, konst()]; mark(s, 'c'); return o; }
            case 'comp': { const e = expr(cfg.depth ?? 3); const s = slotNo(); mark(s, 'c'); return ['comp', s, st.nextId++, e]; }
            case 'conv': { const f = anySlot(); const s = slotNo(); mark(s, 'c'); return ['conv', s, f, src.int(0, 2)]; }
            case 'map': { const f = anySlot(); const s = slotNo(); mark(s, 'c'); return ['map', s, st.nextId++, f, src.int(0, 2)]; }
            case 'tup': { const f = anySlot(), g = anySlot(); const s = slotNo(); mark(s, 'c'); return ['tup', s, st.nextId++, f, g, src.int(0, 1)]; }
            case 'conn': { const s = slotNo(); const id = st.nextId++; st.conns.push(id); mark(s, 'c'); return ['conn', s, id, konst()]; }
            case 'set': case 'setc': case 'rset': { const l = live('v'); return [k, l.length ? src.pick(l) : 0, konst()]; }
            case 'chg': case 'rchg': { const l = live('v'); return [k, l.length ? src.pick(l) : 0, src.int(0, 3)]; }
            case 'get': { const o = ['get', anySlot()]; if (src.bool(0.2)) o.push(1); return o; }
            case 'tx': return ['tx', src.list(1, 6, () => op(where === 'hook' ? 'hook' : 'tx', depth - 1), 3)];
            case 'sub': case 'suba': {
                const from = anySlot();
                const body = src.bool(cfg.body ?? 0.35) ? src.list(1, 3, () => op('cb', 0), 1.5) : [];
                return [k, src.draw(st.nsubs), from, body, body.length ? src.int(1, 2) : 0];
            }
            case 'unsub': { const o = ['unsub', src.draw(st.nsubs)]; if (src.bool(0.2)) o.push(1); return o; }
            case 'drop': { const s = anySlot(); if (where !== 'cb') st.slots.delete(s); return ['drop', s]; }
            case 'clone': { const f = anySlot(); const s = slotNo(); if (st.slots.has(f)) mark(s, st.slots.get(f)); return ['clone', s, f]; }
            case 'emit': return ['emit', st.conns.length ? src.pick(st.conns) : 0, konst()];
            case 'automap': { const s = src.draw(2); const kind = src.draw(3); const o = ['automap', s, st.nextId++, kind, anySlot()]; st.maps.set(s, kind); return o; }
            case 'mapget': return ['mapget', src.pick([...st.maps.keys()]), src.int(0, 4)];
            case 'mapset': return ['mapset', src.pick([...st.maps.keys()]), src.int(0, 4), konst()];
            case 'dropmap': return ['dropmap', src.pick([...st.maps.keys()])];
            case 'hook': { const body = src.list(0, 2, () => op('hook', 1), 0.7); return ['hook', src.draw(st.hooks), body, body.length ? src.int(1, 2) : 0]; }
            case 'unhook': return ['unhook', src.draw(st.hooks)];
        }
    };
    const pre = [];
    for (let i = 0, n = src.int(1, 3); i < n; i++) { pre.push(['val', i, konst()]); st.slots.set(i, 'v'); }
    for (let i = 0, n = cfg.preConn ? src.int(1, 2) : 0; i < n; i++) { const s = slotNo(); const id = st.nextId++; st.conns.push(id); pre.push(['conn', s, id, konst()]); st.slots.set(s, 'c'); }
    return pre.concat(src.list(2, cfg.max ?? 40, () => op('top', 2), cfg.mean ?? 18));
};

// ------------------------------------------------------------------ model
const wrap64 = (x) => BigInt.asIntN(64, x);
const remEuclid = (a, m) => { const r = a % m; return r < 0n ? r + m : r; };

class Desync extends Error {}

export const simulate = (program, env, wanted) => {
    const guest = bare(env.module);
    const failures = [];
    const bad = (prop, msg) => { failures.push({ prop, msg }); };
    const stat = { notify: 0, reads: 0, recalcs: 0, drops: 0, multiWriteTx: 0, conditional: 0, cbOps: 0, connects: 0, fac: 0, hooks: 0, silent: 0, nested: 0 };

    const m = {
        slots: new Map(), subs: new Map(), maps: new Map(), hooks: new Map(), conns: new Map(),
        allNodes: [], allSubs: [], allMaps: [], allHooks: [],
        txLevel: 0, refreshing: false, written: new Set(), pendingSubs: new Set(), version: 0,
        touched: new Set(),
    };
    let log = [], pos = 0, opIndex = 0;
    const at = () => `operation ${opIndex}`;
    const idCount = new Map();
    const tokLog = new Map(), resLog = new Map(), stokLog = new Map(), htokLog = new Map();
    const inc = (map, k) => map.set(k, (map.get(k) ?? 0) + 1);
    const byId = new Map();

    // ---- evaluation
    const K = (v) => ({ t: 'k', v });
    const parse = (e) => {
        switch (e[0]) {
            case 'k': return ['k', BigInt(e[1])];
            case 'r': { const n = m.slots.get(e[1]); return n ? ['r', n] : ['k', 0n]; }
            case 'add': return ['add', parse(e[1]), parse(e[2])];
            case 'mul': case 'mod': return [e[0], parse(e[1]), BigInt(e[2])];
            case 'if': return ['if', parse(e[1]), parse(e[2]), parse(e[3])];
            case 'sw': return ['sw', parse(e[1]), e[2].map(parse)];
            case 'in': return ['in', e[1], parse(e[2])];
            case 'inmap': { const n = m.slots.get(e[2]); return n ? ['in', e[1], ['add', ['r', n], ['k', BigInt(e[3])]]] : ['k', 0n]; }
            case 'auto': { const mp = m.maps.get(e[1]); return mp ? ['auto', mp, parse(e[2])] : ['k', 0n]; }
        }
    };
    /** direct node references of an expression (for reachability) */
    const refsOf = (e, out) => {
        if (e[0] === 'r') out.add(e[1]);
        else if (e[0] === 'auto') { out.add(e[1]); refsOf(e[2], out); }
        else if (e[0] === 'in') refsOf(e[2], out);
        else if (e[0] === 'sw') { refsOf(e[1], out); for (const x of e[2]) refsOf(x, out); }
        else for (const x of e.slice(1)) if (Array.isArray(x)) refsOf(x, out);
        return out;
    };
    // tr: {sources:Set, nodes:Set (logged+unlogged derived), inner:Set(ids), direct}
    const newTr = () => ({ sources: new Set(), nodes: new Set(), inner: new Set(), memo: new Map() });
    const evalNode = (n, tr) => {
        if (n.t === 'src') { tr.sources.add(n); return n.v; }
        if (tr.memo.has(n)) return tr.memo.get(n);
        tr.nodes.add(n);
        const v = evalExpr(n.e, tr);
        tr.memo.set(n, v);
        return v;
    };
    const evalExpr = (e, tr) => {
        switch (e[0]) {
            case 'k': return e[1];
            case 'r': return evalNode(e[1], tr);
            case 'add': return wrap64(evalExpr(e[1], tr) + evalExpr(e[2], tr));
            case 'mul': return wrap64(evalExpr(e[1], tr) * e[2]) % 1000003n;
            case 'mod': return remEuclid(evalExpr(e[1], tr), e[2]);
            case 'mul1009': return wrap64(evalExpr(e[1], tr) * e[2]) % 1009n;
            case 'if': tr.cond = true; return evalExpr(e[1], tr) !== 0n ? evalExpr(e[2], tr) : evalExpr(e[3], tr);
            case 'sw': { tr.cond = true; const i = remEuclid(evalExpr(e[1], tr), BigInt(e[2].length)); return evalExpr(e[2][Number(i)], tr); }
            case 'in': tr.inner.add(e[1]); return evalExpr(e[2], tr);
            case 'auto': return evalNode(mapItem(e[1], evalExpr(e[2], tr)), tr);
        }
    };
    const mapItem = (mp, key) => {
        const k = String(key);
        if (!mp.items.has(k)) {
            let n;
            if (mp.kind === 2 && key > 0n) n = { t: 'comp', e: ['add', ['r', mapItem(mp, key - 1n)], ['k', key]], id: null };
            else if (mp.kind === 1) n = { t: 'comp', e: ['mul1009', ['r', mp.base], key], id: null };
            else n = { t: 'src', v: key * 10n };
            mp.items.set(k, n);
        }
        return mp.items.get(k);
    };
    const closure = (n) => { const tr = newTr(); tr.value = evalNode(n, tr); return tr; };

    // ---- reachability
    const reachable = () => {
        const seen = new Set();
        const go = (x) => {
            if (!x || seen.has(x)) return;
            seen.add(x);
            if (x.t === 'comp') for (const r of refsOf(x.e, new Set())) go(r);
            if (x.t === 'map') { for (const it of x.items.values()) go(it); go(x.base); }
        };
        for (const n of m.slots.values()) go(n);
        for (const s of m.subs.values()) go(s.node);
        for (const mp of m.maps.values()) go(mp);
        return seen;
    };

    // ---- log consumption
    /** entries that may appear anywhere: evaluations, releases, connections, factories */
    let demand = null; // set of allowed derived node ids during the current activity, or null (nothing may be evaluated)
    const peek = () => {
        while (pos < log.length) {
            const e = log[pos];
            switch (e[0]) {
                case 'ev': onEval(e[1]); pos++; continue;
                case 'tok': inc(tokLog, e[1]); stat.drops++; pos++; continue;
                case 'stok': inc(stokLog, e[1]); pos++; continue;
                case 'htok': inc(htokLog, e[1]); pos++; continue;
                case 'res': inc(resLog, e[1]); pos++; continue;
                case 'con': onConnect(e[1]); pos++; continue;
                case 'dis': onDisconnect(e[1]); pos++; continue;
                case 'dbl': bad('P04', `${at()}: source ${e[1]} connected twice at the same time`); pos++; continue;
                case 'fac': onFactory(e[1], e[2]); pos++; continue;
            }
            return e;
        }
        return null;
    };
    const take = (code, what) => {
        const e = peek();
        if (!e || e[0] !== code) throw new Desync(`${at()}: expected ${what}, the program did ${e ? JSON.stringify(e) : 'nothing'}`);
        pos++;
        return e;
    };
    const onEval = (id) => {
        stat.recalcs++;
        if (!demand) { bad('P03', `${at()}: derived value #${id} was evaluated although nothing asked for it`); return; }
        const list = byId.get(id);
        if (!list) { // created inside an evaluation
            if (!demand.inner.has(id)) bad('P03', `${at()}: inner derived value #${id} was evaluated although nothing asked for it`);
            return;
        }
        if (!list.some((n) => demand.nodes.has(n))) {
            bad('P03', `${at()}: derived value #${id} was evaluated although nothing that is being observed or read needs it`);
            return;
        }
        if (list.length === 1) {
            const n = list[0];
            if (n.cached === 'valid') bad('P03', `${at()}: derived value #${id} was evaluated again although none of its inputs was written since its last evaluation`);
            const tr = closure(n);
            // edges that existed and do not any more: those nodes may have lost their last observer
            if (n.tr) for (const x of n.tr.nodes) if (!tr.nodes.has(x) && x !== n) forgive(x);
            if (tr.inner.size) for (const x of tr.nodes) if (x !== n) forgive(x);
            n.tr = tr;
            n.cached = 'valid';
            if (tr.cond) stat.conditional++;
        } else {
            // several nodes made by the same definition: which one it was is not known
            for (const n of list) for (const x of captured(n)) forgive(x);
        }
    };
    const forgive = (n) => { if (n.cached === 'valid') n.cached = 'maybe'; };
    const onConnect = (id) => {
        stat.connects++;
        const c = m.conns.get(id);
        for (const s of c) { if (s.connected) bad('P04', `${at()}: source ${id} connected while already connected`); s.connected = true; s.flap = true; }
    };
    const onDisconnect = (id) => { for (const s of m.conns.get(id)) { s.connected = false; s.flap = true; } };
    const onFactory = (id, key) => {
        stat.fac++;
        const mp = m.allMaps.filter((x) => x.id === id);
        for (const x of mp) {
            if (mp.length === 1 && x.made.has(key)) bad('P05', `${at()}: keyed cache #${id} created the object for key ${key} twice`);
            x.made.add(key);
        }
    };

    // ---- transactions
    const write = (s, v) => {
        s.v = v;
        m.written.add(s);
        m.version++;
        for (const n of m.allNodes) if (n.cached === 'valid' && n.tr.sources.has(s)) n.cached = 'no';
        for (const k of m.allSubs) if (!k.dead && k.tr && k.tr.sources.has(s)) k.pending = true;
    };
    const begin = () => { m.txLevel++; };
    const end = () => {
        if (--m.txLevel > 0) return;
        if (m.written.size > 1) stat.multiWriteTx++;
        m.refreshing = true;
        const written = m.written;
        m.written = new Set();
        const queue = m.allSubs.filter((k) => !k.dead);
        const calledNow = new Set();
        // evaluation demand: everything pending subscribers need
        const savedDemand = demand;
        demand = newTr();
        for (const k of queue) if (k.pending) { const tr = closure(k.node); for (const x of tr.nodes) demand.nodes.add(x); for (const x of tr.inner) demand.inner.add(x); }
        for (;;) {
            const e = peek();
            if (!e || e[0] !== 'nt') break;
            const sub = m.subs.get(e[1]);
            pos++;
            const v = BigInt(e[2]);
            if (!sub || sub.dead) throw new Desync2('P02', `${at()}: subscriber ${e[1]} was called after its handle was dropped`);
            if (!queue.includes(sub)) throw new Desync2('P02', `${at()}: subscriber ${e[1]} created during notification was called again`);
            if (calledNow.has(sub)) bad('P02', `${at()}: subscriber ${e[1]} was called twice in one transaction`);
            calledNow.add(sub);
            notified(sub, v, e[3]);
        }
        for (const k of queue) {
            if (!k.pending) continue;
            if (k.dead) { k.pending = false; continue; }
            const tr = closure(k.node);
            const old = k.tr;
            k.tr = tr;
            k.pending = false;
            if (old) for (const x of old.nodes) if (!tr.nodes.has(x)) forgive(x);
            if (!calledNow.has(k)) {
                if (k.all) bad('P02', `${at()}: subscriber ${k.no} (subscribe_all) was not called although an input was written`);
                else if (k.last !== tr.value) { bad('P02', `${at()}: subscriber ${k.no} was not told: last value it was given is ${k.last}, the value is ${tr.value}`); k.last = tr.value; }
                else stat.silent++;
            }
        }
        m.refreshing = false;
        demand = savedDemand;
        fireHooks();
    };
    const notified = (sub, v, n) => {
        stat.notify++;
        const tr = closure(sub.node);
        if (v !== tr.value) bad('P02', `${at()}: subscriber ${sub.no} was given ${v}, the value is ${tr.value}`);
        if (!sub.all && sub.calls > 0 && v === sub.last) bad('P02', `${at()}: subscriber ${sub.no} was called again with the value ${v} it already had`);
        if (sub.all && sub.calls > 0 && !sub.pending && m.refreshing) bad('P02', `${at()}: subscriber ${sub.no} (subscribe_all) was called although nothing it depends on was written`);
        if (sub.tr) for (const x of sub.tr.nodes) if (!tr.nodes.has(x)) forgive(x);
        sub.calls++;
        if (n !== sub.calls) throw new Desync(`${at()}: call count of subscriber ${sub.no}`);
        sub.last = v;
        sub.tr = tr;
        sub.inCall = true;
        if (n <= sub.limit) { stat.cbOps += sub.body.length; run(sub.body, 'cb'); }
        sub.inCall = false;
        take('ntx', 'end of the callback');
    };
    const fireHooks = () => {
        const todo = new Set([...m.hooks.values()]);
        while (todo.size) {
            const e = peek();
            if (!e || e[0] !== 'hk') { bad('P05', `${at()}: ${todo.size} function(s) registered to run after transactions did not run`); return; }
            const h = m.hooks.get(e[1]);
            if (!h || !todo.has(h)) throw new Desync2('P05', `${at()}: hook ${e[1]} ran although ${h ? 'it already ran for this transaction' : 'it is not registered'}`);
            pos++;
            todo.delete(h);
            h.count++;
            stat.hooks++;
            if (h.count <= h.limit) run(h.body, 'hook');
            take('hkx', 'end of the hook');
        }
    };
    class Desync2 extends Desync { constructor(prop, msg) { super(msg); this.prop = prop; } }

    const kill = (sub) => {
        sub.dead = true;
        // those it observed may have lost their last observer
        for (const set of [sub.tr?.nodes ?? [], closure(sub.node).nodes]) for (const x of set) { forgive(x); for (const y of x.tr?.nodes ?? []) forgive(y); }
    };
    const newNode = (n) => { m.allNodes.push(n); if (n.id != null) { inc(idCount, n.id); if (!byId.has(n.id)) byId.set(n.id, []); byId.get(n.id).push(n); } return n; };
    const putSlot = (i, n) => { const old = m.slots.get(i); m.slots.set(i, n); if (old && old !== n) released(old); };
    const captured = (n, seen = new Set()) => {
        if (!n || seen.has(n)) return seen;
        seen.add(n);
        if (n.t === 'comp') for (const r of refsOf(n.e, new Set())) captured(r, seen);
        if (n.t === 'map') { for (const it of n.items.values()) captured(it, seen); captured(n.base, seen); }
        return seen;
    };
    const released = (n) => { for (const y of captured(n)) { forgive(y); for (const x of y.tr?.nodes ?? []) forgive(x); } };
    const releasedMap = (mp) => { if (mp) for (const it of mp.items.values()) released(it); };
    const readNow = (n) => {
        const saved = demand;
        const tr = closure(n);
        demand = merge(saved, tr);
        for (const s of captured(n)) m.touched.add(s);
        return { tr, back: () => { demand = saved; } };
    };
    const merge = (a, b) => { const t = newTr(); for (const x of [a, b]) if (x) { for (const n of x.nodes) t.nodes.add(n); for (const n of x.inner) t.inner.add(n); } return t; };

    const run = (ops, where) => {
        for (const op of ops) {
            if (where === 'top') opIndex = ops.indexOf(op);
            step(op, where);
            const e = peek();
            if (!e || e[0] !== 'd') {
                if (e && e[0] === 'nt') throw new Desync2('P02', `${at()}: subscriber ${e[1]} was called when nothing had been written in a finished transaction`);
                if (e && e[0] === 'hk') throw new Desync2('P05', `${at()}: hook ${e[1]} ran when no outermost transaction had ended`);
                throw new Desync(`${at()} ${JSON.stringify(op)}: unexpected ${JSON.stringify(e)}`);
            }
            pos++;
            if (where === 'top') quiescent();
        }
    };
    const step = (op, where) => {
        const isVal = (i) => { const n = m.slots.get(i); return n && n.t === 'src' ? n : null; };
        switch (op[0]) {
            case 'val': putSlot(op[1], { t: 'src', v: BigInt(op[2]) }); break;
            case 'konst': putSlot(op[1], newNode({ t: 'comp', e: ['k', BigInt(op[2])], id: null })); break;
            case 'comp': putSlot(op[1], newNode({ t: 'comp', e: parse(op[3]), id: op[2] })); break;
            case 'conv': {
                const n = m.slots.get(op[2]);
                if (!n) break;
                putSlot(op[1], n.t === 'comp' ? n : newNode({ t: 'comp', e: ['r', n], id: null }));
                break;
            }
            case 'tup': {
                const n = m.slots.get(op[3]), g = m.slots.get(op[4]);
                if (!n || !g) break;
                putSlot(op[1], newNode({ t: 'comp', e: ['add', ['r', n], ['add', ['r', n], ['r', g]]], id: op[2] }));
                break;
            }
            case 'map': {
                const n = m.slots.get(op[3]);
                if (!n) break;
                putSlot(op[1], newNode({ t: 'comp', e: ['add', ['r', n], ['k', BigInt(op[4])]], id: op[2] }));
                break;
            }
            case 'conn': {
                const s = { t: 'src', v: BigInt(op[3]), conn: op[2], connected: false };
                if (!m.conns.has(op[2])) m.conns.set(op[2], []);
                m.conns.get(op[2]).push(s);
                const n = newNode({ t: 'comp', e: ['r', s], id: null });
                s.handle = n;
                putSlot(op[1], n);
                break;
            }
            case 'clone': { const n = m.slots.get(op[2]); if (n) putSlot(op[1], n); break; }
            case 'drop': { const n = m.slots.get(op[1]); m.slots.delete(op[1]); if (n) released(n); break; }
            case 'set': case 'rset': { const s = isVal(op[1]); if (!s) break; begin(); write(s, BigInt(op[2])); end(); break; }
            case 'setc': { const s = isVal(op[1]); if (!s) break; begin(); if (s.v !== BigInt(op[2])) write(s, BigInt(op[2])); end(); break; }
            case 'chg': case 'rchg': { const s = isVal(op[1]); if (!s) break; begin(); write(s, wrap64(s.v + BigInt(op[2]))); end(); break; }
            case 'emit': {
                const list = m.conns.get(op[1]);
                const e = peek();
                if (!e || (e[0] !== 'em' && e[0] !== 'noem')) throw new Desync(`${at()}: emit`);
                pos++;
                const s = list?.[0];
                if (e[0] === 'em') { if (!s || !s.connected) { bad('P04', 'emission through a closed connection'); break; } begin(); write(s, BigInt(op[2])); end(); }
                break;
            }
            case 'get': {
                const n = m.slots.get(op[1]);
                if (!n) break;
                begin();
                const { tr, back } = readNow(n);
                const e = take('rd', 'a read');
                stat.reads++;
                if (e[1] !== op[1]) throw new Desync(`${at()}: read of slot`);
                if (BigInt(e[2]) !== tr.value) bad('P01', `${at()}: reading slot ${op[1]} gave ${e[2]}, its definition gives ${tr.value}`);
                back();
                endRead();
                break;
            }
            case 'tx': {
                begin();
                take('txb', 'start of the transaction');
                if (m.txLevel > 1) stat.nested++;
                run(op[1], 'tx');
                take('txe', 'end of the transaction body');
                end();
                break;
            }
            case 'sub': case 'suba': {
                const n = m.slots.get(op[2]);
                if (!n) break;
                const s = { no: op[1], node: n, all: op[0] === 'suba', body: op[3], limit: op[4], calls: 0, last: null };
                const saved = demand;
                demand = merge(saved, closure(n));
                const e = take('nt', 'the immediate call of the subscriber');
                if (e[1] !== op[1]) throw new Desync2('P02', `${at()}: subscriber ${e[1]} was called instead of the new subscriber ${op[1]}`);
                const wasRefreshing = m.refreshing;
                m.refreshing = false;
                notified(s, BigInt(e[2]), e[3]);
                m.refreshing = wasRefreshing;
                demand = saved;
                m.allSubs.push(s);
                const old = m.subs.get(op[1]);
                m.subs.set(op[1], s);
                if (old) kill(old);
                break;
            }
            case 'unsub': {
                const s = m.subs.get(op[1]);
                m.subs.delete(op[1]);
                const e = take('us', 'unsubscribe');
                if ((e[2] === 1) !== !!s) throw new Desync(`${at()}: unsubscribe`);
                if (s) { kill(s); take('usx', 'unsubscribe end'); }
                break;
            }
            case 'automap': {
                let base = null;
                if (op[3] === 1) { base = m.slots.get(op[4]); if (!base) break; }
                const mp = { t: 'map', id: op[2], kind: op[3], base, items: new Map(), made: new Set() };
                m.allMaps.push(mp);
                releasedMap(m.maps.get(op[1]));
                m.maps.set(op[1], mp);
                break;
            }
            case 'dropmap': releasedMap(m.maps.get(op[1])); m.maps.delete(op[1]); break;
            case 'mapget': {
                const mp = m.maps.get(op[1]);
                if (!mp) break;
                const n = mapItem(mp, BigInt(op[2]));
                begin();
                const { tr, back } = readNow(n);
                const e = take('mg', 'a keyed read');
                if (BigInt(e[3]) !== tr.value) bad('P05', `${at()}: keyed cache read of key ${op[2]} gave ${e[3]}, expected ${tr.value}`);
                back();
                endRead();
                break;
            }
            case 'mapset': {
                const mp = m.maps.get(op[1]);
                if (!mp) break;
                const n = mapItem(mp, BigInt(op[2]));
                if (n.t === 'src') { begin(); write(n, BigInt(op[3])); end(); }
                break;
            }
            case 'hook': { const h = { body: op[2], limit: op[3], count: 0 }; m.allHooks.push({ no: op[1], h }); m.hooks.set(op[1], h); break; }
            case 'unhook': take('uh', 'unhook'); m.hooks.delete(op[1]); break;
            default: throw Error('harness: model op ' + op[0]);
        }
    };
    // A read at top level is a transaction of its own; inside one it uses the context.
    const endRead = () => { if (m.txLevel === 1) end(); else m.txLevel--; };

    const expectCounts = (name, prop, log, expected) => {
        for (const k of new Set([...log.keys(), ...expected.keys()])) {
            const got = log.get(k) ?? 0, want = expected.get(k) ?? 0;
            if (got > want) bad(prop, `${at()}: ${name} ${k} was released while still in use (${got} released, ${want} expected)`);
            if (got < want) bad(prop, `${at()}: what ${name} ${k} captured was not released (${got} released, ${want} expected)`);
        }
    };
    const quiescent = () => {
        const live = reachable();
        const exp = new Map();
        for (const n of m.allNodes) if (n.id != null && !live.has(n)) inc(exp, n.id);
        for (const mp of m.allMaps) if (!live.has(mp)) inc(exp, mp.id);
        expectCounts('derived value', 'P03', tokLog, exp);
        const es = new Map(), er = new Map();
        for (const s of m.allSubs) {
            if (s.dead) inc(es, s.no);
            for (let i = 1; i <= s.calls - (s.dead ? 0 : 1); i++) inc(er, s.no * 1000 + i);
        }
        expectCounts('subscription', 'P03', stokLog, es);
        expectCounts('result of a subscriber call', 'P03', resLog, er);
        const eh = new Map();
        for (const { no, h } of m.allHooks) if (m.hooks.get(no) !== h) inc(eh, no);
        expectCounts('hook', 'P05', htokLog, eh);
        // connections
        const needed = new Set();
        for (const s of m.subs.values()) for (const x of closure(s.node).sources) if (x.conn) needed.add(x);
        for (const [id, list] of m.conns) {
            if (list.length !== 1) continue;
            const s = list[0];
            if (needed.has(s) && !s.connected) bad('P04', `${at()}: source ${id} is observed but not connected`);
            if (!needed.has(s) && s.connected) {
                if (!live.has(s.handle)) bad('P04', `${at()}: source ${id} is still connected although nothing refers to it any more`);
                else if (!m.touched.has(s)) bad('P04', `${at()}: source ${id} is still connected although nobody observes it`);
            }
            if (s.flap && s.wasNeeded && needed.has(s) && s.stable) bad('P04', `${at()}: source ${id} was reconnected although it was observed all the time`);
            s.flap = false;
            s.wasNeeded = needed.has(s);
        }
        // sources observed by a subscription that this operation did not touch: marked before each operation
    };
    const markStable = (op) => {
        // An operation that neither drops nor writes anything cannot end an observation.
        const harmless = (o) => ['val', 'get', 'konst', 'comp', 'conv', 'map', 'tup', 'conn'].includes(o[0]) && !m.slots.has(o[1]) || o[0] === 'get' || (o[0] === 'tx' && o[1].every((x) => x[0] === 'get'));
        for (const list of m.conns.values()) for (const s of list) s.stable = harmless(op) && !m.touched.has(s);
    };

    let error = null;
    for (let i = 0; i < program.length && !error; i++) {
        const op = program[i];
        opIndex = i;
        try {
            log = guest.exec(['rx', [op]]);
        } catch (e) {
            if (e.sig === 'crash') { for (const p of ['P01', 'P02', 'P03', 'P04', 'P05']) bad(p, `operation ${i} ${JSON.stringify(op)}: ${e.message}`); break; }
            throw e;
        }
        pos = 0;
        markStable(op);
        try {
            step(op, 'top');
            take('d', 'end of the operation');
            if (peek()) throw new Desync(`${at()}: left-over log ${JSON.stringify(log[pos])}`);
            quiescent();
        } catch (e) {
            if (!(e instanceof Desync)) throw e;
            if (e.message.includes('"nt"') && !e.prop) e.prop = 'P02';
            if (e.message.includes('"hk"') && !e.prop) e.prop = 'P05';
            error = e;
            bad(e.prop ?? '*', e.message);
        }
        if (failures.length) break;
    }
    return { failures, stat };
};
