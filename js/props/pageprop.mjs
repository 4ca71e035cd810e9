// Runs page programs in the simulated browser and compares the document after every operation.
import { fail } from '../engine.mjs';
import { Browser } from '../host.mjs';
import { Gen, Data, Inst, compare, sheet } from './page.mjs';

export const runPage = async (c, env, o = {}) => {
    const b = new Browser({ module: env.module, code: c.ts && env.ts ? env.ts : env.bundle, boot: ['boot', o.boot ?? c.setup, c.root], now: 1700000000000 });
    try {
        const data = new Data();
        for (const op of c.setup) data.apply(op);
        data.renders = [];
        await b.start();
        const root = new Inst(c.root, [], data, null);
        const st = { b, data, root, steps: 0, changed: 0 };
        const check = (what) => {
            b.check();
            const err = b.errors();
            if (err.length) fail(`${what}: the runtime reports ${err.map((e) => e.slice(1).map(String).join(' ')).join(' | ')}`, 'console-error');
            compare(b.document.documentElement, root, data, sheet(b.document), what + ': html', { identity: true, ...o });
        };
        st.check = check;
        await o.begin?.(st);
        check('start');
        st.log = b.exec(['log']);
        await o.atStart?.(st);
        for (const op of c.ops) {
            st.steps++;
            const before = JSON.stringify([data.vals, data.lists, data.strs, data.opts]);
            data.renders = [];
            if (o.op && await o.op(st, op, check)) continue;
            data.apply(op);
            st.prev = o.before?.(st, op);
            root.update(data);
            if (JSON.stringify([data.vals, data.lists, data.strs, data.opts]) !== before) st.changed++;
            st.log = b.exec(['rx', [op]]);
            check(`after operation ${st.steps} ${JSON.stringify(op)}`);
            await o.after?.(st, op);
        }
        await o.atEnd?.(st);
        return st;
    } finally { b.close(); }
};
export const genPage = (src, cfg, G = Gen) => {
    const g = new G(src, cfg);
    const root = g.root();
    const setup = g.setup();
    return { setup, root, ops: src.list(1, cfg.ops ?? 8, () => g.op(), cfg.meanOps ?? 5), ts: src.bool(0.3) };
};
export const kinds = (n, out = {}) => {
    if (!Array.isArray(n)) return out;
    const k = n[0];
    out[k] = (out[k] ?? 0) + 1;
    if (k === 'e') { n[3].forEach((c) => kinds(c, out)); for (const a of n[2]) out['a-' + a[0]] = (out['a-' + a[0]] ?? 0) + 1; }
    if (k === 'fr') n[1].forEach((c) => kinds(c, out));
    if (k === 'rv' || k === 'ro') n[2].forEach((c) => c && kinds(c, out));
    if (k === 'rl') { kinds(n[2], out); if (!['e', 't', 'tc'].includes(n[2][0])) out.markeritem = 1; }
    return out;
};
