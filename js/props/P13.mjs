import fs from 'node:fs';
import { fail } from '../engine.mjs';
import { bare } from '../bare.mjs';
import { str, json, num, cmpStr, same, J } from './hostprop.mjs';

const { types, roots } = JSON.parse(fs.readFileSync(new URL('types.json', import.meta.url), 'utf8'));
const INT = { u32: [0, 2 ** 32 - 1], i32: [-(2 ** 31), 2 ** 31 - 1], u64: [0, 2 ** 53 - 1], i64: [1 - 2 ** 53, 2 ** 53 - 1] };
const two = (n) => String(n).padStart(2, '0');
const year = (y) => (y < 0 ? '-' + String(-y).padStart(4, '0') : y > 9999 ? '+' + y : String(y).padStart(4, '0'));
const DAY = 86400000, CE = 719163; // days from 0001-01-01 to 1970-01-01, plus one
const ymd = (ms) => { const d = new Date(ms); return `${year(d.getUTCFullYear())}-${two(d.getUTCMonth() + 1)}-${two(d.getUTCDate())}`; };
const rfc = (sec, nano) => {
    const d = new Date(sec * 1000);
    const frac = nano === 0 ? '' : nano % 1000000 === 0 ? '.' + String(nano / 1000000).padStart(3, '0') : nano % 1000 === 0 ? '.' + String(nano / 1000).padStart(6, '0') : '.' + String(nano).padStart(9, '0');
    return `${ymd(sec * 1000)}T${two(d.getUTCHours())}:${two(d.getUTCMinutes())}:${two(d.getUTCSeconds())}${frac}`;
};
const YMIN = Date.UTC(2000, 0, 1) - Math.round(2000 * 365.2425) * DAY;
/** a value of type t: {json, tree, alt?}; d limits the depth of recursive types */
const value = (s, t, d) => {
    if (typeof t === 'string') {
        if (t === 'String') { const v = str(s); return [v, v]; }
        if (INT[t]) { const [lo, hi] = INT[t]; const v = s.weighted([[2, () => s.pick([lo, hi, 0, 1, hi - 1, Math.floor(hi / 2), Math.max(lo, -1)])], [3, () => s.int(Math.max(lo, -100), 100)], [1, () => Math.floor(lo + (hi - lo) * (s.draw(1 << 30) / (1 << 30)))]])(); return [{ f: v }, v]; }
        if (t === 'bool') { const v = s.draw(2); return [['b', v], v]; }
        if (t === '()') return [['o', []], null];
        if (t === 'NaiveDate') { const days = s.weighted([[2, () => s.int(719163 - 40000, 719163 + 40000)], [1, () => s.pick([1, 2, 0, -365, 3652059, 3652060, 719163, 400 * 365, 738000 + 60])], [1, () => s.int(-800000, 8000000)]])(); return [ymd((days - CE) * DAY), days]; }
        const sec = s.weighted([[3, () => s.int(-2000000000, 4000000000)], [1, () => s.pick([0, -1, 1, 951782400, 253402300799, -62167219200, -62135596800])], [1, () => s.int(-62167219200, 253402300799)]])();
        const nano = s.weighted([[2, 0], [1, s.int(0, 999) * 1000000], [1, s.int(0, 999999) * 1000], [1, s.int(0, 999999999)]]);
        return [rfc(sec, nano) + '+00:00', [sec, nano]];
    }
    const [k, x] = t;
    if (k === 'named') {
        const [kind, f] = types[x];
        if (kind === 'unit') return [['o', []], []];
        if (kind === 'newtype') { const [j, tr] = value(s, f, d - 1); return [j, [tr]]; }
        if (kind === 'tuple') { const v = f.map((x) => value(s, x, d - 1)); return f.length ? [['l', v.map((x) => x[0])], v.map((x) => x[1])] : [['o', []], []]; }
        if (kind === 'struct') { const v = f.map(([n, x]) => [n, value(s, x, d - 1)]); return [obj(v.map(([n, y]) => [n, y[0]])), v.map((y) => y[1][1])]; }
        // below the depth limit the variants without content are preferred
        const i = d > 0 ? s.draw(f.length) : Math.max(0, f.findIndex((v) => v[1] === 'unit'));
        const [n, vk, vf] = f[i];
        if (vk === 'unit') return [n, [i]];
        if (vk === 'struct') { const v = vf.map(([n, x]) => [n, value(s, x, d - 1)]); return [['o', [[n, obj(v.map(([n, y]) => [n, y[0]]))]]], [i, ...v.map((y) => y[1][1])]]; }
        const v = vf.map((x) => value(s, x, d - 1));
        return [['o', [[n, vf.length === 1 ? v[0][0] : ['l', v.map((y) => y[0])]]]], [i, ...v.map((y) => y[1])]];
    }
    if (k === 'opt') { if (d <= 0 || s.bool(0.4)) return [null, []]; const [j, tr] = value(s, x, d - 1); return [j, [tr]]; }
    const n = d <= 0 ? 0 : s.weighted([[3, s.int(0, 3)], [0.05, s.int(20, 60)]]);
    if (k === 'vec') { const v = Array.from({ length: n }, () => value(s, x, d - 1)); return [['l', v.map((y) => y[0])], v.map((y) => y[1])]; }
    const keys = [...new Set(Array.from({ length: n }, () => str(s)))].sort(cmpStr).map((key) => [key, value(s, x, d - 1)]);
    return [['o', keys.map(([q, v]) => [q, v[0]])], keys.map(([q, v]) => [q, v[1]])];
};
const obj = (l) => ['o', [...l].sort((a, b) => cmpStr(a[0], b[0]))];
const kind = (j) => (j === null ? 'null' : typeof j === 'string' ? 'string' : !Array.isArray(j) ? 'number' : { b: 'bool', l: 'list', o: 'object' }[j[0]]);
const BAD = Symbol('bad'), ANY = Symbol('any');
class Mismatch { constructor(paths) { this.paths = paths; } }
/** evaluates all parts; when several do not fit, any of them may be the one the error names */
const all = (l) => {
    const out = [], paths = [];
    let any = false;
    for (const f of l) try { out.push(f()); } catch (e) { if (e === ANY) any = true; else if (e instanceof Mismatch) paths.push(...e.paths); else throw e; }
    if (paths.length) throw new Mismatch(any ? [...paths, []] : paths);
    if (any) throw ANY;
    return out;
};
/** decodes JSON by the documented shape; throws Mismatch, or ANY where the documentation leaves it open */
const parse = (t, j, path) => {
    const bad = () => { throw new Mismatch([path]); };
    const need = (k) => { if (kind(j) !== k) bad(); };
    if (typeof t === 'string') {
        if (t === 'String') { need('string'); return j; }
        if (INT[t]) {
            need('number');
            const [lo, hi] = INT[t], v = j.f;
            if (!Number.isInteger(v) || v < lo && (lo === 0 || t === 'i32')) bad();
            if (v > hi || v < lo) { if (t === 'u32' || t === 'i32' || Math.abs(v) > 2e19) bad(); throw ANY; }
            return v + 0;
        }
        if (t === 'bool') { need('bool'); return j[1]; }
        if (t === '()') { need('object'); if (j[1].length) bad(); return null; }
        need('string');
        if (t === 'NaiveDate') {
            const m = /^(-?\d{4}|\+\d{5,6})-(\d\d)-(\d\d)$/.exec(j);
            if (!m) { if (/^\s|\d\s|\+|-\d-|-\d$|^\d{1,3}-|\d{5}/.test(j)) throw ANY; bad(); }
            const ms = Date.UTC(2000, Number(m[2]) - 1, Number(m[3])) , y = Number(m[1]);
            const d = new Date(0); d.setUTCFullYear(y, Number(m[2]) - 1, Number(m[3]));
            if (d.getUTCFullYear() !== y || d.getUTCMonth() !== Number(m[2]) - 1 || d.getUTCDate() !== Number(m[3])) bad();
            return d.getTime() / DAY + CE + 0 * ms;
        }
        const m = /^(\d{4})-(\d\d)-(\d\d)[Tt](\d\d):(\d\d):(\d\d)(?:\.(\d{1,9}))?(Z|[+-]\d\d:\d\d)$/.exec(j);
        if (!m) { if (/^\d{4}-\d\d-\d\d/.test(j)) throw ANY; bad(); }
        const [y, mo, da, h, mi, se] = m.slice(1, 7).map(Number);
        const d = new Date(0); d.setUTCFullYear(y, mo - 1, da);
        if (d.getUTCMonth() !== mo - 1 || d.getUTCDate() !== da || h > 23 || mi > 59 || se > 60) bad();
        if (se === 60) throw ANY;
        const off = m[8] === 'Z' ? 0 : (m[8][0] === '-' ? -1 : 1) * (Number(m[8].slice(1, 3)) * 60 + Number(m[8].slice(4)));
        if (m[8] !== 'Z' && (Number(m[8].slice(1, 3)) > 23 || Number(m[8].slice(4)) > 59)) bad();
        return [d.getTime() / 1000 + h * 3600 + mi * 60 + se - off * 60, Number((m[7] ?? '').padEnd(9, '0') || 0)];
    }
    const [k, x] = t;
    if (k === 'opt') return j === null ? [] : [parse(x, j, path)];
    if (k === 'vec') { need('list'); return all(j[1].map((y, i) => () => parse(x, y, [...path, String(i)]))); }
    if (k === 'hm' || k === 'bm') { need('object'); return all(j[1].map(([q, y]) => () => [q, parse(x, y, [...path, q])])); }
    const [tk, f] = types[x];
    const fields = (f, j) => {
        if (kind(j) !== 'object') bad();
        return all(f.map(([n, x, dflt]) => () => { const p = j[1].find((y) => y[0] === n); if (!p) { if (dflt) return dflt[0]; throw new Mismatch([[...path, n]]); } return parse(x, p[1], [...path, n]); }));
    };
    const list = (f, j) => { if (kind(j) !== 'list' || j[1].length !== f.length) bad(); return all(f.map((x, i) => () => parse(x, j[1][i], path))); };
    if (tk === 'unit') return fields([], j);
    if (tk === 'newtype') return [parse(f, j, path)];
    if (tk === 'tuple') return f.length ? list(f, j) : fields([], j);
    if (tk === 'struct') return fields(f, j);
    if (kind(j) === 'string') { const i = f.findIndex((v) => v[0] === j && v[1] === 'unit'); if (i < 0) bad(); return [i]; }
    need('object');
    const known = j[1].filter((p) => f.some((v) => v[0] === p[0]));
    if (!known.length) bad();
    if (j[1].length > 1 || !f.some((v) => v[0] === known[0][0] && v[1] !== 'unit')) throw ANY;
    const i = f.findIndex((v) => v[0] === known[0][0] && v[1] !== 'unit'), v = f[i], y = known[0][1];
    if (v[1] === 'struct' && !v[2].length && (kind(y) !== 'object' || y[1].length)) throw ANY;
    if (v[1] === 'struct') return [i, ...fields(v[2], y)];
    return v[2].length === 1 ? [i, parse(v[2][0], y, path)] : [i, ...list(v[2], y)];
};
const decode = (t, j) => { try { return { tree: parse(t, j, []) }; } catch (e) { if (e === ANY) return { any: true }; if (e instanceof Mismatch) return { paths: e.paths }; throw e; } };
/** changes one place of the JSON */
const nodes = (j, out = [], set = null) => {
    out.push([j, set]);
    if (kind(j) === 'list') j[1].forEach((x, i) => nodes(x, out, (v) => { j[1][i] = v; }));
    if (kind(j) === 'object') j[1].forEach((p) => nodes(p[1], out, (v) => { p[1] = v; }));
    return out;
};
const DATES = ['', '2020-13-01', '2020-02-30', '2021-02-29', 'tomorrow', '2020-01-01T25:00:00Z', '2020-01-01T00:00:00', '2020-01-01 00:00:00Z', '2020-01-01T00:00:00+02:00', '2020-01-01T00:30:00-23:59', '1999-12-31T23:59:59.5Z', '1999-12-31T23:59:59.123456Z', '2020-06-31T00:00:00Z', '2020-01-01T00:00:00+0200', '2020-01-01x', '0000-01-01', '2020/01/01', '2024-02-29', '2020-01-01T00:61:00Z', '0001-01-01T00:00:00+00:01'];
const mutate = (s, j) => {
    const root = { j: structuredClone(j) };
    const [at, set] = s.pick(nodes(root.j, [], null));
    const put = set ?? ((v) => { root.j = v; });
    const how = s.draw(6);
    if (how === 0 && kind(at) === 'object' && at[1].length) at[1].splice(s.draw(at[1].length), 1);
    else if (how === 1 && kind(at) === 'list' && at[1].length) at[1].splice(s.draw(at[1].length), 1);
    else if (how === 2 && kind(at) === 'list') at[1].splice(s.draw(at[1].length + 1), 0, at[1].length && s.bool() ? structuredClone(s.pick(at[1])) : json(s, 1));
    else if (how === 3 && kind(at) === 'object') { const n = s.weighted([[1, () => str(s)], [2, () => s.pick(['A', 'B', 'Nothing', 'Point', 'value', 'name', 'type', 'extra'])]])(); if (!at[1].some((p) => p[0] === n)) { at[1].push([n, json(s, 1)]); at[1].sort((a, b) => cmpStr(a[0], b[0])); } }
    else if (kind(at) === 'number' && how < 5) put({ f: s.pick([0.5, -1, -0.5, 2 ** 31, 2 ** 32, -(2 ** 31) - 1, 1e300, -1e300, Infinity, NaN, 4294967295.5, 7, 2147483647, 4294967295]) });
    else if (kind(at) === 'string' && how < 5) put(s.weighted([[1, () => str(s)], [2, () => s.pick(DATES)], [2, () => s.pick(['A', 'B', 'Nothing', 'Point', 'type', 'nothing', 'None', 'Unit'])]])());
    else if (kind(at) === 'bool' && how < 2) put(s.pick([{ f: 1 }, 'true', null]));
    else put(s.weighted([[2, () => null], [1, () => ['l', []]], [1, () => ['o', []]], [1, () => '']  , [1, () => ({ f: num(s) })], [2, () => json(s, 2)], [1, () => ['l', [structuredClone(at)]]], [1, () => ['b', 1]]])());
    return root.j;
};
export default {
    id: 'P13', quick: 12000, thorough: 600000,
    rule: `Up to 5 values of ${roots.length} types (structures with raw and foreign-script names and defaults, newtypes, tuples, unit types, enums of every variant shape, recursive and deeply nested types, maps, lists, options, dates, all primitives). The value is built and encoded: the JSON is compared with the documented shape written independently; the JSON is decoded: the value is compared, and must encode to the same again. The same JSON with one place changed (missing, extra, mistyped, out of range, other variant, invalid date) is decoded: the outcome must be the one the shape demands, an error naming the fields, positions and keys on the way to the place. Non-trivial = a value with at least three nodes, or a rejected change.`,
    assumptions: ['64-bit integers within 2^53 (beyond: known finding)', 'dates with times within the years 0000-9999 of RFC 3339, without leap seconds', 'no option directly inside an option (both None and Some(None) are null, as in serde)', 'objects with fields that do not exist, and enums given as objects with several names or the name of a variant without content or fields and any value, may be accepted or rejected'],
    generate: (s) => s.list(1, 5, () => {
        const r = s.draw(roots.length), t = roots[r][1];
        const [j, tree] = value(s, t, s.int(1, 5));
        return { r, j, tree, m: s.bool(0.6) ? mutate(s, j) : undefined };
    }, 3),
    prepare: async ({ root }) => {
        const failed = root + '/target/types.log.failed';
        if (fs.existsSync(failed)) return { error: fs.readFileSync(failed, 'utf8').slice(0, 3000) };
        return { module: new WebAssembly.Module(fs.readFileSync(root + '/target/types/wasm32-unknown-unknown/debug/vp_types.wasm')) };
    },
    run: async (c, env) => {
        if (env.extra.error) fail(`types that derive AutoJsJson are no longer accepted:\n${env.extra.error}`, 'rejected');
        const g = (env.types ??= bare(env.extra.module));
        let heavy = 0, rejected = 0, kept = 0;
        try {
            for (const [name, v] of c.big ?? []) {
                const enc = g.exec(['enc', name, v]), d = g.exec(['conv', name, enc]);
                if (d[0] !== 'ok' || d[1] !== v) fail(`${name}: ${v} is written as ${J(enc)} and read as ${J(d)}`, 'precision');
            }
            if (c.big) return {};
            for (const { r, j, tree, m } of c) {
                const [name, t] = roots[r];
                const enc = g.exec(['enc', name, tree]);
                if (!same(enc, j)) fail(`${name}: ${J(tree)} is written as ${J(enc)} instead of ${J(j)}`, 'encode');
                const d = g.exec(['conv', name, j]);
                if (d[0] !== 'ok') fail(`${name}: ${J(j)} is rejected: ${d[1]}`, 'decode');
                if (!same(d[1], tree)) fail(`${name}: ${J(j)} is read as ${J(d[1])} instead of ${J(tree)}`, 'decode');
                if (!same(d[2], j) || d[3] !== 1) fail(`${name}: ${J(j)} is written back as ${J(d[2])}`, 'round-trip');
                if (nodes(j).length >= 3) heavy++;
                if (m === undefined) continue;
                const w = decode(t, m), o = g.exec(['conv', name, m]);
                if (w.any) continue;
                if (w.paths) {
                    rejected++;
                    if (o[0] === 'ok') fail(`${name}: ${J(m)} does not have the shape (at ${w.paths[0].join('/') || 'the top'}) but is read as ${J(o[1])}`, 'accepted');
                    const names = (path) => { let at = 0; return path.every((p) => { const i = o[1].indexOf(p, at); at = i + p.length; return i >= 0; }); };
                    if (!w.paths.some(names)) fail(`${name}: the error for ${J(m)} does not name the way to ${w.paths.map((p) => p.join('/')).join(' or ')}: ${o[1]}`, 'place');
                    if (!o[1]) fail(`${name}: the error for ${J(m)} is empty`, 'place');
                } else {
                    kept++;
                    if (o[0] !== 'ok') fail(`${name}: ${J(m)} is rejected: ${o[1]}`, 'decode');
                    if (!same(o[1], w.tree)) fail(`${name}: ${J(m)} is read as ${J(o[1])} instead of ${J(w.tree)}`, 'decode');
                }
            }
        } catch (e) { env.types = null; throw e; }
        return { nontrivial: heavy > 0 || rejected > 0, classes: [rejected ? 'rejected' : 'none rejected', kept ? 'still valid' : 'none still valid'], evaluations: c.length };
    },
};
