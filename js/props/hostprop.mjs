// Programs that talk to their environment, in the simulated browser.
import { fail } from '../engine.mjs';
import { Browser } from '../host.mjs';

export const ROOT = ['e', 'html', [], [['e', 'head', [], [], 0], ['e', 'body', [], [], 0]], 0];
export const open = async (c, env, o = {}) => {
    const b = new Browser({ module: env.module, code: c.ts && env.ts ? env.ts : env.bundle, boot: ['boot', c.setup ?? [], c.root ?? ROOT], now: 1700000000000, ...o });
    await b.start();
    b.check();
    return b;
};
/** the error reports of the runtime, except the expected ones */
export const noErrors = (b, what, allow = []) => {
    const left = b.errors().filter((e) => !allow.some((a) => e.some((x) => a.test(String(x)))));
    if (left.length) fail(`${what}: the runtime reports ${left.map((e) => e.slice(1).map((x) => (x instanceof Error ? x.stack : typeof x === 'object' ? JSON.stringify(x) : String(x))).join(' ')).join(' | ')}`, 'console-error');
};

export const STRS = ['', 'a', 'hello world', 'x=y', 'a;b', 'a,b', '%', '%41', '100%', '%zz', '%C5%BC', 'żółw', '漢字', '😀', '"q"', "it's", '\\', '/', '?a=b&c=d', '#h', '<b>', 'null', 'true', '0', '-1', ' lead', 'trail ', 'line\nbreak', 'tab\there', '\u0000', '\u001f', '\u007f', '\u00a0', '\u2028', '\ufeff', '\ufeffbom', '\uffff', '\u{10ffff}', '{"a":1}', '[1]', '+', '&amp;', 'a'.repeat(300)];
export const str = (s) => s.weighted([[5, 0], [3, 1], [1, 2]]) === 0 ? s.pick(STRS) : s.list(0, 8, () => s.weighted([[4, () => String.fromCharCode(s.int(97, 122))], [2, () => String.fromCharCode(s.int(32, 126))], [1, () => String.fromCharCode(s.int(0, 0x2ff))], [1, () => String.fromCodePoint(s.int(0xe000, 0x10ffff))]])(), 4).join('');
/** JSON in the harness notation (see app/src/host.rs) */
export const NUMS = [0, 1, -1, 7, 42, 255, 256, 65535, 65536, 2147483647, -2147483648, 2147483648, 4294967295, 4294967296, 0.5, -0.25, 1e-7, 1e21, 1e300, 5e-324, 1.7976931348623157e308, 9007199254740991, -9007199254740991, 9007199254740992, 1 / 3];
export const num = (s) => s.weighted([[4, () => s.pick(NUMS)], [2, () => s.int(-1000, 1000)], [1, () => s.int(0, 2 ** 40) / 1024]])();
export const json = (s, depth = 3, o = {}) => {
    const k = s.weighted([[2, 'str'], [2, 'num'], [1, 'null'], [1, 'bool'], ...(depth > 0 ? [[2, 'l'], [2, 'o']] : [])]);
    if (k === 'str') return str(s);
    if (k === 'num') return { f: (o.num ?? num)(s) };
    if (k === 'null') return null;
    if (k === 'bool') return ['b', s.draw(2)];
    if (k === 'l') return ['l', s.list(0, 4, () => json(s, depth - 1, o), 2)];
    const keys = new Set(s.list(0, 4, () => (o.key ?? str)(s), 2));
    return ['o', [...keys].sort(cmpStr).map((x) => [x, json(s, depth - 1, o)])];
};
/** order of the UTF-8 encodings, as Rust sorts */
export const cmpStr = (a, b) => Buffer.compare(Buffer.from(a), Buffer.from(b));
export const toJs = (j) => {
    if (j === null || typeof j === 'string') return j;
    if (!Array.isArray(j)) return typeof j === 'number' ? j : j.f;
    if (j[0] === 'b') return !!j[1];
    if (j[0] === 'l') return j[1].map(toJs);
    const o = {};
    for (const [k, v] of j[1]) Object.defineProperty(o, k, { value: toJs(v), enumerable: true, configurable: true, writable: true });
    return o;
};
export const fromJs = (v) => {
    if (v === null || typeof v === 'string') return v;
    if (typeof v === 'number') return { f: v };
    if (typeof v === 'boolean') return ['b', v ? 1 : 0];
    if (Array.isArray(v)) return ['l', v.map(fromJs)];
    return ['o', Object.keys(v).sort(cmpStr).map((k) => [k, fromJs(v[k])])];
};
/** equality of values of the harness notation (NaN equals NaN, -0 differs from 0) */
export const same = (a, b) => {
    if (Array.isArray(a)) return Array.isArray(b) && a.length === b.length && a.every((x, i) => same(x, b[i]));
    if (a instanceof Uint8Array) return b instanceof Uint8Array && a.length === b.length && a.every((x, i) => x === b[i]);
    if (a && typeof a === 'object') return !!b && typeof b === 'object' && !Array.isArray(b) && Object.is(a.f, b.f);
    if (typeof a === 'boolean' || typeof b === 'boolean') return Number(a) === Number(b);
    return Object.is(a, b);
};
export const J = (x) => JSON.stringify(x, (k, v) => (v instanceof Uint8Array ? [...v] : typeof v === 'bigint' ? String(v) + 'n' : typeof v === 'number' && !Number.isFinite(v) ? String(v) : v));
