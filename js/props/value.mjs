// Values of the boundary in the harness notation (see app/src/host.rs).
import { str, num, NUMS, json, cmpStr, same } from './hostprop.mjs';
const I64 = [0n, 1n, -1n, 255n, 2147483647n, -2147483648n, 4294967295n, 4294967296n, 9007199254740991n, 9007199254740993n, -9007199254740993n, 9223372036854775807n, -9223372036854775808n, 1311768467463790320n];
export const f64 = (s) => s.weighted([[5, () => num(s)], [1, () => s.pick([NaN, Infinity, -Infinity, -0])]])();
export const small = (v) => (v >= -9007199254740991n && v <= 9007199254740991n ? Number(v) : v);
export const value = (s, depth = 3, o = {}) => {
    const k = s.weighted([[2, 'str'], [1, 'u32'], [1, 'i32'], [1, 'u64'], [1, 'i64'], [2, 'f64'], [1, 'true'], [1, 'false'], [1, 'null'], [1, 'undef'], [2, 'vec'], [2, 'json'], ...(depth > 0 ? [[3, 'list'], [3, 'obj']] : [])]);
    switch (k) {
        case 'str': return ['str', str(s)];
        case 'u32': return ['u32', s.pick([0, 1, 4294967295, 2147483648, 2147483647, 65536, 258])];
        case 'i32': return ['i32', s.pick([0, 1, -1, 2147483647, -2147483648, 66051, -258])];
        case 'u64': case 'i64': return [k, small(s.bool(0.7) ? s.pick(I64) : BigInt(s.int(-100000, 100000)) * 1000003n)];
        case 'f64': return ['f64', { f: f64(s) }];
        case 'vec': return ['vec', new Uint8Array(s.bool(0.05) ? s.int(1000, 70000) : s.draw(9)).map((_, i) => (i * 37 + 255) & 255)];
        case 'json': return ['json', json(s, Math.min(depth, 2), { num: f64 })];
        case 'list': return ['list', s.list(0, 4, () => value(s, depth - 1, o), 2)];
        case 'obj': { const keys = new Set(s.list(0, 4, () => (s.bool(0.05) ? '__proto__' : str(s)), 2)); return ['obj', [...keys].sort(cmpStr).map((x) => [x, value(s, depth - 1, o)])]; }
        default: return [k];
    }
};
export const NUMBERS = NUMS;
export { same };
