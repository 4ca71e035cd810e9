import { fail } from '../engine.mjs';
import { open, noErrors, str, num, J, toJs } from './hostprop.mjs';
import { value, f64 } from './value.mjs';

/** the JavaScript value a value of the program stands for */
export const jsOf = (v) => {
    switch (v[0]) {
        case 'u32': case 'i32': return Number(v[1]);
        case 'u64': return BigInt.asUintN(64, BigInt(v[1]));
        case 'i64': return BigInt.asIntN(64, BigInt(v[1]));
        case 'f64': return v[1].f;
        case 'true': return true;
        case 'false': return false;
        case 'null': return null;
        case 'undef': return undefined;
        case 'vec': return v[1];
        case 'str': return v[1];
        case 'list': return v[1].map(jsOf);
        case 'obj': return Object.fromEntries(v[1].map(([k, x]) => [k, jsOf(x)]));
        default: return toJs(v[1]);
    }
};
/** equality of JavaScript values (an integer -0 may be 0) */
export const eq = (a, b) => {
    if (typeof a === 'number' && typeof b === 'number') return a === b || (Number.isNaN(a) && Number.isNaN(b));
    if (a instanceof Uint8Array || b instanceof Uint8Array) return a instanceof Uint8Array && b instanceof Uint8Array && a.length === b.length && a.every((x, i) => x === b[i]);
    if (Array.isArray(a) || Array.isArray(b)) return Array.isArray(a) && Array.isArray(b) && a.length === b.length && a.every((x, i) => eq(x, b[i]));
    if (a && b && typeof a === 'object' && typeof b === 'object') {
        const x = Object.entries(a), y = new Map(Object.entries(b));
        return x.length === y.size && x.every(([k, v]) => y.has(k) && eq(v, y.get(k)));
    }
    if (typeof a === 'string' && typeof b === 'string') return a.toWellFormed() === b.toWellFormed(); // half a character cannot be passed
    return a === b;
};
const BIG = [0n, 1n, -1n, 2n ** 53n + 1n, -(2n ** 53n) - 1n, 2n ** 63n - 1n, -(2n ** 63n), 2n ** 63n, 2n ** 64n - 1n, 2n ** 63n + 12345n];
export const jsval = (s, d = 3) => {
    const k = s.weighted([[2, 'str'], [3, 'num'], [1, 'bool'], [1, 'null'], [1, 'undef'], [1, 'big'], [1, 'bytes'], ...(d > 0 ? [[3, 'arr'], [3, 'obj']] : [])]);
    switch (k) {
        case 'str': return ['s', str(s)];
        case 'num': return ['n', { f: f64(s) }];
        case 'bool': return ['b', s.draw(2)];
        case 'null': return ['null'];
        case 'undef': return ['undef'];
        case 'big': return ['i', String(s.pick(BIG))];
        case 'bytes': return ['x', s.list(0, 6, () => s.draw(256), 3), s.draw(3)];
        case 'arr': return ['a', s.list(0, 4, () => jsval(s, d - 1), 2)];
        default: return ['o', [...new Set(s.list(0, 4, () => (s.bool(0.06) ? s.pick(['__proto__', 'constructor', 'type', 'value', 'length', '0']) : str(s)), 2))].map((x) => [x, jsval(s, d - 1)])];
    }
};
export const build = (j) => {
    switch (j[0]) {
        case 's': return j[1];
        case 'n': return j[1].f;
        case 'b': return !!j[1];
        case 'null': return null;
        case 'undef': return undefined;
        case 'i': return BigInt(j[1]);
        case 'x': { const a = new Uint8Array(j[1].length + j[2]); a.set(j[1], j[2]); return a.subarray(j[2]); }
        case 'a': return j[1].map(build);
        default: return Object.fromEntries(j[1].map(([k, v]) => [k, build(v)]));
    }
};
const deep = (s) => { let v = ['str', 'x']; for (let i = 0; i < 150; i++) v = s.bool() ? ['list', [v]] : ['obj', [['a', v]]]; return v; };
export default {
    id: 'P12', quick: 8000, thorough: 300000,
    rule: 'Up to 8 crossings per case: a value of any kind (nested lists, objects, JSON, 64-bit extremes, binary data, any text and keys) given to a JavaScript function or stored as a property, and any JavaScript value (numbers, big integers, typed array views, undefined inside containers) returned or read. JavaScript sees exactly the corresponding value and keeps it unchanged however the program goes on; the program sees the value that was returned; an echo gives the value back. Non-trivial = a container or 64-bit value crosses.',
    assumptions: ['an integer -0 may arrive as 0; a list or object may arrive as JSON when it can be one', 'JavaScript values are plain data without cycles; strings are well-formed'],
    generate: (s) => ({ ts: s.bool(0.3), grow: s.bool(0.05), ops: s.list(1, 8, () => s.weighted([
        [4, () => ['take', s.list(0, 3, () => (s.bool(0.01) ? deep(s) : value(s, 3)), 2), jsval(s)]],
        [3, () => ['echo', value(s, 3)]],
        [2, () => ['set', value(s, 3)]],
        [2, () => ['get', jsval(s)]],
    ])(), 4) }),
    run: async (c, env) => {
        const b = await open(c, env);
        let heavy = 0;
        try {
            const kept = [];
            let ret, got;
            b.window.vpTake = (...a) => { got = a; return ret; };
            b.window.vpEcho = (x) => x;
            const send = (steps) => { const log = b.exec(['rx', [['js', 'window', steps]]]); b.check(); return log.find((x) => x[0] === 'js')[1]; };
            const arrived = (v, have, what) => {
                if (!eq(have, jsOf(v))) fail(`${what}: JavaScript sees ${J(have)} of ${J(v)}`, 'to-js');
                kept.push([v, have, what]);
                if (/list|obj|json|64|vec/.test(v[0])) heavy++;
            };
            const returned = (js, back, what) => { if (!eq(jsOf(back), js)) fail(`${what}: the program sees ${J(back)} instead of ${J(js)}`, 'from-js'); if (js && (typeof js === 'object' || typeof js === 'bigint')) heavy++; };
            let n = 0;
            for (const op of c.ops) {
                b.console = [];
                const what = J(op).slice(0, 600);
                if (op[0] === 'take') {
                    ret = build(op[2]);
                    got = null;
                    const back = send([['call', 'vpTake', op[1]]]);
                    if (!got) fail(`${what}: the function was not called`, 'call');
                    if (got.length !== op[1].length) fail(`${what}: ${got.length} arguments arrived`, 'to-js');
                    op[1].forEach((v, i) => arrived(v, got[i], what));
                    returned(ret, back, what);
                } else if (op[0] === 'echo') {
                    const back = send([['call', 'vpEcho', [op[1]]]]);
                    if (!eq(jsOf(back), jsOf(op[1]))) fail(`${J(op[1])} came back as ${J(back)}`, 'echo');
                } else if (op[0] === 'set') {
                    const back = send([['set', 'vpS' + n, op[1]]]);
                    if (back[0] !== 'undef') fail(`${what}: setting gives ${J(back)}`, 'set');
                    arrived(op[1], b.window['vpS' + n], what);
                } else {
                    b.window['vpG' + n] = build(op[1]);
                    returned(b.window['vpG' + n], send([['get', 'vpG' + n]]), what);
                }
                n++;
                noErrors(b, what);
                if (c.grow) b.inst.exports.memory.grow(1);
            }
            for (const [v, have, what] of kept) if (!eq(have, jsOf(v))) fail(`${what}: the value JavaScript kept changed later: ${J(have)} of ${J(v)}`, 'kept');
        } finally { b.close(); }
        return { nontrivial: heavy > 0, classes: [c.ts ? 'ts' : 'bundle', ...new Set(c.ops.map((o) => o[0]))] };
    },
};
