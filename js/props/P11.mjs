import { fail } from '../engine.mjs';
import { bare } from '../bare.mjs';
import { json, same, J } from './hostprop.mjs';
import { value, f64 } from './value.mjs';

const big = (s) => s.weighted([
    [1, () => ['list', Array.from({ length: s.pick([300, 5000]) }, (_, i) => ['i32', i])]],
    [1, () => ['obj', Array.from({ length: s.pick([256, 3000, 65535, 65536, 70000]) }, (_, i) => ['k' + String(i).padStart(6, '0'), ['true']])]],
    [1, () => ['json', ['o', Array.from({ length: s.pick([257, 65535, 65537, 100000]) }, (_, i) => ['k' + String(i).padStart(6, '0'), null])]]],
    [1, () => ['str', 'é'.repeat(s.pick([1000, 66000]))]],
    [1, () => { let v = ['null']; for (let i = 0; i < 200; i++) v = s.bool() ? ['list', [v]] : ['obj', [['a', v]]]; return v; }],
])();
const count = (v) => (Array.isArray(v) ? v.reduce((a, x) => a + count(x), 0) + 1 : 1);
export default {
    id: 'P11', quick: 6000, thorough: 300000,
    rule: 'Random values of every kind (nested lists, objects, JSON documents, up to 100000 properties, 200 levels) are encoded and decoded; every proper prefix (sampled for long ones) must be refused; random corruptions of the bytes (flips, lengths, insertions, deletions, foreign bytes) must be answered; documents equal in content but built in six different ways must be equal and hash equally and a changed one differ. Non-trivial = a container value or a corruption that is refused.',
    assumptions: ['decoded nesting is at most 500 levels', 'the empty byte sequence is not a message (it cannot be allocated)'],
    generate: (s) => {
        const v = s.bool(0.004) ? big(s) : value(s, 4);
        return {
            v,
            cor: s.list(0, 8, () => s.list(1, 3, () => [s.draw(5), s.draw(1 << 20), s.draw(256)], 1), 4),
            doc: json(s, 4, { num: f64 }), edit: s.draw(1 << 16),
        };
    },
    run: async (c, env) => {
        const g = bare(env.module);
        let refused = 0;
        const small = count(c.v) < 200;
        const [bytes, dec, bad] = g.exec(['codec', c.v, small ? 1 : 0]);
        const desc = small ? J(c.v) : c.v[0];
        if (dec[0] !== 'ok') fail(`${desc} was encoded to bytes that are refused: ${dec[1]}`, 'refused');
        if (!same(dec[1], c.v)) fail(`${desc} was decoded as ${small ? J(dec[1]) : 'something else'}`, 'decoded');
        if (bad.length) fail(`${desc}: the first ${bad[0]} of ${bytes.length} bytes are accepted`, 'truncated');
        for (const edits of small ? c.cor : []) {
            let b = [...bytes];
            for (const [kind, at, x] of edits) {
                const i = b.length ? at % b.length : 0;
                if (kind === 0) b[i] = x;
                else if (kind === 1) b[i] ^= 1 << (x % 8);
                else if (kind === 2) b.splice(i, 1 + (x % 4));
                else if (kind === 3) b.splice(i, 0, x);
                else b.splice(i, 4, 255, 255, 255, x);
            }
            if (!b.length) continue;
            const r = g.exec(['decode', new Uint8Array(b)]);
            if (r[0] === 'err') refused++;
        }
        // equality and hashing
        let other = JSON.parse(JSON.stringify(c.doc, (k, v) => (typeof v === 'number' && !Number.isFinite(v) ? 12345 : v)));
        const nums = [];
        const strs = [];
        const walk = (j) => { if (!Array.isArray(j)) { if (j && typeof j === 'object') nums.push(j); return; } if (j[0] === 'l') j[1].forEach(walk); if (j[0] === 'o') j[1].forEach((p) => { strs.push(p); walk(p[1]); }); if (j[0] === 'b') nums.push(j); };
        walk(other);
        const t = nums.length ? nums[c.edit % nums.length] : null;
        if (t && Array.isArray(t)) t[1] = 1 - t[1]; else if (t) t.f = t.f === 77 ? 78 : 77; else other = ['l', [other]];
        const [eq, hs, eqo, hso] = g.exec(['hashes', c.doc, other]);
        if (eq !== 6) fail(`${J(c.doc)}: only ${eq} of 6 ways to build it are equal`, 'equal');
        if (hs !== 6) fail(`${J(c.doc)}: only ${hs} of 6 equal documents hash equally`, 'hash');
        if (!same(c.doc, other) && (eqo || hso)) fail(`${J(c.doc)} is taken for ${J(other)}`, 'distinct');
        return { nontrivial: ['list', 'obj', 'json'].includes(c.v[0]) || refused > 0, classes: [c.v[0], refused ? 'refused' : 'accepted'] };
    },
};
