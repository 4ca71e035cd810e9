import { rxProperty } from './rxprop.mjs';
export default rxProperty({
    id: 'P05', quick: 60000, thorough: 3000000,
    cfg: { w: { get: 3, sub: 4, suba: 1, set: 8, tx: 8, automap: 3, mapget: 8, hook: 3 }, auto: 5, body: 0.2, max: 40, mean: 18, inner: 0.3 },
    rule: 'A random program of at most 40 operations with keyed caches (plain, derived, recursive factories) used directly and inside derived values, and hooks that themselves run transactions; non-trivial = a factory call and a hook call.',
    nontrivial: (s) => s.fac >= 1 && s.hooks >= 1,
});
