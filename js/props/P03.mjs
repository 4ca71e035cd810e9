import { rxProperty } from './rxprop.mjs';
export default rxProperty({
    id: 'P03', quick: 60000, thorough: 3000000,
    cfg: { w: { get: 4, sub: 6, suba: 2, set: 10, tx: 6, drop: 6, unsub: 6, clone: 3 }, body: 0.3, max: 45, mean: 22, inner: 0.5 },
    rule: 'A random program of at most 45 operations over a reactive graph rich in unsubscriptions and dropped handles; every evaluation and every release of captured tokens is logged. Non-trivial = at least 4 evaluations and 2 releases.',
    nontrivial: (s) => s.recalcs >= 4 && s.drops >= 2,
});
