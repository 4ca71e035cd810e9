import { genProgram, simulate } from './rxmodel.mjs';
import { rxProperty } from './rxprop.mjs';
export default rxProperty({
    id: 'P01', quick: 60000, thorough: 3000000,
    cfg: { w: { get: 14, sub: 4, suba: 1, set: 12, tx: 8, drop: 2 }, body: 0.2, max: 45, mean: 20, inner: 1 },
    rule: 'A random program of at most 45 operations over a reactive graph (sources, derived values with conditional, switched, inner and keyed dependencies, nested transactions, subscriptions, drops); non-trivial = at least 3 reads of derived values and one evaluation with a conditional dependency.',
    corpus: [
        [['val', 0, 1], ['comp', 1, 3, ['sw', ['inmap', 1, 0, 2], [['in', 2, ['r', 0]], ['r', 0], ['r', 0]]]], ['get', 1], ['comp', 2, 4, ['r', 0]], ['set', 0, 0], ['get', 1]],
    ],
    nontrivial: (s) => s.reads >= 3 && s.conditional > 0,
});
