import { rxProperty } from './rxprop.mjs';
export default rxProperty({
    id: 'P02', quick: 60000, thorough: 3000000,
    cfg: { w: { get: 2, sub: 9, suba: 3, set: 14, tx: 10, drop: 2, unsub: 3 }, body: 0.35, max: 45, mean: 20, subs: 5, inner: 1 },
    rule: 'A random program of at most 45 operations over a reactive graph with up to 5 subscriptions whose callbacks create and drop subscriptions; non-trivial = at least 3 notifications and one transaction writing several sources.',
    corpus: [
        [['val', 0, 0], ['val', 1, 0], ['comp', 2, 4, ['add', ['in', 3, ['r', 1]], ['r', 0]]], ['suba', 0, 2, [], 0], ['set', 1, 0]],
        // a dependency moving from one node to another within one evaluation
        [['val', 0, 1], ['val', 1, 5], ['comp', 2, 1, ['add', ['r', 1], ['k', 1]]], ['comp', 3, 2, ['if', ['r', 0], ['r', 2], ['k', 0]]],
            ['comp', 4, 3, ['if', ['r', 0], ['r', 3], ['add', ['r', 2], ['r', 3]]]], ['sub', 0, 4, [], 0], ['set', 0, 0], ['set', 1, 9], ['get', 4]],
    ],
    nontrivial: (s) => s.notify >= 3 && s.multiWriteTx > 0,
});
