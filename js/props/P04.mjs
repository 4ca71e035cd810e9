import { rxProperty } from './rxprop.mjs';
export default rxProperty({
    id: 'P04', quick: 60000, thorough: 3000000,
    cfg: { preConn: true, w: { get: 0.5, sub: 9, suba: 2, set: 8, tx: 6, drop: 3, unsub: 6, conn: 2, emit: 6, val: 2 }, body: 0.25, max: 45, mean: 20, inner: 0.3 },
    rule: 'A random program of at most 45 operations with sources created with a connection routine, observed directly, through derived values and conditionally; non-trivial = at least 2 connections made and 2 notifications.',
    corpus: [
        [['val', 0, 0], ['conn', 0, 1, 0], ['val', 1, 0], ['sub', 1, 0, [['val', 1, 0]], 1], ['sub', 0, 0, [['sub', 1, 1, [], 0]], 1]],
    ],
    nontrivial: (s) => s.connects >= 2 && s.notify >= 2,
});
