import { genProgram, simulate } from './rxmodel.mjs';
import { fail } from '../engine.mjs';
export const rxProperty = (o) => ({
    shrinkTries: 6000,
    ...o,
    assumptions: ['connection routines deliver values after they have returned (writing during a refresh is rejected by design)', 'derived functions are pure'],
    generate: (src) => genProgram(src, o.cfg),
    run: (program, env) => {
        if (process.env.VP_ALL) { const f = simulate(program, env).failures[0]; if (f) fail(f.prop + " " + f.msg, f.prop + f.msg.replace(/[-#0-9]+/g, "N")); }
        const { failures, stat } = simulate(program, env);
        const mine = failures.find((f) => f.prop === o.id) ?? failures.find((f) => f.prop === '*');
        if (mine) fail(mine.msg, mine.msg.replace(/[-#0-9]+/g, 'N').replace(/operation N( \[.*\])?:/, ''));
        const classes = Object.keys(stat).filter((k) => stat[k] > 0);
        if (failures.length) classes.push('foreign:' + failures[0].prop);
        return { nontrivial: o.nontrivial(stat), classes };
    },
});
