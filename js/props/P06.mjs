import { genPage, runPage, kinds } from './pageprop.mjs';
const cfg = { depth: 4, budget: 30, ops: 10, meanOps: 6 };
export default {
    id: 'P06', quick: 40000, thorough: 600000,
    rule: 'A random page description (elements with static, reactive and optional attributes and classes, texts, conditional content, lists, fragments, nested up to 4 levels) and up to 10 transactions of writes, run in the simulated browser with the committed runtime or the one built from its sources; non-trivial = at least two operations changed data, the page has at least one reactive text or attribute and one conditional, list or fragment.',
    assumptions: ['elements have no two attributes of the same name', 'items of a list are shown by their key only'],
    generate: (src) => genPage(src, cfg),
    run: async (c, env) => {
        const st = await runPage(c, env);
        const k = kinds(c.root);
        return { nontrivial: st.changed >= 2 && !!(k.tc || k['a-c'] || k['a-o'] || k.tvs) && !!(k.rv || k.ro || k.rl || k.fr), classes: Object.keys(k) };
    },
};
