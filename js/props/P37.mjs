// The inspector (`vertigo::inspect`) shows what the browser shows.
import { fail } from '../engine.mjs';
import { Element_, Text_, Comment_ } from '../minidom.mjs';
import { Gen, Inst } from './page.mjs';
import { genPage, runPage, kinds } from './pageprop.mjs';

const cfg = { depth: 4, budget: 25, ops: 10, meanOps: 5, events: 0.4, sus: 0.15, dups: 0.1 };
const J = (x) => JSON.stringify(x);
const isSheet = (n) => n instanceof Element_ && n.localName === 'style' && /^\s*(\.|@keyframes|@media)/.test(n.textContent);
const read = (r) => ({
    root: r[0], css: new Map(r[2]), html: r[3],
    map: new Map(r[1].map(([id, parent, name, attrs, calls, kids, text, own]) => [id, { id, parent, name, attrs: new Map(attrs), calls: new Map(calls), kids, text, own }])),
});
/** the fragment is a forest: every node is where it says it is */
const sound = (f, where) => {
    for (const [id, n] of f.map) {
        if (n.own !== id) fail(`${where}: node ${id} calls itself ${n.own}`, 'id');
        for (const k of n.kids) if (f.map.get(k)?.parent !== id) fail(`${where}: node ${k} is a child of ${id}, but its parent is ${f.map.get(k)?.parent}`, 'parent');
        if (new Set(n.kids).size !== n.kids.length) fail(`${where}: node ${id} has the children ${n.kids}`, 'twice');
        if (f.map.has(n.parent) && !f.map.get(n.parent).kids.includes(id)) fail(`${where}: node ${id} is not among the children of ${n.parent}`, 'lost');
    }
    if (f.map.size === 0 ? f.root !== null : f.root === null || !f.map.has(f.root)) fail(`${where}: the root is ${f.root} of ${f.map.size} nodes`, 'root');
    if (f.root !== null) {
        const tops = [...f.map.values()].filter((n) => n.parent === 1);
        const p = f.map.get(f.root).parent;
        if (tops.length ? p !== 1 : p !== 0) fail(`${where}: the root ${f.root} hangs below ${p}`, 'root');
    }
};
/** the text is that of the root, attributes in any order */
const printed = (f, where) => {
    let at = 0;
    const s = f.html;
    const eat = (t) => { if (!s.startsWith(t, at)) fail(`${where}: the text is ${J(s)}, expected ${J(t)} at ${at}`, 'text'); at += t.length; };
    const go = (id) => {
        const n = f.map.get(id);
        if (n.name === '') { eat(n.text ?? ''); return; }
        eat('<' + n.name);
        const left = [...[...n.attrs].map(([k, v]) => ` ${k}='${v}'`)], calls = [...n.calls].map(([k, v]) => ` ${k}=${v}`);
        for (const l of [left, calls]) while (l.length) {
            const i = l.map((x, i) => [x, i]).filter(([x]) => s.startsWith(x, at)).sort((a, b) => b[0].length - a[0].length)[0]?.[1] ?? 0;
            eat(l.splice(i, 1)[0]);
        }
        eat('>');
        for (const k of n.kids) go(k);
        eat(`</${n.name}>`);
    };
    if (f.root !== null) go(f.root);
    if (at !== s.length) fail(`${where}: the text is ${J(s)}, expected it to end at ${at}`, 'text');
};
const attrs = (n, have, f, where) => {
    const want = new Map(have);
    const rules = f.css.get('.' + (have.get('class') ?? ''));
    if (rules !== undefined) { want.delete('class'); want.set('style', rules); }
    for (const k of new Set([...want.keys(), ...n.attrs.keys()])) if (want.get(k) !== n.attrs.get(k)) fail(`${where}: <${n.name}> has the attribute ${k} = ${J(n.attrs.get(k))}, in the browser ${J(want.get(k))}${have.has('class') ? ` (class ${have.get('class')})` : ''}`, 'attr' + (k === 'class' || k === 'style' ? '-class' : ''));
};
/** node of the fragment and node of the document */
const same = (f, id, el, where) => {
    const n = f.map.get(id);
    if (el instanceof Comment_) { if (n.name !== '' || n.text !== `<!-- ${el.data} -->`) fail(`${where}: ${J(n.text)} instead of the comment ${J(el.data)}`, 'comment'); return; }
    if (el instanceof Text_) { if (n.name !== '' || n.text !== el.data) fail(`${where}: the text ${J(n.text)} instead of ${J(el.data)}`, 'text'); return; }
    if (n.name !== el.localName) fail(`${where}: <${n.name}> instead of <${el.localName}>`, 'name');
    attrs(n, el.attributes, f, where);
    const calls = [...n.calls.keys()].filter((x) => x !== 'hook_keydown').sort(), on = [...el.listeners.keys()].filter((k) => !(k === 'click' && el.localName === 'a')).sort();
    if (J(calls.filter((k) => !(k === 'click' && el.localName === 'a'))) !== J(on)) fail(`${where}: handlers of ${calls} instead of ${on}`, 'calls');
    if (el.localName === 'textarea') return;
    const kids = el.childNodes.filter((c) => !(el === el.ownerDocument.head && isSheet(c)));
    if (n.kids.length !== kids.length) fail(`${where}: ${n.kids.length} children (${n.kids.map((k) => f.map.get(k).name || J(f.map.get(k).text))}) instead of ${kids.length}`, 'children');
    n.kids.forEach((k, i) => same(f, k, kids[i], `${where} > ${el.localName}[${i}]`));
};
/** node of the fragment and node of the model (outside of the page) */
const like = (f, id, x, data, where) => {
    const n = f.map.get(id);
    if ('t' in x) { if (n.name !== '' || n.text !== x.t) fail(`${where}: ${J(n.name || n.text)} instead of the text ${J(x.t)}`, 'text'); return; }
    if (n.name !== x.e[1]) fail(`${where}: <${n.name}> instead of <${x.e[1]}>`, 'name');
    for (const k of new Set([...n.attrs.keys(), ...Object.keys(x.attrs)])) if (k !== 'class' && k !== 'style' && n.attrs.get(k) !== x.attrs[k]) fail(`${where}: <${n.name}> has the attribute ${k} = ${J(n.attrs.get(k))} instead of ${J(x.attrs[k])}`, 'attr');
    const on = x.e[2].filter((a) => a[0] === 'on').map((a) => a[1]).sort();
    if (J([...n.calls.keys()].sort()) !== J(on)) fail(`${where}: handlers of ${[...n.calls.keys()]} instead of ${on}`, 'calls');
    if (x.e[1] === 'textarea') return;
    const kids = n.kids.filter((k) => !/^<!-- .* -->$/s.test(f.map.get(k).text ?? '') || f.map.get(k).name !== ''), want = [];
    for (const k of x.inst.kids) want.push(...k.shown(data));
    const w = want.filter((y) => !('t' in y && /^<!-- .* -->$/s.test(y.t)));
    if (kids.length !== w.length) fail(`${where}: ${kids.length} children instead of ${w.length}`, 'children');
    kids.forEach((k, i) => like(f, k, w[i], data, `${where} > ${x.e[1]}[${i}]`));
};
export default {
    id: 'P37', quick: 15000, thorough: 400000,
    rule: 'A random page (elements with attributes, classes, styles, loading indications and handlers; texts, conditional content, lists, fragments) is made while the inspector records, then changed by up to 10 transactions. After each the fragment is compared with the document in the simulated browser: nodes, order, attributes, texts, comments, handlers, styles; parents and children agree; the pseudo HTML is its text. Single elements made and changed outside of the page are compared with the model. Non-trivial = at least two operations changed data, and content was replaced.',
    assumptions: ['a page has two nodes below the root, which the inspector may show either of', 'a class whose rules were recorded is shown as these rules', 'no style attribute besides'],
    generate: (src) => {
        const c = genPage(src, cfg), g = new Gen(src, cfg);
        if (src.bool(0.3)) c.part = ['e', src.pick(['div', 'ul', 'p']), [], genPage(src, { ...cfg, budget: 12 }).root[3][1][3], src.draw(3)];
        c.later = c.part && src.bool(0.7) ? src.list(0, 3, () => g.op(), 1.5) : [];
        c.setup = [['insp'], ...c.setup];
        return c;
    },
    run: async (c, env) => {
        const setup = c.setup.filter((o) => o[0] !== 'insp');
        const kills = Inst.kills;
        let data;
        const st = await runPage({ ...c, setup }, env, {
            identity: false, boot: c.setup,
            atStart: (st) => check(st, 'at the start'),
            after: (st, op) => check(st, `after operation ${st.steps} ${J(op)}`),
            atEnd: (st) => {
                if (!c.part) return;
                // a single element outside of the page
                st.b.exec(['rx', [['insp'], ['mk', 9, c.part]]]);
                const part = new Inst(c.part, [], st.data, null);
                const direct = c.later.length === 0;
                const one = (where) => {
                    const f = read(st.b.exec(['inspq', direct ? 1 : null]));
                    sound(f, where);
                    const tops = [...f.map.values()].filter((n) => n.parent === 0 && n.name === c.part[1]);
                    if (tops.length !== 1 || f.root !== tops[0].id) fail(`${where}: the root is ${f.root}, not the element`, 'root');
                    printed(f, where);
                    like(f, f.root, [...part.shown(st.data)][0], st.data, where);
                };
                one('outside of the page');
                for (const op of c.later) {
                    st.data.apply(op);
                    part.update(st.data);
                    st.b.exec(['rx', [op]]);
                    one(`outside of the page, after ${J(op)}`);
                }
                if (direct) return;
                st.b.exec(['rx', [['rm', 9]]]);
                const f = read(st.b.exec(['inspq', null])), top = (n) => (f.map.has(n.parent) ? top(f.map.get(n.parent)) : n.parent), left = [...f.map.values()].filter((n) => top(n) === 0);
                if (left.length) fail(`the element was dropped, but left is ${left[0].name || J(left[0].text)}`, 'left');
            },
        });
        function check(st, where) {
            const f = read(st.b.exec(['inspq', null]));
            sound(f, where);
            printed(f, where);
            if (!f.map.has(1)) fail(`${where}: the fragment has no html`, 'root');
            same(f, 1, st.b.document.documentElement, where + ': html');
        }
        return { nontrivial: st.changed >= 2 && Inst.kills > kills, classes: [...Object.keys(kinds(c.root)), ...(c.part ? ['part'] : [])] };
    },
};
