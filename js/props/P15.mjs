import { fail } from '../engine.mjs';
import { Element_ } from '../minidom.mjs';
import { rules, items, norm, split } from '../css.mjs';
import { open, noErrors, J } from './hostprop.mjs';

const IDENTS = ['red', 'solid', 'auto', 'inherit', 'żółty', '漢字', '😀', '-moz-x', '10px', '50%', '.5em', '1e3', '0', '#ff00AA', '+1', 'a', 'var(--x)', 'ease-in-out', '\\3a', '\\;'];
const NAMES = ['color', 'background', 'background-image', 'content', 'width', 'font-family', '--x', '--Ümlaut', 'grid-template-areas', 'transition', 'animation-name', 'animation-delay', '-webkit-animation', 'animation-timing-function'];
const PIECES = [';', ':', '{', '}', '(', ')', '[', ']', ',', '.', '@media', '/*', '*/', '//', ' ', '  ', 'a', 'żó', '漢', '😀', '\\"', "\\'", '\\\\', '\\a ', '!', '#', '%', '&', '<', '>', 'autocss_1', 'animation: x', 'url(', '\u00a0', '\t'];
const gap = (s) => s.weighted([[6, ' '], [3, ''], [1, '\n    '], [0.5, '\t']]);
const quoted = (s) => { const q = s.pick(['"', "'"]); return q + s.list(0, 5, () => s.pick(PIECES), 2).filter((x) => !x.includes(q) || x[0] === '\\').join('') + q; };
const url = (s) => s.weighted([[2, () => `url(${gap(s).trim()}${quoted(s)})`], [2, () => 'url(' + s.pick(['data:image/png;base64,iVBORw0KGgo=', 'http://x.y/a;b?c=d:e&f={1}', '/img/a.png', "data:image/svg+xml;utf8,<svg xmlns=%22x%22>", 'a/*b', '%7B;%7D']) + ')']])();
const value = (s, depth = 2) => s.list(1, 3, () => s.weighted([[5, () => s.pick(IDENTS)], [2, () => quoted(s)], [1.5, () => url(s)], [depth > 0 ? 1.5 : 0.01, () => s.pick(['rgb', 'calc', 'format', 'linear-gradient', 'f']) + '(' + s.list(1, 3, () => value(s, depth - 1), 2).join(s.pick([',', ', '])) + ')']])(), 1.6).join(' ');
const decl = (s) => ['d', s.pick(NAMES), value(s) + (s.bool(0.08) ? ' !important' : '')];
const decls = (s, min = 0) => s.list(min, 4, () => decl(s), 2);
const SEL = [':hover', '::before', ':focus', ':nth-child(2n+1)', ':not(.x)', ':hover > .child', ':is(:hover, :focus)', ':first-child::after', ':hover .autocss_9', ':lang(żó)', '::before:hover', ':hover [data-x]', ':hover, :focus', ':is(:hover, :focus),::after', ':not([title=","], .b) , :first-child'];
const ATTRSEL = ['[disabled]', '[data-x="y"]', '[disabled]:hover', '[data-x]::before', '[title="ż;ó"]'];
const QUERY = ['@media print', '@media screen and (min-width: 400px)', '@media (orientation: landscape)', '@media not all and (monochrome)', '@media screen, print', '@media (width >= 600.5px)', '@media screen and (min-width: 400px) and (max-width: 800px)'];
const item = (s, inMedia = false) => s.weighted([
    [8, () => decl(s)],
    [2, () => ['p', s.pick(SEL), decls(s)]],
    ...(inMedia ? [] : [[0.7, () => ['p', s.pick(ATTRSEL), decls(s)]], [0.7, () => ['n', s.pick(['.autocss_7', '.child', '.a.b']), decls(s, 1)]],
        [1.5, () => ['m', s.pick(QUERY), s.list(0, 4, () => item(s, true), 2)]],
        [1.2, () => ['a', s.pick(['1s', '1.0s infinite ease-in-out', '300ms linear 2', '2s steps(2, end) żó']), s.list(1, 3, () => [s.pick(['0%', '100%', 'from', 'to', '33.3%', '0%, 50%']), decls(s, 1)], 2)]]]),
])();
const style = (s) => s.list(0, 6, () => item(s), 3);

// ---- text of a style
const body = (s, ds) => ds.map((d) => d[1] + gap(s).trim() + ':' + gap(s) + d[2]).join(';' + gap(s)) + (s.bool(0.6) ? ';' : '');
const block = (s, ds) => '{' + gap(s) + body(s, ds) + gap(s) + '}';
export const write = (s, st) => {
    let out = gap(s);
    st.forEach((x, i) => {
        const last = i === st.length - 1;
        if (x[0] === 'd') out += x[1] + (s.bool(0.1) ? ' ' : '') + ':' + gap(s) + x[2];
        else if (x[0] === 'p' || x[0] === 'n') out += x[1] + gap(s) + block(s, x[2]);
        else if (x[0] === 'm') out += x[1] + gap(s) + '{' + write(s, x[2]) + '}';
        else out += 'animation:' + gap(s) + x[1] + ' {' + gap(s) + x[2].map(([k, ds]) => k + ' ' + block(s, ds)).join(gap(s)) + gap(s) + '}';
        if (!last || s.bool(0.6)) out += gap(s) + ';' + gap(s);
    });
    return out;
};
// ---- meaning: [condition, selector] -> declarations
const add = (m, media, sel, ds) => { if (!ds.length) return; const k = J([media, sel]); if (!m.has(k)) m.set(k, []); m.get(k).push(...ds); };
const dd = (d) => d[1] + ': ' + norm(d[2]);
const mean = (st, m = new Map(), media = '') => {
    for (const x of st) {
        if (x[0] === 'd') add(m, media, '&', [dd(x)]);
        else if (x[0] === 'p') add(m, media, list(x[1]).map((y) => '&' + y).join(', '), x[2].map(dd));
        else if (x[0] === 'n') add(m, media, '& ' + norm(x[1]), x[2].map(dd));
        else if (x[0] === 'm') mean(x[2], m, norm(x[1]));
        else add(m, media, '&', ['animation: ' + norm(x[1]) + ' <' + x[2].map(([k, ds]) => norm(k) + '{' + ds.map(dd).join('; ') + '}').join(' ') + '>']);
    }
    return m;
};
const list = (t) => split(t).map(norm);
const plain = (m) => J([...m].sort((a, b) => (a[0] < b[0] ? -1 : 1)));

/** the sheet of the page, by class */
const read = (sheets) => {
    const cls = new Map(), frames = new Map(), order = [];
    const rule = (prelude, text, media, what) => {
        const each = split(prelude).map((x) => /^\.(autocss_[0-9]+)(.*)$/s.exec(x));
        const m = each[0];
        if (each.some((x) => !x || x[1] !== m[1])) fail(`the sheet has a rule for ${prelude}: ${what}`, 'foreign-rule');
        const c = m[1], sel = each.map((x) => '&' + x[2]).join(', ');
        order.push([c, media, sel.slice(1)]);
        if (!cls.has(c)) cls.set(c, new Map());
        for (const x of items(text)) {
            if (x[0] === 'bad') fail(`the sheet has a declaration a browser drops: ${J(x[1])} in ${what}`, 'bad-decl');
            if (x[0] === 'd') add(cls.get(c), media, sel, [x[1] + ': ' + x[2]]);
            else { if (sel !== '&') fail('nested in ' + sel, 'nested'); const k = items(x[2]); add(cls.get(c), media, '& ' + x[1], k.map((y) => y[1] + ': ' + y[2])); }
        }
    };
    for (const text of sheets) {
        for (const r of rules(text)) {
            if (r.broken || r.block === undefined) fail(`the sheet is malformed (${r.broken}): ${text}`, 'malformed');
            const k = /^@keyframes (\S+)$/.exec(r.prelude);
            if (k) {
                if (frames.has(k[1])) fail(`two animations are called ${k[1]}`, 'frames-twice');
                frames.set(k[1], items(r.block).map((x) => { if (x[0] !== 'r') fail('keyframes: ' + text, 'frames'); return x[1] + '{' + items(x[2]).map((y) => { if (y[0] !== 'd') fail(`the sheet has a declaration a browser drops: ${J(y)} in ${text}`, 'bad-decl'); return y[1] + ': ' + y[2]; }).join('; ') + '}'; }).join(' '));
            } else if (r.prelude.startsWith('@media')) {
                for (const x of items(r.block)) { if (x[0] !== 'r') fail(`the sheet has ${J(x)} directly in a media block: ${text}`, 'media'); rule(x[1], x[2], r.prelude, text); }
            } else rule(r.prelude, r.block, '', text);
        }
    }
    return { cls, frames, order };
};

export const sheetCase = (s) => {
    const pool = s.list(1, 5, () => { const st = style(s); return { st, text: write(s, st), how: s.weighted([[3, 'leak'], [3, 'dyn']]) }; }, 2.5);
    const group = (d) => (d > 0 && s.bool(0.15) ? ['ext', s.list(0, 2, () => group(d - 1), 1)] : ['u', s.draw(pool.length)]);
    const css = () => s.list(0, 3, () => group(1), 1.4);
    return { pool, els: s.list(1, 5, () => (s.bool(0.6) ? ['css', css()] : ['cssc', s.draw(2), s.list(1, 3, css, 2)]), 3), ops: s.list(0, 5, () => ['set', s.draw(2), s.draw(4)], 2) };
};
/** the page with the elements of the case */
export const sheetRoot = (c) => {
    const g = (x) => (x[0] === 'ext' ? ['ext', x[1].map(g)] : [c.pool[x[1]].how, c.pool[x[1]].text]);
    return ['e', 'html', [], [['e', 'head', [], [], 0], ['e', 'body', [], c.els.map((e, i) => ['e', 'div', [['s', 'id', ['e' + i]], e[0] === 'css' ? ['css', e[1].map(g)] : ['cssc', e[1], e[2].map((l) => l.map(g))]], [], 0]), 0]], 0];
};
/** compares the classes of the elements and the sheets with what is declared; `all`: no others are there */
export const judge = (c, vals, seen, sheets, byId, what, all) => {
    const flat = (l) => l.flatMap((x) => (x[0] === 'ext' ? flat(x[1]) : [x[1]]));
    const { cls, frames, order } = read(sheets);
    const used = new Set();
    const resolve = (m) => plain(new Map([...m].map(([k, ds]) => [k, ds.map((d) => (!d.startsWith('animation: ') ? d : d.replace(/(\s)(autocss_[0-9]+)$/, (_, sp, n) => { if (!frames.has(n)) fail(`the animation ${n} is not in the sheet`, 'frames-missing'); used.add(n); return sp + '<' + frames.get(n) + '>'; })))])));
    c.els.forEach((e, i) => {
        const want = flat(e[0] === 'css' ? e[1] : e[2][vals[e[1]] % e[2].length]);
        const have = (byId('e' + i).getAttribute('class') ?? '').split(' ').filter(Boolean);
        if (have.length !== want.length) fail(`${what}: element ${i} has the classes ${J(have)} for ${want.length} styles`, 'classes');
        have.forEach((k, j) => {
            const x = c.pool[want[j]];
            const other = seen.get(k);
            if (other !== undefined && other !== want[j] && (c.pool[other].text !== x.text || c.pool[other].how !== x.how)) fail(`${what}: two different styles share the class ${k}`, 'shared');
            for (const [k2, o2] of seen) if (k2 !== k && c.pool[o2].text === x.text && c.pool[o2].how === x.how) fail(`${what}: one style has the classes ${k2} and ${k}`, 'twice');
            seen.set(k, want[j]);
            const a = plain(mean(x.st)), z = resolve(cls.get(k) ?? new Map());
            if (a !== z) fail(`${what}: the style ${J(x.text)} of ${k} became ${z} instead of ${a}; sheet: ${J(sheets)}`, 'rules');
        });
    });
    for (const k of cls.keys()) if (all && !seen.has(k)) fail(`${what}: the sheet has rules for ${k}, a class nobody has`, 'unused');
    for (const k of frames.keys()) if (seen.has(k)) fail(`${what}: ${k} is the name of a class and of an animation`, 'frames-class');
    // what a media query declares has to come after what it overrides
    const at = new Map();
    order.forEach(([k, media, sel], i) => { const key = k + '|' + sel; if (!media) at.set(key, i); });
    const late = (st, sel) => { let m = false; for (const x of st) { if (x[0] === 'm' && x[2].some((y) => y[0] === 'p' && list(y[1]).map((z) => '&' + z).join(', ') === '&' + sel)) m = true; if (m && x[0] === 'p' && list(x[1]).map((y) => '&' + y).join(', ') === '&' + sel) return true; } return false; };
    order.forEach(([k, media, sel], i) => { if (seen.has(k) && media && !late(c.pool[seen.get(k)].st, sel) && (at.get(k + '|' + sel) ?? -1) > i) fail(`${what}: the rule for ${k}${sel} stands behind the one of ${media} and always overrides it`, 'cascade'); });
};
export default {
    id: 'P15', quick: 15000, thorough: 400000,
    rule: 'Random styles (declarations with functions, urls, quoted texts of any characters and any script; pseudo-selectors, attribute selectors, media queries, animations) written with random white space, used as static and dynamic styles by up to 5 elements, some of them switching between styles, shared between elements and nested in others. The style sheet of the page, read by a CSS parser, must give the classes of every element exactly the declared properties. Non-trivial = at least two different styles of which one has a nested block, and a quoted text, url or function.',
    assumptions: ['attribute selectors are used outside of media queries', 'blocks are followed by a semicolon, as the css! macro writes them', 'a nested .class stands for descendants, by CSS nesting'],
    generate: (s) => ({ ts: s.bool(0.2), ...sheetCase(s), pre: s.bool(0.3) }),
    run: async (c, env) => {
        const vals = [0, 0];
        const b = await open({ ts: c.ts, setup: [['val', 0, 0], ['val', 1, 0]], root: sheetRoot(c) }, env);
        const seen = new Map(); // class -> index in the pool
        try {
            const check = (what) => {
                noErrors(b, what);
                judge(c, vals, seen, b.document.head.childNodes.filter((el) => el instanceof Element_ && el.localName === 'style').map((el) => el.textContent), (id) => b.document.getElementById(id), what, true);
            };
            check('start');
            for (const op of c.ops) {
                vals[op[1]] = op[2];
                b.exec(['rx', [op]]);
                check('after ' + J(op));
            }
        } finally { b.close(); }
        const text = c.pool.map((x) => x.text).join();
        return { nontrivial: new Set(c.pool.map((x) => x.text)).size >= 2 && c.pool.some((x) => x.st.some((y) => y[0] !== 'd')) && /["'(]/.test(text), classes: [c.ts ? 'ts' : 'bundle', ...new Set(c.pool.flatMap((x) => x.st.map((y) => 'i-' + y[0])))] };
    },
};
