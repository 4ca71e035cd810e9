// Style macros: generated style texts with embedded expressions, compiled, and the styles they produce compared with the text.
import { fail } from '../engine.mjs';
import { lit, openProgram, prepareAll } from '../macros.mjs';
import { noErrors, J } from './hostprop.mjs';

const PROPS = ['color', 'width', 'background', 'border', 'margin', 'background-image', 'grid-template-areas', 'font-family', 'content', '-webkit-box-shadow', '--my-var', 'z-index', 'transition', 'font', 'transform', 'cursor'];
const WORDS = ['red', 'solid', 'auto', 'inherit', 'bold', '#fff', '#ffffff', '#ffffff80', '#AbCdEf', 'rgb(1,2,3)', 'rgb(1, 2, 3)', 'rgba(10, 20, 30, 0.5)', 'hsl(1, 2%, 3%)', '10px', '50%', '1.5em', '-3px', '0', '!important', 'var(--x)', "'a b'", '"q  r"', "'a;b'", "'a: b; c'", '"it\'s"', 'calc(100% - 3px)', 'linear-gradient(to right, #fff, #000 50%)', 'url(a.png)', "url('a b.png')", '/', 'ease-in-out', 'minmax(0, 1fr)', '\\201C', 'żółw', 'a:b', '*', '>', '=', 'U+25', "'\\''", '1fr', '@x', '%', '/*keep*/'];
const UNITS = ['px', '%', 'em', 'rem', 'vh', 'px!important', '', '', ')', 's', 'fr'];
const SELS = [':hover', ':nth-child(2n+1)', ':not(.x)', ':hover > b', ':focus-within li', ':hover::before', ':first-child ~ p', ':active *', ':hover .a.b'];
const MEDIA = ['screen and (max-width: 600px)', 'print', '(min-width: 10em) and (orientation: landscape)', 'not all', 'screen, print'];
const COMMENTS = ['', ' c ', ' color: red; ', "it's", ' { } ', '*', ' a\n b ', ' {x} ', '///', ' ; '];
const WS = [' ', '', '\n    ', '  ', '\t', '\r\n'];
/** [source, value] given the variables of the program */
const EXPRS = [
    ['color', (v) => v.color], ['w', (v) => `${v.w}`], ['h', () => '2.5'], ['link', (v) => v.link], ['&color', (v) => v.color], ['text.clone()', (v) => v.text], ['&text', (v) => v.text], ['text.len()', (v) => `${Buffer.byteLength(v.text)}`],
    ['st.a', (v) => `${v.w + 1}`], ['st.inner.b', (v) => v.color], ['arr[1]', () => '20'], ['f(w)', (v) => `f${v.w}`], ['f(w + 1)', (v) => `f${v.w + 1}`], ['LIMIT', () => '77'], ['w * 2 - 1', (v) => `${v.w * 2 - 1}`], ['(w as f64) / 2.0', (v) => `${v.w / 2}`],
    ['w.max(9)', (v) => `${Math.max(v.w, 9)}`], ['String::from("q")', () => 'q'], ['names::LABEL', () => 'label'], ["'c'", () => 'c'], ['format!("<>-")', () => '<>-'], ['"lit eral"', () => 'lit eral'], ['w % 3', (v) => `${v.w % 3}`], ['!flag', () => 'false'], ['-w', (v) => `${-v.w}`], [' w ', (v) => `${v.w}`], ['r#as', () => '1'],
    [`"'two  spaces'"`, () => "'two  spaces'"], [`concat!("'",  " b'")`, () => "' b'"], ['concat!("a ",  " b")', () => 'a  b'], ['f( w )', (v) => `f${v.w}`],
];
const EW = ['w', 'h', 'color', 'st.a', 'f(w)'];

class Gen {
    constructor(s) { this.s = s; this.many = s.bool(0.1); }
    ws(must) { return this.s.weighted([[6, ' '], ...(must ? [] : [[2, '']]), [1, '\n    '], [0.5, '  '], [0.5, '\t'], [0.2, '\r\n'], [0.4, '\n']]); }
    expr() { return this.many ? ['e+', this.s.draw(60)] : this.s.weighted([[2, () => { const n = this.s.pick(EW); return ['e', EXPRS.findIndex((x) => x[0] === n)]; }], [3, () => ['e', this.s.draw(EXPRS.length)]]])(); }
    /** pieces without anything between them */
    token(plain) {
        const s = this.s;
        const word = () => [s.pick(WORDS)];
        if (plain) return word();
        return s.weighted([
            [5, word],
            [2.5, () => [this.expr(), s.pick(['px', '%', 'em', 'rem', 'vh', 's', 'fr', ''])]],
            [0.7, () => ['-', this.expr(), 'px']],
            [0.7, () => [this.expr(), this.expr()]],
            [0.7, () => ['#', this.expr()]],
            [1, () => ['calc(', this.expr(), s.pick(['px', '%']), ' + ', ...(s.bool() ? [this.expr(), 'px'] : ['3em']), ')']],
            [1, () => { const e = this.expr(); return ['url(', e[0] === 'e' && EXPRS[e[1]][0].includes("'") ? ['e', 0] : e, ')']; }],
            [0.6, () => ['rgb(', this.expr(), ',', this.ws(), this.expr(), ', 3)']],
            [0.5, () => ['translate(-', this.expr(), '%, ', this.expr(), 'px)']],
            [0.4, () => [s.pick(['a', 'b-', '1']), this.expr(), s.pick(['x', '-y', '0'])]],
        ])();
    }
    decl(plain) {
        const s = this.s;
        const out = [s.pick(PROPS), s.pick(['', '', ' ']), ':', this.ws(), ...this.token(plain)];
        for (const t of s.list(0, 4, () => this.token(plain), 1)) out.push(...s.weighted([[4, [this.ws(true)]], [1.5, [s.pick(['', ' ']), ',', this.ws()]]]), ...t);
        out.push(s.weighted([[6, ''], [1, ' '], [0.5, '\n']]), ';');
        return out;
    }
    block(o) {
        const s = this.s;
        const out = [this.ws()];
        for (const r of s.list(o.min ?? 0, 4, () => this.rule(o), 2)) out.push(...r, this.ws());
        return out;
    }
    rule(o) {
        const s = this.s;
        const kinds = [[8, 'decl'], [1.2, 'comment']];
        if (o.sub) kinds.push([1.5, 'sub']);
        if (o.media) kinds.push([1, 'media']);
        if (o.anim) kinds.push([0.7, 'anim']);
        switch (s.weighted(kinds)) {
            case 'decl': return this.decl(o.plain);
            case 'comment': return [['c', s.pick(COMMENTS)]];
            case 'sub': {
                const refs = o.refs > 0 ? s.list(0, 2, () => ['r', s.draw(o.refs)], 0.6) : [];
                const sel = !refs.length || s.bool(0.6) ? [s.pick(SELS)] : [];
                const parts = [];
                for (const x of [...sel, ...refs]) { if (parts.length) parts.push(' '); parts.push(x); }
                return [...parts, this.ws(), '{', ...this.block({ ...o, min: 1, media: false, anim: o.anim }), '}', s.pick(['', ';', ' ;'])];
            }
            case 'media': return ['@media ', s.pick(MEDIA), this.ws(), '{', ...this.block({ ...o, media: false, anim: false }), '}', s.pick([';', ' ;'])];
            default: return ['animation', ':', this.ws(), s.pick(['1s infinite', '2.5s ease-in-out', 'none', '1s steps(2, end) alternate']), ' ', ...(s.bool(0.7) ? ['{', this.ws(), ...s.list(1, 3, (i) => [`${[0, 50, 100][i]}%`, this.ws(), '{', this.ws(), ...s.list(1, 2, () => this.decl(o.plain), 1.3).flatMap((d) => [...d, this.ws()]), '}', this.ws()], 2).flat(), '}'] : []), ';'];
        }
    }
    style(refs) {
        const s = this.s;
        return { form: s.draw(4), parts: this.block({ sub: true, media: true, anim: true, refs, plain: s.bool(0.25), min: this.many ? 4 : 0 }) };
    }
    program() {
        const s = this.s;
        const styles = s.list(1, 5, () => this.style(3), 2.5);
        const ops = s.list(0, 4, () => s.weighted([[2, () => ['ext', s.draw(styles.length), s.draw(styles.length)]], [1, () => ['push', s.draw(styles.length), { form: s.draw(4), parts: this.block({ sub: true, media: true, anim: true, refs: 0, plain: true }) }]], [1, () => ['pushs', s.draw(styles.length), this.style(0)]]])(), 1);
        return { v: { color: s.pick(['red', '#abc', 'rgb(1, 2, 3)', 'a b', '', '{x}', '{}', 'x;y', 'żółw']), w: s.int(0, 120), link: s.pick(['http://x/y.png', 'a b.png', '/x?a=1&b=2', 'data:x,{}']), text: s.pick(['t', 'hello there', 'żółw']) }, styles, ops };
    }
}
const KS = ['k0', 'other_style', 'k2'];
const value = (e, v) => (e[0] === 'e+' ? String(v.w + e[1]) : EXPRS[e[1]][1](v));
const src = (parts) => parts.map((p) => (typeof p === 'string' ? p : p[0] === 'c' ? `/*${p[1]}*/` : p[0] === 'r' ? `[${KS[p[1]]}]` : `{${p[0] === 'e+' ? `w + ${p[1]}` : EXPRS[p[1]][0]}}`)).join('');
const meaning = (parts, v, classes) => parts.map((p) => (typeof p === 'string' ? p : p[0] === 'c' ? '' : p[0] === 'r' ? '.' + classes[p[1]].replace(' ', '.') : value(p, v))).join('');
const isDynamic = (parts) => parts.some((p) => Array.isArray(p) && p[0] !== 'c');
const strLit = (text, form) => (form % 2 && !/"#|\r/.test(text) ? `r#"${text}"#` : lit(text));
const macro = (name, st) => { const t = strLit(src(st.parts), st.form); return st.form < 2 ? `${name}!(${t})` : `${name}! { ${t} }`; };
export const source = (c) => `use vertigo::{css, css_block, get_driver, Css, CssGroup, DomNode};
use crate::rt::log;
const LIMIT: i32 = 77;
mod names { pub const LABEL: &str = "label"; }
struct Inner { b: String }
struct Outer { a: i32, inner: Inner }
fn f(x: i32) -> String { format!("f{}", x) }
fn show(k: &str, style: &Css) {
    for g in &style.groups {
        match g {
            CssGroup::CssStatic { value } => log(format!("{}:{}", k, value)),
            CssGroup::CssDynamic { value } => log(format!("{}:{}", k, value)),
            CssGroup::CssMedia { .. } => log(format!("{}:media", k)),
        }
    }
}
pub fn p() -> DomNode {
    let color = ${lit(c.v.color)};
    let w: i32 = ${c.v.w};
    let h = 2.5;
    let link = ${lit(c.v.link)}.to_string();
    let text = ${lit(c.v.text)}.to_string();
    let st = Outer { a: w + 1, inner: Inner { b: color.to_string() } };
    let arr = [10, 20, 30];
    let flag = true;
    let r#as = 1;
    let k0 = css!("color: r0;");
    let other_style = css!("color: r1; width: {w}px;");
    let k2 = css!("color: r2;").extend(css!("height: 3px;"));
    log(format!("class:{}", get_driver().class_name_for(&k0)));
    log(format!("class:{}", get_driver().class_name_for(&other_style)));
    log(format!("class:{}", get_driver().class_name_for(&k2)));
${c.styles.map((st, i) => `    let c${i} = ${macro('css', st)};\n    show("s${i}", &c${i});\n`).join('')}${c.ops.map((op, i) => (op[0] === 'ext' ? `    show("o${i}", &c${op[1]}.clone().extend(c${op[2]}.clone()));\n` : op[0] === 'push' ? `    show("o${i}", &c${op[1]}.clone().push_str(${macro('css_block', op[2])}));\n` : `    let mut o = c${op[1]}.clone();\n    o.push_string(${macro('css_block', op[2])}.to_string());\n    show("o${i}", &o);\n`)).join('')}    vertigo::DomElement::new("div").into()
}
`;
/** white space, quotes of addresses and optional semicolons do not matter */
export const normal = (text) => {
    let out = '';
    for (const m of text.replace(/url\((['"])([^]*?)\1\)/g, 'url($2)').matchAll(/'(?:[^'\\\n]|\\[^])*'|"(?:[^"\\\n]|\\[^])*"|\s+|[^]/g)) {
        const t = m[0];
        out += /^\s/.test(t) ? '\u0001' : t;
    }
    return out.replace(/\u0001+/g, '\u0001').replace(/\u0001*([{};:,])\u0001*/g, '$1').replace(/;+(?=\})|(?<=[{};])[;]+/g, '').replace(/^[\u0001;]+|[\u0001;]+$/g, '').replace(/\u0001/g, ' ');
};
const run = async (c, env) => {
    const b = await openProgram(prop, c, env);
    const log = b.log();
    noErrors(b, 'the program');
    const get = (k) => log.filter((l) => l.startsWith(k + ':')).map((l) => l.slice(k.length + 1));
    const classes = get('class');
    if (classes.length !== 3) fail(`class names ${J(classes)}`, 'class');
    classes.forEach((x, i) => { if (!(i === 2 ? /^autocss_\d+ autocss_\d+$/ : /^autocss_\d+$/).test(x ?? '')) fail(`style ${i} has the class name ${J(x)}`, 'class'); });
    const texts = c.styles.map((st) => meaning(st.parts, c.v, classes));
    const same = (what, have, want) => {
        if (have.length !== want.length || have.some((x, i) => normal(x) !== normal(want[i]))) fail(`${what} is ${J(have)} instead of ${J(want)}\n${have.map(normal).join('\n')}\n${want.map(normal).join('\n')}\n${b.source}`, 'text');
    };
    c.styles.forEach((st, i) => same(`style ${J(src(st.parts))}`, get(`s${i}`), [texts[i]]));
    c.ops.forEach((op, i) => same(`composition ${op[0]} of ${op[1]}`, get(`o${i}`), [texts[op[1]], op[0] === 'ext' ? texts[op[2]] : meaning(op[2].parts, c.v, classes)]));
    b.close();
    const exprs = c.styles.reduce((n, st) => n + st.parts.filter((p) => Array.isArray(p) && p[0][0] === 'e').length, 0);
    const all = c.styles.flatMap((st) => st.parts);
    const cls = [];
    if (exprs) cls.push('expressions');
    if (new Set(all.filter((p) => p[0] === 'e+').map(String)).size > 18) cls.push('many expressions');
    for (const [n, t] of [['reference', (p) => p[0] === 'r'], ['comment', (p) => p[0] === 'c'], ['media', (p) => p === '@media '], ['animation', (p) => p === 'animation'], ['url', (p) => p === 'url(']]) if (all.some(t)) cls.push(n);
    return { nontrivial: exprs >= 2 && all.length >= 20, classes: cls, evaluations: c.styles.length + c.ops.length };
};
export const prop = {
    id: 'P30', quick: 1200, thorough: 40000, batch: 30, shrinkTries: 60, shrinkMs: 150000,
    rule: 'Random style texts: declarations with words, quoted texts, colours, functions, addresses and embedded expressions of 27 kinds (up to 60 different ones in one style) with and without space around them, nested selectors with references to other styles, media queries, animations, comments at rule position and arbitrary white space; and compositions of styles. The produced text must be the written text with values in place, up to insignificant white space. Non-trivial = at least two embedded expressions in at least twenty pieces of text.',
    assumptions: ['no braces inside quoted texts', 'comments stand between rules', 'embedded expressions have no side effects'],
    source,
    prepare: (o) => prepareAll(prop, o),
    generate: (s) => new Gen(s).program(),
    run,
};
export default prop;
