// Closure, component and access macros: generated programs do everything twice, with the macros and with the closures, calls and
// constructors written out by hand; both must do the same.
import { fail } from '../engine.mjs';
import { lit, openProgram, prepareAll } from '../macros.mjs';
import { noErrors, J } from './hostprop.mjs';

// name, type, owner ('' local, 'P' field of the struct); types: i s v owned, c r V W shared
const VARS = [['n', 'i', ''], ['text', 's', ''], ['list', 'v', ''], ['cell', 'c', ''], ['shared', 'r', ''], ['val', 'V', ''], ['wal', 'W', ''], ['r#type', 's', ''], ['pair', 'p', ''], ['_u', 'i', ''],
    ['f', 's', 'P'], ['m', 'c', 'P'], ['g.h', 's', 'P.'], ['g.k', 'c', 'P.'], ['v', 'V', 'P'], ['q', 'v', 'P'], ['g.d.e', 'i', 'P'], ['g.d.z', 'W', 'P'], ['g', 'g', 'P'], ['text', 's', 'P'], ['val', 'V', 'P']];
const last = (i) => VARS[i][0].split('.').pop();
// pattern, type, argument, bound names
const PARAMS = [
    ['X', 'i32', '3', ['X']], ['X', '&str', '"a"', ['X']], ['(X, XX)', '(i32, String)', '(1, "q".to_string())', ['X', 'XX']], ['_', 'i32', '5', []], ['mut X', 'i32', '2', ['X']], ['X', 'Option<Vec<i32>>', 'Some(vec![1])', ['X']],
    ['P2 { a: X, .. }', 'P2', 'P2 { a: 1, b: 2 }', ['X']], ['&X', '&i32', '&7', ['X']], ['[X, XX]', '[i32; 2]', '[1, 2]', ['X', 'XX']], ['X', '(i32, u8)', '(4, 5)', ['X']], ['X', 'Rc<Cell<i32>>', 'Rc::new(Cell::new(8))', ['X']], ['X', 'fn(i32) -> i32', 'double', []], ['X', '&dyn Fn(i32) -> i32', '&double', []],
    ['X', '[Option<i32>; 1]', '[None]', ['X']], ['_X', 'bool', 'true', ['_X']], ['X', '()', '()', ['X']],
];
const COMMA = [['X', 'Vec<(i32, i32)>', 'vec![(1, 2)]', ['X']], ['X', 'Result<i32, String>', 'Err("e".to_string())', ['X']], ['X', 'std::string::String', '"s".into()', ['X']], ['X', 'std::collections::BTreeMap<i32, i32>', 'Default::default()', ['X']]];
// type, value, what {:?} shows (through SHOW)
const CTYPES = [['i32', '5', '5'], ['String', '"a b".to_string()', '"a b"'], ['Option<i32>', 'Some(3)', 'Some(3)'], ['Option<String>', 'None::<String>', 'None'], ['Vec<(i32, i32)>', 'vec![(1, 2)]', '[(1, 2)]'], ['&\'static str', '"x"', '"x"'], ['bool', 'false', 'false'], ['(i32, char)', '(1, \'c\')', "(1, 'c')"],
    ['Rc<dyn Fn(i32) -> i32>', 'bind_rc!(|x: i32| x * 2)', '42', '{}(21)'], ['Value<i32>', 'Value::new(6)', '6', 'transaction(|c| {}.get(c))'], ['Computed<i32>', 'Value::new(7).to_computed()', '7', 'transaction(|c| {}.get(c))'], ['std::collections::BTreeMap<String, i32>', 'std::collections::BTreeMap::from([("k".to_string(), 1)])', '{"k": 1}'], ['T', '9u8', '9'], ['U', '"gen"', '"gen"'], ['[i32; 2]', '[1, 2]', '[1, 2]'], ['f64', '2.5', '2.5'], ['P2', 'P2 { a: 1, b: 2 }', 'P2 { a: 1, b: 2 }']];
const DEFAULTS = { i32: '0', String: '""', 'Option<i32>': 'None', 'Option<String>': 'None', bool: 'false', f64: '0.0', 'Vec<(i32, i32)>': '[]' };
const CNAMES = ['a', 'b', 'label', 'on_click', 'value', 'on_change', 'r#ref', 'x_1', 'key', 'id', 'css', 'state', 'children'];
const WNAMES = ['vpEcho()', 'vpN', 'vpS', 'vp q', 'vp"q', 'vp\\b', 'żółw', 'vp "f"()', 'vp\\n()', 'vpNone', 'vpNull()', 'vp(x)', 'vpObj', '"', '""()', "'q'", 'vp\n'];
const WARGS = [['n', 1], ['-1', 1], ['"lit"', 1], ['text.clone()', 1], ['true', 1], ['2.5', 1], ['text.len() as u64', 1], ['JsValue::Null', 1], ['JsValue::List(vec![JsValue::from(1), JsValue::str("x")])', 1], ['format!("{}-{}", n, text)', 1], ['{ let k = n + 1; k }', 1], ['if n > 0 { "p" } else { "m" }', 1],
    ['"say \\"hi\\"\\n\\u{17c}\\\\"', 1], ['r#"raw "q" \\n"#', 1], ['"\\"', 0], ['"\\"\\""', 1], ['""', 1], ['"two\\\n   lines"', 1], ['"\\t{} {n} \\x41"', 1], ['0xffi32', 1], ['1_000u64', 1], ['-2.5e-3', 1], ['false', 1], ['concat!("a", 1)', 1], ['("par")', 1]].filter((x) => x[1]);

class Gen {
    constructor(s) { this.s = s; this.method = s.bool(0.4); this.pokes = 0; }
    vars() {
        const s = this.s;
        const out = [], seen = new Set();
        for (const i of s.list(0, 5, () => s.draw(VARS.length), 2.2)) if (!seen.has(last(i))) { seen.add(last(i)); out.push(i); }
        return out;
    }
    /** bindings of names in scope, for a macro inside a body */
    inner(env) {
        const s = this.s;
        const out = [], seen = new Set();
        for (const k of s.list(1, 3, () => s.draw(env.length), 1.5)) if (!seen.has(env[k][0])) { seen.add(env[k][0]); out.push(env[k]); }
        return out;
    }
    params(kind) {
        const s = this.s;
        let x = 0;
        return s.list(0, 3, () => [s.bool(0.25) && kind !== 'rc' ? ['c', s.draw(COMMA.length)] : ['p', s.draw(PARAMS.length)], `x${x++}`], 1);
    }
    stmts(env, o) {
        const s = this.s;
        return s.list(o.min ?? 1, 5, () => {
            const kinds = [];
            if (env.length) kinds.push([3, 'rd'], [3, 'mut']);
            if (o.async) kinds.push([2, 'sleep']);
            if (env.length && o.depth < 2) kinds.push([1, 'nest'], [0.8, 'spawn']);
            if (!kinds.length) return ['say'];
            switch (s.weighted(kinds)) {
                case 'rd': return ['rd', s.pick(env)];
                case 'mut': return ['mut', s.pick(env), s.int(1, 9)];
                case 'sleep': return ['sleep', s.pick([0, 1, 5, 10, 30])];
                case 'nest': { const vars = this.inner(env); const kind = s.pick(['fn', 'rc', 'block', 'fn']); return ['nest', this.made(kind, vars, o.depth + 1), s.int(1, 2)]; }
                default: { const vars = this.inner(env); return ['nest', this.made(s.pick(['spawn', 'async']), vars, o.depth + 1), s.int(1, 2)]; }
            }
        }, 2);
    }
    /** vars: [name, type, path] */
    made(kind, vars, depth) {
        const s = this.s;
        const params = ['fn', 'rc'].includes(kind) ? this.params(kind) : [];
        const isAsync = kind === 'spawn' || kind === 'async';
        return { kind, vars, params, trail: s.bool(0.15), ret: s.draw(4), expr: s.bool(0.15), move: s.bool(0.5), body: this.stmts(vars.map((v) => [v[0], v[1], v[0]]), { async: isAsync, depth }) };
    }
    top(i) { const [n, t, o] = VARS[i]; return [last(i), t, o ? `${this.method ? 'self' : 'st'}.${n}` : n]; }
    program() {
        const s = this.s;
        const steps = s.list(2, 14, () => s.weighted([
            [6, () => {
                const kind = s.weighted([[3, 'fn'], [2, 'rc'], [2, 'spawn'], [1, 'block'], [1, 'async'], [1, 'once'], [1.5, 'poke'], [1, 'arg']]);
                const vars = this.vars().map((i) => this.top(i));
                if (kind === 'poke') this.pokes++;
                const b = this.made(kind, vars, 0);
                if (kind === 'once') b.take = s.draw(Math.max(1, vars.length));
                return ['bind', b, s.int(0, 2)];
            }],
            [3, () => ['call', s.draw(8)]],
            [3, () => ['mutate', this.top(s.draw(VARS.length)), s.int(1, 9)]],
            [1, () => ['win', s.bool(0.6), s.draw(WNAMES.length), s.draw(3), s.list(0, 4, () => s.draw(WARGS.length), 1.5), s.bool(0.2)]],
        ])(), 8);
        const comps = s.list(0, 2, () => {
            const names = s.shuffle(CNAMES).slice(0, s.int(0, 5));
            const fields = names.map((n) => [n, s.draw(CTYPES.length)]);
            // how each field is given: value, variable of the same name, reference to it, reference, default
            return { fields, order: s.shuffle(fields.map((_, i) => i)), use: s.draw(3), short: fields.map(([, t]) => ('TU'.includes(CTYPES[t][0]) ? s.pick([2, 3]) : s.weighted([[4, 0], [2, 1], [1.5, 2], [1, 3], ...(CTYPES[t][0] in DEFAULTS ? [[1, 4], [0.5, 5]] : [])]))), vis: s.draw(2), where: s.bool(), doc: s.bool(0.2) };
        }, 0.6);
        const after = s.list(0, 8, () => s.bool() && this.pokes ? ['poke', s.draw(this.pokes)] : ['adv', s.pick([0, 1, 4, 5, 10, 50])], 3);
        return { method: this.method, steps, comps, after };
    }
}

const KEYS = { i: '0', s: '1' };
const rd = (t, p) => ({ i: p, s: p, v: p, p, g: `${p}.h`, c: `${p}.get()`, r: `${p}.borrow()`, V: `transaction(|c| ${p}.get(c))`, W: `transaction(|c| ${p}.get(c))` })[t];
const sharedMut = (t, p, k) => ({ c: `${p}.set(${p}.get() * 2 + ${k});`, r: `${p}.borrow_mut().push(${k});`, V: `transaction(|c| ${p}.set(${p}.get(c) * 3 + ${k}));`, W: `transaction(|c| { let w = format!("{}{}", ${p}.get(c), ${k}); ${p}.set(w) });` })[t];
const ownedMut = (t, p, k) => ({ i: `${p} += ${k};`, s: `${p}.push_str("${k}");`, v: `${p}.push(${k});`, p: `${p}.0 += ${k};`, g: `${p}.h.push('g'); ${p}.d.e += ${k};` })[t];
const say = (tag, fmt, ...a) => `log(format!("{}|${tag}${fmt}", T${a.length ? ', ' + a.join(', ') : ''}));`;

/** writes the program text; mode m = macros, t = by hand */
class Writer {
    constructor(mode) { this.mode = mode; this.id = 0; }
    param([src, x]) {
        const [pat, ty, arg, names] = src[0] === 'c' ? COMMA[src[1]] : PARAMS[src[1]];
        const sub = (t) => t.replace(/\bXX\b/g, x + 'b').replace(/\bX\b/g, x).replace(/\b_X\b/g, '_' + x);
        return { pat: sub(pat), ty, arg, names: names.map(sub) };
    }
    stmt(st) {
        const tag = `${this.id++}`;
        switch (st[0]) {
            case 'say': return say(tag, '');
            case 'rd': return say(tag, ':{:?}', rd(st[1][1], st[1][0]));
            case 'mut': {
                const [name, t] = st[1];
                return sharedMut(t, name, st[2]) ? `${sharedMut(t, name, st[2])} ${say(tag, ':{:?}', rd(t, name))}` : `{ let mut w = ${name}.clone(); ${ownedMut(t, 'w', st[2])} ${say(tag, ':{:?}', rd(t, 'w'))} }`;
            }
            case 'sleep': return `get_driver().sleep(${st[1]}).await; ${say(tag, '')}`;
            default: return `{ ${this.define(st[1], 'g')}${this.calls(st[1], 'g', st[2])} }`;
        }
    }
    body(b, ps) {
        const own = this.id++;
        const shown = ps.flatMap((p) => p.names);
        const out = shown.map((n) => say(`p${own}`, ':{:?}', n));
        for (const st of b.body) out.push(this.stmt(st));
        if (b.take !== undefined && b.vars.length) { const [n, t] = b.vars[b.take % b.vars.length]; out.push(`let taken = ${n};`, say(`t${own}`, ':{:?}', rd(t, 'taken'))); }
        return out;
    }
    /** an expression for the closure (or value) */
    made(b) {
        const ps = b.params.map((p) => this.param(p));
        const stm = this.body(b, ps).map((l) => l.replace(/\n/g, '\n    ')).join('\n        ');
        const trail = b.trail ? ',' : '';
        const inferred = b.kind === 'arg';
        const plist = inferred ? ['|i, s| ', '|i, _s| ', '|_, s: &str| ', '|i: i32, s,| '][b.ret] : `|${ps.map((p) => `${p.pat}: ${p.ty}`).join(', ')}${ps.length ? trail : ''}| `;
        const tail = b.kind === 'once' || b.kind === 'poke' ? '' : inferred ? ['s.len() as i32 + i', 'i + 1', 's.len() as i32', 'i - s.len() as i32'][b.ret] : b.kind === 'fn' && b.ret === 1 ? '7' : b.ret === 2 ? '"r".to_string()' : '';
        const block = `{\n        ${stm}\n        ${tail}\n    }`;
        const isAsync = b.kind === 'async' || b.kind === 'spawn';
        const body = b.expr && !isAsync && !stm.includes('let taken') ? (b.kind === 'block' ? `identity(${block})` : `identity(${block})`) : b.kind === 'fn' && b.ret === 1 ? `-> i32 ${block}` : isAsync ? `async move {\n        ${stm}\n    }` : block;
        if (b.kind === 'fn' && b.ret === 1 && !body.startsWith('->')) return this.wrap(b, 'bind', plist + body);
        switch (b.kind) {
            case 'rc': return this.rc(b, ps, plist + body);
            case 'spawn': return this.spawn(b, body);
            case 'async': return `get_driver().spawn(${this.wrap(b, 'bind', body)})`;
            case 'block': return this.wrap(b, 'bind', body);
            default: return this.wrap(b, 'bind', plist + body);
        }
    }
    clones(b, f = (v) => v[2]) { return b.vars.map((v) => `let ${v[0]} = ${f(v)}.clone();`).join(' '); }
    list(b) { return b.vars.map((v) => v[2] + ', ').join(''); }
    wrap(b, name, body) { return this.mode === 'm' ? `${name}!(${this.list(b)}${body})` : `{ ${this.clones(b)} ${body.startsWith('|') ? 'move ' : ''}${body} }`; }
    rc(b, ps, body) { return this.mode === 'm' ? `bind_rc!(${this.list(b)}${body})` : `{ let f: Rc<dyn Fn(${ps.map((p) => p.ty).join(', ')}) -> _> = Rc::new({ ${this.clones(b)} move ${body} }); f }`; }
    spawn(b, body) { return this.mode === 'm' ? `bind_spawn!(${this.list(b)}${body})` : `{ ${this.clones(b)} move || { get_driver().spawn({ ${this.clones(b, (v) => v[0])} ${body} }); } }`; }
    define(b, name) {
        const e = this.made(b);
        if (b.kind === 'async') return `${e};\n`;
        if (b.kind === 'block') return `let ${name} = ${e}; ${say(`b${this.id++}`, ':{:?}', name)}\n`;
        if (b.kind === 'poke') return `poke(${e});\n`;
        if (b.kind === 'arg') return `${say(`a${this.id++}`, ':{}', `each(${e})`)}\n`;
        return `let ${name} = ${e};\n`;
    }
    args(b) { return b.params.map((p) => this.param(p).arg).join(', '); }
    calls(b, name, n) {
        if (['async', 'block', 'poke', 'arg'].includes(b.kind)) return '';
        let out = '';
        if (b.kind === 'once') return n ? `${name}();\n` : '';
        for (let i = 0; i < n; i++) out += b.kind === 'spawn' ? `${name}(); ` : `${say(`c${this.id++}`, ':{:?}', `${b.kind === 'rc' && i === 1 ? `Rc::clone(&${name})` : name}(${this.args(b)})`)} `;
        return out + '\n';
    }
    window(st) {
        const [, win, name, form, args, tr] = st;
        const text = WNAMES[name];
        const as = text.endsWith('()') ? args.map((a) => WARGS[a][0]) : [];
        const l = form === 1 && !/"#|\n/.test(text) ? `r#"${text}"#` : form === 2 ? '"' + [...text].map((ch) => (/[a-zA-Z0-9()]/.test(ch) ? ch : `\\u{${ch.codePointAt(0).toString(16)}}`)).join('') + '"' : lit(text);
        const root = win ? 'window' : 'document';
        const e = this.mode === 'm' ? `${root}!(${[l, ...as].join(', ')}${tr ? ',' : ''})` : `get_driver().dom_access().root("${root}").${text.endsWith('()') ? `call(${lit(text.slice(0, -2))}, vec![${as.map((a) => `JsValue::from(${a})`).join(', ')}])` : `get(${lit(text)})`}.fetch()`;
        return say(`w${this.id++}`, ':{:?}', e);
    }
    scenario(c) {
        const out = [];
        const made = [];
        for (const st of c.steps) {
            switch (st[0]) {
                case 'bind': {
                    const name = `k${made.length}`;
                    out.push(this.define(st[1], name) + this.calls(st[1], name, st[2]));
                    if (['fn', 'rc', 'spawn'].includes(st[1].kind)) made.push([st[1], name]);
                    break;
                }
                case 'call': if (made.length) { const [b, name] = made[st[1] % made.length]; out.push(this.calls(b, name, 1)); } break;
                case 'mutate': { const [, t, p] = st[1]; out.push(sharedMut(t, p, st[2]) ?? ownedMut(t, p, st[2])); break; }
                default: out.push(this.window(st));
            }
        }
        // the original variables are still there
        const P = c.method ? 'self' : 'st';
        for (const [n, t, o] of VARS) out.push(say(`o${this.id++}`, ':{:?}', rd(t, o ? `${P}.${n}` : n)));
        return out.join('\n    ');
    }
}
const LOCALS = `let mut n = 4; let mut text = "text".to_string(); let mut list = vec![1, 2]; let cell = Rc::new(Cell::new(5)); let shared = Rc::new(RefCell::new(vec![6]));
    let val = Value::new(7); let wal = Value::new("w".to_string()); let mut r#type = "raw".to_string(); let mut pair = (1, "p".to_string()); let mut _u = 8;`;
const component = (c, i) => {
    const used = new Set(c.fields.map(([, t]) => CTYPES[t][0]));
    const gen = ['T', 'U'].filter((g) => used.has(g));
    const bounds = (g) => `${g}: std::fmt::Debug${g === 'U' ? ' + Clone' : ''}`;
    const fn = `${c.doc ? '/// a component\n#[allow(dead_code)]\n' : ''}#[component]\n${c.vis ? 'pub ' : ''}fn Cmp${i}${gen.length ? `<${gen.map(c.where ? (g) => g : bounds).join(', ')}>` : ''}(${c.fields.map(([n, t]) => `${n}: ${CTYPES[t][0]}`).join(', ')})${gen.length && c.where ? ` where ${gen.map(bounds).join(', ')}` : ''} {\n    ${c.fields.map(([n, t]) => `log(format!("c${i}.${n}:{:?}", ${(CTYPES[t][3] ?? '{}').replace('{}', n)}));`).join('\n    ')}\n    ${['dom! { <i>"in"</i> }', 'DomElement::new("i")', 'DomElement::new("i").child(vertigo::DomText::new("in"))'][c.use]}\n}\n`;
    return fn;
};
const useOf = (c, i) => {
    const lets = [], attrs = [];
    for (const k of c.order) {
        const [n, t] = c.fields[k];
        const how = c.short[k];
        const v = how === 3 ? `w${k}` : n;
        if (how > 0 && how < 4) lets.push(`let ${v} = ${CTYPES[t][1]};`);
        attrs.push((c.use === 2 ? [`${n}: ${CTYPES[t][1]}`, n, `${n}: ${n}.clone()`, `${n}: (&${v}).clone()`, `${n}: Default::default()`, `${n}: Default::default()`] : [`${n}={${CTYPES[t][1]}}`, `{${n}}`, `{&${n}}`, `${n}={&${v}}`, `${n}={}`, `${n}={Default::default()}`])[how]);
    }
    return `{ ${lets.join(' ')} ${c.use === 2 ? `Cmp${i} { ${attrs.join(', ')} }.mount()` : `dom! { <p><Cmp${i} ${attrs.join(' ')} /></p> }`} }`;
};
export const source = (c) => {
    const side = (mode) => `const T: &str = "${mode}"; ${LOCALS}\n    ${c.method ? '' : 'let mut st = St::new();\n    '}${new Writer(mode).scenario(c)}`;
    return `use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vertigo::{bind, bind_rc, bind_spawn, component, document, dom, get_driver, transaction, window, Computed, DomElement, DomNode, JsValue, Value};
use crate::rt::{log, poke};
#[derive(Clone)] struct D { e: i32, z: Value<String> }
#[derive(Clone)] struct G { h: String, k: Rc<Cell<i32>>, d: D }
#[derive(Clone, Debug)] struct P2 { a: i32, b: i32 }
struct St { f: String, m: Rc<Cell<i32>>, g: G, v: Value<i32>, q: Vec<i32>, text: String, val: Value<i32> }
fn identity<T>(x: T) -> T { x }
fn double(x: i32) -> i32 { x * 2 }
fn each(f: impl Fn(i32, &str) -> i32) -> i32 { f(1, "a") + f(20, "bb") }
impl St {
    fn new() -> St { St { f: "f".to_string(), m: Rc::new(Cell::new(1)), g: G { h: "h".to_string(), k: Rc::new(Cell::new(2)), d: D { e: 3, z: Value::new("z".to_string()) } }, v: Value::new(4), q: vec![5], text: "st".to_string(), val: Value::new(6) } }
${c.method ? `    fn m(&mut self) {\n    ${side('m')}\n    }\n    fn t(&mut self) {\n    ${side('t')}\n    }\n` : ''}}
${c.method ? '' : `fn m() {\n    ${side('m')}\n}\nfn t() {\n    ${side('t')}\n}\n`}${c.comps.map(component).join('')}pub fn p() -> DomNode {
    ${c.method ? 'St::new().m();\n    St::new().t();' : 'm();\n    t();'}
    let root = DomElement::new("div");
${c.comps.map((x, i) => `    root.add_child(${useOf(x, i)});\n`).join('')}    root.into()
}
`;
};
const setup = (b) => {
    for (const [o, tag] of [[b.window, 'window'], [b.document, 'document']]) {
        const echo = (name) => function (...a) { return [tag, name, this === o, a]; };
        for (const n of ['vpEcho', 'vp "f"', 'vp\\n', '"']) o[n] = echo(n);
        o['""'] = echo('""');
        o.vpN = tag.length; o.vpS = `s ${tag}`; o['vp q'] = 'sp'; o['vp"q'] = 'quote'; o['vp\\b'] = 'back'; o['żółw'] = 'turtle'; o.vpNull = () => null; o['vp(x)'] = 'par'; o.vpObj = { a: [1, tag] }; o["'q'"] = 'single'; o['vp\n'] = 'nl';
        o['"'] = 'one quote';
    }
};
const run = async (c, env) => {
    const b = await openProgram(prop, c, env, { setup });
    const per = c.steps.filter((st) => st[0] === 'bind' && st[1].kind === 'poke').length;
    for (const [k, x] of c.after) {
        if (k === 'adv') { await b.advance(x); b.check(); } else { await b.poke(x); await b.poke(x + per); }
    }
    await b.advance(1000);
    b.check();
    const log = b.log();
    const at = (t) => log.filter((l) => l.startsWith(t + '|')).map((l) => l.slice(2));
    const m = at('m'), t = at('t');
    for (let i = 0; i < Math.max(m.length, t.length); i++) if (m[i] !== t[i]) fail(`line ${i} of the log is ${J(m[i])} instead of ${J(t[i])}:\n${J(m)}\n${J(t)}\n${b.source}`, 'differs');
    const got = log.filter((l) => l.startsWith('c'));
    const want = c.comps.flatMap((x, i) => x.fields.map(([n, ty], k) => `c${i}.${n}:${x.short[k] > 3 ? DEFAULTS[CTYPES[ty][0]] : CTYPES[ty][2]}`));
    if (J(got) !== J(want)) fail(`the components got ${J(got)} instead of ${J(want)}\n${b.source}`, 'component');
    const kids = [...b.document.body.childNodes[0].childNodes];
    const elements = kids.map((k) => (k.localName === 'p' ? [...k.childNodes].map((x) => x.localName).join() : k.localName));
    if (J(elements) !== J(c.comps.map(() => 'i'))) fail(`the components show ${J(elements)}\n${b.source}`, 'component');
    noErrors(b, 'the program');
    b.close();
    const binds = c.steps.filter((st) => st[0] === 'bind').map((st) => st[1]);
    const classes = new Set(binds.map((x) => x.kind));
    for (const x of binds) for (const y of x.body) if (y[0] === 'nest') classes.add('nested ' + y[1].kind);
    if (c.method) classes.add('method');
    if (c.comps.length) classes.add('component');
    if (c.steps.some((st) => st[0] === 'win')) classes.add('access');
    return { nontrivial: (binds.some((x) => x.vars.length) && c.steps.some((st) => st[0] === 'mutate')) || want.length > 1, classes: [...classes], evaluations: t.length + want.length };
};
export const prop = {
    id: 'P31', quick: 1200, thorough: 30000, batch: 25, shrinkTries: 60, shrinkMs: 150000,
    rule: 'Random programs carried out twice, with the macros and with the code written out by hand: closures, shared closures, blocks, asynchronous bodies and closures starting them, over variables and field paths of ten types, with parameters of twenty shapes, nested in each other, called repeatedly, while the originals change; components with fields of seventeen types in any order; and reads and calls on the window and the document. Both must write the same log, every original must still be usable, and every component must get its fields. Non-trivial = a closure with captured variables and a later change of an original, or a component with two fields.',
    assumptions: ['no "||" and no commas outside brackets in bodies', 'parameter types of bind_rc without "::" and without commas outside brackets', 'names of one list differ'],
    source,
    prepare: (o) => prepareAll(prop, o),
    generate: (s) => new Gen(s).program(),
    run,
};
export default prop;
