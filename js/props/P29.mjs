// Markup macros: generated programs, compiled, shown in the simulated browser and compared with the tree they were written from.
import { fail } from '../engine.mjs';
import { Comment_, DragEvent_, Event_, KeyboardEvent_, Text_ } from '../minidom.mjs';
import { lit, openProgram, prepareAll } from '../macros.mjs';
import { ENTITIES } from '../entities.mjs';
import { attrsNow, sheet } from './page.mjs';
import { noErrors, J } from './hostprop.mjs';

const TAGS = ['div', 'span', 'p', 'b', 'ul', 'li', 'section', 'h1', 'my-el', 'button', 'label', 'main', 'em', 'x-a-b', 'table', 'custom2'];
const VOID = ['br', 'hr', 'img', 'input', 'div', 'span'];
const ATTRS = ['title', 'data-x', 'aria-label', 'xlink:href', 'type', 'for', 'lang', 'my_attr', 'data-a-b', 'alt', 'role', 'loop', 'async', 'width', 'n1', 'class'];
const SHORT = ['title', 'lang', 'alt', 'role', 'width', 'my_attr', 'placeholder', 'n1', 'dir', 'class'];
const TEXTS = ['a', 'hello world', 'x y', '<b>', '&amp;', '"q"', "it's", 'żółw', '{x}', '{}', '}}', 'back\\slash', 'a\nb', 'tab\t', '..', ' lead', 'trail ', '😀', '/>', '</div>', '#', '\u00a0', '0', '//', '/* c */', '{{', '%s'];
const EVENTS = ['on_click', 'on_mouse_down', 'on_mouse_up', 'on_mouse_enter', 'on_mouse_leave', 'on_input', 'on_change', 'on_blur', 'on_key_down', 'on_dropfile', 'on_load', 'hook_key_down'];
const DOMEVENT = { on_click: 'click', on_mouse_down: 'mousedown', on_mouse_up: 'mouseup', on_mouse_enter: 'mouseenter', on_mouse_leave: 'mouseleave', on_input: 'input', on_change: 'change', on_blur: 'blur', on_key_down: 'keydown', on_dropfile: 'drop', on_load: 'load', hook_key_down: 'keydown' };
const PTYPES = ['String', 'i32', 'VS', 'CS', 'VI', 'bool', 'Node', 'Cb', 'OptS', 'Vec', 'Css', 'COS', 'T', 'str', 'VOS'];
const RUST = { String: 'String', i32: 'i32', VS: 'Value<String>', CS: 'Computed<String>', VI: 'Value<i32>', bool: 'bool', Node: 'DomNode', Cb: 'Rc<dyn Fn()>', OptS: 'Option<String>', Vec: 'Vec<i32>', Css: 'Css', COS: 'Computed<Option<String>>', T: 'T', str: "&'a str", VOS: 'Value<Option<String>>' };

// generation ------------------------------------------------------------------------------------------------------
class Gen {
    constructor(s) { this.s = s; this.n = 0; this.tag = 0; this.lets = []; this.shorts = new Set(); this.hook = false; this.comps = []; this.size = 0; this.says = []; }
    text() { return this.s.pick(TEXTS); }
    /** something with a text, not reactive */
    plain(ctx) {
        const s = this.s;
        if (ctx?.top && !ctx.loop && s.bool(0.12)) { this.says.push(this.tag); return ['say', this.tag++, this.text(), s.draw(3)]; }
        return s.weighted([[3, () => ['str', this.text()]], [1, () => ['num', s.int(-20, 300)]], [0.5, () => ['flt', s.int(-9, 9) + 0.5]], [0.5, () => ['bool', s.draw(2)]], [1, () => ['fmt', this.text(), s.int(0, 9)]], [0.5, () => ['if', s.draw(2), this.text(), this.text()]], [0.5, () => ['blk', s.int(0, 9)]], [0.5, () => ['chr', s.pick(['x', "'", '"', '\\', 'ż', '{'])]], [0.4, () => ['match', s.draw(3)]], [0.4, () => ['refstr', this.text()]], [0.3, () => ['const', s.draw(2)]]])();
    }
    /** an argument-less reactive text */
    source(ctx) {
        const s = this.s;
        return s.pick([['src', 's0', s.draw(4)], ['src', 's1', s.draw(4)], ['src', 'i0', s.draw(4)]]);
    }
    child(ctx, depth) {
        const s = this.s;
        this.size++;
        if (this.size > 45) depth = 0;
        const kinds = [[4, 'text'], [2, 'plain'], [0.7, 'ent']];
        if (ctx.sources) kinds.push([2, 'src']);
        if (ctx.params?.length) kinds.push([4, 'par']);
        if (ctx.item) kinds.push([3, 'item']);
        if (depth > 0) {
            kinds.push([6, 'el'], [1, 'node'], [1, 'elem'], [1.2, 'spread'], [0.5, 'tn'], [0.4, 'fn']);
            if (ctx.sources) kinds.push([0.5, 'rv'], [0.5, 'ro'], [0.5, 'rl']);
            if (this.usable(ctx).length) kinds.push([3, 'comp']);
        }
        switch (s.weighted(kinds)) {
            case 'text': return s.weighted([[4, () => ['t', this.text()]], [1, () => ['raw', this.text().replace(/["#]/g, '')]], [0.5, () => ['tc', s.pick(['x', 'ż', '"'])]]])();
            case 'plain': return ['x', this.plain(ctx)];
            case 'ent': return ['x', ['ent', s.pick(Object.keys(ENTITIES))]];
            case 'src': return ['x', this.source(ctx)];
            case 'item': return ['x', ['item', s.draw(3)]];
            case 'par': { const p = this.par(ctx, (t) => !['Css', 'Cb', 'COS', 'VOS'].includes(t)); return p ?? ['t', this.text()]; }
            case 'el': return this.element(ctx, depth - 1);
            case 'node': return ['dom', s.list(1, 3, () => this.root(ctx, depth - 1), 1.4)];
            case 'elem': return ['de', this.element(ctx, depth - 1)];
            case 'tn': return ['tn', this.text()];
            case 'fn': return ['fn', s.draw(2)];
            case 'rv': return ['rv', s.pick(['s0', 's1', 'i0']), this.element({ ...this.closed(ctx), item: true }, Math.min(depth - 1, 1))];
            case 'ro': return ['ro', this.element({ ...this.closed(ctx), item: true }, Math.min(depth - 1, 1))];
            case 'rl': return ['rl', this.element({ ...this.closed(ctx), item: true }, Math.min(depth - 1, 1))];
            case 'spread': return this.spread(ctx, depth - 1);
            default: return this.component(ctx, depth - 1);
        }
    }
    /** inside a closure that may be called again: nothing of the surroundings may be used up */
    closed(ctx) { return { params: [], sources: false, item: ctx.item, comps: 0, loop: true }; }
    par(ctx, ok, form) {
        const s = this.s;
        const l = ctx.params.filter((p) => ok(p.type) && !(p.used && (p.moved || p.type === 'Node')));
        if (!l.length) return null;
        const p = s.pick(l);
        const move = p.type === 'Node' || (!p.used && s.bool(0.4));
        p.used = true;
        if (move) p.moved = true;
        return ['x', ['par', p.name, p.type, move ? 2 : s.draw(2)]];
    }
    spread(ctx, depth) {
        const s = this.s;
        return s.weighted([
            [3, () => ['sp', 'map', s.draw(4), this.element({ ...this.closed(ctx), item: true }, Math.min(depth, 1)), s.draw(3)]],
            [2, () => ['sp', 'vec', s.list(0, 3, () => this.element(ctx, Math.min(depth, 1)), 1.5)]],
            [1, () => ['sp', 'strs', s.list(0, 3, () => this.text(), 1.5)]],
            [1, () => ['sp', 'opt', s.bool(0.6) ? this.element(ctx, Math.min(depth, 1)) : null]],
            [1, () => ['sp', 'nums', s.int(0, 4)]],
            ...(ctx.sources ? [[1, () => ['sp', 'vals', s.list(1, 3, () => s.pick(['s0', 's1']), 1.5)]]] : []),
        ])();
    }
    root(ctx, depth) { return this.usable(ctx).length && this.s.bool(0.2) ? this.component(ctx, depth) : this.element(ctx, depth); }
    usable(ctx) { return this.comps.slice(0, ctx.comps ?? this.comps.length); }
    element(ctx, depth) {
        const s = this.s;
        const self = depth < 0 || s.bool(0.15);
        const attrs = [];
        const names = new Set();
        for (const a of s.list(0, 5, () => this.attr(ctx, names), 1.2)) if (a) attrs.push(a);
        const kids = self ? [] : s.list(0, depth > 0 ? 6 : 2, () => this.child(ctx, depth), depth > 0 ? 3 : 1.2);
        const typed = attrs.some((a) => a[1] === 'on_input' || a[1] === 'on_change') && s.bool(0.8);
        return ['el', typed ? 'input' : s.pick(self ? VOID : TAGS), attrs, kids, self];
    }
    attr(ctx, names) {
        const s = this.s;
        const kinds = [[3, 'lit'], [2, 'x'], [0.7, 'bare'], [1, 'css']];
        if (ctx.sources) kinds.push([2, 'src'], [1.5, 'opt'], [1, 'cssc']);
        if (!ctx.loop) kinds.push([2.5, 'on'], [1.5, 'short']);
        if (ctx.params?.length) kinds.push([3, 'par']);
        if (ctx.item) kinds.push([2, 'item']);
        const kind = s.weighted(kinds);
        const take = (list) => { const l = list.filter((n) => !names.has(n)); if (!l.length) return null; const n = s.pick(l); names.add(n); return n; };
        if (kind === 'css' || kind === 'cssc') { if (!take(['css'])) return null; return kind === 'css' ? ['css', 'st', s.draw(4)] : ['css', 'dyn', s.draw(4), s.draw(4)]; }
        if (kind === 'on') {
            const ev = take(EVENTS);
            if (!ev || (ev === 'hook_key_down' && (this.hook || this.keys)) || (ev === 'on_key_down' && this.hook)) return null;
            if (ev === 'hook_key_down') this.hook = true;
            if (ev === 'on_key_down') this.keys = true;
            const short = !this.shorts.has(ev) && ctx.top && s.bool(0.2);
            const a = ['on', ev, this.tag++, s.draw(2), s.draw(3), short];
            if (short) { this.shorts.add(ev); this.lets.push(['on', a]); }
            return a;
        }
        if (kind === 'short') {
            if (!ctx.top) return null;
            const n = take(SHORT.filter((x) => !this.shorts.has(x)));
            if (!n) return null;
            this.shorts.add(n);
            const v = s.weighted([[2, () => this.plain(ctx)], [1, () => ['src', s.pick(['s0', 's1']), s.draw(4)]], [1, () => ['opt', s.draw(4)]]])();
            this.lets.push(['let', n, v]);
            return ['short', n, v];
        }
        if (kind === 'par') {
            const p = this.par(ctx, (t) => !['Node', 'Vec', 'VI', 'OptS'].includes(t));
            if (!p) return null;
            const t = p[1][2];
            if (t === 'Css') { if (!take(['css'])) return null; return ['css', 'par', p[1]]; }
            if (t === 'Cb') { if (!take(['on_click'])) return null; return ['onp', 'on_click', p[1]]; }
            const n = take(ATTRS);
            return n ? ['a', n, p[1]] : null;
        }
        const n = take(ATTRS);
        if (!n) return null;
        if (kind === 'lit') return ['lit', n, this.text()];
        if (kind === 'bare') return ['bare', n, s.pick([5, 'true', -3, '2.5', "'c'"])];
        if (kind === 'x') return ['a', n, this.plain(ctx)];
        if (kind === 'src') { const src = s.pick(['s0', 's1']); return ['a', n, ['src', src, s.draw(4)]]; }
        if (kind === 'item') return ['a', n, ['item', s.draw(3)]];
        return ['a', n, ['opt', s.draw(4)]];
    }
    component(ctx, depth) {
        const s = this.s;
        const comps = this.usable(ctx);
        const k = s.draw(comps.length);
        const args = s.shuffle(comps[k].params.map((p) => this.arg(p, ctx, depth)));
        return ['cm', k, args];
    }
    /** [parameter, type, form, value] */
    arg(p, ctx, depth) {
        const s = this.s;
        const src = !!ctx.sources;
        // a local variable of the parameter's name, for arguments without a name
        const short = (a) => {
            if (!ctx.top || this.shorts.has(p.name) || a[2] === 'node' || !s.bool(0.3)) return a;
            this.shorts.add(p.name);
            const ref = p.type === 'T' || (s.bool(0.4) && a[2] !== 'str' && !(p.type === 'CS' && a[4] === 2));
            this.lets.push(['arg', p.name, a]);
            return [...a, ref ? 'r' : 's'];
        };
        const def = s.bool(0.1) && ['String', 'i32', 'bool', 'OptS', 'Vec', 'VS', 'VI'].includes(p.type);
        if (def) return [p.name, p.type, 'def', s.draw(2)];
        switch (p.type) {
            case 'String': return s.weighted([[2, () => [p.name, p.type, 'lit', this.text()]], [2, () => short([p.name, p.type, 'str', this.text()])], [1, () => short([p.name, p.type, 'owned', this.text()])], [1, () => [p.name, p.type, 'fmt', this.text()]]])();
            case 'i32': return short([p.name, p.type, 'num', s.int(-9, 99)]);
            case 'bool': return [p.name, p.type, 'bool', s.draw(2)];
            case 'VS': return src ? short([p.name, p.type, 'src', s.pick(['s0', 's1']), s.draw(2)]) : [p.name, p.type, 'new', this.text()];
            case 'CS': return src ? short([p.name, p.type, 'src', s.pick(['s0', 's1']), s.draw(4)]) : [p.name, p.type, 'const', this.text()];
            case 'VI': return src ? short([p.name, p.type, 'src', 'i0', s.draw(2)]) : [p.name, p.type, 'newi', s.int(0, 9)];
            case 'COS': return src ? [p.name, p.type, 'opt', s.draw(3)] : [p.name, p.type, 'optc', s.bool() ? this.text() : null];
            case 'VOS': return src ? short([p.name, p.type, 'opt', s.draw(2)]) : [p.name, p.type, 'optn', s.bool() ? this.text() : null];
            case 'Node': return [p.name, p.type, 'node', s.weighted([[3, () => ['dom', s.list(1, 2, () => this.root({ ...ctx, top: false }, Math.min(depth, 1)), 1.3)]], [1, () => ['de', this.element({ ...ctx, top: false }, Math.min(depth, 1))]], [1, () => ['nt', this.text()]]])()];
            case 'Cb': return [p.name, p.type, 'cb', this.tag++, s.draw(2)];
            case 'OptS': return s.pick([[p.name, p.type, 'some', this.text()], [p.name, p.type, 'none'], [p.name, p.type, 'owned', this.text()]]);
            case 'Vec': return [p.name, p.type, 'vec', s.list(0, 3, () => s.int(0, 99), 1.5)];
            case 'Css': return [p.name, p.type, 'css', s.draw(4)];
            case 'T': return s.pick([[p.name, p.type, 'refstr', this.text()], [p.name, p.type, 'refnum', s.int(0, 99)]]);
            default: return [p.name, p.type, 'str', this.text()];
        }
    }
    comp() {
        const s = this.s;
        const names = s.shuffle(['name', 'value', 'id', 'p1', 'x', 'on_done', 'b_2', 'label', 'items', 'type_', 'style']);
        const params = s.list(0, 5, () => ({ name: names.pop(), type: s.pick(PTYPES) }), 2);
        if (params.filter((p) => p.type === 'T').length > 1) { let k = 0; for (const p of params) if (p.type === 'T' && k++) p.type = 'String'; }
        const ctx = { params: params.map((p) => ({ ...p })), sources: false, comps: this.comps.length };
        const c = { params, ns: s.draw(3), vis: s.draw(2), ret: s.draw(3), hook: 0 };
        // hooks and unnamed handlers only in the program itself: a component may be shown several times
        c.body = s.list(1, c.ret === 1 ? 1 : 3, () => this.element({ ...ctx, loop: true }, 2), 1.3);
        return c;
    }
    program() {
        const s = this.s;
        for (let n = s.draw(4); n > 0; n--) this.comps.push(this.comp());
        const init = { s0: this.text(), s1: this.text(), i0: s.int(0, 9), o0: s.bool() ? this.text() : null, l0: s.list(0, 4, (i) => i * 3 + s.draw(3), 2) };
        const mode = s.weighted([[4, 'dom'], [1, 'element']]);
        const ctx = { sources: true, top: true };
        const roots = s.list(1, mode === 'dom' ? 3 : 1, () => (mode === 'dom' ? this.root(ctx, 3) : this.element(ctx, 3)), 1.4);
        const pokes = s.list(0, 4, () => s.weighted([[2, () => ['s0', this.text()]], [2, () => ['s1', this.text()]], [2, () => ['i0', s.int(0, 9)]], [1, () => ['o0', s.bool() ? this.text() : null]], [1, () => ['l0', s.list(0, 4, (i) => i * 3 + s.draw(3), 2)]]])(), 2);
        return { mode, comps: this.comps, lets: this.lets, roots, init, pokes, says: this.says };
    }
}

// Rust ------------------------------------------------------------------------------------------------------------
const CSS = ['color: ca', 'color: cb', 'color: cc; width: 3px', 'height: 4px'];
const css = (k) => `css!(${lit(CSS[k] + ';')})`;
const optLit = (x) => (x === null ? 'None::<String>' : `Some(${lit(x)}.to_string())`);
const ref = (n, form) => [`${n}.clone()`, `&${n}`, `${n}.to_computed()`, `${n}.map(|x| format!("<{}>", x))`][form];
/** inside the braces */
const rx = (x) => {
    switch (x[0]) {
        case 'str': return lit(x[1]);
        case 'num': return x[1] < 0 ? `${x[1]}` : `${x[1]}`;
        case 'flt': return `${x[1]}`;
        case 'bool': return x[1] ? 'true' : 'false';
        case 'chr': return x[1] === "'" ? "'\\''" : x[1] === '\\' ? "'\\\\'" : `'${x[1]}'`;
        case 'fmt': return `format!("{}-{}", ${lit(x[1])}, ${x[2]})`;
        case 'if': return `if ${x[1]} == 1 { ${lit(x[2])} } else { ${lit(x[3])} }`;
        case 'say': return [`log("${x[1]}:say"); ${lit(x[2])}`, `let a = ${lit(x[2])}; log("${x[1]}:say"); a`, `log("${x[1]}:say"); ${lit(x[2])}.to_string()`][x[3]];
        case 'blk': return `let a = ${x[1]}; a + 1`;
        case 'match': return `match ${x[1]} { 0 => "zero", 1 => "one", _ => "many" }`;
        case 'refstr': return `&${lit(x[1])}.to_string()`;
        case 'const': return ['LIMIT', 'names::LABEL'][x[1]];
        case 'ent': return `vertigo::html_entities::${x[1]}`;
        case 'src': return ref(x[1], x[2]);
        case 'opt': return ['o0.clone()', '&o0', 'o0.to_computed()', '&o0.to_computed()'][x[1]];
        case 'item': return ['i.clone()', '&i', 'i.to_string()'][x[1]];
        case 'par': return par(x);
        default: throw Error(`harness: ${J(x)}`);
    }
};
const par = ([, n, t, form]) => {
    if (t === 'bool') return `${n}.to_string()`;
    if (t === 'OptS') return form === 2 ? `${n}.unwrap_or_default()` : `${n}.clone().unwrap_or_default()`;
    if (t === 'Vec') return form === 2 ? `..${n}` : `..${n}.clone()`;
    if (t === 'CS' && form === 1) return `${n}.clone()`; // as an attribute, &Computed<String> is not one of the kinds
    if ((t === 'Css' || t === 'Cb') && form === 1) return `${n}.clone()`;
    return [`${n}.clone()`, `&${n}`, n][form];
};
const rNode = (n, p) => {
    switch (n[0]) {
        case 't': return lit(n[1]);
        case 'raw': return `r#"${n[1]}"#`;
        case 'tc': return `'${n[1]}'`;
        case 'x': return `{${rx(n[1])}}`;
        case 'dom': return `{dom! { ${n[1].map((k) => rNode(k, p)).join(' ')} }}`;
        case 'de': return `{dom_element! { ${rNode(n[1], p)} }}`;
        case 'tn': return `{vertigo::DomText::new(${lit(n[1])})}`;
        case 'fn': return `{h${n[1]}()}`;
        case 'rv': return `{${n[1]}.render_value(|i| dom! { ${rNode(n[2], p)} })}`;
        case 'ro': return `{o0.render_value_option(|i| i.map(|i| dom! { ${rNode(n[1], p)} }))}`;
        case 'rl': return `{l0.render_list(|i| *i, |i| dom! { ${rNode(n[1], p)} })}`;
        case 'sp': return `{..${rSpread(n, p)}}`;
        case 'cm': return rComp(n, p);
        default: return rElement(n, p);
    }
};
const rSpread = (n, p) => {
    const [, kind, a, b, c] = n;
    if (kind === 'map') return [`(0..${a}).map(|i| dom! { ${rNode(b, p)} })`, `(0..${a}).map(|i| dom_element! { ${rNode(b, p)} }).collect::<Vec<_>>()`, `vec![${[...Array(a).keys()].join(', ')}].iter().map(|i: &i32| dom! { ${rNode(b, p)} })`][c];
    if (kind === 'vec') return a.length ? `vec![${a.map((k) => `dom! { ${rNode(k, p)} }`).join(', ')}]` : 'Vec::<DomNode>::new()';
    if (kind === 'strs') return a.length ? `[${a.map(lit).join(', ')}]` : 'Vec::<String>::new()';
    if (kind === 'opt') return a ? `Some(dom! { ${rNode(a, p)} })` : 'None::<DomNode>';
    if (kind === 'nums') return `(0..${a})`;
    return `vec![${a.map((v) => `${v}.clone()`).join(', ')}]`;
};
const handler = ([, ev, tag, ret, form]) => {
    const arg = { on_input: ['v', 'String', 'v'], on_change: ['v', 'String', 'v'], on_key_down: ['e', 'KeyDownEvent', 'e.key'], hook_key_down: ['e', 'KeyDownEvent', 'e.key'], on_dropfile: ['e', 'DropFileEvent', 'e.items.iter().map(|x| x.name.clone()).collect::<Vec<_>>().join(",")'] }[ev];
    const back = ['on_mouse_down', 'on_mouse_up', 'on_key_down', 'hook_key_down'].includes(ev) ? (ret ? ' true' : ' false') : '';
    const body = `{ log(format!("${tag}:${ev}:{}", ${arg ? arg[2] : '""'}));${back} }`;
    const params = arg ? `|${arg[0]}: ${arg[1]}|` : '||';
    return form === 1 ? `{ let k = 1; bind!(k, ${params} { let _ = k; ${body} }) }` : form === 2 ? `bind_rc!(s0, ${params} { let _ = &s0; ${body} })` : `move ${params} ${body}`;
};
const rAttr = (a) => {
    switch (a[0]) {
        case 'lit': return `${a[1]}=${lit(a[2])}`;
        case 'bare': return `${a[1]}=${a[2]}`;
        case 'a': return `${a[1]}={${rx(a[2])}}`;
        case 'short': return `{${a[1]}}`;
        case 'css': return `css={${a[1] === 'st' ? css(a[2]) : a[1] === 'par' ? par(a[2]) : `i0.map(|x| if x % 2 == 0 { ${css(a[2])} } else { ${css(a[3])} })`}}`;
        case 'on': return a[5] ? `{${a[1]}}` : `${a[1]}={${handler(a[0] === 'on' && a[4] === 2 ? [...a.slice(0, 4), 0] : a)}}`;
        default: return `${a[1]}={${par(a[2])}}`;
    }
};
const rElement = ([, tag, attrs, kids, self], p) => `<${[tag, ...attrs.map(rAttr)].join(' ')}${self ? ' />' : `>\n${kids.map((k) => rNode(k, p)).join('\n')}\n</${tag}>`}`;
const path = (c, k) => ['', 'parts::', 'parts::inner::'][c.ns] + `Comp${k}`;
const argValue = ([name, type, form, v, w], p) => {
    switch (form) {
        case 'def': return v ? '' : 'Default::default()';
        case 'lit': case 'str': return lit(v);
        case 'owned': return `${lit(v)}.to_string()`;
        case 'fmt': return `format!("{}", ${lit(v)})`;
        case 'num': return `${v}`;
        case 'bool': return v ? 'true' : 'false';
        case 'src': return type === 'CS' ? [`${v}.to_computed()`, `&${v}.to_computed()`, `${v}.clone()`, `${v}.map(|x| format!("<{}>", x))`][w] : [`${v}.clone()`, `&${v}`][w];
        case 'new': return `Value::new(${lit(v)}.to_string())`;
        case 'newi': return `Value::new(${v})`;
        case 'const': return lit(v);
        case 'opt': return type === 'COS' ? ['o0.to_computed()', '&o0.to_computed()', 'o0.clone()'][v] : ['o0.clone()', '&o0'][v];
        case 'optc': return `Value::new(${optLit(v)}).to_computed()`;
        case 'optn': return `Value::new(${optLit(v)})`;
        case 'node': return v[0] === 'nt' ? `${lit(v[1])}` : rNode(v, p).slice(1, -1);
        case 'cb': return v !== undefined && w ? `bind_rc!(|| log("${v}:cb:"))` : `&(Rc::new(|| log("${v}:cb:")) as Rc<dyn Fn()>)`;
        case 'some': return `Some(${lit(v)}.to_string())`;
        case 'none': return 'None';
        case "vec": return `Vec::<i32>::from([${v.join(", ")}])`;
        case 'css': return css(v);
        case 'refstr': return `&${lit(v)}.to_string()`;
        case 'refnum': return `&${v}`;
        default: throw Error(`harness: ${form}`);
    }
};
const rComp = ([, k, args], p) => `<${[path(p.comps[k], k), ...args.map((a) => (a.at(-1) === 's' ? `{${a[0]}}` : a.at(-1) === 'r' ? `{&${a[0]}}` : a[2] === 'lit' ? `${a[0]}=${argValue(a, p)}` : `${a[0]}={${argValue(a, p)}}`))].join('\n')} />`;
const RT = { String: 'String', i32: 'i32', VS: 'Value<String>', CS: 'Computed<String>', VI: 'Value<i32>', VOS: 'Value<Option<String>>' };
const rCompDef = (c, k, p) => {
    const gen = [...(c.params.some((x) => x.type === 'str') ? ["'a"] : []), ...(c.params.some((x) => x.type === 'T') ? ["T: std::fmt::Display + Clone + 'static"] : [])];
    const body = c.body.map((n) => rNode(n, p)).join('\n');
    const code = c.ret === 0 || c.body.length > 1 ? `dom! { ${body} }` : c.ret === 1 ? `dom_element! { ${body} }` : `let out = dom! { ${body} };\n    out`;
    return `#[component]\n${c.ns || c.vis ? 'pub ' : ''}fn Comp${k}${gen.length ? `<${gen.join(', ')}>` : ''}(${c.params.map((x) => `${x.name}: ${RUST[x.type]}`).join(', ')}) {\n    ${code}\n}\n`;
};
const rLet = (l, p) => {
    if (l[0] === 'on') return `let ${l[1][1]} = ${handler(l[1])};`;
    if (l[0] === 'let') return `let ${l[1]} = ${l[2][0] === 'blk' || l[2][0] === 'say' ? `{ ${rx(l[2])} }` : rx(l[2])};`;
    const a = l[2];
    const v = argValue(a, p);
    return `let ${a[0]}: ${a[2] === 'str' ? '&str' : a[1] === 'CS' && a[2] === 'src' && a[4] === 2 ? 'Value<String>' : RT[a[1]]} = ${v.startsWith('&') ? `(${v}).clone()` : v};`;
};
export const source = (p) => {
    const defs = p.comps.map((c, k) => [c.ns, rCompDef(c, k, p)]);
    const at = (ns) => defs.filter((d) => d[0] === ns).map((d) => d[1]).join('\n');
    return `use std::rc::Rc;
use vertigo::{bind, bind_rc, component, css, dom, dom_element, Computed, Css, DomNode, DropFileEvent, KeyDownEvent, Value};
use crate::rt::{log, poke};
const LIMIT: i32 = 77;
mod names { pub const LABEL: &str = "label \\"x\\""; }
fn h0() -> DomNode { vertigo::DomElement::new("i").child(vertigo::DomText::new("h0")).into() }
fn h1() -> DomNode { vertigo::DomText::new("h1").into() }
${at(0)}
pub mod parts {
use super::*;
${at(1)}
pub mod inner {
use super::super::*;
${at(2)}
}
}
pub fn p() -> DomNode {
    let s0 = Value::new(${lit(p.init.s0)}.to_string());
    let s1 = Value::new(${lit(p.init.s1)}.to_string());
    let i0 = Value::new(${p.init.i0});
    let o0 = Value::new(${optLit(p.init.o0)});
    let l0 = Value::new(Vec::<i32>::from([${p.init.l0.join(", ")}]));
${p.pokes.map(([n, v]) => `    poke({ let v = ${n}.clone(); move || v.set(${n[0] === 's' ? `${lit(v)}.to_string()` : n === 'i0' ? v : n === 'o0' ? optLit(v) : `Vec::<i32>::from([${v.join(", ")}])`}) });\n`).join('')}${p.lets.map((l) => `    ${rLet(l, p)}\n`).join('')}    let root = ${p.mode === 'dom' ? 'dom!' : 'dom_element!'} {
${p.roots.map((n) => rNode(n, p)).join('\n')}
    };
    root.into()
}
`;
};

// what it means ---------------------------------------------------------------------------------------------------
const text = (x, ctx) => {
    const st = ctx.state;
    switch (x[0]) {
        case 'str': case 'refstr': return x[1];
        case 'chr': return x[1];
        case 'num': case 'flt': return String(x[1]);
        case 'bool': return x[1] ? 'true' : 'false';
        case 'fmt': return `${x[1]}-${x[2]}`;
        case 'if': return x[1] === 1 ? x[2] : x[3];
        case 'blk': return String(x[1] + 1);
        case 'say': return x[2];
        case 'match': return ['zero', 'one', 'many'][Math.min(x[1], 2)];
        case 'const': return ['77', 'label "x"'][x[1]];
        case 'ent': return ENTITIES[x[1]];
        case 'src': return x[2] === 3 ? `<${st[x[1]]}>` : String(st[x[1]]);
        case 'opt': return st.o0;
        case 'item': return String(ctx.item);
        default: return parText(ctx.params[x[1]]);
    }
};
const parText = ({ arg, ctx }) => {
    const [, type, form, v, w] = arg;
    const st = ctx.state;
    if (form === 'def') return { String: '', i32: '0', bool: 'false', OptS: '', VS: '', VI: '0' }[type];
    if (form === 'src') return type === 'CS' && w === 3 ? `<${st[v]}>` : String(st[v]);
    if (form === 'opt') return st.o0;
    if (form === 'bool') return v ? 'true' : 'false';
    if (form === 'none') return '';
    return v === null ? null : String(v);
};
const eNode = (n, ctx) => {
    const p = ctx.p;
    const many = (l, c = ctx) => l.flatMap((k) => eNode(k, c));
    switch (n[0]) {
        case 't': case 'raw': case 'tc': case 'tn': case 'nt': return [n[1]];
        case 'x': {
            if (n[1][0] === 'par') {
                const { arg, ctx: outer } = ctx.params[n[1][1]];
                if (arg[1] === 'Node') return eNode(arg[3], outer);
                if (arg[1] === 'Vec') return arg[2] === 'def' ? [] : arg[3].map(String);
            }
            return [text(n[1], ctx)];
        }
        case 'dom': return many(n[1]);
        case 'de': return eNode(n[1], ctx);
        case 'fn': return n[1] ? ['h1'] : [{ tag: 'i', attrs: {}, css: [], on: [], kids: ['h0'] }];
        case 'rv': return eNode(n[2], { ...ctx, item: ctx.state[n[1]] });
        case 'ro': return ctx.state.o0 === null ? [] : eNode(n[1], { ...ctx, item: ctx.state.o0 });
        case 'rl': return ctx.state.l0.flatMap((i) => eNode(n[1], { ...ctx, item: i }));
        case 'sp': {
            const [, kind, a, b] = n;
            if (kind === 'map') return [...Array(a).keys()].flatMap((i) => eNode(b, { ...ctx, item: i }));
            if (kind === 'vec') return many(a);
            if (kind === 'strs') return a;
            if (kind === 'opt') return a ? eNode(a, ctx) : [];
            if (kind === 'nums') return [...Array(a).keys()].map(String);
            return a.map((v) => ctx.state[v]);
        }
        case 'cm': {
            const params = {};
            for (const a of n[2]) params[a[0]] = { arg: a, ctx };
            return many(p.comps[n[1]].body, { p, state: ctx.state, params });
        }
        default: {
            const e = { tag: n[1], attrs: {}, css: [], on: [], kids: many(n[3]) };
            for (const a of n[2]) {
                if (a[0] === 'lit') e.attrs[a[1]] = a[2];
                else if (a[0] === 'bare') e.attrs[a[1]] = String(a[2]).replace(/'/g, '');
                else if (a[0] === 'a' || a[0] === 'short') { const t = text(a[2], ctx); if (t !== null) e.attrs[a[1]] = t; } else if (a[0] === 'css') e.css.push(a[1] === 'st' ? CSS[a[2]] : a[1] === 'par' ? CSS[ctx.params[a[2][1]].arg[3]] : CSS[ctx.state.i0 % 2 === 0 ? a[2] : a[3]]);
                else if (a[0] === 'on') e.on.push([a[1], a[2], a[3]]);
                else e.on.push(['on_click', ctx.params[a[2][1]].arg[3], 0, 'cb']);
            }
            return [e];
        }
    }
};
const merge = (kids) => { const out = []; for (const k of kids) { if (k === '') continue; if (typeof k === 'string' && typeof out.at(-1) === 'string') out[out.length - 1] += k; else out.push(k); } return out; };
const norm = (t) => t.split(';').map((x) => x.trim()).filter(Boolean).join('; ');
const show = (k) => (typeof k === 'string' ? J(k) : `<${k.tag ?? k.localName}>`);
const compare = (el, want, styles, at, pairs) => {
    if (el.localName !== want.tag) fail(`${at}: <${el.localName}> instead of <${want.tag}>`, 'tag');
    const have = attrsNow(el, styles);
    const cls = (have.class ?? '').split(/(?=\{)| (?![^{]*\})/).map((x) => x.trim()).filter(Boolean).map((x) => (x.startsWith('{') ? '{' + norm(x.slice(1, -1)) + '}' : x)).sort().join(' ');
    const wantCls = [...(want.attrs.class ?? '').split(/\s+/).filter(Boolean), ...want.css.map((c) => '{' + norm(c) + '}')].sort().join(' ');
    if (want.attrs.class === undefined || !/[^\w]/.test(want.attrs.class)) { if (cls !== wantCls) fail(`${at}: class ${J(cls)} instead of ${J(wantCls)}`, 'class'); } else if (!el.attributes.get('class').startsWith(want.attrs.class)) fail(`${at}: class ${J(el.attributes.get('class'))} instead of ${J(want.attrs.class)}`, 'class');
    for (const k of new Set([...Object.keys(have), ...Object.keys(want.attrs)])) if (k !== 'class' && have[k] !== want.attrs[k]) fail(`${at}: attribute ${k} is ${J(have[k])} instead of ${J(want.attrs[k])}`, 'attribute');
    const kids = [];
    for (const c of el.childNodes) { if (c instanceof Comment_) continue; kids.push(c instanceof Text_ ? c.data : c); }
    const a = merge(kids), b = merge(want.kids);
    if (a.length !== b.length || a.some((x, i) => (typeof x === 'string' || typeof b[i] === 'string') && x !== b[i])) fail(`${at}: the children are ${a.map(show).join(' ')} instead of ${b.map(show).join(' ')}`, 'children');
    pairs.push([el, want]);
    a.forEach((x, i) => { if (typeof x !== 'string') compare(x, b[i], styles, `${at} > ${i}<${b[i].tag}>`, pairs); });
};
const run = async (c, env) => {
    const b = await openProgram(prop, c, env);
    const state = { ...c.init };
    let pairs;
    const check = (what) => {
        const want = { tag: 'body', attrs: {}, css: [], on: [], kids: c.roots.flatMap((n) => eNode(n, { p: c, state, params: {} })) };
        pairs = [];
        const body = b.document.body;
        const scripts = body.childNodes.filter((n) => n.localName === 'script' && n.attributes.has('data-vertigo-run-wasm'));
        for (const s of scripts) s.remove();
        try { compare(body, want, sheet(b.document), 'body', pairs); } catch (e) { e.message = `${what}: ${e.message}\n${b.source}`; throw e; }
    };
    check('at first');
    let done = 0;
    const classes = new Set();
    for (let k = 0; k < c.pokes.length; k++) {
        const [n, v] = c.pokes[k];
        state[n] = v;
        await b.poke(k);
        check(`after setting ${n} to ${J(v)}`);
        done++;
    }
    const before = b.log();
    const said = (c.says ?? []).map((k) => `${k}:say`);
    if (J(before.slice().sort()) !== J(said.sort())) fail(`the embedded expressions wrote ${J(before)} instead of ${J(said)} (in any order), without an event\n${b.source}`, 'handlers');
    let seen = 0;
    for (const [el, want] of pairs.slice()) {
        for (const [ev, tag, ret, cb] of want.on) {
            const type = DOMEVENT[ev];
            const input = type === 'input' || type === 'change';
            if (input && el.localName !== 'input') continue;
            const init = { bubbles: false };
            const event = type === 'keydown' ? new KeyboardEvent_(type, { ...init, key: 'K', code: 'C' }) : type === 'drop' ? new DragEvent_(type, { ...init, dataTransfer: { items: ['f1', 'f2'].map((name) => ({ kind: 'file', getAsFile: () => ({ name, arrayBuffer: async () => new Uint8Array([1]).buffer }) })) } }) : new Event_(type, init);
            if (input) el.value = 'typed';
            const at = b.log().length;
            b.dispatch(ev === 'hook_key_down' ? b.document : el, event);
            await b.settle();
            b.check();
            const got = b.log().slice(at);
            const exp = cb ? [`${tag}:cb:`] : [`${tag}:${ev}:${input ? 'typed' : type === 'keydown' ? 'K' : type === 'drop' ? 'f1,f2' : ''}`];
            if (J(got) !== J(exp)) fail(`${type} at <${want.tag}>: the handlers wrote ${J(got)} instead of ${J(exp)}\n${b.source}`, 'handlers');
            if (['mousedown', 'mouseup', 'keydown'].includes(type) && event.defaultPrevented !== !!ret) fail(`${type} at <${want.tag}>: the default action is ${event.defaultPrevented ? '' : 'not '}suppressed\n${b.source}`, 'prevented');
            seen++;
            classes.add(ev);
        }
    }
    noErrors(b, 'the page');
    b.close();
    const has = (re) => re.test(b.source);
    for (const [name, re] of [['fragment', /dom! \{\n?<[^]*?\/>\n</], ['spread', /\{\.\./], ['component', /<(parts::(inner::)?)?Comp/], ['shorthand', /[ \n]\{\w+\}[ \n>/]/], ['entity', /html_entities::/]]) if (has(re)) classes.add(name);
    return { nontrivial: pairs.length >= 4, classes: [...classes], evaluations: 1 + done + seen };
};
export const prop = {
    id: 'P29', quick: 1600, thorough: 40000, shrinkTries: 60, shrinkMs: 150000, thoroughCapS: 3000,
    rule: 'Random programs whose markup mixes nested elements, all kinds of attributes (literal, bare, embedded, reactive, optional, shorthand, styles, handlers), texts, entities, embedded values, nodes, lists, spread iterators, fragments and components with parameters of fourteen types in any order, compiled with the macros and shown; then values change and every handler is fired. Non-trivial = at least three elements shown below body.',
    assumptions: ['attribute names do not repeat on an element'],
    corpus: [{ mode: 'dom', comps: [], lets: [], init: { s0: '', s1: '', i0: 0, o0: null, l0: [] }, pokes: [], roots: [['el', 'div', [], Object.keys(ENTITIES).map((e, i) => ['el', 'i', i % 2 ? [['a', 'title', ['ent', e]]] : [], [['x', ['ent', e]]], false]), false]] }],
    source,
    prepare: (o) => prepareAll(prop, o),
    generate: (s) => new Gen(s).program(),
    run,
};
export default prop;
