// Server-rendered pages, read the way a browser reads them, show the described document.
import { fail } from '../engine.mjs';
import { parseDocument, Malformed, VOID } from '../html.mjs';
import { page, startServer } from '../ssr.mjs';
import { Text_, Comment_, Element_, HTML_NS, SVG_NS } from '../minidom.mjs';
import { Gen, Data, Inst, attrsOf, attrsNow } from './page.mjs';
import { kinds } from './pageprop.mjs';
import { judge, sheetCase, sheetRoot } from './P15.mjs';

const ENV = [['vp-a', 'x"y<z>&amp; \'ę\' = 1'], ['VP_B', ''], ['vpc', 'a=b']];
const NASTY = ['</script><script>x()</script>', '</style><b>', '<!--', '-->', '<!--<script>', '&lt;', '&copy', '&#65;', '&notit;', '"><img src=x onerror=y>', "' onload='z", '</textarea>', '</title>', '<![CDATA[x]]>', ']]>', '</body>', '\n', '\nfirst line empty', '  two  spaces  ', '\t', '\u000b\u0001\u007f', '\u0085\u00ad\u200b\ufeff', '\ufffd\uffff', '\ud83d\ude00', '`', '=', '/', '</', '<', '&', '<?php', '{{x}}', '\r', 'a\r\nb', '\u2028', '<svg>', '</scrıpt>', '</SCRIPT\n>', '<\\/script>', '\\'];
const TEXT = ['title', 'textarea', 'script', 'style', 'option'];
const FLOW = ['div', 'span', 'p', 'ul', 'b', 'i', 'a', 'button', 'input', 'br', 'hr', 'img', 'textarea', 'pre', 'script', 'style', 'svg', 'h1', 'table', 'select', 'my-tag', 'em', 'label', 'form', 'wbr', 'BR', 'Div', 'template2', 'area', 'embed', 'source', 'track', 'param', 'link', 'meta'];
const BLOCKS = new Set(['div', 'p', 'ul', 'pre', 'h1', 'table', 'hr', 'form', 'Div']);
export class PageGen extends Gen {
    constructor(s, cfg) { super(s, cfg); this.path = []; }
    text() { return this.s.bool(0.4) ? (this.s.bool(0.3) ? 'x' : '') + this.s.pick(NASTY) + (this.s.bool(0.3) ? 'y' : '') : super.text(); }
    tags() {
        const p = this.path, top = p[p.length - 1];
        if (top === 'ul') return ['li', 'li', 'li', 'span'];
        if (top === 'table') return ['tbody', 'tbody', 'tbody', 'colgroup'];
        if (top === 'colgroup') return ['col'];
        if (top === 'tbody') return ['tr'];
        if (top === 'tr') return ['td', 'th'];
        if (top === 'select') return ['option'];
        if (top === 'svg' || top === 'path') return ['path', 'svg'];
        // an open cell starts afresh
        const from = Math.max(p.lastIndexOf('td'), p.lastIndexOf('th'));
        const near = p.slice(from + 1);
        return FLOW.filter((t) => !(BLOCKS.has(t) && (near.includes('p') || (near.includes('button') && t === 'form' && p.includes('form')))) && !(t === 'a' && near.includes('a')) && !(t === 'button' && near.includes('button')) && !(t === 'form' && p.includes('form')) && !(t === 'h1' && near.includes('h1')));
    }
    attrs(tag, env) { const a = super.attrs(tag, env); return tag === 'script' || tag === 'style' ? a.filter((x) => x[1] !== 'src') : a; }
    element(depth, env) {
        const tag = this.s.pick(this.tags());
        this.path.push(tag);
        const attrs = this.attrs(tag, env);
        const low = tag.toLowerCase();
        const kids = VOID.has(low) ? [] : TEXT.includes(low) ? this.s.list(0, 3, () => this.leaf(env), 1) : depth > 0 ? this.children(depth, env) : [];
        this.path.pop();
        return ['e', tag, attrs, kids, this.s.draw(3)];
    }
    leaf(env) {
        const s = this.s;
        const k = s.draw(4);
        if (k === 0) return ['tc', this.slot(), this.strings(false), s.draw(3)];
        if (k === 1) return ['tvs', s.draw(2), s.draw(3)];
        return env && s.bool(0.3) ? ['t', ['n:', s.draw(env)], s.draw(2)] : ['t', [this.text()], s.draw(2)];
    }
    extra(depth, env, leaf) {
        // no text directly in these
        if (['table', 'tbody', 'tr', 'select', 'ul', 'colgroup'].includes(this.path[this.path.length - 1])) {
            if (leaf && this.path[this.path.length - 1] !== 'ul') return this.element(0, env);
            if (this.s.bool(0.6) || leaf) return this.element(leaf ? 0 : depth, env);
            const k = this.s.draw(4);
            if (k === 0) { const id = this.id++; return ['rv', this.slot(), this.s.list(1, 3, () => this.node(depth - 1, env + 1), 2), id]; }
            if (k === 1) { const id = this.id++; return ['ro', this.slot(), this.s.list(1, 3, () => (this.s.bool(0.35) ? null : this.node(depth - 1, env + 1)), 2), id]; }
            if (k === 2) return ['fr', this.s.list(0, 4, () => this.node(depth - 1, env), 2)];
            return this.list(depth, env);
        }
        return null;
    }
    css() {
        const l = super.css();
        if (this.s.bool(0.25)) l.push(['dyn', `content: "${this.s.pick(['</style><b>', '<!--', '<', '&amp;', "it's", '</STYLE >', '漢', '>'])}"`]);
        return l;
    }
    root() {
        const r = super.root();
        const head = r[3][0];
        this.path = ['head'];
        for (let n = this.s.draw(3); n > 0; n--) head[3].push(this.s.pick([() => ['e', 'title', [], [this.leaf(0)], 0], () => ['e', 'script', [['s', 'type', ['text/x']]], [this.leaf(0)], 0], () => ['e', 'style', [['s', 'media', ['print']]], [this.leaf(0)], 0], () => ['e', 'link', [['s', 'rel', [this.text()]]], [], 0], () => ['e', this.s.pick(['base', 'meta']), [['s', 'title', [this.text()]]], [], 0]])());
        if (this.s.bool(0.2)) r[2].push(['s', 'lang', [this.text()]]);
        return r;
    }
}
const own = (inst) => inst.desc[1].replace(/[A-Z]/g, (c) => c.toLowerCase());
const show = (s) => JSON.stringify(s.length > 80 ? s.slice(0, 80) + '…' : s);
const norm = (s) => s.replace(/\r\n?/g, '\n');
/** escapes that keep a script or style from ending early leave its meaning */
const raw = (s) => norm(s).replace(/<\\(?=[/!])/g, '<');
/** U+0002 stands for any text that is not empty */
const wild = (want, have) => new RegExp('^' + norm(want).split('\u0002').map((x) => x.replace(/[.*+?^${}()|[\]\\]/g, '\\$&')).join('[^]+?') + '$').test(have);
const like = (el, inst, data, css, path) => {
    const want = attrsOf(inst.desc, inst.env, data, inst), have = attrsNow(el, css);
    for (const k of new Set([...Object.keys(want), ...Object.keys(have)])) {
        let w = want[k] === undefined ? undefined : norm(want[k]);
        if (k === 'class') for (const o of [want, have]) o.class = (o.class ?? '').split(/[ \n\t\f\r]+/).filter(Boolean).sort().join(' ');
        if (k === 'class') w = want.class;
        if (w !== have[k]) fail(`${path}: attribute ${k} is ${JSON.stringify(have[k])} instead of ${JSON.stringify(w)}`, 'attr');
    }
    const exp = [];
    for (const k of inst.kids) for (const x of k.shown(data)) {
        if ('t' in x) { if (x.t === '') continue; const l = exp[exp.length - 1]; if (l && 't' in l) l.t += x.t; else exp.push({ t: x.t }); } else exp.push(x);
    }
    const kids = el.childNodes.filter((n) => !(n instanceof Comment_) && !n.skip);
    const rawText = ['script', 'style'].includes(el.localName) && el.namespaceURI === HTML_NS;
    for (let i = 0; i < Math.max(kids.length, exp.length); i++) {
        const n = kids[i], x = exp[i];
        const desc = (n) => (n === undefined ? 'nothing' : n instanceof Text_ ? show(n.data) : n instanceof Element_ ? `<${n.localName}>` : n.e ? `<${own(n.inst)}>` : show(n.t));
        if (!n || !x || (n instanceof Text_) !== ('t' in x)) fail(`${path}: child ${i} is ${desc(n)} instead of ${desc(x)}`, 'children');
        if ('t' in x) {
            if (x.t.includes('\u0002') ? !wild(x.t, n.data) : rawText ? raw(x.t) !== raw(n.data) : norm(x.t) !== n.data) fail(`${path}: child ${i} is ${desc(n)} instead of ${desc(x)}`, 'text');
            continue;
        }
        if (n.localName !== own(x.inst)) fail(`${path}: child ${i} is ${desc(n)} instead of ${desc(x)}`, 'children');
        const svg = ['svg', 'path'].includes(n.localName);
        if (n.namespaceURI !== (svg ? SVG_NS : HTML_NS)) fail(`${path}: <${n.localName}> in namespace ${n.namespaceURI}`, 'namespace');
        like(n, x.inst, data, css, `${path} > ${n.localName}[${i}]`);
    }
};
/** reads an answer of the server, -> document; `env`: settings of the server */
export const readPage = (r, env = [], mount = '/build', headless = false) => {
    if (r.status !== 200) fail(`the page is answered with status ${r.status}: ${show(r.text)}`, 'status');
    if (r.headers['content-type'] !== 'text/html; charset=utf-8') fail(`content type ${r.headers['content-type']}`, 'header');
    if (r.headers['cache-control'] !== 'private, no-cache, no-store, must-revalidate, max-age=0') fail(`cache-control ${r.headers['cache-control']}`, 'header');
    if (Buffer.compare(Buffer.from(r.text, 'utf8'), r.body) !== 0) fail('the page is not UTF-8', 'encoding');
    let doc;
    try { doc = parseDocument(r.text, headless); } catch (e) { if (!(e instanceof Malformed)) throw e; fail(`a browser would not read the page as it is written: ${e.message}\n${r.text.slice(0, 1500)}`, 'malformed'); }
    const css = new Map(), sheets = [];
    const body = doc.body.childNodes;
    const last = body.filter((n) => n instanceof Element_).pop();
    if (!last || last.localName !== 'script' || last.getAttribute('type') !== 'module' || last.getAttribute('data-vertigo-run-wasm') !== mount + '/app.wasm' || last.getAttribute('src') !== mount + '/run.js' || last.attributes.size !== 3 || last.textContent.trim() !== '') fail(`the page does not end with its start script but with ${last ? `<${last.localName}>` : 'nothing'}`, 'start-script');
    last.skip = true;
    for (const n of body.slice(body.indexOf(last))) if (n instanceof Text_ && n.data.trim() === '') n.skip = true;
    // the style sheet comes first
    for (const n of body) {
        if (n instanceof Text_ && n.data.trim() === '') continue;
        if (!(n instanceof Element_) || n.localName !== 'style' || n.attributes.size || !/^(\.autocss_|@keyframes|@media)/.test(n.textContent)) break;
        n.skip = true;
        sheets.push(raw(n.textContent));
        const m = /^\.(autocss_[0-9]+) \{([^]*)\}$/.exec(n.textContent.trim());
        if (m) css.set(m[1], raw(m[2]).split('{')[0].split(';').map((x) => x.trim()).filter((x) => x && !x.startsWith('&')).join('; '));
    }
    for (const [k, v] of env) {
        const name = 'data-env-' + k.toLowerCase();
        if (doc.documentElement.getAttribute(name) !== v) fail(`the page gives ${k} as ${JSON.stringify(doc.documentElement.getAttribute(name))} instead of ${JSON.stringify(v)}`, 'env');
        doc.documentElement.attributes.delete(name);
    }
    for (const n of doc.documentElement.childNodes) if (n instanceof Text_ && n.data.trim() === '') n.skip = true;
    return { doc, css, sheets };
};
export const likePage = ({ doc, css }, inst, data) => like(doc.documentElement, inst, data, css, 'html');

export default {
    id: 'P16',
    quick: 8000,
    thorough: 300000,
    rule: 'a case is non-trivial when a text or attribute of its page contains a character with a meaning in HTML, or changes are made after the page was built',
    assumptions: ['the page is one HTML can represent (elements a browser does not move or close by itself, no NUL character)', 'carriage returns may arrive as line feeds', 'the text of script and style elements may be escaped where it would end them'],
    async prepare({ root }) { return { server: await startServer(root, { args: ENV.flatMap(([k, v]) => ['--env', `${k}=${v}`]) }) }; },
    generate(src) {
        if (src.bool(0.15)) return { sheet: sheetCase(src) };
        const g = new PageGen(src, { budget: 30, depth: 4, events: 0.1, dups: 0.2 });
        const root = g.root();
        const setup = g.setup();
        const odd = src.bool(0.03) ? src.pick(['no head', 'no body', 'no html']) : null;
        if (odd === 'no head') root[3].shift();
        if (odd === 'no body') root[3].pop();
        if (odd === 'no html') { const tag = src.pick(['div', 'body', 'htm', 'svg', '']); if (tag) root[1] = tag; else root.splice(0, root.length, 't', ['x'], 0); }
        return { ...(odd ? { odd } : {}), setup, root, ops: src.list(0, 4, () => src.list(1, 4, () => g.op(), 2), 1) };
    },
    async run(c, env) {
        if (c.sheet) return runSheet(c.sheet, env);
        const data = new Data();
        for (const op of c.setup) data.apply(op);
        const first = JSON.stringify(data);
        for (const l of c.ops) for (const op of l) data.apply(op);
        const setup = [...c.setup, ...(c.ops.length ? [['task', 0, c.ops.flatMap((l) => [['sleep', 0, 0], ['ops', l]])]] : [])];
        const r = await page(env.extra.server.port, ['boot', setup, c.root]);
        if (!r) return { nontrivial: false, classes: ['too-long'] };
        if (c.odd === 'no body' || c.odd === 'no html') {
            if (r.status !== 500) fail(`a page which is no document (${c.odd}) is answered with status ${r.status}: ${show(r.text)}`, 'status');
            return { nontrivial: true, classes: [c.odd] };
        }
        likePage(readPage(r, ENV, '/build', !!c.odd), new Inst(c.root, [], data, null), data);
        const k = kinds(c.root);
        const special = /[<>&"']/.test(JSON.stringify(c.root).replace(/"/g, ''));
        return { nontrivial: special || first !== JSON.stringify(data), classes: [...Object.keys(k), ...(c.ops.length ? ['later-changes'] : []), ...(c.odd ? [c.odd] : [])] };
    },
};
/** random styles: the sheet of the page gives the elements exactly what they declare */
const runSheet = async (c, env) => {
    const vals = [0, 0];
    for (const [, i, v] of c.ops) vals[i] = v;
    const setup = [['val', 0, 0], ['val', 1, 0], ...(c.ops.length ? [['task', 0, c.ops.flatMap((o) => [['sleep', 0, 0], ['ops', [o]]])]] : [])];
    const r = await page(env.extra.server.port, ['boot', setup, sheetRoot(c)]);
    if (!r) return { nontrivial: false, classes: ['too-long'] };
    const { doc, sheets } = readPage(r, ENV);
    const elements = new Map();
    const go = (n) => { for (const x of n.childNodes) if (x instanceof Element_) { if (x.getAttribute('id') !== null) elements.set(x.getAttribute('id'), x); go(x); } };
    go(doc);
    judge(c, vals, new Map(), sheets, (id) => elements.get(id) ?? fail(`the element ${id} is missing`, 'children'), 'the page of the server', c.ops.length === 0);
    return { nontrivial: c.pool.some((x) => x.st.some((y) => y[0] !== 'd')), classes: ['sheet', ...(c.ops.length ? ['later-changes'] : []), ...new Set(c.pool.flatMap((x) => x.st.map((y) => 'i-' + y[0])))] };
};
