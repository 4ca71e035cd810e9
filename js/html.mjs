// Reads HTML text the way a browser does (tokenizer of the HTML standard, scripting enabled). Pages are expected to be
// well-formed: whatever would make a browser repair the tree (implied, missing or misplaced tags) is reported.
import { createRequire } from 'node:module';
import { Document_, Text_, Comment_, HTML_NS, SVG_NS } from './minidom.mjs';
const require = createRequire('/opt/veriftools/node/node_modules/');
const { decodeHTML, decodeHTMLAttribute } = require('entities');

export class Malformed extends Error {}
const bad = (m) => { throw new Malformed(m); };
export const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr']);
const RAW = new Set(['style', 'script', 'xmp', 'iframe', 'noembed', 'noframes', 'noscript']);
const RCDATA = new Set(['textarea', 'title']);
export const BLOCK = new Set(['address', 'article', 'aside', 'blockquote', 'center', 'details', 'dialog', 'dir', 'div', 'dl', 'fieldset', 'figcaption', 'figure', 'footer', 'header', 'hgroup', 'main', 'menu', 'nav', 'ol', 'p', 'search', 'section', 'summary', 'ul', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'pre', 'listing', 'form', 'table', 'hr', 'xmp', 'plaintext', 'li', 'dd', 'dt']);
const HEADING = /^h[1-6]$/;
const HEADS = new Set(['title', 'meta', 'link', 'style', 'script', 'base', 'template', 'noscript']);
const space = (c) => c === ' ' || c === '\n' || c === '\t' || c === '\f';

/** a start tag that a browser would answer by closing or moving elements */
const misplaced = (stack, tag) => {
    const names = stack.map((e) => e.localName);
    const top = names[names.length - 1];
    const inScope = (t, stops) => { for (let i = names.length - 1; i >= 0; i--) { if (names[i] === t) return true; if (stops.includes(names[i])) return false; } return false; };
    if (BLOCK.has(tag) && inScope('p', ['button', 'table', 'td', 'th', 'caption', 'html', 'select'])) return `<${tag}> ends the open <p>`;
    if (HEADING.test(tag) && HEADING.test(top)) return `<${tag}> ends the open <${top}>`;
    if (tag === 'a' && inScope('a', ['td', 'th', 'caption', 'html'])) return '<a> inside of <a>';
    if (tag === 'button' && inScope('button', ['td', 'th', 'caption', 'table', 'html'])) return '<button> inside of <button>';
    if (tag === 'form' && names.includes('form')) return '<form> inside of <form>';
    if (tag === 'li') for (let i = names.length - 1; i >= 0 && !(BLOCK.has(names[i]) && names[i] !== 'div' && names[i] !== 'p' && names[i] !== 'li'); i--) if (names[i] === 'li') return '<li> ends the open <li>';
    const table = { table: ['tbody', 'thead', 'tfoot', 'caption', 'colgroup'], tbody: ['tr'], thead: ['tr'], tfoot: ['tr'], tr: ['td', 'th'], colgroup: ['col'] };
    if (top in table && !table[top].includes(tag) && tag !== 'script' && tag !== 'style') return `<${tag}> in <${top}>`;
    for (const [p, kids] of Object.entries(table)) if (kids.includes(tag) && !(top in table && table[top].includes(tag))) return `<${tag}> outside of <${p}>`;
    if (top === 'select' && !['option', 'optgroup', 'hr', 'script'].includes(tag)) return `<${tag}> in <select>`;
    if (top === 'option') return `<${tag}> in <option>`;
    if (['html', 'head', 'body', 'frame', 'frameset', 'image'].includes(tag)) return `another <${tag}>`;
    return null;
};

/** `headless`: a missing <head> is implied, as browsers do */
export const parseDocument = (input, headless = false) => {
    const src = input.replace(/\r\n?/g, '\n');
    const doc = new Document_();
    doc.documentElement.remove();
    for (const e of ['head', 'body']) { const el = doc[e]; el.remove(); doc[e] = null; }
    const stack = [];
    let pos = 0, phase = 'initial';
    const top = () => stack[stack.length - 1];
    const foreign = () => stack.length && top().namespaceURI !== HTML_NS;
    const addText = (s) => {
        if (s === '') return;
        if (s.includes('\0')) bad('a NUL character');
        if (phase !== 'in') {
            if (/^[ \n\t\f]*$/.test(s)) {
                // ignored before <head>; kept after it; text after the body belongs to the body
                if (phase === 'after head') top().appendChild(new Text_(doc, s));
                if (phase === 'after body') { const l = doc.body.lastChild; if (l instanceof Text_) l.data += s; else doc.body.appendChild(new Text_(doc, s)); }
                return;
            }
            bad(`text ${JSON.stringify(s.slice(0, 40))} ${phase}`);
        }
        const t = top();
        if (['table', 'tbody', 'thead', 'tfoot', 'tr', 'colgroup'].includes(t.localName) && !/^[ \n\t\f]*$/.test(s)) bad(`text ${JSON.stringify(s.slice(0, 40))} in <${t.localName}>`);
        if (t.localName === 'head' && !/^[ \n\t\f]*$/.test(s)) bad(`text ${JSON.stringify(s.slice(0, 40))} in <head>`);
        if (t.lastChild instanceof Text_) t.lastChild.data += s; else t.appendChild(new Text_(doc, s));
    };
    const attributes = (what) => {
        const attrs = new Map();
        let closing = false;
        for (;;) {
            while (space(src[pos])) pos++;
            if (pos >= src.length) bad(`${what} does not end`);
            if (src[pos] === '>') { pos++; break; }
            if (src[pos] === '/') { pos++; closing = src[pos] === '>'; continue; }
            let name = '';
            if (src[pos] === '=') { name = '='; pos++; }
            while (pos < src.length && !space(src[pos]) && !'/>='.includes(src[pos])) name += src[pos++];
            if (/["'<\0]/.test(name)) bad(`attribute name ${JSON.stringify(name)} in ${what}`);
            name = name.replace(/[A-Z]/g, (c) => c.toLowerCase());
            while (space(src[pos])) pos++;
            let value = '';
            if (src[pos] === '=') {
                pos++;
                while (space(src[pos])) pos++;
                const q = src[pos];
                if (q === '"' || q === "'") {
                    const e = src.indexOf(q, pos + 1);
                    if (e < 0) bad(`attribute ${name} in ${what} does not end`);
                    value = src.slice(pos + 1, e);
                    pos = e + 1;
                    if (pos < src.length && !space(src[pos]) && src[pos] !== '/' && src[pos] !== '>') bad(`no space after attribute ${name} in ${what}`);
                } else {
                    if (q === '>') bad(`attribute ${name} in ${what} has no value`);
                    while (pos < src.length && !space(src[pos]) && src[pos] !== '>') { if ('"\'<=`'.includes(src[pos])) bad(`value of attribute ${name} in ${what}`); value += src[pos++]; }
                }
            }
            if (attrs.has(name)) bad(`attribute ${name} given twice in ${what}`);
            if (value.includes('\0')) bad('a NUL character');
            attrs.set(name, decodeHTMLAttribute(value));
        }
        return { attrs, closing };
    };
    const open = (tag, attrs, closing) => {
        const place = (parent) => {
            const svg = tag === 'svg' || (foreign() && !['foreignobject', 'desc', 'title'].includes(top().localName));
            const el = svg ? doc.createElementNS(SVG_NS, tag) : doc.createElement(tag);
            for (const [k, v] of attrs) el.attributes.set(k, v);
            parent.appendChild(el);
            return el;
        };
        if (phase === 'before html') { if (tag !== 'html') bad(`<${tag}> before <html>`); stack.push(doc.documentElement = place(doc)); phase = 'before head'; return; }
        if (phase === 'before head' && tag === 'body' && headless) { const h = doc.createElement('head'); h.skip = true; top().appendChild(doc.head = h); phase = 'after head'; }
        if (phase === 'before head') { if (tag !== 'head') bad(`<${tag}> before <head>`); stack.push(doc.head = place(top())); phase = 'in'; return; }
        if (phase === 'after head') { if (tag !== 'body') bad(`<${tag}> before <body>`); stack.push(doc.body = place(top())); phase = 'in'; return; }
        if (phase !== 'in') bad(`<${tag}> ${phase}`);
        if (top().localName === 'head' && !HEADS.has(tag)) bad(`<${tag}> in <head>`);
        if (foreign()) {
            if (HTML_IN_SVG.has(tag)) bad(`<${tag}> in <${top().localName}>`);
        } else {
            const m = misplaced(stack, tag);
            if (m) bad(m);
        }
        const el = place(top());
        if (el.namespaceURI !== HTML_NS) { if (!closing) stack.push(el); return; }
        if (VOID.has(tag)) return;
        if (RAW.has(tag) || RCDATA.has(tag)) {
            const end = tag === 'script' ? scriptEnd(src, pos) : rawEnd(src, pos, tag);
            if (end < 0) bad(`<${tag}> does not end`);
            let s = src.slice(pos, end);
            if (RCDATA.has(tag)) s = decodeHTML(s);
            if (tag === 'textarea' && s.startsWith('\n') && src[pos] === '\n') s = s.slice(1);
            if (s.includes('\0')) bad('a NUL character');
            if (s !== '') el.appendChild(new Text_(doc, s));
            pos = end + 2 + tag.length;
            attributes(`</${tag}>`);
            return;
        }
        if (tag === 'plaintext') bad('<plaintext>');
        stack.push(el);
        if ((tag === 'pre' || tag === 'listing') && src[pos] === '\n') pos++;
    };
    const close = (tag) => {
        if (phase === 'after body' && tag === 'html') { phase = 'after html'; return; }
        if (phase !== 'in') bad(`</${tag}> ${phase}`);
        const t = top();
        if (t.localName !== tag) bad(`</${tag}> while <${t.localName}> is open`);
        stack.pop();
        if (t === doc.head) phase = 'after head';
        if (t === doc.body) phase = 'after body';
    };
    while (pos < src.length) {
        if (src[pos] !== '<') {
            const e = src.indexOf('<', pos);
            const s = src.slice(pos, e < 0 ? src.length : e);
            pos += s.length;
            addText(decodeHTML(s));
            continue;
        }
        const rest = src.slice(pos, pos + 12);
        let m;
        if (/^<!doctype html>/i.test(src.slice(pos, pos + 15))) {
            if (phase !== 'initial') bad('document type in the document');
            phase = 'before html';
            pos += 15;
        } else if (rest.startsWith('<!--')) {
            const r = /--!?>|^-?>/g;
            r.lastIndex = pos + 4;
            const e = src.indexOf('-->', pos + 4);
            if (e < 0) bad('comment does not end');
            if (phase === 'in') top().appendChild(new Comment_(doc, src.slice(pos + 4, e)));
            pos = e + 3;
        } else if ((m = /^<([A-Za-z][^\s/>]*)/.exec(src.slice(pos, pos + 200)))) {
            if (phase === 'initial') bad('no document type');
            pos += m[0].length;
            const tag = m[1].replace(/[A-Z]/g, (c) => c.toLowerCase());
            const { attrs, closing } = attributes(`<${tag}>`);
            open(tag, attrs, closing);
        } else if ((m = /^<\/([A-Za-z][^\s/>]*)/.exec(src.slice(pos, pos + 200)))) {
            pos += m[0].length;
            const tag = m[1].replace(/[A-Z]/g, (c) => c.toLowerCase());
            const { attrs } = attributes(`</${tag}>`);
            if (attrs.size) bad(`attributes in </${tag}>`);
            close(tag);
        } else if (/^<[!?/]/.test(rest)) bad(`stray ${JSON.stringify(rest)}`);
        else { addText('<'); pos++; }
    }
    if (phase !== 'after html') bad(`the document ends ${phase}, open: ${stack.map((e) => e.localName).join(' ')}`);
    return doc;
};
const HTML_IN_SVG = new Set(['b', 'big', 'blockquote', 'body', 'br', 'center', 'code', 'dd', 'div', 'dl', 'dt', 'em', 'embed', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'head', 'hr', 'i', 'img', 'li', 'listing', 'menu', 'meta', 'nobr', 'ol', 'p', 'pre', 'ruby', 's', 'small', 'span', 'strong', 'strike', 'sub', 'sup', 'table', 'tt', 'u', 'ul', 'var']);
const rawEnd = (src, pos, tag) => {
    const r = new RegExp(`</${tag}(?=[ \\n\\t\\f/>])`, 'gi');
    r.lastIndex = pos;
    return r.exec(src)?.index ?? -1;
};
/** the end of a script: </script> does not count between <!-- <script and </script */
const scriptEnd = (src, pos) => {
    let state = 0; // 0 script data, 1 escaped, 2 double escaped
    for (let i = pos; i < src.length; i++) {
        if (src.startsWith('-->', i) && state > 0) { state = 0; i += 2; continue; }
        if (src[i] !== '<') continue;
        if (state === 0 && src.startsWith('<!--', i)) { state = 1; i += 1; if (/^<!--?-?>/.test(src.slice(i - 1, i + 6))) state = 0; continue; }
        const s = src.slice(i, i + 10).toLowerCase();
        if (/^<\/script[ \n\t\f/>]/.test(s)) { if (state === 2) { state = 1; continue; } return i; }
        if (state === 1 && /^<script[ \n\t\f/>]/.test(s)) state = 2;
    }
    return -1;
};
