// A small reader of style sheets, after CSS Syntax Level 3 (what a browser makes of the text of a <style> element).
const isSpace = (c) => c === ' ' || c === '\n' || c === '\t' || c === '\r' || c === '\f';
/** end of the token that begins at i (strings, comments, unquoted urls are one token) */
const skip = (t, i) => {
    const c = t[i];
    if (c === '\\') return i + 2;
    if (c === '"' || c === "'") { let j = i + 1; while (j < t.length && t[j] !== c) { if (t[j] === '\n') return j; j += t[j] === '\\' ? 2 : 1; } return j + 1; }
    if (c === '/' && t[i + 1] === '*') { const j = t.indexOf('*/', i + 2); return j < 0 ? t.length : j + 2; }
    if (/^url\(/i.test(t.slice(i, i + 4)) && !/[-\w]/.test(t[i - 1] ?? '')) {
        let j = i + 4;
        while (isSpace(t[j])) j++;
        if (t[j] === '"' || t[j] === "'") return i + 4;
        while (j < t.length && t[j] !== ')') j += t[j] === '\\' ? 2 : 1;
        return j + 1;
    }
    return i + 1;
};
const OPEN = { '(': ')', '[': ']', '{': '}' };
/** splits at the top level: fn(char, index) decides */
const scan = (t, from, stop) => {
    const stack = [];
    let i = from;
    while (i < t.length) {
        const c = t[i], n = skip(t, i);
        if (n === i + 1) {
            if (!stack.length && stop(c)) return i;
            if (OPEN[c]) stack.push(OPEN[c]);
            else if (stack.length && stack[stack.length - 1] === c) stack.pop();
            else if (!stack.length && c === '}') return i;
        } else if (OPEN[t[n - 1]] && /^url\($/i.test(t.slice(i, n))) stack.push(')');
        i = n;
    }
    return i;
};
/** white space and comments outside of strings and urls do not matter */
export const norm = (t) => {
    let out = '', i = 0, gap = false;
    while (i < t.length) {
        const n = skip(t, i), tok = t.slice(i, n);
        if (tok.startsWith('/*') || isSpace(tok)) gap = true;
        else { if (gap && out) out += ' '; gap = false; out += tok; }
        i = n;
    }
    return out;
};
/** text -> [{prelude, block: text}] and at-rules without a block as {prelude} */
export const rules = (t) => {
    const out = [];
    let i = 0;
    for (;;) {
        while (i < t.length && (isSpace(t[i]) || t.startsWith('/*', i))) i = isSpace(t[i]) ? i + 1 : skip(t, i);
        if (i >= t.length) return out;
        const at = t[i] === '@';
        const b = scan(t, i, (c) => c === '{' || (at && c === ';'));
        if (b >= t.length || t[b] === '}') { out.push({ prelude: norm(t.slice(i, b)), broken: t.slice(b) || 'no block' }); i = b + 1; continue; }
        const prelude = norm(t.slice(i, b));
        if (t[b] === ';') { out.push({ prelude }); i = b + 1; continue; }
        const e = scan(t, b + 1, () => false);
        out.push({ prelude, block: t.slice(b + 1, e), ...(e >= t.length ? { broken: 'unclosed' } : {}) });
        i = e + 1;
    }
};
/** block -> [['d', name, value] | ['r', prelude, block]] */
export const items = (t) => {
    const out = [];
    let i = 0;
    while (i < t.length) {
        while (i < t.length && (isSpace(t[i]) || t[i] === ';' || t.startsWith('/*', i))) i = t.startsWith('/*', i) ? skip(t, i) : i + 1;
        if (i >= t.length) break;
        const e = scan(t, i, (c) => c === ';' || c === '{');
        if (t[e] === '{' && !/^--/.test(t.slice(i, e))) {
            const z = scan(t, e + 1, () => false);
            out.push(['r', norm(t.slice(i, e)), t.slice(e + 1, z)]);
            i = z + 1;
            continue;
        }
        const row = t.slice(i, e), c = scan(row, 0, (x) => x === ':');
        out.push(c >= row.length ? ['bad', norm(row)] : ['d', norm(row.slice(0, c)), norm(row.slice(c + 1))]);
        i = e + 1;
    }
    return out;
};
/** a list of selectors -> its members */
export const split = (t) => {
    const out = [];
    for (let i = 0; ;) { const e = scan(t, i, (c) => c === ','); out.push(norm(t.slice(i, e))); if (e >= t.length) return out; i = e + 1; }
};
