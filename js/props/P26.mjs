import { fail } from '../engine.mjs';
import { open, noErrors, str, json, same, J, STRS } from './hostprop.mjs';

const NAMES = ['a', 'b', 'session', 'a1', 'Abc', 'A', 'x-y', 'x.y', '_id', '__proto__', 'constructor', 'ab', 'expires', 'path', '%41', 'n~', "q'", '$v', 'aa'];
const LIFE = [0, 1, 2, 59, 60, 3600, 86400, 31536000, 3153600000];
const num = (s) => { const v = s.pick([0, 1, -1, 2.5, 1e21, 9007199254740991, -0.125, 1e-7, 1e300, 2147483648, 3]); return v; };
const foreign = (s) => s.pick(['f=1', 'f', 'f=a=b', '=only', 'g=%zz', 'h=a b', 'a=raw', 'b=1%3D2', 'session="q"', 'ab=x', 'aa=', 'i=ż', 'a', 'A=up', 'k= spaced ']);
export default {
    id: 'P26', quick: 8000, thorough: 300000,
    rule: 'Up to 14 operations: setting text and JSON cookies (any text, any finite JSON, life times from 0 s to 100 years), reading set, never set and expired ones, cookies made by others (raw, valueless, several = signs, malformed escapes), clock moves. The cookie jar follows the rules of a browser; every read and the whole jar are compared with a model. Non-trivial = at least two cookies set and a read of a set cookie.',
    assumptions: ['cookie names are tokens (no separators or =)', 'the jar of these checks has no size limits', 'life times at most 100 years', 'JSON numbers are finite and not -0'],
    generate: (s) => ({
        ts: s.bool(0.3),
        ops: s.list(1, 14, () => s.weighted([
            [4, () => ['cset', s.pick(NAMES), str(s), s.pick(LIFE)]],
            [2, () => ['csetj', s.pick(NAMES), json(s, 2, { num }), s.pick(LIFE)]],
            [4, () => ['cget', s.pick(NAMES)]],
            [2, () => ['cgetj', s.pick(NAMES)]],
            [2, () => ['foreign', foreign(s)]],
            [1, () => ['wait', s.pick([0, 1, 500, 1000, 1500, 60000, 3600000, 90000000])]],
        ])(), 8),
    }),
    run: async (c, env) => {
        const b = await open(c, env);
        let reads = 0, sets = 0;
        try {
            const model = new Map(); // name -> {text?, json?, at} of cookies the program set; {foreign} otherwise
            for (const op of c.ops) {
                if (op[0] === 'wait') { await b.advance(op[1]); continue; }
                if (op[0] === 'foreign') {
                    b.document.cookie = op[1];
                    const i = op[1].indexOf('=');
                    model.set(i < 0 ? '' : op[1].slice(0, i).trim(), { foreign: true });
                    continue;
                }
                const before = new Map([...b.cookies].map(([k, v]) => [k, { ...v }]));
                b.expireCookies();
                b.console = [];
                const log = b.exec(['rx', [op]]);
                b.check();
                const name = op[1];
                const what = J(op);
                if (op[0] === 'cset' || op[0] === 'csetj') {
                    sets++;
                    const at = b.now + op[3] * 1000;
                    model.set(name, { text: op[0] === 'cset' ? op[2] : undefined, json: op[0] === 'csetj' ? op[2] : undefined, at });
                    noErrors(b, what);
                    const jar = b.cookies.get(name);
                    if (at - 1000 > b.now && !jar) fail(`${what}: the browser has no such cookie`, 'not-set');
                    if (jar && !(jar.expires !== null && jar.expires <= at && jar.expires > at - 1000)) fail(`${what}: expires ${jar.expires - b.now} ms from now`, 'expires');
                    for (const [k, v] of before) {
                        if (k === name || (v.expires !== null && v.expires <= b.now)) continue;
                        const n = b.cookies.get(k);
                        if (!n || n.value !== v.value || n.expires !== v.expires || n.path !== v.path) fail(`${what} changed the cookie ${k}`, 'other');
                    }
                    for (const k of b.cookies.keys()) if (k !== name && !before.has(k)) fail(`${what} made the cookie ${k}`, 'other');
                } else {
                    const got = log.find((x) => x[0] === op[0])[2];
                    const m = model.get(name);
                    if (m?.foreign) { b.console = []; continue; }
                    reads++;
                    const empty = op[0] === 'cget' ? '' : null;
                    if (m && m.at > b.now && m.at - 1000 <= b.now && same(got, empty)) continue;
                    const live = m && m.at > b.now;
                    if (op[0] === 'cget') {
                        if (live && m.text === undefined) continue;
                        const want = live ? m.text : '';
                        if (!same(got, want)) fail(`${what} reads ${J(got)} instead of ${J(want)}`, 'read');
                    } else {
                        if (live && m.json === undefined) { b.console = []; continue; }
                        const want = live ? m.json : null;
                        if (!same(got, want)) fail(`${what} reads ${J(got)} instead of ${J(want)}`, 'read-json');
                    }
                    noErrors(b, what);
                }
            }
        } finally { b.close(); }
        return { nontrivial: sets >= 2 && reads > 0, classes: [c.ts ? 'ts' : 'bundle', reads ? 'read' : 'noread'] };
    },
};
