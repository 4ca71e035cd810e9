// Project creation and command line options: what the tool does to a folder, and how it ends.
import http from 'node:http';
import fs from 'node:fs';
import path from 'node:path';
import { fail } from '../engine.mjs';
import { cliBase, difference, makeTree, newTree, removeTree, runCli, snapshot } from '../cli.mjs';
import { request, startServer } from '../ssr.mjs';
import { J } from './hostprop.mjs';

const TEMPLATE = '/repo/crates/vertigo-cli/src/new/template';
const TINY = 'target/tiny/wasm32-unknown-unknown/debug/vp_tiny.wasm';
const NAMES = ['my_app', 'app', 'x', 'my-app', 'my_app_2', 'a1', '_x', 'App', 'vertigo', 'new', 'my_app-my_app', 'x'.repeat(64), 'Z-9_'];
const DESTS = [null, './', '.', 'd', 'd/', 'd/e', 'n1', 'n1/n2/n3', 'a b', 'żółw/x', 'link', 'file', 'file/x', 'ro', 'noexec', 'd/../d', '{abs}', '{abs}/d', '{abs}/n4/n5', 'ro/n', 'link/n', 'dangling', './d//e/', '-dash', 'k=v'];
// what may stand at the target
const STATES = {
    none: [], empty: [['', 'd']],
    file: [['', 'f', 'content']],
    'with file': [['Cargo.toml', 'f', 'mine']], 'with other file': [['notes.txt', 'f', 'mine']],
    'with hidden file': [['.hidden', 'f', '']], 'with .gitignore': [['.gitignore', 'f', 'mine']],
    'with folder': [['src', 'd']], 'with hidden folder': [['.git', 'd']], 'with tree': [['src/lib.rs', 'f', 'mine'], ['src/x/y', 'f', '']],
    'with link': [['l', 'l', '../x']], 'with link Cargo.toml': [['Cargo.toml', 'l', '../victim']], 'with dangling': [['l', 'l', '/nonexistent/x']],
    'unreadable with file': [['', 'd', null, 0o300], ['lib.rs', 'f', 'mine'], ['Cargo.toml', 'f', 'mine']],
    'unreadable with hidden': [['', 'd', null, 0o300], ['.x', 'f', 'mine']],
    'locked with file': [['', 'd', null, 0o000], ['Cargo.toml', 'f', 'mine']],
    'readonly empty': [['', 'd', null, 0o500]], 'readonly with file': [['', 'd', null, 0o500], ['x', 'f', 'mine']],
    'unreadable empty': [['', 'd', null, 0o300]],
    'link to empty': 'emptyd', 'link to full': 'fulld', 'dangling link': 'nowhere', 'link to file': 'victim',
};
const BAD = [
    [], ['nosuch'], ['--nosuch'], ['-x'], [''], ['New'], ['new'], ['new', 'a', 'b'], ['new', '--nosuch', 'a'], ['new', 'a', '--dest-dir'], ['new', '--dest-dir', 'd'], ['new', 'a', '--dest-dir', 'd', '--dest-dir', 'd/e'], ['new', 'a', '--port', '1'], ['new', '--', 'a', 'b'],
    ['build', 'a', 'b'], ['build', '--nosuch'], ['build', '--public-path'], ['build', '--dest-dir'], ['build', '--disable-wasm-opt=1'], ['build', '-dx'], ['build', '--port', '1'], ['build'], ['build', 'app', '--dest-dir', 'site'],
    ['serve', 'x', '--dest-dir', 'site'], ['serve', '--dest-dir', 'site', '--nosuch'], ['serve', '--dest-dir', 'nowhere'], ['serve', '--dest-dir', 'd'], ['serve', '--dest-dir', 'file'], ['serve', '--dest-dir'], ['serve'],
    ['serve', '--dest-dir', 'bad1'], ['serve', '--dest-dir', 'bad2'], ['serve', '--dest-dir', 'bad3'], ['serve', '--dest-dir', 'bad4'], ['serve', '--dest-dir', 'bad5'], ['serve', '--dest-dir', 'bad6'], ['serve', '--dest-dir', 'bad7'],
    ['serve', '--dest-dir', 'site', '--port', '65536'], ['serve', '--dest-dir', 'site', '--port', 'abc'], ['serve', '--dest-dir', 'site', '--port', '-1'], ['serve', '--dest-dir', 'site', '--port='], ['serve', '--dest-dir', 'site', '--port', '1.5'], ['serve', '--dest-dir', 'site', '--port', '80x'],
    ['serve', '--dest-dir', 'site', '--host', '999.1.1.1'], ['serve', '--dest-dir', 'site', '--host', 'a b'], ['serve', '--dest-dir', 'site', '--host'], ['serve', '--dest-dir', 'site', '--port', '1', '--port', '2'],
    ['watch', 'a', 'b'], ['watch', '--nosuch'], ['watch', '--port-watch', 'x'], ['watch', '--port-watch', '70000'], ['watch', '--env', 'novalue'], ['watch', '--proxy', 'novalue'], ['watch'], ['watch', 'app', '--dest-dir', 'site'],
];
const HELP = [['--help'], ['-h'], ['help'], ['--version'], ['-V'], ['new', '--help'], ['new', '-h'], ['build', '--help'], ['serve', '--help'], ['watch', '--help'], ['help', 'new'], ['help', 'serve'], ['new', '--version'], ['serve', '-V'], ['new', 'a', '--help'], ['serve', '--port', '1', '--help']];
const NOEQ = ['', 'novalue', 'a:b', 'http://x/y', '/path', 'a b', ' ', 'ż', '%3D', 'a\n', '＝'];
const KEYS = ['a', 'API', 'api.url', 'x-y', 'with space', 'ż', '', '0', '/p', 'a:b', ' lead', '"q"', "'"];
const VALUES = ['1', '', '=', '==', 'a=b', '=a', 'a=', 'http://x.y/z?a=b&c==', ' s ', 'ż=ł', '--x', '"q=1"', 'line\nbreak', '%3D', 'a,b=c', '\\', '$HOME', '-', 'k=v=w='];

const newAct = (s) => ({ k: 'new', name: s.pick(NAMES), dest: s.weighted([[2, null], [3, s.pick(DESTS)]]), state: s.weighted([[3, 'none'], [1, 'empty'], [4, s.pick(Object.keys(STATES))]]), order: s.draw(4) });
export default {
    id: 'P28', quick: 700, thorough: 30000, hangS: 300, shrinkTries: 300,
    rule: 'A scratch tree with folders, files, links and permissions and 1-6 runs of the tool as an unprivileged user: new projects (target states from missing to unreadable with content, many ways to name the folder, repeated), invalid invocations of every command, help and version, and servers started with settings and proxies whose values contain separators. Non-trivial = at least one project is created or a server started, and at least one run refuses.',
    assumptions: ['names of projects are names which cargo accepts, shorter than 100 characters', 'the same option is not given twice with different meaning', 'arguments are valid UTF-8'],
    async prepare({ root }) { return { base: cliBase(root) }; },
    async init(env) {
        env.template = [];
        const walk = (rel) => { for (const n of fs.readdirSync(path.join(TEMPLATE, rel))) { const p = rel ? rel + '/' + n : n; if (fs.statSync(path.join(TEMPLATE, p)).isDirectory()) { env.template.push([p, null]); walk(p); } else env.template.push([p, fs.readFileSync(path.join(TEMPLATE, p), 'latin1')]); } };
        walk('');
        env.version = /^version = "(\d+\.\d+)/m.exec(fs.readFileSync('/repo/crates/vertigo/Cargo.toml', 'utf8'))[1];
        env.up = http.createServer((q, r) => { r.end('up:' + q.url); });
        await new Promise((ok) => env.up.listen(0, '127.0.0.1', ok));
    },
    async close(env) { env.up.closeAllConnections(); env.up.close(); },
    generate: (s) => {
        const acts = s.list(1, 6, () => s.weighted([
            [6, () => newAct(s)],
            [1, () => ({ k: 'again' })],
            [2, () => ({ k: 'bad', args: s.pick(BAD) })],
            [1, () => ({ k: 'noeq', cmd: s.pick(['serve', 'watch']), opt: s.pick(['--env', '--proxy']), v: s.pick(NOEQ), form: s.draw(2), good: s.bool() })],
            [0.5, () => ({ k: 'help', args: s.pick(HELP) })],
            [0.12, () => ({ k: 'serve', env: s.list(0, 5, () => [s.pick(KEYS), s.pick(VALUES), s.draw(2)], 2).filter(([n], i, l) => l.findIndex((x) => x[0] === n) === i), proxy: s.list(0, 3, () => [s.pick(['/p', '/q-1', '/r/s']), s.pick(['', '/a=b', '/=', '/x/k=v=w', '/a'])], 1).filter(([n], i, l) => l.findIndex((x) => x[0] === n) === i) })],
        ])(), 3);
        return { acts };
    },
    run: async (c, env) => {
        const dir = newTree(env.extra.base);
        const classes = new Set();
        try {
            const tiny = path.join(env.root, TINY);
            makeTree(dir, [
                ['d', 'd'], ['d/e', 'd'], ['d/keep', 'f', 'keep'], ['file', 'f', 'a file'], ['a b', 'd'], ['link', 'l', 'd'], ['ro', 'd', null, 0o555], ['noexec', 'd', null, 0o644], ['dangling', 'l', 'nowhere/at/all'], ['k=v', 'd'],
                ['emptyd', 'd'], ['fulld/x', 'f', 'mine'], ['victim', 'f', 'victim'],
                ['site/index.json', 'f', J({ run_js: '/build/run.js', wasm: '/build/app.wasm' })], ['site/app.wasm', 'l', tiny],
                ['bad1/index.json', 'f', '{'], ['bad2/index.json', 'f', '{"run_js":"/build/a.js"}'], ['bad3/index.json', 'f', '[]'], ['bad4/index.json', 'f', ''], ['bad5/index.json', 'f', J({ run_js: '/build/run.js', wasm: '/build/missing.wasm' })],
                ['bad6/index.json', 'f', J({ run_js: '/build/run.js', wasm: '/build/a.wasm' })], ['bad6/a.wasm', 'f', 'no program'], ['bad7/index.json', 'f', J({ run_js: 'run.js', wasm: 'app.wasm' })], ['bad7/app.wasm', 'l', tiny],
            ]);
            let last = null;
            for (const [i, a] of c.acts.entries()) {
                const act = a.k === 'again' ? last : a;
                if (!act) continue;
                if (act.k === 'new') last = { ...act, state: 'as it is' };
                await one(act, dir, env, classes, `run ${i} (${J(a)})`);
            }
        } finally { removeTree(dir); }
        return { nontrivial: (classes.has('created') || classes.has('served')) && (classes.has('refused') || classes.has('rejected')), classes: [...classes], evaluations: c.acts.length };
    },
};
const one = async (a, dir, env, classes, what) => {
    const run = (args, o = {}) => {
        const r = runCli(env.root, args, { cwd: dir, timeout: 100000, ...o });
        if (r.error) throw Error(`cannot run the tool: ${r.error}`);
        return r;
    };
    const same = (before, r) => { const d = difference(before, snapshot(dir)); if (d) fail(`${what}: ends with ${r.code}, but ${d}`, 'changed'); };
    if (a.k === 'new') return create(a, dir, env, classes, what, run, same);
    if (a.k === 'bad' || a.k === 'noeq') {
        const args = a.k === 'bad' ? a.args : [a.cmd, '--dest-dir', 'site', ...(a.good ? ['--env', 'a=b'] : []), ...(a.form ? [`${a.opt}=${a.v}`] : [a.opt, a.v])];
        const before = snapshot(dir);
        const r = run(args);
        if (r.late) fail(`${what}: an invalid invocation is accepted: the tool runs on`, 'accepted');
        if (r.code === 0) fail(`${what}: an invalid invocation ends with 0: ${r.text.slice(-500)}`, 'accepted');
        same(before, r);
        classes.add('rejected').add(a.k);
        return;
    }
    if (a.k === 'help') {
        const before = snapshot(dir);
        const r = run(a.args);
        if (r.code !== 0 || !/vertigo/i.test(r.out)) fail(`${what}: ends with ${r.code}: ${r.text.slice(-500)}`, 'help');
        same(before, r);
        classes.add('help');
        return;
    }
    // a server with settings
    const args = [];
    for (const [n, v, form] of a.env) args.push(...(form || n.startsWith('-') ? [`--env=${n}=${v}`] : ['--env', `${n}=${v}`]));
    for (const [p, base] of a.proxy) args.push('--proxy', `${p}=http://127.0.0.1:${env.up.address().port}${base}`);
    const server = await startServer(env.root, { base: env.extra.base, wasm: path.join(env.root, TINY), args });
    try {
        const ask = async (p) => { const r = await request(server.port, { path: p }); if (r.error || r.status !== 200) fail(`${what}: ${p} is answered ${r.error ?? r.status}`, 'serve'); return r.body.toString(); };
        for (const [n, v] of [...a.env, ...['a=', 'nosuch', 'API=', 'a=a'].map((n) => [n, null])]) {
            const t = await ask('/~env/' + Buffer.from(n).toString('hex'));
            if (t !== (v === null ? 'none' : 'some:' + v)) fail(`${what}: the setting ${J(n)} is ${J(t)} instead of ${J(v)}`, 'setting');
        }
        for (const [p, base] of a.proxy) { const t = await ask(p + '/x'); if (t !== 'up:' + base + '/x') fail(`${what}: the proxy ${p} asked for ${J(t)}`, 'proxy'); }
        classes.add('served');
    } finally { server.stop(); }
};
const create = (a, dir, env, classes, what, run, same) => {
    const dest = a.dest?.replace('{abs}', dir) ?? null;
    const target = path.resolve(dir, dest ?? './', a.name);
    const stat = (p) => { try { return fs.statSync(p); } catch { return null; } };
    const lstat = (p) => { try { return fs.lstatSync(p); } catch { return null; } };
    const may = (st, bits) => (((st.mode >> 6) & bits) === bits);
    const placeable = (p) => (lstat(p) ? stat(p)?.isDirectory() : lstat(path.dirname(p)) === null || stat(path.dirname(p))?.isDirectory() ? placeable(path.dirname(p)) : false);
    // set the stage
    const parent = path.dirname(target);
    if (a.state !== 'as it is' && a.state !== 'none' && !lstat(target) && placeable(parent)) {
        const real = path.join(fs.existsSync(parent) ? fs.realpathSync(parent) : parent, a.name);
        const rel = path.relative(dir, real);
        const st = STATES[a.state];
        const was = stat(parent)?.mode;
        if (typeof st === 'string') makeTree(dir, [[rel, 'l', path.join(dir, st)]]);
        else makeTree(dir, [[rel, 'd'], ...st.filter((x) => x[0] !== '')].map(([n, ...x], i) => [i ? rel + '/' + n : n, ...x]).filter((x, i) => i || st[0][1] !== 'f' || st[0][0] !== ''));
        if (typeof st !== 'string' && st[0][0] === '') { if (st[0][1] === 'f') makeTree(dir, [[rel, 'f', st[0][2]]]); else if (st[0][3] !== undefined) fs.chmodSync(path.join(dir, rel), st[0][3]); }
        if (was !== undefined) fs.chmodSync(parent, was & 0o7777);
    }
    // what has to happen
    let want = null;
    for (let p = dir; want === null;) {
        const st = stat(p);
        if (p === target && st) {
            if (!st.isDirectory()) want = 'refuse';
            else if (fs.readdirSync(p).length) want = 'refuse';
            else if (!may(st, 3)) want = 'refuse';
            else want = may(st, 4) ? 'create' : 'either';
        } else if (!st) want = lstat(p) ? 'either' : may(fs.statSync(path.dirname(p)), 3) ? 'create' : 'refuse';
        else if (!st.isDirectory() || !may(st, 1)) want = 'refuse';
        else p = path.join(p, path.relative(p, target).split('/')[0]);
    }
    const before = snapshot(dir);
    const opt = dest === null ? [] : a.order & 1 || dest.startsWith('-') ? [`--dest-dir=${dest}`] : ['--dest-dir', dest];
    const r = run(['new', ...(a.order & 2 ? [a.name, ...opt] : [...opt, a.name])]);
    if (r.late) fail(`${what}: the tool does not end`, 'late');
    if (r.code !== 0) {
        if (want === 'create') fail(`${what}: ends with ${r.code}: ${r.text.slice(-500)}`, 'not-created');
        same(before, r);
        classes.add('refused');
        return;
    }
    if (want === 'refuse') { const d = difference(before, snapshot(dir)); fail(`${what}: ends with 0 although it has to refuse${d ? ' and ' + d : ''}`, 'not-refused'); }
    // everything as before, and the template in its place
    const after = snapshot(dir);
    const full = path.relative(fs.realpathSync(dir), fs.realpathSync(target));
    const expected = new Map(before);
    for (let p = full; p !== '.' && p !== ''; p = path.dirname(p)) if (!expected.has(p)) expected.set(p, 'folder');
    for (const [n, text] of env.template) expected.set(`${full}/${n === 'Cargo.toml_' ? 'Cargo.toml' : n}`, text === null ? 'folder' : 'file ' + (n === 'Cargo.toml_' ? text.replaceAll('my_app', a.name) : text));
    const plain = (m, all) => new Map([...m].map(([k, v]) => [k, all || !before.has(k) ? v.replace(/^(folder|file) \d+(?= |$)/, '$1') : v]));
    const d = difference(plain(expected), plain(after));
    if (d) fail(`${what}: after creating the project, ${d}`, 'template');
    // facts about the new project
    const toml = fs.readFileSync(path.join(target, 'Cargo.toml'), 'utf8');
    if (!new RegExp(`^name = "${a.name}"$`, 'm').test(toml)) fail(`${what}: the name in Cargo.toml: ${toml}`, 'name');
    if (!/crate-type = \[.*"cdylib".*\]/.test(toml)) fail(`${what}: no program is built: ${toml}`, 'cdylib');
    const dep = /^vertigo = "([\d.]+)"$/m.exec(toml)?.[1];
    if (!dep || !(dep + '.').startsWith(env.version + '.')) fail(`${what}: the project does not use this version: ${toml}`, 'version');
    if (!/#\[main\]/.test(fs.readFileSync(path.join(target, 'src/lib.rs'), 'utf8'))) fail(`${what}: the project has no start function`, 'main');
    for (const [p, st] of after) if (p.startsWith(full + '/') && !before.has(p) && !/^(folder [0-7]*7..|file [0-7]*[67]..) ?/.test(st)) fail(`${what}: ${p} cannot be edited`, 'mode');
    classes.add('created');
};
