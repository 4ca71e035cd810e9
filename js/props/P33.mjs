// `vertigo watch`: every change is built, the newest version is served, the pages hear of it.
import { spawn } from 'node:child_process';
import fs from 'node:fs';
import http from 'node:http';
import path from 'node:path';
import vm from 'node:vm';
import { fail } from '../engine.mjs';
import { cliBase, cliPath, makeTree, newTree, removeTree, NOBODY } from '../cli.mjs';
import { parseDocument, Malformed } from '../html.mjs';
import * as D from '../minidom.mjs';
import { ownPort, request } from '../ssr.mjs';
import { J } from './hostprop.mjs';

const TINY = 'target/tiny/wasm32-unknown-unknown/debug/vp_tiny.wasm';
const STAMP = 'VP-STAMP-';
// where things are: [package, current folder, destination, target folder, further watched folders]
const LAYOUTS = [
    ['', '', null, 'target', []], ['', '', './build', 'target', []], ['', '', 'out/x', 'target', ['../shared']],
    ['app', '', null, 'target', []], ['app', 'app', null, 'target', ['../lib']], ['app', 'app', '../out', 'app/target', []],
    ['app', '', 'app/build', 'target', ['lib']], ['app', '', './app/./build', 'target', []], ['app', 'lib', '../app/out', 'target', ['.']],
    ['app', '', '{abs}/dest', 'target', ['{abs}/shared']], ['app', '', 'build', 'target', ['.']], ['', 'src', null, 'target', []],
    ['app', 'app', '{abs}/ws/app/built', '../elsewhere', ['../lib', '{abs}/shared']],
];
const HOSTS = [null, null, '127.0.0.1', '127.0.0.2', '0.0.0.0'];
const edit = (s, delay) => ['edit', s.weighted([[3, 'pkg'], [1, 'more']]), s.weighted([[6, 'ok'], [1, 'fail']]), delay || s.pick([0, 0, 0, 0.05, 0.3]), s.pick(['write', 'write', 'rename', 'new', 'delete', 'remove', 'away', 'folder']), s.draw(4)];
const run = (s) => ({
    k: 'run', layout: s.pick(LAYOUTS), host: s.pick(HOSTS), first: s.weighted([[5, 'ok'], [1, 'fail']]), delay: s.pick([0, 0, 0.3]), settled: s.bool(0.7), infer: s.bool(0.5),
    ops: s.list(1, 7, () => s.weighted([
        [4, () => [edit(s, 0)]], [3, () => [edit(s, s.pick([0.4, 0.7])), ['wait', s.pick([250, 350, 450, 600])], edit(s, 0)]], [3, () => [edit(s, 0), ['settle']]], [1, () => [['settle']]], [1.5, () => [['wait', s.pick([0, 50, 150, 250, 400, 700])]]],
        [1.5, () => [['client']]], [0.7, () => [['leave']]], [1.5, () => [['get']]], [0.7, () => [['noise', s.pick(['dest', 'target'])]]], [0.5, () => [['join', s.bool(0.7) ? 'ok' : 'fail']]],
    ])(), 4).flat(),
});
const MESSAGES = ['Building', 'Errors', 'Version'];
const page = (s) => ({ k: 'page', ops: s.list(1, 14, () => s.weighted([[3, () => ['m', 'Version', 1]], [4, () => ['m', s.pick(MESSAGES), s.weighted([[1, 0], [2, 1]])]], [1, () => ['x']], [0.3, () => ['same']]])(), 6) });

const CORPUS = [
    { k: 'run', layout: LAYOUTS[3], host: null, first: 'ok', delay: 0, settled: true, infer: false, ops: [['client'], ['edit', 'pkg', 'ok', 0.3, 'write', 0], ['settle'], ['edit', 'pkg', 'fail', 0, 'new', 0], ['settle'], ['edit', 'pkg', 'ok', 0, 'rename', 0], ['settle'], ['join', 'ok'], ['settle'], ['edit', 'pkg', 'ok', 0, 'remove', 0], ['settle']] },
    { k: 'run', layout: LAYOUTS[6], host: '127.0.0.2', first: 'ok', delay: 0, settled: true, infer: true, ops: [['edit', 'more', 'ok', 0.6, 'write', 0], ['wait', 400], ['edit', 'pkg', 'ok', 0, 'write', 0], ['settle'], ['noise', 'dest'], ['noise', 'target'], ['settle']] },
    { k: 'page', ops: [['m', 'Version', 1], ['m', 'Building', 1], ['m', 'Version', 1]] },
    { k: 'page', ops: [['m', 'Building', 0], ['m', 'Errors', 0], ['x'], ['m', 'Building', 0], ['m', 'Version', 1]] },
];
export default {
    id: 'P33', quick: 600, thorough: 8000, hangS: 400, shrinkTries: 40, shrinkMs: 200000,
    rule: 'The real tool watches a workspace (13 arrangements of package, current folder, destination, target folder and further watched folders; three listening addresses) with a stand-in for cargo which compiles the state at its start, for a while, with success or not, while 1-21 operations run: edits of several kinds (also during a build), waiting, listeners coming and going, requests, writes into the destination and the target folder. When everything is quiet the newest state must be served, with files as promised, every listener must know, and no further build may start. In the others the script of the page gets 1-14 messages and clicks. Non-trivial = a newer version was served, or a page had to reload.',
    assumptions: ['one build at a time, as cargo does', 'loopback addresses only', 'a version is announced within 90 s'],
    corpus: CORPUS,
    async prepare({ root }) {
        const base = cliBase(root);
        const bin = path.join(base, 'bin');
        fs.cpSync(path.join(root, 'tools/standin-watch'), bin, { recursive: true });
        for (const f of ['cargo', 'rustup']) fs.chmodSync(path.join(bin, f), 0o755);
        const capture = {};
        // the script of the pages, as the tool puts it there; whatever goes wrong here is for the cases to find
        try { await runWatch(CORPUS[0], { root, extra: { base, bin }, capture }); } catch { /* see above */ }
        return { base, bin, script: capture.script ?? null };
    },
    generate: (s) => s.weighted([[Number(process.env.VP_RUNS ?? 0.08), () => run(s)], [1, () => page(s)]])(),
    run: async (c, env) => (c.k === 'run' ? runWatch(c, env) : runPage(c, env)),
};

const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
/** listens to the messages */
class Listener {
    constructor(port, origin) {
        this.got = []; this.open = false; this.text = '';
        this.req = http.get({ host: '127.0.0.1', port, path: '/events', agent: false, headers: { accept: 'text/event-stream', origin } }, (r) => {
            this.status = r.statusCode; this.type = r.headers['content-type']; this.cors = r.headers['access-control-allow-origin'];
            this.open = true;
            r.setEncoding('utf8');
            r.on('data', (d) => {
                this.text += d;
                for (let i; (i = this.text.search(/\r?\n\r?\n/)) >= 0;) {
                    const part = this.text.slice(0, i).split(/\r?\n/);
                    this.text = this.text.slice(i).replace(/^\r?\n\r?\n/, '');
                    const data = part.filter((l) => l.startsWith('data:')).map((l) => l.slice(5).replace(/^ /, ''));
                    if (data.length) this.got.push(data.join('\n'));
                }
            });
            r.on('error', () => { this.ended = true; });
            r.on('end', () => { this.ended = true; });
        });
        this.req.on('error', () => { this.ended = true; });
    }
    get last() { return this.got[this.got.length - 1]; }
    close() { this.closed = true; this.req.destroy(); }
}
const runWatch = async (c, env) => {
    const { base, bin } = env.extra;
    const dir = newTree(base);
    const [pkg, cwd, dest, target, more] = c.layout;
    const ws = path.join(dir, 'ws'), ctl = path.join(dir, 'ctl');
    const abs = (p) => p.replace('{abs}', dir);
    const pkgDir = path.join(ws, pkg), at = path.join(ws, cwd), targetDir = path.resolve(ws, target);
    const destDir = path.resolve(at, abs(dest ?? './build'));
    const watched = more.map((m) => path.resolve(at, abs(m)));
    const wasm = fs.readFileSync(path.join(env.root, TINY));
    const spot = wasm.indexOf(STAMP + '00000000');
    if (spot < 0) throw Error('harness: no stamp in the program');
    let version = 0;
    const oks = new Set();
    let tool = null;
    const listeners = [];
    const classes = new Set(['run']);
    const id = 'path+file:///ws/app#0.1.0';
    try {
        makeTree(dir, [['ws/Cargo.toml', 'f', ''], ['ws/app/Cargo.toml', 'f', ''], ['ws/app/src/lib.rs', 'f', '0'], ['ws/src/lib.rs', 'f', '0'], ['ws/src/deep/er/x.rs', 'f', '0'], ['ws/app/src/deep/er/x.rs', 'f', '0'], ['ws/lib/src/lib.rs', 'f', '0'], ['shared/a.txt', 'f', '0'], ['home', 'd'],
            ['ctl/metadata.json', 'f', J({ packages: [{ id, name: 'app', manifest_path: path.join(pkgDir, 'Cargo.toml'), targets: [{ kind: ['cdylib', 'rlib'] }] }], workspace_members: [id], target_directory: targetDir, workspace_root: ws })]]);
        for (const d of new Set([path.join(pkgDir, 'src'), path.join(pkgDir, 'src/deep/er'), pkgDir, ...watched])) for (let k = 0; k < 3; k++) { const p = path.join(d, `old-${k}.rs`); fs.writeFileSync(p, 'x'); fs.lchownSync(p, NOBODY, NOBODY); }
        const own = (p) => fs.lchownSync(p, NOBODY, NOBODY);
        /** the next state of the sources, for the stand-in */
        const put = (result, delay) => {
            const v = ++version, d = path.join(ctl, `s${v}`);
            fs.mkdirSync(d); own(d);
            const bytes = Buffer.from(wasm);
            bytes.write(String(v).padStart(8, '0'), spot + STAMP.length, 'latin1');
            const files = { 'app.wasm': bytes, 'run.js': `run ${v % 3}`, version: String(v), delay: String(delay) };
            if (result === 'fail') files.fail = ''; else oks.add(v);
            for (const [n, t] of Object.entries(files)) { fs.writeFileSync(path.join(d, n), t); own(path.join(d, n)); }
            const tmp = path.join(ctl, `l${v}`);
            fs.symlinkSync(d, tmp); own(tmp);
            fs.renameSync(tmp, path.join(ctl, 'cur'));
        };
        let result = c.first;
        put(c.first, c.delay);
        const port = await ownPort(), portWatch = await ownPort();
        const logFile = path.join(base, `watch-${path.basename(dir)}`);
        const log = fs.openSync(logFile, 'w');
        const args = ['watch', ...(c.infer ? [] : ['app']), ...(c.host ? ['--host', c.host] : []), '--port', String(port), '--port-watch', String(portWatch), ...(dest === null ? [] : ['--dest-dir', abs(dest)]), ...more.flatMap((m) => ['--add-watch-path', abs(m)]), '--disable-wasm-opt'];
        tool = spawn('/usr/bin/setpriv', ['--reuid', String(NOBODY), '--regid', String(NOBODY), '--clear-groups', '--no-new-privs', '--pdeathsig', 'SIGKILL', cliPath(env.root), ...args], { cwd: at, stdio: ['ignore', log, log], env: { PATH: `${bin}:/usr/bin:/bin`, HOME: path.join(dir, 'home'), RUST_LOG: 'info', LANG: 'C', VP_CTL: ctl, VP_TARGET: targetDir, SSL_CERT_FILE: '/dev/null' } });
        fs.closeSync(log);
        let gone = null;
        tool.on('exit', (code, sig) => { gone = `${code ?? sig}`; });
        const toolLog = () => fs.readFileSync(logFile, 'utf8').slice(-(Number(process.env.VP_LOG ?? 1500)));
        const builds = () => (fs.existsSync(path.join(ctl, 'log')) ? fs.readFileSync(path.join(ctl, 'log'), 'utf8').trim().split('\n') : []);
        const host = c.host === '127.0.0.2' ? c.host : '127.0.0.1';
        const bad = (m, sig) => fail(`${m}\nlayout: ${J(c.layout)} version ${version} (${result}), builds ${J(builds().slice(-12))}, listeners ${J(listeners.map((l) => [l.got.slice(-8), l.ended ? 'ended' : 'open']))}\n${toolLog()}`, sig);
        const alive = (what) => { if (gone !== null) bad(`${what}: the tool ended with ${gone}`, 'ended'); };
        const get = (p, o = {}) => request(port, { path: p, fresh: true, hostname: host, ...o });
        // the first listener, as soon as it is possible
        const listen = async (what) => {
            const t0 = Date.now();
            for (;;) {
                alive(what);
                const l = new Listener(portWatch, `http://${host}:${port}`);
                while (!l.open && !l.ended) await sleep(10);
                if (l.open) {
                    if (l.status !== 200 || !String(l.type).startsWith('text/event-stream')) bad(`${what}: the address of the messages answers ${l.status} ${l.type}`, 'events');
                    if (l.cors !== '*' && l.cors !== `http://${host}:${port}`) bad(`${what}: a page of the server may not listen: access-control-allow-origin is ${l.cors}`, 'cors');
                    listeners.push(l);
                    const t1 = l.opened = Date.now();
                    while (!l.got.length) { if (Date.now() - t1 > 60000) bad(`${what}: a listener is not told the state`, 'no-state'); await sleep(10); }
                    l.told = Date.now();
                    return l;
                }
                if (Date.now() - t0 > 40000) bad(`${what}: nobody listens at the port for the messages, ${portWatch}`, 'no-events');
                await sleep(50);
            }
        };
        const probe = await listen('start');
        let served = 0, maxServed = 0, newer = 0;
        const stampOf = (text) => { const m = /VP-STAMP-(\d{8})/.exec(text); return m ? Number(m[1]) : null; };
        const checkPage = (what, r) => {
            if (r.status !== 200) bad(`${what}: the page is answered with ${r.status} ${r.body.toString().slice(0, 300)}`, 'page');
            const v = stampOf(r.body.toString());
            if (v === null) bad(`${what}: not the page: ${r.body.toString().slice(0, 300)}`, 'page');
            if (!oks.has(v)) bad(`${what}: the version ${v} was never built`, 'page');
            if (v < maxServed) bad(`${what}: the version ${v} is served after ${maxServed}`, 'older');
            maxServed = v;
            return v;
        };
        const settle = async (what) => {
            const t0 = Date.now();
            let quiet = 0, before = '';
            for (;;) {
                alive(what);
                const b = builds(), now = J([b.length, probe.got.length]);
                const started = b.some((l) => l === `start ${version}`);
                const state = probe.last;
                const done = started && b[b.length - 1]?.startsWith('end') && (result === 'ok' ? state.startsWith('Version') : state === 'Errors');
                if (now !== before || !done) { quiet = Date.now(); before = now; }
                if (done && Date.now() - quiet > 500) break;
                if (b.filter((l) => l.startsWith('start')).length > 4 * (version + 4)) bad(`${what}: it builds again and again`, 'loop');
                if (Date.now() - t0 > 90000) bad(`${what}: ${started ? 'the newest state was built but' : 'the newest state is not built,'} the listener knows ${J(state)}`, 'not-settled');
                await sleep(20);
            }
            for (const l of listeners) {
                if (l.closed) continue;
                if (l.ended) bad(`${what}: a listener lost its connection`, 'lost');
                const t1 = Date.now();
                while (l.last !== probe.last) { if (Date.now() - t1 > 30000) bad(`${what}: one listener knows ${J(l.last)}, another ${J(probe.last)}`, 'listeners'); await sleep(10); }
                const versions = l.got.filter((m) => m !== 'Building' && m !== 'Errors');
                if (versions.some((m) => !m.startsWith('Version'))) bad(`${what}: the messages ${J(versions)}`, 'message');
                if (new Set(versions).size !== versions.length) bad(`${what}: a version is announced twice`, 'twice');
            }
            if (result !== 'ok') { classes.add('failed-build'); return; }
            const r = await get('/~page');
            if (r.error) bad(`${what}: announced, but the page is not served: ${r.error}`, 'not-served');
            const v = checkPage(what, r);
            if (v !== version) bad(`${what}: the version ${v} is served, the newest is ${version}`, 'stale');
            if (v > served) { if (served) newer++; served = v; }
            const plain = await get('/say');
            if (plain.error || plain.status !== 200 || plain.body.toString() !== 'vp-tiny:/say') bad(`${what}: a text of the program is answered with ${plain.error ?? plain.status} ${J(plain.body?.toString().slice(0, 200))}`, 'plain');
            // the page
            let doc;
            try { doc = parseDocument(r.body.toString()); } catch (e) { if (!(e instanceof Malformed)) throw e; bad(`${what}: a browser would not read the page as it is written: ${e.message}\n${r.body.toString().slice(0, 300)}`, 'malformed'); }
            const scripts = scriptsOf(doc);
            const wasmPath = attr(scripts.find((x) => attr(x, 'data-vertigo-run-wasm')), 'data-vertigo-run-wasm'), runPath = attr(scripts.find((x) => attr(x, 'src')), 'src');
            for (const [p, f] of [[wasmPath, 'app.wasm'], [runPath, 'run.js']]) {
                const a = await get(p ?? '/missing');
                if (a.error || a.status !== 200 || !a.body.equals(fs.readFileSync(path.join(ctl, 'cur', f)))) bad(`${what}: the file ${p} of the page is answered with ${a.error ?? a.status}, ${a.body?.length} bytes`, 'file');
            }
            if (env.capture) env.capture.script = scripts.map(text).find((t) => t.includes('EventSource'));
            // the script that listens: last in the body, whole, once
            const watchers = scripts.filter((x) => text(x).includes('EventSource'));
            if (watchers.length !== 1) bad(`${what}: the page has ${watchers.length} scripts that listen`, 'script');
            const own = scripts.find((x) => text(x).includes('var s'));
            if (!own || text(own) !== "var s = '</body>';") bad(`${what}: the script of the page is ${J(own && text(own).slice(0, 200))}`, 'content');
            const p = all(doc).find((n) => n.localName === 'p');
            if (!p || attr(p, 'title') !== 'a </body> b' || !all(doc).find((n) => n.localName === 'i' && text(n) === 'end')) bad(`${what}: the content of the page is changed: ${r.body.toString().slice(0, 400)}`, 'content');
            const urls = [];
            vm.runInNewContext(text(watchers[0]), { EventSource: class { constructor(u) { urls.push(String(u)); } }, console: { info() {}, error() {} }, document: {}, window: {} });
            if (urls.length !== 1 || !/^http:\/\/(127\.0\.0\.1|localhost):\d+\/events$/.test(urls[0]) || new URL(urls[0]).port !== String(portWatch)) bad(`${what}: the page listens to ${urls}, the messages are at port ${portWatch}`, 'listens');
        };
        const touch = (where, style, k) => {
            const dirs = where === 'more' && watched.length ? watched : [path.join(pkgDir, 'src'), path.join(pkgDir, 'src/deep/er'), pkgDir];
            const d = dirs[k % dirs.length];
            const made = (p) => { own(p); return p; };
            const name = path.join(d, `e${k}.rs`);
            switch (style) {
                case 'write': fs.writeFileSync(name, `v${version}`); made(name); break;
                case 'rename': { const t = path.join(dir, 'tmp-file'); fs.writeFileSync(t, `v${version}`); made(t); fs.renameSync(t, name); break; }
                case 'new': fs.writeFileSync(made2(path.join(d, `n${version}.rs`)), 'x'); break;
                case 'delete': if (!fs.existsSync(name)) fs.writeFileSync(name, 'x'); fs.rmSync(name); break;
                // nothing is written
                case 'remove': case 'away': {
                    const o = fs.readdirSync(d).find((x) => x.startsWith('old-'));
                    if (!o) { fs.writeFileSync(name, `w${version}`); made(name); } else if (style === 'remove') fs.rmSync(path.join(d, o)); else fs.renameSync(path.join(d, o), path.join(dir, `gone${version}`));
                    break;
                }
                default: fs.mkdirSync(path.join(d, `d${version}`)); made(path.join(d, `d${version}`)); fs.writeFileSync(path.join(d, `d${version}`, 'x.rs'), 'x');
            }
        };
        const made2 = (p) => { fs.writeFileSync(p, ''); own(p); return p; };
        if (c.settled) await settle('start');
        let n = 0;
        for (const o of c.ops) {
            const what = `operation ${n++} ${J(o)}`;
            alive(what);
            if (o[0] === 'edit') {
                const before = builds();
                if (before.length && before[before.length - 1].startsWith('start')) classes.add('during-build');
                result = o[2];
                put(o[2], o[3]);
                touch(o[1], o[4], o[5]);
            } else if (o[0] === 'wait') await sleep(o[1]);
            else if (o[0] === 'settle') await settle(what);
            else if (o[0] === 'join') {
                // a page opened while a long build runs
                if (listeners.length > 5) continue;
                result = o[1];
                put(o[1], 5);
                touch('pkg', 'write', 0);
                const v = version, t0 = Date.now();
                while (!builds().includes(`start ${v}`)) { alive(what); if (Date.now() - t0 > 60000) bad(`${what}: the newest state is not built`, 'not-settled'); await sleep(10); }
                const t1 = Date.now(), l = await listen(what);
                // told while the build still runs, and told the truth
                if (l.told - t1 > 4000) bad(`${what}: a page opened during a build of 5 s is told something only ${l.told - t1} ms after its start`, 'joined');
                if (l.got[0] !== 'Building') bad(`${what}: a page opened during a build is told ${J(l.got[0])} first`, 'joined');
                classes.add('joined');
            } else if (o[0] === 'client') { if (listeners.length < 6) await listen(what); } else if (o[0] === 'leave') { const l = listeners.slice(1).find((x) => !x.closed); if (l) l.close(); } else if (o[0] === 'get') {
                const r = await get('/~page', { again: true });
                if (!r.error) { checkPage(what, r); classes.add('asked'); }
            } else if (o[0] === 'noise') {
                const d = o[1] === 'dest' ? destDir : targetDir;
                if (fs.existsSync(d)) { try { fs.writeFileSync(path.join(d, 'noise'), String(n)); own(path.join(d, 'noise')); } catch (e) { if (e.code !== 'ENOENT') throw e; } }
            }
        }
        await settle('end');
        for (let i = 0; ; i++) {
            const count = builds().length;
            for (const d of [destDir, targetDir]) if (fs.existsSync(d)) { fs.writeFileSync(path.join(d, 'noise2'), String(i)); own(path.join(d, 'noise2')); }
            await sleep(400);
            if (builds().length === count) break;
            if (i > 2) bad('at the end: a file in the destination or the target folder starts a build', 'noise');
            await settle('end again');
        }
        alive('at the end');
        if (more.length) classes.add('more');
        fs.rmSync(logFile, { force: true });
        return { nontrivial: newer > 0, classes: [...classes] };
    } finally {
        for (const l of listeners) l.close();
        tool?.kill('SIGKILL');
        if (tool && tool.exitCode === null && tool.signalCode === null) await new Promise((r) => { tool.on('exit', r); setTimeout(r, 5000); });
        // what the stand-in still writes
        for (let i = 0; ; i++) { try { removeTree(dir); break; } catch (e) { if (i > 50) throw e; await sleep(50); } }
    }
};
const all = (doc) => { const out = []; const go = (n) => { for (const c of n.childNodes) { if (c instanceof D.Element_) { out.push(c); go(c); } } }; go(doc); return out; };
const scriptsOf = (doc) => all(doc).filter((n) => n.localName === 'script');
const attr = (n, k) => n?.getAttribute(k) ?? null;
const text = (n) => n.textContent;

/** the script of the page, with messages as they come */
const runPage = (c, env) => {
    const source = env.extra.script;
    if (!source) return { nontrivial: false, classes: ['page-without-script'] };
    const doc = new D.Document_();
    let reloads = 0;
    const sources = [];
    const window = { location: { reload() { reloads++; } } };
    window.document = doc;
    const errors = [];
    doc.onError = (e) => errors.push(String(e));
    class EventSource extends D.EventTarget_ { constructor(u) { super(); this.url = u; sources.push(this); } close() { this.closed = true; } }
    doc.body.appendChild(doc.createElement('p')).appendChild(doc.createTextNode('content'));
    vm.runInNewContext(source, { EventSource, console: { info() {}, error(...a) { errors.push(a.join(' ')); }, log() {}, warn() {} }, document: doc, window, location: window.location });
    if (sources.length !== 1) fail(`the page listens ${sources.length} times`, 'page-listens');
    const es = sources[0];
    const overlay = () => all(doc).filter((n) => n.parentNode && (n.parentNode === doc.documentElement || n.parentNode === doc.body) && n !== doc.head && n !== doc.body && n.localName !== 'p' && visible(n));
    const visible = (n) => n.textContent !== '' && !/display\s*:\s*none/.test(attr(n, 'style') ?? '');
    const covers = () => all(doc).filter((n) => /position\s*:\s*fixed/.test(attr(n, 'style') ?? '') && !/display\s*:\s*none/.test(attr(n, 'style') ?? ''));
    let n = 0, version = 0, heard = null, first = true, shown = null;
    const texts = {};
    const classes = new Set(['page']);
    let step = 0, nontrivial = false;
    for (const o of c.ops) {
        const what = `operation ${step++} ${J(o)} of ${J(c.ops)}`;
        const before = reloads;
        let must = null;
        if (o[0] === 'm' || o[0] === 'same') {
            if (o[0] === 'same' && heard === null) continue;
            const repeated = o[0] === 'same';
            const kind = repeated ? heard : o[1];
            if (kind === 'Version' && !repeated) n = Math.max(n + 1, version + (o[2] || 1));
            if (kind === 'Version') { must = repeated ? null : !first; if (!repeated) version = n; } else { must = false; shown = kind; }
            heard = kind;
            const event = new D.Event_('message');
            event.data = kind === 'Version' ? `Version = ${version}` : kind;
            if (typeof es.onmessage === 'function') es.onmessage(event);
            es.fire(event, doc.onError);
            first = false;
        } else {
            // closes the message
            if (shown !== 'Errors') continue;
            const buttons = all(doc).filter((x) => x.listeners.has('click'));
            if (!buttons.length) fail(`${what}: the message of a failed build cannot be closed`, 'page-close');
            doc.dispatch(buttons[0], new D.Event_('click', { bubbles: true }));
            shown = null;
            must = false;
            classes.add('closed');
        }
        if (errors.length) fail(`${what}: ${errors}`, 'page-error');
        if (must !== null && (reloads > before) !== must) fail(`${what}: the page ${must ? 'is not loaded again' : 'is loaded again'}`, must ? 'page-no-reload' : 'page-reload');
        if (doc.body.textContent !== 'content' && overlay().length === 0) fail(`${what}: the content of the page is ${J(doc.body.textContent)}`, 'page-content');
        if (reloads > before) { nontrivial = true; classes.add('reloaded'); break; }
        const over = overlay();
        if (over.length !== (shown ? 1 : 0)) fail(`${what}: ${over.length} messages are shown on the page: ${J(over.map((x) => x.textContent))}`, 'page-overlay');
        if (!shown && covers().length) fail(`${what}: the page is still covered`, 'page-covered');
        if (shown) {
            const t = over[0].textContent;
            if (!covers().includes(over[0])) fail(`${what}: the message does not cover the page`, 'page-covered');
            if ((texts[shown] ??= t) !== t || (texts.Building !== undefined && texts.Building === texts.Errors)) fail(`${what}: ${shown} shows ${J(t)}, ${J(texts)}`, 'page-text');
            classes.add(shown);
        }
    }
    return { nontrivial, classes: [...classes] };
};
