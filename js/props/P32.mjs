// `vertigo build`: what lies in the destination folder afterwards.
import { spawnSync } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import { fail } from '../engine.mjs';
import { cliBase, difference, makeTree, newTree, removeTree, runCli, snapshot, NOBODY } from '../cli.mjs';
import { request, startServer } from '../ssr.mjs';
import { J } from './hostprop.mjs';

const NAMES = ['app', 'my-app', 'my_app', 'a', 'x-y-z', 'app2', 'lib-common', 'vertigo-demo'];
const PUBLIC = [null, '/build', '/x/y', '', '/b-1', '/build.d', 'https://cdn.example/x', '/a b', '/ż'];
const DESTS = [null, './build', 'out', 'out/', 'a/b/c', '{abs}/dest', 'with space', './x/./built'];
const INC = ['img.AbC_-9.png', 'font.x.woff2', 'a b.c.txt', 'żółw.x.svg', 'data.h.json', '.hid.x.css', 'noext', 'wasm_run.x.js'];
const REAL_FILES = ['a.txt', 'b.c.txt', 'sub/a.txt', 'sub/deep/x.css', 'img.png', 'a b.txt', 'żółw.svg', 'noext', '.hidden', 'LICENSE', "q'uote.txt", 'font.woff2', '../up.txt', 'sub/noext', 'dot.', 'x.tar.gz'];

const text = (s) => s.weighted([[3, () => `content ${s.draw(4)}`], [1, () => ''], [1, () => 'ż\u2028"\\' + s.draw(3)], [1, () => 'x'.repeat(s.int(1, 5000))]])();
const pack = (s, name) => ({ name, cd: s.weighted([[3, 'cdylib'], [1, 'rlib'], [1, 'lib'], [1, 'bin'], [0.5, 'proc-macro'], [1, 'both']]) });
const build = (s, c) => ({
    // what changed since the last one
    ch: s.list(0, 4, () => s.pick(['wasm', 'run', 'inc', 'map', 'stamp'])  , 1.2).map((k) => [k, s.draw(4)]),
    pkg: s.weighted([[3, null], [3, s.pick(c.members).name], [0.4, s.pick(['nosuch', ...c.external.map((x) => x.name)])]]),
    pub: s.weighted([[2, null], [3, s.pick(PUBLIC)]]), dest: s.weighted([[2, c.dest], [1, s.pick(DESTS)]]),
    noopt: s.weighted([[3, null], [1, '--disable-wasm-opt'], [1, '-d']]), map: s.bool(0.3), order: s.draw(6),
    opt: s.weighted([[3, 'ok'], [2, 'absent'], [1, 'fail'], [1, 'partial']]),
    rustup: s.weighted([[6, 'in'], [2, 'add'], [0.6, 'addfail'], [0.4, 'missing']]),
    bad: s.weighted([[10, null], [1, 'build'], [0.7, 'meta'], [0.3, 'nocargo']]),
});
const sim = (s) => {
    const names = s.shuffle(NAMES);
    const members = [], external = [];
    for (let n = s.int(1, 4); n > 0; n--) members.push({ ...pack(s, names.pop()), wasm: text(s), inc: s.list(0, 4, () => [s.pick(INC), text(s)], 1.5).filter(([n], i, l) => l.findIndex((x) => x[0] === n) === i) });
    for (let n = s.draw(3); n > 0; n--) external.push(pack(s, names.pop()));
    const c = { k: 'sim', members, external, run: text(s), mapText: s.pick(['{"file":"wasm_run.js","sources":[]}', '{"file":"wasm_run.js","x":["wasm_run.js","wasm_run_js","ż"]}', '{}']), shuffle: s.draw(6), cwd: s.weighted([[3, ''], [1, 'sub/dir'], [1, 'crates/member']]), target: s.weighted([[3, 'target'], [1, '../elsewhere'], [0.5, 'sub/t g']]), dest: s.pick(DESTS), stale: s.list(0, 3, () => s.pick(['index.json', 'old.wasm', 'sub/old', '.hidden', 'wasm_run.OLD.js']), 1) };
    return { ...c, builds: s.list(1, 5, () => build(s, c), 2.5) };
};
const real = (s) => ({
    k: 'real', elsewhere: s.bool(0.4), rounds: s.list(1, 3, () => ({
        files: s.list(0, 8, () => [s.pick(REAL_FILES), s.weighted([[3, () => [0, text(s)]], [1, () => [1, s.list(0, 40, () => s.draw(256), 10)]]])()], 4).filter(([n], i, l) => l.findIndex((x) => x[0] === n) === i),
        pub: s.pick(['/build', '/x/y', '/b-1']), map: s.bool(0.3),
    }), 1.7),
});
const sh = (script, o) => { const r = spawnSync('/bin/bash', ['-c', script], { maxBuffer: 1 << 24, ...o }); if (r.error) throw r.error; return r; };
export default {
    id: 'P32', quick: 400, thorough: 12000, hangS: 400, shrinkTries: 150, shrinkMs: 120000,
    rule: 'Workspaces with 1-4 members and foreign packages, and 1-5 builds whose inputs, package, folders, public address and options change, with stand-ins for cargo, rustup and wasm-opt that may be absent or fail; plus real programs with included files, compiled by the real compiler, packed by the tool and asked for over http. Non-trivial = two builds with different content succeed, or a real program with at least two files.',
    assumptions: ['packages are built as cdylib together with rlib, as in the project template', 'cargo builds a package again if its library file is missing (stand-in)', 'the destination is not a link'],
    async prepare({ root }) {
        const base = cliBase(root);
        const bin = path.join(base, 'bin');
        fs.cpSync(path.join(root, 'tools/standin'), bin, { recursive: true });
        sh(`chmod -R a+rX ${J(bin)}`);
        const proj = path.join(base, 'proj');
        fs.cpSync(process.env.VP_REAL ?? path.join(root, 'real'), proj, { recursive: true });
        return { base, bin, proj };
    },
    generate: (s) => s.weighted([[1, () => sim(s)], [0.03, () => real(s)]])(),
    run: async (c, env) => (c.k === 'sim' ? runSim(c, env) : runReal(c, env)),
};
/** what may change a stage between builds */
const runSim = async (c, env) => {
    const dir = newTree(env.extra.base);
    const classes = new Set();
    let okBuilds = 0;
    const named = new Map();
    const contents = new Set();
    try {
        const ws = path.join(dir, 'ws');
        const ctl = path.join(dir, 'ctl');
        const target = path.resolve(ws, c.target);
        const rest = [['ws/Cargo.toml', 'f', '[workspace]'], ['ws/src/lib.rs', 'f', 'mine'], ['ws/sub/dir/notes', 'f', 'mine'], ['ws/crates/member/src/lib.rs', 'f', 'mine'], ['ws/out-other/file', 'f', 'mine'], ['ctl', 'd'], ['home', 'd']];
        makeTree(dir, rest);
        const state = { wasm: new Map(c.members.map((m) => [m.name, m.wasm])), inc: new Map(c.members.map((m) => [m.name, m.inc])), run: c.run, map: c.mapText, stamp: 0 };
        const cwd = path.join(ws, c.cwd);
        let staleDone = false;
        for (const [n, b] of c.builds.entries()) {
            const what = `build ${n} (${J(b)})`;
            for (const [k, v] of b.ch) {
                if (k === 'wasm') for (const m of c.members) state.wasm.set(m.name, `changed ${v} ${m.name.length}`);
                if (k === 'run') state.run = `run ${v}`;
                if (k === 'inc') for (const m of c.members) state.inc.set(m.name, state.inc.get(m.name).map(([f, t], i) => [f, i % 2 ? t : `changed ${v}`]));
                if (k === 'map') state.map = `{"version":${v},"file":"wasm_run.js"}`;
            }
            sh(`rm -rf ${J(ctl)}/*`);
            const dest = path.resolve(cwd, (b.dest ?? './build').replace('{abs}', dir));
            if (!staleDone && c.stale.length) { makeTree(dir, c.stale.map((f) => [path.relative(dir, path.join(dest, f)), 'f', 'stale'])); staleDone = true; }
            const pk = (p, member) => ({ id: `${member ? 'path+file:///ws/' : 'registry+x#'}${p.name}@0.1.0`, name: p.name, version: '0.1.0', manifest_path: `${ws}/${p.name}/Cargo.toml`, targets: [{ kind: p.cd === 'both' ? ['cdylib', 'rlib'] : [p.cd], name: p.name.replaceAll('-', '_'), crate_types: [p.cd] }, { kind: ['test'], name: 't', crate_types: ['bin'] }], dependencies: [] });
            const packages = [...c.members.map((m) => pk(m, true)), ...c.external.map((m) => pk(m, false))];
            const ids = packages.slice(0, c.members.length).map((x) => x.id);
            const order = c.shuffle ? packages.map((x, i) => [((i + 1) * 7 * c.shuffle) % 11, x]).sort((x, y) => x[0] - y[0]).map((x) => x[1]) : packages;
            const files = { 'metadata.json': J({ packages: order, workspace_members: ids, workspace_default_members: ids, resolve: null, target_directory: target, version: 1, workspace_root: ws, metadata: null }), 'wasm_run.js': state.run, 'wasm_run.js.map': state.map, opt: b.opt, targets: `aarch64-linux-android\nwasm32-unknown-emscripten${b.rustup === 'in' ? '' : ' (installed)'}\n${b.rustup === 'missing' ? '' : `wasm32-unknown-unknown${b.rustup === 'in' ? ' (installed)' : ''}\n`}wasm32-wasi (installed)\nx86_64-unknown-linux-gnu (installed)\n` };
            if (b.bad === 'build') files.buildfail = '';
            if (b.bad === 'meta') files.metafail = '';
            if (b.rustup === 'addfail') files.addfail = '';
            for (const m of c.members) {
                files[`src/${m.name}/wasm`] = state.wasm.get(m.name);
                files[`src/${m.name}/stamp`] = J([state.wasm.get(m.name), state.inc.get(m.name)]);
                for (const [f, t] of state.inc.get(m.name)) files[`src/${m.name}/included/${f}`] = t;
                fs.mkdirSync(path.join(ctl, 'src', m.name, 'included'), { recursive: true });
            }
            makeTree(dir, Object.entries(files).map(([f, t]) => ['ctl/' + f, 'f', t]));
            const pub = b.pub ?? '/build';
            const args = [...(b.pkg !== null ? [[b.pkg]] : []), ...(b.pub !== null ? [['--public-path', b.pub]] : []), ...(b.dest !== null ? [['--dest-dir', b.dest.replace('{abs}', dir)]] : []), ...(b.noopt ? [[b.noopt]] : []), ...(b.map ? [['--wasm-run-source-map']] : [])];
            const rotated = args.slice(b.order % (args.length || 1)).concat(args.slice(0, b.order % (args.length || 1))).flat();
            const outside = () => new Map([...snapshot(dir)].filter(([p]) => !under(path.join(dir, p), dest) && !under(path.join(dir, p), target) && !p.startsWith('ctl/') && !(under(dest, path.join(dir, p)) || under(target, path.join(dir, p)))));
            const inDest = () => (fs.existsSync(dest) ? snapshot(dest) : null);
            const before = outside(), destBefore = inDest();
            const bin = env.extra.bin;
            const r = runCli(env.root, ['build', ...rotated], { cwd, path: b.bad === 'nocargo' ? '/nonexistent' : `${bin}${b.opt === 'absent' ? '' : `:${bin}/opt`}:/usr/bin:/bin`, home: path.join(dir, 'home'), env: { VP_CTL: ctl, VP_TARGET: target, ...(c.target === 'target' ? {} : { CARGO_TARGET_DIR: target }) }, timeout: 100000 });
            if (r.error) throw Error(`cannot run the tool: ${r.error}`);
            if (r.late) fail(`${what}: the tool does not end`, 'late');
            const log = fs.existsSync(path.join(ctl, 'log')) ? fs.readFileSync(path.join(ctl, 'log'), 'utf8').trim().split('\n') : [];
            if (log.some((l) => l.startsWith('stand-in'))) throw Error(`the stand-in does not know the call: ${log}`);
            const moved = difference(before, outside());
            if (moved) fail(`${what}: outside of the destination, ${moved}`, 'outside');
            // which package
            const candidates = c.members.filter((m) => m.cd === 'cdylib' || m.cd === 'both');
            const pkg = b.pkg ?? candidates[0]?.name;
            const early = b.bad === 'meta' || b.bad === 'nocargo' || pkg === undefined || b.rustup === 'addfail';
            if (early || b.bad === 'build' || !c.members.some((m) => m.name === pkg)) {
                if (r.code === 0) fail(`${what}: ends with 0 although the build cannot succeed: ${r.text.slice(-600)}`, 'not-failed');
                if (early) {
                    const now = inDest();
                    if ((destBefore === null) !== (now === null) || (now && difference(destBefore, now))) fail(`${what}: fails before building, but ${now && destBefore ? difference(destBefore, now) : 'the destination is ' + (now ? 'made' : 'gone')}`, 'dest-touched');
                }
                classes.add('failed');
                continue;
            }
            if (r.code !== 0) fail(`${what}: ends with ${r.code}: ${r.text.slice(-900)}`, 'failed');
            if ((b.rustup === 'add' || b.rustup === 'missing') !== log.includes('rustup target add wasm32-unknown-unknown')) fail(`${what}: the target is installed although it was there, or the other way round: ${J(log)}`, 'rustup');
            const raw = `${state.wasm.get(pkg)}\nPUBLIC:${pub}`;
            const optimized = !b.noopt && b.opt === 'ok';
            const wasm = optimized ? `OPT(${raw})` : raw;
            const got = inDest();
            const bad = (m, sig) => fail(`${what}: ${m}\nfiles: ${J([...got.keys()])}\nlog: ${J(log)}`, sig);
            const bytes = (f) => { const v = got.get(f); return v === undefined ? undefined : Buffer.from(v.replace(/^file \d+ /, ''), 'latin1').toString('utf8'); };
            if (!got || !got.has('index.json')) bad('there is no index.json', 'index');
            let index;
            try { index = JSON.parse(bytes('index.json')); } catch (e) { bad(`index.json: ${e.message}`, 'index'); }
            if (J(Object.keys(index).sort()) !== J(['run_js', 'wasm'])) bad(`index.json: ${J(index)}`, 'index');
            const expected = new Map([['index.json', null]]);
            for (const [what2, address, stem, ext, content] of [['the runtime', index.run_js, 'wasm_run', '.js', state.run], ['the program', index.wasm, pkg.replaceAll('-', '_'), '.wasm', wasm]]) {
                if (!address.startsWith(pub + '/')) bad(`${what2} is said to be at ${J(address)}, not below ${J(pub)}`, 'address');
                const file = address.slice(pub.length + 1);
                if (!file.startsWith(stem + '.') || !file.endsWith(ext) || !/^[A-Za-z0-9_-]{6,}$/.test(file.slice(stem.length + 1, -ext.length))) bad(`${what2} has the name ${file}`, 'name');
                if (!got.has(file)) bad(`${what2} is said to be at ${file}, which does not exist`, 'missing');
                if (bytes(file) !== content) bad(`${what2} is ${J(bytes(file)?.slice(0, 200))} instead of ${J(content.slice(0, 200))}`, 'content');
                // one name for one content
                const key = J([stem, content]);
                if (named.has(key) && named.get(key) !== file) bad(`${what2} had the name ${named.get(key)} and has the name ${file} with the same content`, 'name-differs');
                for (const [k, v] of named) if (v === file && k !== key) bad(`${file} was the name of another content`, 'name-same');
                named.set(key, file);
                expected.set(file, null);
            }
            if (b.map) {
                const want = state.map.replaceAll('wasm_run.js', index.run_js.slice(pub.length + 1));
                if (bytes('wasm_run.js.map') !== want) bad(`the source map is ${J(bytes('wasm_run.js.map'))} instead of ${J(want)}`, 'map');
                expected.set('wasm_run.js.map', null);
            }
            for (const [f, t] of state.inc.get(pkg)) {
                if (bytes(f) !== t) bad(`the included file ${f} is ${J(bytes(f)?.slice(0, 200))} instead of ${J(t.slice(0, 200))}`, 'included');
                expected.set(f, null);
            }
            if (b.opt === 'partial' && !b.noopt) expected.set(pkg.replaceAll('-', '_') + '.wasm', null);
            for (const f of got.keys()) if (!expected.has(f)) bad(`${f} does not belong there`, 'left-over');
            if (b.noopt && log.some((l) => l.startsWith('wasm-opt'))) bad('wasm-opt is used although switched off', 'opt');
            okBuilds++;
            contents.add(J([wasm, state.run]));
            classes.add(optimized ? 'optimized' : 'plain').add(b.pkg === null ? 'inferred' : 'named');
            if (c.cwd) classes.add('subfolder');
            if (c.target !== 'target') classes.add('other-target');
        }
    } finally { removeTree(dir); }
    return { nontrivial: okBuilds > 1 && contents.size > 1, classes: [...classes], evaluations: c.builds.length };
};
const under = (p, d) => p === d || p.startsWith(d + '/');
const TOOLCHAIN = { PATH: '/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin', HOME: '/root', RUSTUP_TOOLCHAIN: 'nightly-2024-07-01', CARGO_NET_OFFLINE: 'true', CARGO_INCREMENTAL: '0', CARGO_PROFILE_RELEASE_DEBUG: '0' };
/** programs with included files: the real compiler makes them, the tool packs them, the server delivers them */
const runReal = async (c, env) => {
    const { base, proj } = env.extra;
    const dir = newTree(base);
    let most = 0;
    try {
        for (const [n, r] of c.rounds.entries()) {
            const what = `round ${n}`;
            const target = c.elsewhere ? path.join(base, 'proj-target') : path.join(proj, 'target');
            const data = (b) => (b[0] === 0 ? Buffer.from(b[1]) : Buffer.from(b[1]));
            const src = `use vertigo::{dom, get_driver, include_static, main, DomNode};
#[main]
fn program() -> DomNode {
    let files: Vec<&str> = vec![${r.files.map(([f]) => `include_static!(${J('../files/' + f)})`).join(', ')}];
    get_driver().plains(move |url| if url == "/~list" { Some(files.join("\\n")) } else { None });
    dom! { <html><head/><body>"vp-real"</body></html> }
}
`;
            fs.rmSync(path.join(dir, 'stage'), { recursive: true, force: true });
            const stage = path.join(dir, 'stage');
            fs.mkdirSync(path.join(stage, 'files'), { recursive: true });
            fs.writeFileSync(path.join(stage, 'lib.rs'), src);
            for (const [f, b] of r.files) { const p = path.join(stage, 'files', f); fs.mkdirSync(path.dirname(p), { recursive: true }); fs.writeFileSync(p, data(b)); }
            // one build at a time; the result is copied away
            const script = `exec 8>${J(base + '/.real')}; flock 8; cd ${J(proj)} && rm -rf files up.txt && cp -r ${J(stage)}/files files && { [ ! -f ${J(stage)}/up.txt ] || cp ${J(stage)}/up.txt up.txt; } && cp ${J(stage)}/lib.rs src/lib.rs && touch src/lib.rs && rm -f ${J(target)}/wasm32-unknown-unknown/release/deps/libvp_real.rlib && cargo build -q --offline --release --target wasm32-unknown-unknown --package vp-real && mkdir -p ${J(stage)}/out && cp -r ${J(target)}/wasm32-unknown-unknown/release/static ${J(target)}/wasm32-unknown-unknown/release/vp_real.wasm ${J(stage)}/out/`;
            const built = sh(script, { env: { ...TOOLCHAIN, VERTIGO_PUBLIC_PATH: r.pub, ...(c.elsewhere ? { CARGO_TARGET_DIR: target } : {}) }, timeout: 380000 });
            if (built.status !== 0) fail(`${what}: the program with the files ${J(r.files.map((x) => x[0]))} is not compiled${c.elsewhere ? ' into another target folder' : ''}: ${String(built.stderr).slice(-1500)}`, 'compile');
            // the tool
            const out = path.join(stage, 'out');
            const ws = path.join(dir, 'ws'), ctl = path.join(dir, 'ctl');
            sh(`rm -rf ${J(ws)} ${J(ctl)}`);
            const inc = fs.readdirSync(path.join(out, 'static/included'));
            const id = 'path+file:///ws#vp-real@0.0.0';
            fs.mkdirSync(path.join(ctl, 'src/vp-real/included'), { recursive: true });
            for (const f of inc) fs.copyFileSync(path.join(out, 'static/included', f), path.join(ctl, 'src/vp-real/included', f));
            fs.copyFileSync(path.join(out, 'vp_real.wasm'), path.join(ctl, 'src/vp-real/wasm'));
            for (const f of ['wasm_run.js', 'wasm_run.js.map']) fs.copyFileSync(path.join(out, 'static', f), path.join(ctl, f));
            makeTree(dir, [['ws/Cargo.toml', 'f', ''], ['home', 'd'], ['ctl/verbatim', 'f', ''], ['ctl/src/vp-real/stamp', 'f', ''], ['ctl/opt', 'f', 'ok'], ['ctl/targets', 'f', 'wasm32-unknown-unknown (installed)\n'],
                ['ctl/metadata.json', 'f', J({ packages: [{ id, name: 'vp-real', manifest_path: ws + '/Cargo.toml', targets: [{ kind: ['cdylib', 'rlib'] }] }], workspace_members: [id], target_directory: ws + '/target', workspace_root: ws })]]);
            const t = runCli(env.root, ['build', '--public-path', r.pub, ...(r.map ? ['--wasm-run-source-map'] : [])], { cwd: ws, path: `${env.extra.bin}:/usr/bin:/bin`, home: path.join(dir, 'home'), env: { VP_CTL: ctl, VP_TARGET: ws + '/target' }, timeout: 100000 });
            if (t.code !== 0) fail(`${what}: packing ends with ${t.code}: ${t.text.slice(-900)}`, 'pack');
            // the server
            const dest = path.join(ws, 'build');
            const server = await startServer(env.root, { base, dest, mount: r.pub });
            try {
                const ask = async (p) => { const x = await request(server.port, { path: p }); if (x.error || x.status !== 200) fail(`${what}: ${p} is answered ${x.error ?? x.status} ${String(x.body ?? '').slice(0, 200)}`, 'served'); return x.body; };
                const index = JSON.parse(fs.readFileSync(path.join(dest, 'index.json'), 'utf8'));
                for (const [p, f] of [[index.run_js, 'static/wasm_run.js'], [index.wasm, 'vp_real.wasm']]) if (!(await ask(p)).equals(fs.readFileSync(path.join(out, f)))) fail(`${what}: ${p} has other bytes than ${f}`, 'bytes');
                const list = (await ask('/~list')).toString();
                const addresses = r.files.length ? list.split('\n') : [];
                if (addresses.length !== r.files.length) fail(`${what}: the program knows ${J(list)} instead of ${r.files.length} addresses`, 'list');
                for (const [i, [f, b]] of r.files.entries()) {
                    if (!addresses[i].startsWith(r.pub + '/')) fail(`${what}: the file ${f} is said to be at ${J(addresses[i])}, not below ${r.pub}`, 'address');
                    const x = await ask(encodeURI(addresses[i]).replace(/[?#]/g, encodeURIComponent));
                    if (!x.equals(data(b))) fail(`${what}: ${addresses[i]} is ${J(x.toString('latin1').slice(0, 200))} instead of the content of ${f}`, 'included');
                    if (path.extname(addresses[i]) !== path.extname(f) && path.extname(f) !== '.' && path.extname(f)) fail(`${what}: ${f} got the name ${addresses[i]}`, 'extension');
                }
                const page = (await ask('/')).toString();
                if (!page.includes(index.run_js) || !page.includes(index.wasm)) fail(`${what}: the page does not start the program: ${page.slice(0, 600)}`, 'page');
            } finally { server.stop(); }
            most = Math.max(most, r.files.length);
        }
    } finally { removeTree(dir); }
    return { nontrivial: most > 1, classes: ['real', ...(c.elsewhere ? ['real-elsewhere'] : [])], evaluations: c.rounds.length };
};
