// Generated Rust programs that use the macros: compiled in batches, run one by one in the simulated browser.
import { spawn } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import os from 'node:os';
import { fail, generate, hash, toJson } from './engine.mjs';
import { Browser } from './host.mjs';

const BATCH = 40;
const key = (source) => (hash(source) * 2097152 + (hash('x' + source) & 2097151)).toString(36);
/** a Rust string literal */
export const lit = (s) => '"' + [...s].map((c) => (c === '"' || c === '\\' ? '\\' + c : c === '\n' ? '\\n' : c === '\t' ? '\\t' : c === '\r' ? '\\r' : /[\u0000-\u001f\u007f-\u009f\u200b-\u200f\u2028-\u202e\u2060-\u2069\ufeff]/.test(c) ? `\\u{${c.codePointAt(0).toString(16)}}` : c)).join('') + '"';

const cargo = (dir, target, jobs) => new Promise((resolve, reject) => {
    const env = { ...process.env, PATH: `/root/.cargo/bin:${process.env.PATH}`, RUSTUP_TOOLCHAIN: 'nightly-2024-07-01', CARGO_NET_OFFLINE: 'true', CARGO_TERM_COLOR: 'never', RUSTC_WRAPPER: '', CARGO_INCREMENTAL: '0' };
    for (const k of ['RUSTC', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS']) delete env[k];
    const p = spawn('cargo', ['build', '-q', '--target', 'wasm32-unknown-unknown', '--target-dir', target, '--offline', '--keep-going', '--message-format=json', '-j', String(jobs)], { cwd: dir, env, stdio: ['ignore', 'pipe', 'pipe'] });
    let out = '', err = '';
    p.stdout.setEncoding('utf8').on('data', (d) => { out += d; });
    p.stderr.setEncoding('utf8').on('data', (d) => { err += d; });
    p.on('error', reject);
    p.on('close', (code) => resolve({ code, out, err }));
});
const PROFILE = '[profile.dev]\nopt-level = 0\ndebug = false\npanic = "abort"\nstrip = true\noverflow-checks = false\ndebug-assertions = false\nincremental = false\ncodegen-units = 16\n[profile.dev.package."*"]\nopt-level = 1\n[profile.dev.build-override]\nopt-level = 0\n';
const writeIfNew = (file, text) => { if (!fs.existsSync(file) || fs.readFileSync(file, 'utf8') !== text) fs.writeFileSync(file, text); };
const writeCrate = (root, dir, name, sources) => {
    fs.mkdirSync(path.join(dir, 'src'), { recursive: true });
    fs.writeFileSync(path.join(dir, 'Cargo.toml'), `[package]\nname = "${name}"\nversion = "0.0.0"\nedition = "2021"\npublish = false\n[lib]\ncrate-type = ["cdylib"]\n[dependencies]\nvertigo = { path = "${process.env.VP_REPO ?? "/repo"}/crates/vertigo" }\n`);
    writeIfNew(path.join(dir, 'src/rt.rs'), fs.readFileSync(path.join(root, 'macros/rt.rs'), 'utf8'));
    const left = sources.map((s, i) => [i, s]).filter(([, s]) => s !== null);
    for (const [i, s] of left) writeIfNew(path.join(dir, `src/p${i}.rs`), s);
    fs.writeFileSync(path.join(dir, 'src/lib.rs'), `#![allow(warnings)]\nmod rt;\n${left.map(([i]) => `mod p${i};\n`).join('')}#[vertigo::main]\nfn program() -> vertigo::DomNode {\n    rt::page(match rt::number() {\n${left.map(([i]) => `        ${i} => p${i}::p(),\n`).join('')}        _ => vertigo::DomElement::new("nothing").into(),\n    })\n}\n`);
};
/** errors by crate and program; throws when something else does not compile */
const errorsOf = (r, files) => {
    const out = new Map();
    let other = null;
    for (const line of r.out.split('\n')) {
        if (!line.startsWith('{')) continue;
        const m = JSON.parse(line);
        if (m.reason !== 'compiler-message' || m.message.level !== 'error') continue;
        const places = [];
        const visit = (sp) => { places.push([m.target.src_path.replace(/src\/lib\.rs$/, ''), sp.file_name]); if (sp.expansion) visit(sp.expansion.span); };
        for (const sp of m.message.spans) visit(sp);
        const at = places.map(([base, f]) => path.resolve(base, f.replace(/^.*?(src\/p\d+\.rs)$/, '$1'))).find((f) => files.has(f));
        if (at === undefined) { if (!/^aborting due to/.test(m.message.message)) other ??= m.message.rendered; continue; }
        if (!out.has(at)) out.set(at, m.message.rendered);
    }
    if (r.code !== 0 && !out.size) throw Error(`the generated programs do not build: ${(other ?? r.err).slice(0, 3000)}`);
    return out;
};
/** compiles crates of one workspace until the programs left compile; sources[i] becomes null when rejected */
const compile = async (root, base, target, crates, jobs) => {
    const rejected = new Map();
    for (let round = 0; round < 12; round++) {
        const files = new Map();
        for (const c of crates) {
            writeCrate(root, path.join(base, c.name), c.name, c.sources);
            c.sources.forEach((s, i) => { if (s !== null) files.set(path.join(base, c.name, `src/p${i}.rs`), [c, i]); });
        }
        fs.writeFileSync(path.join(base, 'Cargo.toml'), `[workspace]\nresolver = "2"\nmembers = [${crates.map((c) => `"${c.name}"`).join(', ')}]\n${PROFILE}`);
        const lock = fs.readFileSync(path.join(root, 'macros/Cargo.lock'), 'utf8');
        const own = /\[\[package\]\]\nname = "vp-tiny"\n[^]*?\n\]\n/.exec(lock)[0];
        fs.writeFileSync(path.join(base, 'Cargo.lock'), lock.replace(own, () => crates.map((c) => own.replace('vp-tiny', c.name)).join('\n')));
        const r = await cargo(base, target, jobs);
        const errors = errorsOf(r, files);
        if (r.code === 0) return rejected;
        for (const [f, text] of errors) { const [c, i] = files.get(f); rejected.set(c.sources[i], text); c.sources[i] = null; }
    }
    throw Error('the generated programs do not build after 12 rounds');
};
const wasmOf = (target, name) => path.join(target, 'wasm32-unknown-unknown/debug', name.replace(/-/g, '_') + '.wasm');

/** before the workers: all programs of this run */
export const prepareAll = async (prop, { root, seed, tier, total, first }) => {
    const base = path.join(root, 'target/macros', prop.id);
    const target = path.join(root, 'target/macros/out');
    fs.rmSync(base, { recursive: true, force: true });
    fs.mkdirSync(base, { recursive: true });
    const sources = [...new Set([...first, ...Array.from({ length: total }, (_, k) => generate(prop, tier, `${seed}|${prop.id}|${k}`).case)].map((c) => prop.source(c)))];
    const index = {};
    const per = Math.max(1, Math.min(prop.batch ?? BATCH, Math.ceil(sources.length / 8)));
    // in groups, so that a deep run does not need all crates at once
    const group = per * 16;
    for (let g = 0; g < sources.length; g += group) {
        const crates = [];
        for (let i = g; i < Math.min(g + group, sources.length); i += per) crates.push({ name: `${prop.id.toLowerCase()}-b${crates.length}`, sources: sources.slice(i, Math.min(i + per, g + group)) });
        const all = crates.map((c) => c.sources.slice());
        fs.rmSync(base, { recursive: true, force: true });
        fs.mkdirSync(base, { recursive: true });
        const rejected = await compile(root, base, target, crates, os.cpus().length);
        crates.forEach((c, ci) => {
            const to = path.join(root, 'target/macros', `${prop.id}-${g}-${ci}.wasm`);
            fs.renameSync(wasmOf(target, c.name), to);
            all[ci].forEach((s, i) => { index[key(s)] = rejected.has(s) ? [null, rejected.get(s)] : [to, i]; });
        });
    }
    return { index };
};
const modules = new Map();
const moduleOf = (file) => { if (!modules.has(file)) { if (modules.size > 6) modules.clear(); modules.set(file, new WebAssembly.Module(fs.readFileSync(file))); } return modules.get(file); };
/** the compiled program; a program the macros reject is a failure */
export const program = async (prop, c, env) => {
    const source = prop.source(c);
    let at = env.extra?.index?.[key(source)];
    if (!at) {
        // shrinking or replaying
        const base = path.join(env.root, 'target/macros', `${prop.id}-one-${process.pid}`);
        const target = path.join(env.root, 'target/macros/one');
        fs.mkdirSync(base, { recursive: true });
        const rejected = await compile(env.root, base, target, [{ name: `${prop.id.toLowerCase()}-one`, sources: [source] }], 4);
        const to = path.join(base, `${key(source)}.wasm`);
        fs.copyFileSync(wasmOf(target, `${prop.id.toLowerCase()}-one`), to);
        at = rejected.has(source) ? [null, rejected.get(source)] : [to, 0];
        if (at[0]) moduleOf(to);
        fs.rmSync(base, { recursive: true, force: true });
    }
    if (!at[0]) fail(`the program is rejected:\n${source}\n${at[1]}`, 'rejected');
    return { module: moduleOf(at[0]), number: at[1], source };
};
export const openProgram = async (prop, c, env, o = {}) => {
    const p = await program(prop, c, env);
    const b = new Browser({ code: c.ts && env.ts ? env.ts : env.bundle, ...o, module: p.module, prepareInstance: (inst) => inst.exports.vp_select(p.number) });
    await b.start();
    b.check();
    b.source = p.source;
    b.poke = async (n) => { b.inst.exports.vp_poke(n); await b.settle(); b.check(); };
    b.log = () => {
        const e = b.inst.exports;
        return new TextDecoder().decode(new Uint8Array(e.memory.buffer, e.vp_log(), e.vp_log_len())).split('\n').slice(0, -1).map((l) => l.replace(/\\([\\n])/g, (_, x) => (x === 'n' ? '\n' : '\\')));
    };
    return b;
};
