// node run.mjs <PID> <quick|thorough> [--replay FILE] [--cases N] [--seed S] [--workers N] [--show K]
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import os from 'node:os';
import { generate, regenerate, runCase, shrink, toJson, fromJson, hash, initWorker, Violation } from './engine.mjs';
import { makeEnv } from './env.mjs';

const here = path.dirname(fileURLToPath(import.meta.url));
const root = path.dirname(here);
const loadProp = async (id) => (await import(path.join(here, 'props', id + '.mjs'))).default;
const cut = (s, n = 1500) => (s.length > n ? s.slice(0, n) + '…' : s);

if (!isMainThread) {
    const { mode, id, tier, seed, from, step, total, deadline, envData, shared, slot } = workerData;
    // shared: [stop, then per worker: index of the current case plus one, seconds at its start]
    const state = new Int32Array(shared);
    const begin = (k) => { Atomics.store(state, 2 + 2 * slot, Math.floor(Date.now() / 1000) % 0x40000000); Atomics.store(state, 1 + 2 * slot, k + 1); };
    const end = () => Atomics.store(state, 1 + 2 * slot, 0);
    const prop = await loadProp(id);
    const env = await makeEnv(envData);
    await initWorker(prop, env);
    if (mode === 'cases' || mode === 'shrink') {
        try {
            if (mode === 'cases') {
                const cases = fromJson(workerData.cases);
                for (let i = 0; i < cases.length; i++) {
                    begin(i);
                    const r = await runCase(prop, cases[i], env);
                    end();
                    parentPort.postMessage({ t: 'case', i, failed: r.failed });
                }
            } else {
                const g = regenerate(prop, tier, workerData.choices);
                env.caseIndex = workerData.k;
                const again = await runCase(prop, g.case, env);
                if (again.failed) {
                    const best = (b, tries) => parentPort.postMessage({ t: 'best', choices: b.choices, failed: b.failed, tries });
                    best({ ...g, failed: again.failed }, 0);
                    const r = await shrink(prop, tier, { ...g, failed: again.failed }, env, { tries: prop.shrinkTries ?? 1500, ms: prop.shrinkMs ?? 60000, best });
                    best(r, r.tries);
                }
            }
            parentPort.postMessage({ t: 'done' });
        } catch (e) {
            parentPort.postMessage({ t: 'error', message: String(e.stack ?? e) });
        }
        try { if (prop.close) await prop.close(env); } catch (e) { if (!env.broken) throw e; }
        process.exit();
    }
    const hashes = [];
    const classes = {};
    const samples = [];
    let count = 0, stopped = false;
    try {
        for (let k = from; k < total; k += step) {
            if (Date.now() > deadline || Atomics.load(state, 0)) { stopped = true; break; }
            const g = generate(prop, tier, `${seed}|${id}|${k}`);
            env.caseIndex = k;
            begin(k);
            let r;
            try { r = await runCase(prop, g.case, env); } catch (e) {
                throw Error(`harness error in case ${k}: ${e.stack}\n${cut(toJson(g.case), 4000)}`);
            }
            end();
            count += r.info.evaluations ?? 1;
            if (r.failed) {
                Atomics.store(state, 0, 1);
                parentPort.postMessage({ t: 'fail', k, failed: r.failed, choices: g.choices });
                break;
            }
            for (const c of r.info.classes ?? []) classes[c] = (classes[c] ?? 0) + 1;
            if (r.info.nontrivial) {
                const text = toJson(g.case);
                hashes.push(hash(text) * 2097152 + (hash('x' + text) & 2097151));
                if (samples.length < 2) samples.push(cut(text));
            }
        }
        parentPort.postMessage({ t: 'done', count, hashes, classes, samples, stopped });
    } catch (e) {
        parentPort.postMessage({ t: 'error', message: String(e.stack ?? e) });
    }
    try { if (prop.close) await prop.close(env); } catch (e) { if (!env.broken) throw e; }
    parentPort.close?.();
} else {
    const args = process.argv.slice(2);
    const opt = {};
    const pos = [];
    for (let i = 0; i < args.length; i++) {
        if (args[i].startsWith('--')) opt[args[i].slice(2)] = args[++i];
        else pos.push(args[i]);
    }
    const [id, tier = process.env.VERIF_TIER || 'quick'] = pos;
    const seed = Number(opt.seed ?? process.env.VERIF_SEED ?? 1) || 0;
    process.exitCode = await main(id, tier, seed, opt).catch((e) => { console.error('ERROR', e.stack ?? e); return 2; });
    // servers or timers of a property must not keep the process alive
    setTimeout(() => process.exit(), 200).unref();
}

async function main(id, tier, seed, opt) {
    const t0 = Date.now();
    const prop = await loadProp(id);
    const findings = readFindings(id);
    const total = opt.show ? 0 : Number(opt.cases ?? (tier === 'thorough' ? prop.thorough : prop.quick));
    const first = [...findings.map((f) => ({ f, case: f.case })), ...(prop.corpus ?? []).map((c) => ({ case: c }))];
    const violations = [];
    const report = (failed, c, choices, extra) => {
        const dir = path.join(root, 'replays');
        fs.mkdirSync(dir, { recursive: true });
        const file = path.join(dir, `${id}-${(hash(toJson(c))).toString(16)}.json`);
        fs.writeFileSync(file, toJson({ property: id, message: failed.message, sig: failed.sig, seed, tier, ...extra, case: c, choices }, 1));
        violations.push(file);
        console.log(`[${id}] ${failed.message}`);
        console.log(`VIOLATION property=${id} replay=${file}`);
    };
    let envData;
    try {
        envData = await (await import('./env.mjs')).prepare(prop, opt.replay ? { seed, tier, total: 0, first: [] } : { seed, tier, total, first: first.map((x) => x.case) });
    } catch (e) {
        if (!(e instanceof Violation)) throw e;
        // fails before any case, as a server which does not start
        if (opt.replay) { console.log(e.message); console.log(`VIOLATION property=${id} replay=${path.resolve(opt.replay)}`); } else report({ message: e.message, sig: e.sig }, 'preparation', [], {});
        return 1;
    }

    if (opt.replay) {
        const env = await makeEnv(envData);
        const file = fromJson(fs.readFileSync(opt.replay, 'utf8'));
        if (file.case === 'preparation') { console.log('no violation'); return 0; }
        await initWorker(prop, env);
        const r = await runCase(prop, file.case, env);
        try { if (prop.close) await prop.close(env); } catch (e) { if (!env.broken) throw e; }
        if (r.failed) {
            console.log(r.failed.message);
            console.log(`VIOLATION property=${id} replay=${path.resolve(opt.replay)}`);
            return 1;
        }
        console.log('no violation');
        return 0;
    }
    if (opt.show) {
        for (let k = 0; k < Number(opt.show); k++) console.log(toJson(generate(prop, tier, `${seed}|${id}|${k}`).case));
        return 0;
    }

    // Known findings and regression cases first.
    let evaluations = 0;
    const hang = (prop.hangS ?? 100) * 1000;
    const HANGS = { message: `the case does not end within ${hang / 1000} s`, sig: 'hang' };
    /** runs workers; a worker whose case does not end is stopped and onHang told the index of the case */
    const errors = [];
    const workers = (list, onMessage, onHang) => new Promise((resolve) => {
        const shared = new SharedArrayBuffer(4 + 8 * list.length);
        const state = new Int32Array(shared);
        let alive = list.length;
        const dog = setInterval(() => {
            const now = Math.floor(Date.now() / 1000) % 0x40000000;
            ws.forEach((w, i) => {
                const k = Atomics.load(state, 1 + 2 * i);
                if (!w.ended && k > 0 && (now - Atomics.load(state, 2 + 2 * i)) * 1000 > hang) { w.ended = true; Atomics.store(state, 0, 1); onHang(k - 1); w.terminate(); }
            });
        }, 1000);
        const ws = list.map((data, slot) => {
            const w = new Worker(fileURLToPath(import.meta.url), { workerData: { id, tier, seed, envData, shared, slot, ...data }, stdout: false });
            w.on('message', (m) => {
                if (m.t === 'error') { w.ended = true; errors.push(m.message); } else { if (m.t === 'done' || m.t === 'fail') w.ended = true; onMessage(m); }
            });
            w.on('error', (e) => { w.ended = true; errors.push(String(e.stack ?? e)); });
            w.on('exit', () => {
                // the event loop ran dry in the middle of a case: what it waits for never comes
                const k = Atomics.load(state, 1 + 2 * slot);
                if (!w.ended) { if (k > 0) onHang(k - 1); else errors.push('a worker ended early'); }
                if (--alive === 0) { clearInterval(dog); resolve(); }
            });
            return w;
        });
        if (list.limit) setTimeout(() => { for (const w of ws) { w.ended = true; w.terminate(); } }, list.limit).unref();
    });

    if (first.length) {
        const seen = [];
        await workers([{ mode: 'cases', cases: toJson(first.map((x) => x.case)) }], (m) => { if (m.t === 'case') seen[m.i] = { failed: m.failed }; }, (k) => { seen[k] = { failed: HANGS }; });
        first.forEach(({ f, case: c }, i) => {
            const r = seen[i];
            if (!r) return;
            evaluations++;
            if (f && r.failed && r.failed.sig === f.sig) console.log(`KNOWN-FINDING: property=${id} ${f.what}`);
            else if (f && !r.failed) console.log(`note: known finding no longer fails: ${f.what}`);
            else if (r.failed && (f || !violations.length)) report(r.failed, c, [], f ? { known: f.what } : { corpus: true });
        });
    }

    const cap = (tier === 'thorough' ? (prop.thoroughCapS ?? 3000) : (prop.quickCapS ?? 400)) * 1000;
    const nw = Math.max(1, Math.min(Number(opt.workers ?? prop.workers ?? Math.min(8, os.cpus().length)), total));
    const results = [];
    const fails = [];
    if (!violations.length && !errors.length && total > 0) {
        await workers(Array.from({ length: nw }, (_, i) => ({ mode: 'run', from: i, step: nw, total, deadline: t0 + cap })), (m) => {
            if (m.t === 'fail') fails.push(m);
            if (m.t === 'done') results.push(m);
        }, (k) => fails.push({ k, failed: HANGS }));
    }
    if (errors.length && !fails.length && !violations.length) {
        for (const e of errors) console.error('ERROR', e);
        return 2;
    }
    if (fails.length) {
        fails.sort((a, b) => (a.failed === HANGS) - (b.failed === HANGS) || a.k - b.k);
        const f = fails[0];
        if (f.failed === HANGS) report(HANGS, generate(prop, tier, `${seed}|${id}|${f.k}`).case, [], { index: f.k });
        else {
            let best = null;
            const list = [{ mode: 'shrink', k: f.k, choices: f.choices }];
            list.limit = (prop.shrinkMs ?? 60000) + 60000;
            await workers(list, (m) => { if (m.t === 'best') best = m; }, () => {});
            const b = best ?? { choices: f.choices, failed: f.failed, tries: 0 };
            report(b.failed, regenerate(prop, tier, b.choices).case, b.choices, { index: f.k, shrinkRuns: b.tries, reproduced: !!best });
        }
    }
    for (const r of results) evaluations += r.count;
    const distinct = new Set();
    const classes = {};
    let samples = [];
    let stopped = false;
    for (const r of results) {
        for (const h of r.hashes) distinct.add(h);
        for (const [k, v] of Object.entries(r.classes)) classes[k] = (classes[k] ?? 0) + v;
        samples.push(...r.samples);
        stopped ||= r.stopped;
    }
    samples = samples.slice(0, 3).map((s) => { try { return JSON.parse(s); } catch { return s; } });
    if (!samples.length) samples = [JSON.parse(toJson(generate(prop, tier, `${seed}|${id}|0`).case))];
    const evidence = {
        property: id, tier, seed, level: 'exploration',
        coverage: { evaluations, distinct_nontrivial: distinct.size, rule: prop.rule, samples, classes, stopped_by_time_cap: stopped },
        assumptions: prop.assumptions ?? [],
        wall_s: (Date.now() - t0) / 1000,
        violations: violations.length,
    };
    fs.mkdirSync(path.join(root, 'evidence'), { recursive: true });
    fs.writeFileSync(path.join(root, 'evidence', id + '.json'), JSON.stringify(evidence, null, 1) + '\n');
    console.log(`${id} ${tier} seed=${seed}: ${evaluations} evaluations, ${distinct.size} distinct non-trivial, ${violations.length} violations, ${evidence.wall_s.toFixed(1)} s${stopped ? ' (time cap)' : ''}`);
    if (opt.classes || process.env.VP_CLASSES) console.log(JSON.stringify(classes));
    return violations.length ? 1 : 0;
}

function readFindings(id) {
    const file = path.join(root, 'known_findings.txt');
    if (!fs.existsSync(file)) return [];
    return fs.readFileSync(file, 'utf8').split('\n').filter((l) => l.startsWith('{')).map(fromJson).filter((f) => f.property === id && f.kind === 'known');
}
