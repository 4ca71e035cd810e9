// usage: node run.mjs <vertigo> <scratch dir with app.wasm and bin>
import { spawn } from 'node:child_process';
import fs from 'node:fs';
import http from 'node:http';
import net from 'node:net';
import path from 'node:path';
const [tool, base] = process.argv.slice(2);
const freePort = () => new Promise((ok) => { const s = net.createServer(); s.listen(0, '127.0.0.1', () => { const p = s.address().port; s.close(() => ok(p)); }); });
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
const procs = [];
process.on('exit', () => procs.forEach((p) => p.kill('SIGKILL')));
let bad = 0;
const expect = (what, got, want) => { if (JSON.stringify(got) !== JSON.stringify(want)) { bad++; console.log(`${what}: got ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`); } };
const ws = path.join(base, 'ws'), ctl = path.join(base, 'ctl');
for (const d of [ws + '/app/src', ws + '/shared', ctl]) fs.mkdirSync(d, { recursive: true });
fs.writeFileSync(ws + '/app/src/lib.rs', '0');
let version = 0;
/** the next state of the sources for the stand-in: {fail, delay (s), replace: [text, same length] in the module} */
const state = (o = {}) => {
    const d = path.join(ctl, 's' + ++version);
    fs.mkdirSync(d);
    let wasm = fs.readFileSync(base + '/app.wasm');
    if (o.replace) { const i = wasm.indexOf(o.replace[0]); if (i < 0) { console.log('no such text'); process.exit(2); } wasm.write(o.replace[1], i, 'latin1'); }
    fs.writeFileSync(d + '/app.wasm', wasm); fs.writeFileSync(d + '/run.js', 'run'); fs.writeFileSync(d + '/version', String(version)); fs.writeFileSync(d + '/delay', String(o.delay ?? 0));
    if (o.fail) fs.writeFileSync(d + '/fail', '');
    fs.symlinkSync(d, ctl + '/l' + version); fs.renameSync(ctl + '/l' + version, ctl + '/cur');
};
/** a change of the sources */
const touch = (file = 'app/src/lib.rs') => fs.writeFileSync(path.join(ws, file), String(version) + Math.random());
const builds = () => (fs.existsSync(ctl + '/log') ? fs.readFileSync(ctl + '/log', 'utf8').trim().split('\n') : []);
/** starts the tool -> {port, portWatch} */
const watch = async (...args) => {
    const id = 'path+file:///ws/app#0.1.0';
    fs.writeFileSync(ctl + '/metadata.json', JSON.stringify({ packages: [{ id, name: 'app', manifest_path: ws + '/app/Cargo.toml', targets: [{ kind: ['cdylib', 'rlib'] }] }], workspace_members: [id], target_directory: ws + '/target', workspace_root: ws }));
    const port = await freePort(), portWatch = await freePort();
    const p = spawn(tool, ['watch', 'app', '--port', String(port), '--port-watch', String(portWatch), ...args], { stdio: 'ignore', cwd: ws, env: { PATH: base + '/bin:' + process.env.PATH, HOME: base, VP_CTL: ctl, VP_TARGET: ws + '/target', RUST_LOG: 'error', SSL_CERT_FILE: '/dev/null' } });
    procs.push(p);
    return { port, portWatch, exit: new Promise((ok) => p.on('exit', ok)) };
};
/** a page that listens: {got: messages} */
const listen = async (portWatch) => {
    const l = { got: [] };
    for (let i = 0; i < 600; i++) {
        const ok = await new Promise((ok) => {
            const r = http.get({ host: '127.0.0.1', port: portWatch, path: '/events', agent: false, headers: { accept: 'text/event-stream' } }, (a) => { ok(true); let text = ''; a.setEncoding('utf8'); a.on('error', () => {}); a.on('data', (d) => { text += d; for (let k; (k = text.indexOf('\n\n')) >= 0;) { const m = /^data: ?(.*)$/m.exec(text.slice(0, k)); text = text.slice(k + 2); if (m) { l.got.push(m[1]); l.on?.(m[1]); } } }); });
            r.on('error', () => ok(false));
        });
        if (ok) return l;
        await sleep(100);
    }
    console.log('nobody listens'); process.exit(2);
};
/** waits for something, -> true or false */
const until = async (f, s = 60) => { for (let i = 0; i < s * 50; i++) { if (f()) return true; await sleep(20); } return false; };
const get = (port, path) => new Promise((ok) => { const r = http.request({ host: '127.0.0.1', port, path, agent: false }, (a) => { const parts = []; a.on('data', (d) => parts.push(d)); a.on('end', () => ok({ status: a.statusCode, headers: a.headers, body: Buffer.concat(parts).toString('utf8') })); }); r.on('error', (e) => ok({ status: 0, body: String(e.code) })); r.setTimeout(40000, () => r.destroy()); r.end(); });
