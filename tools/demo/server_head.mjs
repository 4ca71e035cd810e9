// usage: node run.mjs <vertigo> <dest dir>
import { spawn } from 'node:child_process';
import http from 'node:http';
import net from 'node:net';
const [tool, dest] = process.argv.slice(2);
const freePort = () => new Promise((ok) => { const s = net.createServer(); s.listen(0, '127.0.0.1', () => { const p = s.address().port; s.close(() => ok(p)); }); });
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
const procs = [];
process.on('exit', () => procs.forEach((p) => p.kill('SIGKILL')));
/** starts the server -> port */
const serve = async (...args) => {
    const port = await freePort();
    const p = spawn(tool, ['serve', '--host', '127.0.0.1', '--port', String(port), '--dest-dir', dest, ...args], { stdio: 'ignore', cwd: dest, env: { PATH: process.env.PATH, HOME: dest, RUST_LOG: 'error', SSL_CERT_FILE: '/dev/null' } });
    procs.push(p);
    for (let i = 0; i < 600; i++) {
        if (await new Promise((ok) => { const s = net.connect(port, '127.0.0.1', () => { s.destroy(); ok(true); }); s.on('error', () => ok(false)); })) return port;
        await sleep(100);
    }
    console.log('the server does not start'); process.exit(2);
};
/** -> {status, headers, body} */
const get = (port, path, o = {}) => new Promise((ok, no) => { const r = http.request({ host: '127.0.0.1', port, path, method: o.method ?? 'GET', headers: o.headers ?? {}, agent: false }, (a) => { const parts = []; a.on('data', (d) => parts.push(d)); a.on('end', () => ok({ status: a.statusCode, headers: a.headers, body: Buffer.concat(parts).toString('utf8') })); }); r.on('error', (e) => ok({ status: 0, body: String(e) })); r.setTimeout(40000, () => r.destroy()); r.end(o.body); });
/** an upstream: answer(request {method, url, headers, body}, response) -> {port, log} */
const upstream = (answer) => new Promise((ok) => { const log = []; const s = http.createServer((q, a) => { const parts = []; q.on('data', (d) => parts.push(d)); q.on('end', () => { const r = { method: q.method, url: q.url, headers: q.headers, body: Buffer.concat(parts).toString('utf8') }; log.push(r); answer(r, a); }); }); s.listen(0, '127.0.0.1', () => ok({ port: s.address().port, log })); });
let bad = 0;
const expect = (what, got, want) => { if (JSON.stringify(got) !== JSON.stringify(want)) { bad++; console.log(`${what}: got ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`); } };
