// The real server (`vertigo serve`) on the loopback network, with a program that reads its page from the address.
import { spawn } from 'node:child_process';
import fs from 'node:fs';
import http from 'node:http';
import net from 'node:net';
import { threadId } from 'node:worker_threads';
import path from 'node:path';
import { encode } from './n.mjs';
import { fail, Violation } from './engine.mjs';
import { APP_WASM } from './env.mjs';

export const freePort = () => new Promise((ok, no) => { const s = net.createServer(); s.on('error', no); s.listen(0, '127.0.0.1', () => { const p = s.address().port; s.close(() => ok(p)); }); });
// worker threads look for ports in ranges of their own, outside of the range the system hands out
let nextPort = 0;
export const ownPort = async () => {
    for (;;) {
        const port = 11000 + (threadId % 20) * 1000 + (process.pid * 7 + nextPort++) % 1000;
        const free = await new Promise((ok) => { const s = net.createServer(); s.on('error', () => ok(false)); s.listen(port, '127.0.0.1', () => s.close(() => ok(true))); });
        if (free) return port;
    }
};
export const letters = (v) => { let out = ''; for (const b of encode(v)) out += 'abcdefghijklmnop'[b >> 4] + 'abcdefghijklmnop'[b & 15]; return out; };

/** a scratch folder removed at the end of the process */
let scratch = null;
export const scratchDir = (root) => {
    if (!scratch) {
        scratch = fs.mkdtempSync(path.join(root, 'target', 'ssr-'));
        process.on('exit', () => fs.rmSync(scratch, { recursive: true, force: true }));
        for (const s of ['SIGINT', 'SIGTERM', 'SIGHUP']) process.on(s, () => process.exit(2));
    }
    return scratch;
};
/** starts a server, -> {port, dir, mount, pid, stop()}; o: {args, mount, files, wasm, base, dest (a folder made by the build command)} */
export const startServer = async (root, o = {}) => {
    const base = o.base ?? scratchDir(root);
    const dir = o.dest ?? path.join(fs.mkdtempSync(path.join(base, 'd')), 'dest');
    const mount = o.mount ?? '/build';
    if (!o.dest) {
        fs.mkdirSync(dir);
        fs.copyFileSync(o.wasm ?? APP_WASM, path.join(dir, 'app.wasm'));
        fs.writeFileSync(path.join(dir, 'index.json'), JSON.stringify({ run_js: `${mount}/run.js`, wasm: `${mount}/app.wasm` }));
    }
    for (const [name, data] of o.files ?? []) { fs.mkdirSync(path.dirname(path.join(dir, name)), { recursive: true }); fs.writeFileSync(path.join(dir, name), data); }
    for (let attempt = 0; ; attempt++) {
        const port = o.base ? await ownPort() : await freePort();
        const args = ['serve', '--host', '127.0.0.1', '--port', String(port), '--dest-dir', dir, ...(o.args ?? [])];
        const log = fs.openSync(path.join(base, `log-${port}`), 'w');
        const p = spawn('setpriv', ['--pdeathsig', 'SIGKILL', process.env.VP_CLI ?? path.join(root, 'target/cli/debug/vertigo'), ...args], { stdio: ['ignore', log, log], env: { PATH: process.env.PATH, HOME: dir, RUST_LOG: 'error', SSL_CERT_FILE: '/dev/null', SSL_CERT_DIR: dir }, cwd: dir });
        fs.closeSync(log);
        let gone = false;
        p.on('exit', () => { gone = true; });
        if (!o.base) process.on('exit', () => p.kill('SIGKILL'));
        const t0 = Date.now();
        let up = false;
        while (!gone && !up && Date.now() - t0 < 120000) {
            up = await new Promise((ok) => { const s = net.connect(port, '127.0.0.1', () => { s.destroy(); ok(true); }); s.on('error', () => ok(false)); });
            if (!up) await new Promise((r) => setTimeout(r, o.base ? 20 : 50));
        }
        if (up && !gone) return { port, dir, mount, pid: p.pid, ...(o.base ? { stop: () => { p.kill('SIGKILL'); if (!o.dest) fs.rmSync(path.dirname(dir), { recursive: true, force: true }); fs.rmSync(path.join(base, `log-${port}`), { force: true }); } } : {}) };
        const text = fs.readFileSync(path.join(base, `log-${port}`), 'utf8').slice(-2000);
        if (attempt > 2) throw new Violation('the server does not start: ' + text, 'no-start');
    }
};

const agent = new http.Agent({ keepAlive: true, maxSockets: 64 });
/** one request, -> {status, headers, raw: [[name, value]...], body: Buffer} or {error} */
export const request = (port, o) => new Promise((ok) => {
    const r = http.request({ host: o.hostname ?? '127.0.0.1', port, path: o.path, method: o.method ?? 'GET', headers: o.headers, agent: o.fresh ? undefined : agent }, (res) => {
        const parts = [];
        res.on('data', (d) => parts.push(d));
        res.on('end', () => {
            const raw = [];
            for (let i = 0; i < res.rawHeaders.length; i += 2) raw.push([res.rawHeaders[i].toLowerCase(), res.rawHeaders[i + 1]]);
            ok({ status: res.statusCode, headers: res.headers, raw, body: Buffer.concat(parts) });
        });
        res.on('error', (e) => ok({ error: String(e) }));
    });
    r.on('error', (e) => {
        // a kept connection may have been closed by the server in the meantime
        if (!o.again && (e.code === 'ECONNRESET' || e.code === 'EPIPE') && r.reusedSocket) request(port, { ...o, again: true, fresh: true }).then(ok);
        else ok({ error: `${e.code ?? ''} ${e.message}` });
    });
    r.setTimeout(o.timeout ?? 30000, () => r.destroy(Error('no answer within ' + (o.timeout ?? 30000) / 1000 + ' s')));
    if (o.body !== undefined && o.body !== null) r.write(o.body);
    r.end();
});
/** asks for a page, -> text */
export const page = async (port, boot, at = '/', more = '') => {
    const p = `${at}?p=${letters(boot)}${more}`;
    if (p.length > 60000) return null;
    const r = await request(port, { path: p });
    if (r.error) fail(`the server does not answer: ${r.error}`, 'no-answer');
    return { ...r, path: p, text: r.body.toString('utf8') };
};
