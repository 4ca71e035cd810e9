// The real command line tool, run as an unprivileged user in scratch folders of its own.
import { spawnSync } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import { scratchDir } from './ssr.mjs';

export const NOBODY = 65534;
/** to be called in prepare: scratch folder which the unprivileged user can reach */
export const cliBase = (root) => { const d = scratchDir(root); fs.chmodSync(d, 0o755); return d; };
export const cliPath = (root) => process.env.VP_CLI ?? path.join(root, 'target/cli/debug/vertigo');

let made = 0;
export const newTree = (base) => {
    const d = path.join(base, `t${process.pid}-${Math.random().toString(36).slice(2)}-${made++}`);
    fs.mkdirSync(d, { mode: 0o755 });
    fs.chownSync(d, NOBODY, NOBODY);
    return d;
};
/** entries: [path, kind d|f|l, text or mode, mode] */
export const makeTree = (dir, entries) => {
    const modes = [];
    for (const [name, kind, text, mode] of entries) {
        const p = path.join(dir, name);
        if (kind === 'd') { fs.mkdirSync(p, { recursive: true }); } else {
            fs.mkdirSync(path.dirname(p), { recursive: true });
            if (kind === 'l') fs.symlinkSync(text, p); else fs.writeFileSync(p, text);
        }
        if (kind !== 'l' && mode !== undefined && mode !== null) modes.push([p, mode]);
    }
    own(dir);
    for (const [p, mode] of modes) fs.chmodSync(p, mode);
};
const own = (d) => { fs.lchownSync(d, NOBODY, NOBODY); if (fs.lstatSync(d).isDirectory()) for (const n of fs.readdirSync(d)) own(path.join(d, n)); };
/** path -> description of everything below the folder */
export const snapshot = (dir, at = '', out = new Map()) => {
    for (const n of fs.readdirSync(path.join(dir, at)).sort()) {
        const rel = at ? at + '/' + n : n;
        const p = path.join(dir, rel);
        const st = fs.lstatSync(p);
        const mode = (st.mode & 0o7777).toString(8);
        if (st.isSymbolicLink()) out.set(rel, 'link ' + fs.readlinkSync(p));
        else if (st.isDirectory()) { out.set(rel, 'folder ' + mode); snapshot(dir, rel, out); } else if (st.isFile()) out.set(rel, `file ${mode} ` + fs.readFileSync(p, 'latin1'));
        else out.set(rel, 'other');
    }
    return out;
};
export const difference = (before, after) => {
    for (const [k, v] of before) { if (!after.has(k)) return `${k} is gone`; if (after.get(k) !== v) return `${k} was ${JSON.stringify(v.slice(0, 200))} and is ${JSON.stringify(after.get(k).slice(0, 200))}`; }
    for (const [k, v] of after) if (!before.has(k)) return `${k} appeared: ${JSON.stringify(v.slice(0, 200))}`;
    return null;
};
/** -> {code, text, late} */
export const runCli = (root, args, o) => {
    const r = spawnSync('/usr/bin/setpriv', ['--reuid', String(NOBODY), '--regid', String(NOBODY), '--clear-groups', '--no-new-privs', '--pdeathsig', 'SIGKILL', cliPath(root), ...args], {
        cwd: o.cwd, env: { PATH: o.path ?? '/nonexistent', HOME: o.home ?? o.cwd, RUST_LOG: 'info', LANG: 'C', ...o.env }, timeout: o.timeout ?? 20000, killSignal: 'SIGKILL', maxBuffer: 1 << 24, stdio: ['ignore', 'pipe', 'pipe'],
    });
    return { code: r.status, signal: r.signal, late: r.error?.code === 'ETIMEDOUT', text: `${r.stdout ?? ''}${r.stderr ?? ''}`, out: String(r.stdout ?? ''), error: r.error && r.error.code !== 'ETIMEDOUT' ? String(r.error) : null };
};
export const removeTree = (dir) => {
    const open = (d) => { const st = fs.lstatSync(d); if (st.isDirectory()) { fs.chmodSync(d, 0o755); for (const n of fs.readdirSync(d)) open(path.join(d, n)); } };
    open(dir);
    fs.rmSync(dir, { recursive: true, force: true });
};
