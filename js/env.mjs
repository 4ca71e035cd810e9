// What the properties run against: built from /repo's working tree by run.sh / build.sh.
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
const root = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
export const APP_WASM = process.env.VP_WASM ?? path.join(root, 'target/app/wasm32-unknown-unknown/debug/vp_app.wasm');
export const BUNDLE = '/repo/crates/vertigo/src/driver_module/wasm_run.js';
export const TS_BUNDLE = path.join(root, 'target/ts_run.js');

export const prepare = async (prop, o = {}) => ({
    module: new WebAssembly.Module(fs.readFileSync(APP_WASM)),
    bundle: fs.readFileSync(BUNDLE, 'utf8'),
    ts: fs.existsSync(TS_BUNDLE) ? fs.readFileSync(TS_BUNDLE, 'utf8') : null,
    extra: prop.prepare ? await prop.prepare({ root, ...o }) : null,
});
export const makeEnv = async (d) => ({ ...d, root });
