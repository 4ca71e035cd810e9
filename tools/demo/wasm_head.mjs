// usage: node run.mjs <program.wasm> <runtime bundle>
import fs from 'node:fs';
import { Browser } from './host.mjs';
const [wasm, bundle] = process.argv.slice(2);
const open = (o = {}) => new Browser({ module: new WebAssembly.Module(fs.readFileSync(wasm)), code: fs.readFileSync(bundle, 'utf8'), ...o }).start();
let bad = 0;
const expect = (what, got, want) => { if (JSON.stringify(got) !== JSON.stringify(want)) { bad++; console.log(`${what}: got ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`); } };
const all = (n, f, out = []) => { for (const c of n.childNodes ?? []) { if (c.getAttribute && f(c)) out.push(c); all(c, f, out); } return out; };
const byId = (b, id) => all(b.document.documentElement, (e) => e.getAttribute('id') === id)[0];
const fire = async (b, id, type, data = {}) => { const e = new b.globals.Event(type, { bubbles: true, cancelable: true }); Object.assign(e, data); b.document.dispatch(byId(b, id), e); await b.settle(); return e; };
const click = (b, id) => fire(b, id, 'click');
const text = (n) => n.textContent;
