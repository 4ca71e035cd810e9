// Runs the guest without any browser runtime: every host access answers "nothing".
import { encode, decode } from './n.mjs';
import { Violation } from './engine.mjs';

/** Turns a trap of the guest into a violation with the panic text. */
export const trap = (e, panics, what) => {
    const text = panics.join(' | ');
    if (text.includes('harness:')) return Error('harness failure in guest: ' + text);
    if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) {
        const loc = text.match(/panicked at ([^\n]*)/)?.[1] ?? '';
        return new Violation(`the program crashed (${what}): ${text || e.message}`, 'crash');
    }
    return e;
};

/** memory used after its release, found by the program's own allocator */
export const misuse = (inst) => {
    const bad = inst?.exports.vp_misuse?.() ?? 0;
    if (bad) throw new Violation(['', 'the program wrote to released memory', 'the program released a block of memory twice', 'the program released a block of memory as one of another size or alignment', 'the program wrote behind the end of a block of memory'][bad], 'memory');
};

/** the program that was started last */
export const last = { inst: null };

export const bare = (module, opts = {}) => {
    const panics = [];
    let inst;
    const mem = () => new Uint8Array(inst.exports.memory.buffer);
    const imports = {
        mod: {
            panic_message: (ptr, len) => { panics.push(new TextDecoder().decode(mem().slice(ptr, ptr + len))); },
            dom_access: (ptr, len) => (opts.dom_access ? opts.dom_access(mem().slice(ptr, ptr + len), api) : 0),
        },
    };
    inst = new WebAssembly.Instance(module, imports);
    last.inst = inst;
    const api = {
        inst, panics, mem,
        memory() { misuse(inst); },
        exec(req) {
            const b = encode(req);
            const p = inst.exports.vp_alloc(b.length);
            mem().set(b, p);
            let r;
            try { r = inst.exports.vp_exec(p, b.length); } catch (e) { throw trap(e, panics, String(req[0])); }
            const ptr = Number((r >> 32n) & 0xffffffffn), len = Number(r & 0xffffffffn);
            const out = mem().slice(ptr, ptr + len);
            inst.exports.vp_free(ptr, len);
            return decode(out);
        },
    };
    return api;
};
