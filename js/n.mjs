// Codec of the harness exchange format (see app/src/n.rs).
// JS -> guest: null, number (integer -> I, otherwise F), BigInt -> I, {f: number} -> F, string, Uint8Array, array.
// guest -> JS: I -> number when safe, otherwise BigInt; F -> {f: number}
const te = new TextEncoder();
const td = new TextDecoder('utf-8', { fatal: true, ignoreBOM: true });

export const encode = (v) => {
    const parts = [];
    let size = 0;
    const push = (b) => { parts.push(b); size += b.length; };
    const head = (tag, len) => {
        const b = new Uint8Array(5);
        b[0] = tag;
        new DataView(b.buffer).setUint32(1, len, true);
        push(b);
    };
    const go = (v) => {
        if (v === null || v === undefined) { push(new Uint8Array([0])); return; }
        if (typeof v === 'boolean') v = v ? 1 : 0;
        if (typeof v === 'number' && Number.isSafeInteger(v) || typeof v === 'bigint') {
            const b = new Uint8Array(9);
            b[0] = 1;
            new DataView(b.buffer).setBigInt64(1, BigInt(v), true);
            push(b);
            return;
        }
        if (typeof v === 'number' || (typeof v === 'object' && 'f' in v)) {
            const b = new Uint8Array(9);
            b[0] = 2;
            new DataView(b.buffer).setFloat64(1, typeof v === 'number' ? v : v.f, true);
            push(b);
            return;
        }
        if (typeof v === 'string') { const b = te.encode(v); head(3, b.length); push(b); return; }
        if (v instanceof Uint8Array) { head(4, v.length); push(v); return; }
        if (Array.isArray(v)) { head(5, v.length); for (const x of v) go(x); return; }
        throw Error('harness: cannot encode ' + typeof v);
    };
    go(v);
    const out = new Uint8Array(size);
    let p = 0;
    for (const b of parts) { out.set(b, p); p += b.length; }
    return out;
};

export const decode = (buf) => {
    const dv = new DataView(buf.buffer, buf.byteOffset, buf.byteLength);
    let p = 0;
    const go = () => {
        const tag = buf[p++];
        switch (tag) {
            case 0: return null;
            case 1: { const v = dv.getBigInt64(p, true); p += 8; const n = Number(v); return Number.isSafeInteger(n) ? n : v; }
            case 2: { const v = dv.getFloat64(p, true); p += 8; return { f: v }; }
            case 3: { const l = dv.getUint32(p, true); p += 4; const s = td.decode(buf.subarray(p, p + l)); p += l; return s; }
            case 4: { const l = dv.getUint32(p, true); p += 4; const s = buf.slice(p, p + l); p += l; return s; }
            case 5: { const l = dv.getUint32(p, true); p += 4; const a = []; for (let i = 0; i < l; i++) a.push(go()); return a; }
            default: throw Error('harness: bad tag ' + tag);
        }
    };
    const out = go();
    if (p !== buf.length) throw Error('harness: trailing bytes');
    return out;
};
