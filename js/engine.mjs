// Choice-sequence based generation and shrinking.

/** Raised by a property: the property is violated. `sig` identifies the kind of failure. */
export class Violation extends Error {
    constructor(message, sig) { super(message.length > 3000 ? message.slice(0, 1500) + ' ... ' + message.slice(-1500) : message); this.sig = sig ?? ''; }
}
export const fail = (message, sig) => { throw new Violation(message, sig); };

const fnv = (str) => {
    let h = 0x811c9dc5;
    for (let i = 0; i < str.length; i++) { h ^= str.charCodeAt(i); h = Math.imul(h, 0x01000193); }
    return h >>> 0;
};

export const makeRng = (str) => {
    // sfc32 seeded from a hash
    let a = fnv(str + 'a'), b = fnv(str + 'b'), c = fnv(str + 'c'), d = 1;
    const next = () => {
        const t = (a + b + d) | 0;
        d = (d + 1) | 0;
        a = b ^ (b >>> 9);
        b = (c + (c << 3)) | 0;
        c = ((c << 21) | (c >>> 11));
        c = (c + t) | 0;
        return t >>> 0;
    };
    for (let i = 0; i < 16; i++) next();
    return next;
};

export class Src {
    constructor(rng, replay) { this.rng = rng; this.replay = replay; this.choices = []; this.pos = 0; }
    /** an integer in [0, n) */
    draw(n) {
        n = Math.max(1, Math.floor(n));
        let v;
        if (this.replay) v = this.pos < this.replay.length ? Math.min(this.replay[this.pos], n - 1) : 0;
        else v = n <= 0x100000000 ? (n === 1 ? 0 : this.rng() % n) : (this.rng() * 0x100000 + (this.rng() >>> 12)) % n;
        this.pos++;
        this.choices.push(v);
        return v;
    }
    int(lo, hi) { return lo + this.draw(hi - lo + 1); }
    /** true with probability p; shrinks to false */
    bool(p = 0.5) { return this.draw(1000) >= 1000 * (1 - p); }
    pick(list) { return list[this.draw(list.length)]; }
    /** [[weight, value], ...], weights in hundredths; shrinks to the first */
    weighted(list) {
        let total = 0;
        for (const [w] of list) total += Math.round(w * 100);
        let v = this.draw(total);
        for (const [w, x] of list) { const n = Math.round(w * 100); if (v < n) return x; v -= n; }
        return list[0][1];
    }
    /** a list of min..max elements, each introduced by a "go on" choice so that elements can be deleted when shrinking */
    list(min, max, fn, mean) {
        const out = [];
        const m = mean ?? (min + max) / 2;
        const p = 1 - 1 / (1 + Math.max(0.5, m - min));
        while (out.length < max) {
            if (out.length >= min && !this.bool(p)) break;
            out.push(fn(out.length));
        }
        return out;
    }
    shuffle(list) {
        const a = list.slice();
        for (let i = 0; i + 1 < a.length; i++) { const j = i + this.draw(a.length - i); [a[i], a[j]] = [a[j], a[i]]; }
        return a;
    }
}

export const generate = (prop, tier, seedStr) => {
    const src = new Src(makeRng(seedStr), null);
    const c = prop.generate(src, tier);
    return { case: c, choices: src.choices };
};
export const regenerate = (prop, tier, choices) => {
    const src = new Src(null, choices);
    const c = prop.generate(src, tier);
    return { case: c, choices: src.choices };
};

// JSON with BigInt, Uint8Array, NaN, infinities and -0.
export const toJson = (v, indent) => JSON.stringify(enc(v), null, indent);
const enc = (v) => {
    if (typeof v === 'bigint') return { $big: String(v) };
    if (v instanceof Uint8Array) return { $u8: Array.from(v) };
    if (typeof v === 'number' && (!Number.isFinite(v) || Object.is(v, -0))) return { $num: Object.is(v, -0) ? '-0' : String(v) };
    if (v === undefined) return { $undef: 1 };
    if (Array.isArray(v)) return v.map(enc);
    if (v && typeof v === 'object') { const o = {}; for (const k of Object.keys(v)) Object.defineProperty(o, k, { value: enc(v[k]), enumerable: true, configurable: true, writable: true }); return o; }
    return v;
};
export const fromJson = (s) => dec(JSON.parse(s));
const dec = (v) => {
    if (Array.isArray(v)) return v.map(dec);
    if (v && typeof v === 'object') {
        if ('$big' in v) return BigInt(v.$big);
        if ('$u8' in v) return new Uint8Array(v.$u8);
        if ('$num' in v) return Number(v.$num);
        if ('$undef' in v) return undefined;
        const o = {};
        for (const k of Object.keys(v)) Object.defineProperty(o, k, { value: dec(v[k]), enumerable: true, configurable: true, writable: true });
        return o;
    }
    return v;
};

/** Troubles of the sandbox, which say nothing about the code under test */
const TROUBLES = new Set(['ENOSPC', 'EMFILE', 'ENFILE', 'ENOMEM', 'EAGAIN', 'ENOBUFS', 'EADDRNOTAVAIL']);
/** What an exception means: a violation, also when the code under test makes the harness stumble (which it
 *  never does as it should be); errors the harness itself raises and troubles of the sandbox are thrown. */
export const failure = (e) => {
    if (e instanceof Violation) return { message: e.message, sig: e.sig };
    if (/harness/.test(String(e?.message)) || TROUBLES.has(e?.code)) throw e;
    return { message: `an unexpected exception: ${String(e?.stack ?? e).slice(0, 3000)}`, sig: 'exception' };
};
/** Runs a case; returns {failed: null or {message, sig}, info} */
export const runCase = async (prop, c, env) => {
    if (env.broken) return { failed: env.broken, info: {} };
    try {
        const info = await prop.run(c, env);
        return { failed: null, info: info ?? {} };
    } catch (e) {
        return { failed: failure(e), info: {} };
    }
};
/** prepares a worker; when that fails, every case fails */
export const initWorker = async (prop, env) => {
    try { if (prop.init) await prop.init(env); } catch (e) { env.broken = failure(e); }
};

export const shrink = async (prop, tier, start, env, budget) => {
    let best = start;
    let tries = 0;
    const t0 = Date.now();
    const seen = new Set();
    const over = () => tries >= budget.tries || Date.now() - t0 > budget.ms;
    const attempt = async (choices) => {
        if (over()) return false;
        const key = choices.join(',');
        if (seen.has(key)) return false;
        seen.add(key);
        let g;
        try { g = regenerate(prop, tier, choices); } catch { return false; }
        const smaller = g.choices.length < best.choices.length
            || (g.choices.length === best.choices.length && lexLess(g.choices, best.choices));
        if (!smaller) return false;
        tries++;
        let r;
        try { r = await runCase(prop, g.case, env); } catch { return false; }
        if (r.failed && r.failed.sig === best.failed.sig) {
            best = { ...g, failed: r.failed };
            budget.best?.(best, tries);
            return true;
        }
        return false;
    };
    let improved = true;
    while (improved && !over()) {
        improved = false;
        for (const size of [64, 32, 16, 8, 4, 3, 2, 1]) {
            for (let i = best.choices.length - size; i >= 0 && !over(); i--) {
                if (i + size > best.choices.length) continue;
                const c = best.choices.slice(0, i).concat(best.choices.slice(i + size));
                if (await attempt(c)) { improved = true; i -= size - 1; }
            }
        }
        for (let i = 0; i < best.choices.length && !over(); i++) {
            if (best.choices[i] === 0) continue;
            const zero = best.choices.slice();
            zero[i] = 0;
            if (await attempt(zero)) { improved = true; continue; }
            let lo = 0, hi = best.choices[i];
            while (lo + 1 < hi && !over()) {
                const mid = (lo + hi) >> 1;
                const c = best.choices.slice();
                c[i] = mid;
                if (await attempt(c)) { improved = true; hi = Math.min(mid, best.choices[i] ?? mid); } else lo = mid;
            }
        }
    }
    return { ...best, tries };
};
const lexLess = (a, b) => {
    for (let i = 0; i < a.length; i++) { if (a[i] !== b[i]) return a[i] < b[i]; }
    return false;
};
export const hash = fnv;
