import { fail } from '../engine.mjs';
import { Event_, KeyboardEvent_, DragEvent_ } from '../minidom.mjs';
import { Gen, Inst, EVENTS, attrsOf } from './page.mjs';
import { genPage, runPage } from './pageprop.mjs';

const cfg = { depth: 4, budget: 22, ops: 14, meanOps: 9, events: 0.8, w: { rv: 3, ro: 2, rl: 2, e: 8, tc: 1, fr: 1 } };
const HREFS = ['/p/1', 'sub', '?q=1', '/ż%20x', '/p/1?a=b#c', '', '#h', 'http://e.test/x', 'https://e.test', '//h.test/x', 'mailto:a@b.test', 'tel:1', 'HTTP://E.test', '/a:b', '/x//y', './r', '../u'];
const KEYS = ['a', 'Enter', 'Escape', 'ż', ' ', '', 'ArrowUp', '😀', 'F5'];
const BUBBLES = new Set(['click', 'mousedown', 'mouseup', 'input', 'change', 'keydown', 'drop']);
class G extends Gen {
    root() {
        const r = super.root();
        // at least one element with handlers
        if (this.s.bool(0.8)) r[3][1][3].push(['e', 'div', this.events(), this.s.list(0, 3, () => this.element(2, 0), 2), 0]);
        return r;
    }
    attrs(tag, env) {
        let out = super.attrs(tag, env);
        if (tag === 'a') {
            out = out.filter((a) => a[1] !== 'href');
            const s = this.s;
            if (s.bool(0.85)) out.push(s.bool(0.6) ? ['s', 'href', [s.pick(HREFS)]] : ['o', 'href', this.slot(), s.list(1, 3, () => s.bool(0.2) ? null : s.pick(HREFS), 2)]);
        }
        return out;
    }
    element(depth, env) {
        if (!this.s.bool(0.15)) return super.element(depth, env);
        return ['e', 'a', this.attrs('a', env), depth > 0 ? this.children(depth, env, 2) : [], this.s.draw(3)];
    }
    events(tag) {
        const out = super.events(tag);
        for (const a of out) if (a[1] === 'hook_keydown') a[3] = [];
        if (this.s.bool(0.1) && out.length) out.push(['on', out[0][1], this.id++, out[0][1] === 'hook_keydown' ? [] : this.body(), this.s.draw(2), null]);
        return out;
    }
    op() {
        const s = this.s;
        if (s.bool(0.3)) return super.op();
        if (s.bool(0.08)) return ['evold', s.draw(20), s.pick(EVENTS.filter((x) => x !== 'click' && x !== 'hook_keydown'))];
        const type = s.pick(EVENTS.filter((x) => x !== 'hook_keydown'));
        const detail = type === 'keydown' ? [s.pick(KEYS), s.pick(KEYS), s.bool(), s.bool(), s.bool(), s.bool()]
            : type === 'drop' ? s.list(1, 3, () => [this.text(), s.list(0, 6, () => s.draw(256), 3), s.draw(4)], 1)
                : type === 'input' || type === 'change' ? this.text() : null;
        return ['ev', s.draw(60), s.draw(3), type, detail];
    }
}
const elements = (inst, out = []) => { if (inst.desc[0] === 'e') out.push(inst); for (const k of inst.kids) elements(k, out); return out; };
const handlers = (inst, type) => inst.desc[2].filter((a) => a[0] === 'on' && a[1] === type);
const external = (h) => h.startsWith('#') || h.startsWith('//') || /^[a-z][a-z0-9+.-]*:/i.test(h);
const INPUTS = ['input', 'textarea'];

const makeEvent = (type, detail, b) => {
    const bubbles = BUBBLES.has(type);
    if (type === 'keydown') return new KeyboardEvent_(type, { bubbles, key: detail[0], code: detail[1], altKey: detail[2], ctrlKey: detail[3], shiftKey: detail[4], metaKey: detail[5] });
    if (type === 'drop') return new DragEvent_(type, { bubbles, dataTransfer: { items: detail.map(([name, data, wait]) => ({ kind: 'file', getAsFile: () => ({ name, arrayBuffer: async () => { for (let i = 0; i < (wait ?? 0) * 3; i++) await null; return new Uint8Array(data).buffer; } }) })) } });
    return new Event_(type, { bubbles });
};
export default {
    id: 'P09', quick: 15000, thorough: 400000,
    rule: 'Random pages whose elements declare handlers (plain, or replaced whenever a reactive value changes; handlers write data) for all supported events and links with all kinds of addresses; up to 14 operations: writes, events of every type dispatched with payloads at any element or at removed nodes. The handler log, default-prevention, propagation, address bar, scroll position and the page are compared with a model of event dispatch. Non-trivial = at least two handlers ran and at least one was a handler replaced or reached by bubbling.',
    assumptions: ['handlers hooked on the document write no data; their order is not compared', 'mouseenter, mouseleave, blur and load do not bubble'],
    generate: (src) => genPage(src, cfg, G),
    run: async (c, env) => {
        let ran = 0, special = 0, navs = 0;
        const old = [];
        const st = await runPage(c, env, {
            typed: true,
            op: async (st, op, check) => {
                if (op[0] !== 'ev' && op[0] !== 'evold') { remember(st); return false; }
                const { b, data, root } = st;
                if (op[0] === 'evold') {
                    const dead = old.filter((n) => !n.isConnected && n.localName !== 'a');
                    if (!dead.length) return true;
                    const t = dead[op[1] % dead.length];
                    b.dispatch(t, makeEvent(op[2], op[2] === 'keydown' ? KEYS : op[2] === 'drop' ? [['f', [1]]] : '', b));
                    await b.settle();
                    const log = b.exec(['log']).filter((x) => x[0] === 'on');
                    if (log.length) fail(`a ${op[2]} event at a removed <${t.localName}> was handled: ${JSON.stringify(log)}`, 'removed-handler');
                    return true;
                }
                remember(st);
                const [, idx, mode, type, detail] = op;
                let els = elements(root).filter((e) => e.node);
                const withH = els.filter((e) => handlers(e, type).length || (type === 'click' && e.desc[1] === 'a'));
                if (mode > 0 && withH.length) els = withH;
                const target = els[idx % els.length];
                const el = target.node;
                if ((type === 'input' || type === 'change') && INPUTS.includes(target.desc[1])) el.value = detail;
                const ev = makeEvent(type, detail, b);
                // what should happen
                const exp = [], expHooks = [];
                let prevented = false, stopped = false;
                const url0 = b.location.href, entries0 = b.entries.length, scrolls0 = b.scrolls.length;
                let url = new URL(url0), pushes = 0, scrolls = 0;
                const path = [];
                for (let i = target; i; i = i.parent) if (i.desc[0] === 'e') path.push(i);
                const payload = type === 'keydown' ? detail : type === 'drop' ? detail.map(([n, d]) => [n, new Uint8Array(d)]) : type === 'input' || type === 'change' ? el.value : null;
                const hrefs = new Map(path.map((i) => [i, i.node?.getAttribute('href')]));
                let unsure = false;
                const later = [];
                let value = payload, attr = attrsOf(target.desc, target.env, data).value ?? '';
                const call = (inst, a) => {
                    if (inst.dead) return;
                    const gen = a[5] === null ? -1 : data.get(a[5]);
                    exp.push([a[2], gen, typeof payload === 'string' ? (target.dead ? '?' : value) : payload]);
                    ran++;
                    if (a[5] !== null || inst !== target) special++;
                    for (const o of a[3]) data.apply(o);
                    if (a[3].length) root.update(data);
                    if (typeof payload === 'string' && !target.dead) {
                        const v = attrsOf(target.desc, target.env, data).value ?? '';
                        if (v !== attr) attr = value = v;
                    }
                    if ((type === 'mousedown' || type === 'mouseup') && a[4]) prevented = true;
                    if (type === 'keydown' && a[4]) { prevented = true; stopped = true; }
                };
                for (let i = 0; i < path.length; i++) {
                    if (i > 0 && !BUBBLES.has(type)) break;
                    const inst = path[i];
                    if (type === 'click' && inst.desc[1] === 'a') {
                        // removed by a handler below it: the browser still follows the path it had at first
                        if (inst.dead && inst.desc[2].some((a) => a[1] === 'href' && a[0] !== 's')) unsure = true;
                        const href = inst.dead ? hrefs.get(inst) : attrsOf(inst.desc, inst.env, data).href;
                        if (href !== undefined && href !== null && !external(href)) {
                            prevented = true;
                            scrolls++;
                            navs++;
                            if (url.pathname + url.search + url.hash !== href) { url = new URL(href, url); pushes++; }
                        }
                    }
                    const hs = inst.dead ? [] : handlers(inst, type);
                    for (const a of hs) {
                        if (inst.dead) break;
                        if (type === 'click' || type === 'load' || type === 'drop') prevented = true;
                        if ((type === 'input' || type === 'change') && !INPUTS.includes(target.desc[1])) continue;
                        if (type === 'drop') later.push([inst, a]); else call(inst, a);
                    }
                    if (stopped) break;
                }
                if (type === 'keydown' && !stopped) {
                    for (const e of elements(root)) for (const a of handlers(e, 'hook_keydown')) {
                        expHooks.push([a[2], a[5] === null ? -1 : data.get(a[5]), payload]);
                        ran++;
                        if (a[4]) prevented = true;
                    }
                }
                b.dispatch(el, ev);
                const what = `${type} ${JSON.stringify(detail)} at <${target.desc[1]}>`;
                if (!unsure && ev.defaultPrevented !== prevented) fail(`${what}: the default action is ${ev.defaultPrevented ? '' : 'not '}suppressed`, 'prevent-default');
                await b.settle();
                if (type === 'drop') for (const [inst, a] of later) call(inst, a);
                const log = b.exec(['log']).filter((x) => x[0] === 'on').map((x) => x.slice(1));
                const isHook = new Set(); for (const e of elements(root)) for (const a of handlers(e, 'hook_keydown')) isHook.add(a[2]);
                const J = (x) => JSON.stringify(x, (k, v) => v instanceof Uint8Array ? [...v] : typeof v === 'boolean' ? Number(v) : v);
                const main = log.filter((x) => !isHook.has(x[0])), hooks = log.filter((x) => isHook.has(x[0]));
                exp.forEach((x, i) => { if (x[2] === '?' && main[i]) main[i][2] = '?'; });
                if (J(main) !== J(exp)) fail(`${what}: handlers called: ${J(main)}; expected ${J(exp)}`, 'handlers');
                if (J(hooks.map(J).sort()) !== J(expHooks.map(J).sort())) fail(`${what}: hooked handlers called: ${J(hooks)}; expected ${J(expHooks)}`, 'hooks');
                if (type === 'keydown' && ev.stopped !== (stopped || expHooks.some((h) => { for (const e of elements(root)) for (const a of handlers(e, 'hook_keydown')) if (a[2] === h[0] && a[4]) return true; return false; }))) fail(`${what}: propagation is ${ev.stopped ? '' : 'not '}stopped`, 'propagation');
                if (!unsure && (b.location.href !== url.href || b.entries.length !== entries0 + pushes)) fail(`${what}: the address is ${b.location.href} after ${b.entries.length - entries0} new history entries instead of ${url.href} after ${pushes}`, 'navigation');
                if (!unsure && b.scrolls.length !== scrolls0 + scrolls) fail(`${what}: scrolled ${b.scrolls.length - scrolls0} times instead of ${scrolls}`, 'scroll');
                // a file may have been read after its handler was removed: the runtime says so and nothing else happens
                if (type === 'drop') b.console = b.console.filter((x) => !x.some((y) => String(y).includes('callback id not found')));
                check('after ' + what);
                return true;
            },
        });
        function remember(st) { for (const e of elements(st.root)) if (e.node && !old.includes(e.node) && old.length < 60) old.push(e.node); }
        return { nontrivial: ran >= 2 && special > 0, classes: [navs ? 'nav' : 'nonav', ran ? 'ran' : 'none', c.ts ? 'ts' : 'bundle'] };
    },
};
