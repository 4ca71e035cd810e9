//! Builds vertigo nodes from page descriptions.
use crate::n::N;
use crate::nl;
use crate::rx::{exec_list, log, slot, to_comp, Slot, Tok};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vertigo::{
    transaction, Callback, Callback1, Computed, Css, DomComment, DomElement, DomNode, DomText, DropFileEvent, EmbedDom, KeyDownEvent, Value,
};

type List = Vec<(i64, i64)>;

#[derive(Default)]
struct St {
    lists: RefCell<BTreeMap<usize, Value<List>>>,
    strs: RefCell<BTreeMap<usize, Value<String>>>,
    opts: RefCell<BTreeMap<usize, Value<Option<String>>>>,
    nodes: RefCell<BTreeMap<usize, DomNode>>,
}
thread_local! {
    static ST: St = St::default();
    static BOOT: RefCell<Option<N>> = const { RefCell::new(None) };
}

pub fn set_boot(n: N) {
    BOOT.with(|b| *b.borrow_mut() = Some(n));
}
pub fn boot() -> Option<N> {
    BOOT.with(|b| b.borrow().clone())
}

pub fn list(i: usize) -> Value<List> {
    ST.with(|s| s.lists.borrow_mut().entry(i).or_insert_with(|| Value::new(Vec::new())).clone())
}
pub fn strv(i: usize) -> Value<String> {
    ST.with(|s| s.strs.borrow_mut().entry(i).or_insert_with(|| Value::new(String::new())).clone())
}
pub fn optv(i: usize) -> Value<Option<String>> {
    ST.with(|s| s.opts.borrow_mut().entry(i).or_insert_with(|| Value::new(None)).clone())
}

fn comp(i: usize) -> Computed<i64> {
    match slot(i) {
        Some(s) => to_comp(s),
        None => panic!("harness: no slot {i}"),
    }
}
fn ostr(n: &N) -> Option<String> {
    match n {
        N::Null => None,
        n => Some(n.s().to_string()),
    }
}
fn pick(strings: &N) -> impl Fn(i64) -> Option<String> + 'static {
    let list: Vec<Option<String>> = strings.l().iter().map(ostr).collect();
    move |v| list[v.rem_euclid(list.len() as i64) as usize].clone()
}
pub fn plist(n: &N) -> List {
    n.l().iter().map(|p| (p.at(0).i(), p.at(1).i())).collect()
}

const STATIC_CSS: [&str; 4] = ["color: st0", "color: st1; width: 1px", "color: st2", "color: st3; &:hover { color: hov }"];
fn sus_a(loading: bool) -> Css {
    if loading {
        Css::str("content: busy-a")
    } else {
        Css::str("content: idle-a")
    }
}
fn sus_b(loading: bool) -> Css {
    if loading {
        Css::str("content: busy-b")
    } else {
        Css::str("content: idle-b").push_str("content: extra-b")
    }
}

pub fn css(n: &N) -> Css {
    let mut out = Css::default();
    for g in n.l() {
        match g.at(0).s() {
            "st" => out = out.push_str(STATIC_CSS[g.at(1).u() % STATIC_CSS.len()]),
            "leak" => out = out.push_str(Box::leak(g.at(1).s().to_string().into_boxed_str())),
            "dyn" => out.push_string(g.at(1).s().to_string()),
            "ext" => out = out.extend(css(g.at(1))),
            other => panic!("harness: css {other}"),
        }
    }
    out
}

fn text(n: &N, env: &[i64]) -> String {
    match n {
        N::S(s) => s.clone(),
        N::L(l) => {
            let mut out = String::new();
            for x in l {
                match x {
                    N::S(s) => out.push_str(s),
                    N::I(i) => out.push_str(&env.get(*i as usize).copied().unwrap_or(-1).to_string()),
                    _ => panic!("harness: text"),
                }
            }
            out
        }
        _ => panic!("harness: text"),
    }
}

fn list_source(n: &N) -> Computed<List> {
    match n.at(0).s() {
        "l" => list(n.at(1).u()).to_computed(),
        "lf" => {
            let base = list(n.at(1).u());
            let by = comp(n.at(2).u());
            let kind = n.at(3).i();
            Computed::from(move |ctx| {
                let mut l = base.get(ctx);
                let v = by.get(ctx);
                match kind {
                    0 => l.retain(|x| (x.0 + v).rem_euclid(3) != 0),
                    1 => {
                        if v.rem_euclid(2) == 1 {
                            l.reverse()
                        }
                    }
                    _ => {
                        if !l.is_empty() {
                            let k = v.rem_euclid(l.len() as i64) as usize;
                            l.rotate_left(k)
                        }
                    }
                }
                l
            })
        }
        other => panic!("harness: list {other}"),
    }
}

/// what a handler does: log, run operations, answer
struct Hand {
    id: i64,
    body: N,
    ret: bool,
    _tok: Tok,
}
impl Hand {
    fn call(&self, gen: i64, payload: N) -> bool {
        log(nl!["on", self.id, gen, payload]);
        exec_list(self.body.l(), None);
        log(nl!["onx", self.id]);
        self.ret
    }
}

fn cb0<R: Clone + 'static>(n: &N, conv: fn(bool) -> R) -> Callback<R> {
    let h = hand(n);
    match n.at(5) {
        N::Null => Callback::from(move || conv(h.call(-1, N::Null))),
        s => Callback::Computed(comp(s.u()).map(move |v| {
            let h = h.clone();
            let f: Rc<dyn Fn() -> R> = Rc::new(move || conv(h.call(v, N::Null)));
            f
        })),
    }
}
fn cb1<T: 'static, R: Clone + 'static>(n: &N, show: fn(T) -> N, conv: fn(bool) -> R) -> Callback1<T, R> {
    let h = hand(n);
    match n.at(5) {
        N::Null => Callback1::from(move |x: T| conv(h.call(-1, show(x)))),
        s => Callback1::Computed(comp(s.u()).map(move |v| {
            let h = h.clone();
            let f: Rc<dyn Fn(T) -> R> = Rc::new(move |x: T| conv(h.call(v, show(x))));
            f
        })),
    }
}
fn hand(n: &N) -> Rc<Hand> {
    Rc::new(Hand { id: n.at(2).i(), body: n.at(3).clone(), ret: n.at(4).i() != 0, _tok: Tok::new("htok", n.at(2).i()) })
}
fn unit(_: bool) {}
fn same(b: bool) -> bool {
    b
}
fn show_key(e: KeyDownEvent) -> N {
    nl![e.key, e.code, e.alt_key, e.ctrl_key, e.shift_key, e.meta_key]
}
fn show_files(e: DropFileEvent) -> N {
    N::L(e.items.into_iter().map(|i| nl![i.name, i.data.to_vec()]).collect())
}

pub fn element(n: &N, env: &[i64]) -> DomElement {
    let mut e = DomElement::new(n.at(1).s().to_string());
    let style = if n.len() > 4 { n.at(4).i() } else { 0 };
    if style == 1 {
        for c in n.at(3).l() {
            e.add_child(node(c, env));
        }
    }
    for a in n.at(2).l() {
        let name = a.at(1);
        e = match a.at(0).s() {
            "s" => {
                if style == 2 {
                    e.attrs(vec![(name.s().to_string(), text(a.at(2), env))])
                } else {
                    e.attr(name.s().to_string(), text(a.at(2), env))
                }
            }
            "n" => e.attr(name.s().to_string(), a.at(2).i()),
            "c" => {
                let f = pick(a.at(3));
                e.attr(name.s().to_string(), comp(a.at(2).u()).map(move |v| f(v).unwrap_or_default()))
            }
            "o" => {
                let f = pick(a.at(3));
                let c: Computed<Option<String>> = comp(a.at(2).u()).map(f);
                if style == 2 {
                    e.attr(name.s().to_string(), &c)
                } else {
                    e.attr(name.s().to_string(), c)
                }
            }
            "vs" => {
                let v = strv(a.at(2).u());
                if style == 2 {
                    e.attr(name.s().to_string(), &v)
                } else {
                    e.attr(name.s().to_string(), v)
                }
            }
            "vo" => {
                let v = optv(a.at(2).u());
                if style == 2 {
                    e.attr(name.s().to_string(), &v)
                } else {
                    e.attr(name.s().to_string(), v)
                }
            }
            "css" => e.css(css(name)),
            "cssc" => {
                let list: Vec<Css> = a.at(2).l().iter().map(css).collect();
                e.css(comp(a.at(1).u()).map(move |v| list[v.rem_euclid(list.len() as i64) as usize].clone()))
            }
            "sus" => match a.at(1).i() {
                0 => e.suspense(Some(sus_a)),
                1 => e.suspense(Some(sus_b)),
                _ => e.suspense(None),
            },
            "ref" => {
                crate::host::put_ref(a.at(1).u(), &e);
                e
            }
            "on" => match a.at(1).s() {
                "click" => e.on_click(cb0(a, unit)),
                "mousedown" => e.on_mouse_down(cb0(a, same)),
                "mouseup" => e.on_mouse_up(cb0(a, same)),
                "mouseenter" => e.on_mouse_enter(cb0(a, unit)),
                "mouseleave" => e.on_mouse_leave(cb0(a, unit)),
                "blur" => e.on_blur(cb0(a, unit)),
                "load" => e.on_load(cb0(a, unit)),
                "input" => e.on_input(cb1(a, |s: String| N::S(s), unit)),
                "change" => e.on_change(cb1(a, |s: String| N::S(s), unit)),
                "keydown" => e.on_key_down(cb1(a, show_key, same)),
                "hook_keydown" => e.hook_key_down(cb1(a, show_key, same)),
                "drop" => e.on_dropfile(cb1(a, show_files, unit)),
                other => panic!("harness: event {other}"),
            },
            other => panic!("harness: attr {other}"),
        };
    }
    match style {
        1 => e,
        2 => e.children(n.at(3).l().iter().map(|c| node(c, env)).collect::<Vec<_>>()),
        _ => {
            for c in n.at(3).l() {
                e = match c.at(0).s() {
                    "t" => e.child_text(text(c.at(1), env)),
                    _ => e.child(node(c, env)),
                };
            }
            e
        }
    }
}

pub fn node(n: &N, env: &[i64]) -> DomNode {
    match n.at(0).s() {
        "t" => match n.len() > 2 && n.at(2).i() == 1 {
            true => text(n.at(1), env).embed(),
            false => DomNode::from(text(n.at(1), env)),
        },
        "tc" => {
            let s = comp(n.at(1).u());
            if n.at(2).is_null() {
                return match n.at(3).i() {
                    0 => DomText::new_computed(s.map(|v| v.to_string())).into(),
                    1 => s.embed(),
                    _ => match slot(n.at(1).u()) {
                        Some(Slot::Val(v)) => v.embed(),
                        _ => (&s).embed(),
                    },
                };
            }
            let f = pick(n.at(2));
            let c = s.map(move |v| f(v).unwrap_or_default());
            match n.at(3).i() {
                0 => DomText::new_computed(c).into(),
                1 => c.embed(),
                _ => (&c).embed(),
            }
        }
        "tvs" => {
            let v = strv(n.at(1).u());
            match n.at(2).i() {
                0 => DomText::new_computed(v).into(),
                1 => v.embed(),
                _ => (&v).embed(),
            }
        }
        "e" => element(n, env).into(),
        "rv" => {
            let id = n.at(3).i();
            let alts = n.at(2).clone();
            let env = env.to_vec();
            let tok = Tok::new("tok", id);
            let f = move |v: i64| {
                let _ = &tok;
                log(nl!["rn", id, v]);
                let mut env = env.clone();
                env.push(v);
                node(alts.at(v.rem_euclid(alts.len() as i64) as usize), &env)
            };
            match slot(n.at(1).u()) {
                Some(Slot::Val(v)) => v.render_value(f),
                _ => comp(n.at(1).u()).render_value(f),
            }
        }
        "ro" => {
            let id = n.at(3).i();
            let alts = n.at(2).clone();
            let env = env.to_vec();
            let tok = Tok::new("tok", id);
            let f = move |v: i64| {
                let _ = &tok;
                log(nl!["rn", id, v]);
                let mut env = env.clone();
                env.push(v);
                match alts.at(v.rem_euclid(alts.len() as i64) as usize) {
                    N::Null => None,
                    d => Some(node(d, &env)),
                }
            };
            match slot(n.at(1).u()) {
                Some(Slot::Val(v)) => v.render_value_option(f),
                _ => comp(n.at(1).u()).render_value_option(f),
            }
        }
        "rl" => {
            let id = n.at(4).i();
            let item = n.at(2).clone();
            let mode = n.at(3).i();
            let env = env.to_vec();
            let tok = Tok::new("tok", id);
            let f = move |x: &(i64, i64)| {
                let _ = &tok;
                log(nl!["ri", id, x.0, x.1]);
                let mut env = env.clone();
                env.push(x.0);
                env.push(if mode == 0 { x.0 } else { x.1 });
                node(&item, &env)
            };
            let key = move |x: &(i64, i64)| if mode == 0 { (x.0, 0) } else { *x };
            if n.at(1).at(0).s() == "l" && mode == 1 {
                return list(n.at(1).at(1).u()).render_list(key, f);
            }
            list_source(n.at(1)).render_list(key, f)
        }
        "fr" => DomComment::dom_fragment(n.at(1).l().iter().map(|c| node(c, env)).collect()).into(),
        "cm" => DomComment::new(n.at(1).s()).into(),
        // content that loads lazily is built elsewhere
        "lazy" => crate::host::lazy_node(n, env),
        other => panic!("harness: node {other}"),
    }
}

/// operations on page data
pub fn exec(op: &N) -> bool {
    match op.at(0).s() {
        "lset" => list(op.at(1).u()).set(plist(op.at(2))),
        "sset" => strv(op.at(1).u()).set(op.at(2).s().to_string()),
        "oset" => optv(op.at(1).u()).set(ostr(op.at(2))),
        // nodes outside of the page
        "mk" => {
            let d = node(op.at(2), &[]);
            let old = ST.with(|s| s.nodes.borrow_mut().insert(op.at(1).u(), d));
            drop(old);
        }
        "rm" => {
            let old = ST.with(|s| s.nodes.borrow_mut().remove(&op.at(1).u()));
            transaction(|_| drop(old));
        }
        _ => return false,
    }
    true
}
