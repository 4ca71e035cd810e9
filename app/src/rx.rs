//! Interpreter for reactive-graph programs.
use crate::n::N;
use crate::nl;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vertigo::{computed_tuple, get_driver, transaction, AutoMap, Computed, Context, DropResource, Reactive, Value};

#[derive(Clone)]
pub enum Slot {
    Val(Value<i64>),
    Comp(Computed<i64>),
}

#[derive(Default)]
struct St {
    nodes: RefCell<BTreeMap<usize, Slot>>,
    subs: RefCell<BTreeMap<usize, DropResource>>,
    hooks: RefCell<BTreeMap<usize, DropResource>>,
    emit: RefCell<BTreeMap<i64, Value<i64>>>,
    maps: RefCell<BTreeMap<usize, AutoMap<i64, Slot>>>,
}

thread_local! {
    static ST: St = St::default();
    static LOG: RefCell<Vec<N>> = const { RefCell::new(Vec::new()) };
}

thread_local! {
    static TOKS: RefCell<BTreeMap<(&'static str, i64), i64>> = const { RefCell::new(BTreeMap::new()) };
}
/// the captured objects that are alive: [[kind, id, count]...]
pub fn toks() -> N {
    TOKS.with(|t| N::L(t.borrow().iter().map(|((k, i), n)| nl![*k, *i, *n]).collect()))
}

pub fn log(n: N) {
    LOG.with(|l| l.borrow_mut().push(n));
}
pub fn take_log() -> N {
    N::L(LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}

/// Reports its own release.
pub struct Tok(&'static str, i64);
impl Tok {
    pub fn new(kind: &'static str, id: i64) -> Tok {
        TOKS.with(|t| *t.borrow_mut().entry((kind, id)).or_insert(0) += 1);
        Tok(kind, id)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        TOKS.with(|t| {
            let mut t = t.borrow_mut();
            if let Some(n) = t.get_mut(&(self.0, self.1)) {
                *n -= 1;
                if *n == 0 {
                    t.remove(&(self.0, self.1));
                }
            }
        });
        log(nl![self.0, self.1]);
    }
}

pub fn slot(i: usize) -> Option<Slot> {
    ST.with(|s| s.nodes.borrow().get(&i).cloned())
}
fn map(i: usize) -> Option<AutoMap<i64, Slot>> {
    ST.with(|s| s.maps.borrow().get(&i).cloned())
}
fn put(i: usize, s: Slot) {
    let old = ST.with(|st| st.nodes.borrow_mut().insert(i, s));
    drop(old);
}

pub enum E {
    K(i64),
    R(Slot),
    Add(Box<E>, Box<E>),
    Mul(Box<E>, i64),
    Mod(Box<E>, i64),
    If(Box<E>, Box<E>, Box<E>),
    Sw(Box<E>, Vec<E>),
    /// a derived value made (and dropped) during the evaluation
    In(i64, Rc<E>),
    /// `map` of a handle, made during the evaluation
    InMap(i64, Slot, i64),
    Auto(AutoMap<i64, Slot>, Box<E>),
}

fn rd(s: &Slot, ctx: &Context) -> i64 {
    match s {
        Slot::Val(v) => v.get(ctx),
        Slot::Comp(c) => c.get(ctx),
    }
}

impl E {
    pub fn parse(n: &N) -> E {
        let b = |i: usize| Box::new(E::parse(n.at(i)));
        match n.at(0).s() {
            "k" => E::K(n.at(1).i()),
            "r" => slot(n.at(1).u()).map(E::R).unwrap_or(E::K(0)),
            "add" => E::Add(b(1), b(2)),
            "mul" => E::Mul(b(1), n.at(2).i()),
            "mod" => E::Mod(b(1), n.at(2).i()),
            "if" => E::If(b(1), b(2), b(3)),
            "sw" => E::Sw(b(1), n.at(2).l().iter().map(E::parse).collect()),
            "in" => E::In(n.at(1).i(), Rc::new(E::parse(n.at(2)))),
            "inmap" => match slot(n.at(2).u()) {
                Some(s) => E::InMap(n.at(1).i(), s, n.at(3).i()),
                None => E::K(0),
            },
            "auto" => match map(n.at(1).u()) {
                Some(m) => E::Auto(m, b(2)),
                None => E::K(0),
            },
            other => panic!("harness: expr {other}"),
        }
    }
    pub fn eval(&self, ctx: &Context) -> i64 {
        match self {
            E::K(k) => *k,
            E::R(s) => rd(s, ctx),
            E::Add(a, b) => a.eval(ctx).wrapping_add(b.eval(ctx)),
            E::Mul(a, k) => a.eval(ctx).wrapping_mul(*k) % 1_000_003,
            E::Mod(a, k) => a.eval(ctx).rem_euclid(*k),
            E::If(c, a, b) => {
                if c.eval(ctx) != 0 {
                    a.eval(ctx)
                } else {
                    b.eval(ctx)
                }
            }
            E::Sw(c, l) => {
                let i = c.eval(ctx).rem_euclid(l.len() as i64);
                l[i as usize].eval(ctx)
            }
            E::In(id, e) => {
                let (id, e) = (*id, e.clone());
                let c = Computed::from(move |ctx| {
                    log(nl!["ev", id]);
                    e.eval(ctx)
                });
                c.get(ctx)
            }
            E::InMap(id, s, k) => {
                let (id, k) = (*id, *k);
                let f = move |x: i64| {
                    log(nl!["ev", id]);
                    x.wrapping_add(k)
                };
                match s {
                    Slot::Val(v) => v.map(f).get(ctx),
                    Slot::Comp(c) => c.map(f).get(ctx),
                }
            }
            E::Auto(m, k) => {
                let key = k.eval(ctx);
                rd(&m.get(&key), ctx)
            }
        }
    }
}

fn make_comp(id: i64, e: E) -> Computed<i64> {
    let tok = Tok::new("tok", id);
    Computed::from(move |ctx| {
        let _ = &tok;
        log(nl!["ev", id]);
        e.eval(ctx)
    })
}

pub fn to_comp(s: Slot) -> Computed<i64> {
    match s {
        Slot::Val(v) => v.to_computed(),
        Slot::Comp(c) => c,
    }
}


pub fn exec_list(ops: &[N], ctx: Option<&Context>) {
    for op in ops {
        let _ = exec(op, ctx);
        log(nl!["d"]);
    }
}

/// Operations on slots that hold nothing suitable do nothing (None).
fn exec(op: &N, ctx: Option<&Context>) -> Option<()> {
    let val = |i: usize| match slot(i) {
        Some(Slot::Val(v)) => Some(v),
        _ => None,
    };
    match op.at(0).s() {
        "val" => put(op.at(1).u(), Slot::Val(Value::new(op.at(2).i()))),
        "comp" => {
            let c = make_comp(op.at(2).i(), E::parse(op.at(3)));
            put(op.at(1).u(), Slot::Comp(c));
        }
        // several ways of deriving without an explicit context
        "conv" => {
            let s = slot(op.at(2).u())?;
            let c = match (s, op.at(3).i()) {
                (Slot::Val(v), 0) => v.into(),
                (Slot::Val(v), 1) => vertigo::ToComputed::to_computed(&v),
                (Slot::Val(v), _) => v.to_computed(),
                (Slot::Comp(c), 0) => vertigo::ToComputed::to_computed(&c),
                (Slot::Comp(c), _) => c.clone(),
            };
            put(op.at(1).u(), Slot::Comp(c));
        }
        "konst" => {
            let c: Computed<i64> = op.at(2).i().into();
            put(op.at(1).u(), Slot::Comp(c));
        }
        "map" => {
            let src = slot(op.at(3).u())?;
            let id = op.at(2).i();
            let k = op.at(4).i();
            let tok = Tok::new("tok", id);
            let f = move |x: i64| {
                let _ = &tok;
                log(nl!["ev", id]);
                x.wrapping_add(k)
            };
            let c = match src {
                Slot::Val(v) => v.map(f),
                Slot::Comp(c) => c.map(f),
            };
            put(op.at(1).u(), Slot::Comp(c));
        }
        "tup" => {
            let id = op.at(2).i();
            let (x, y) = (slot(op.at(3).u())?, slot(op.at(4).u())?);
            let named = op.at(5).i() == 1;
            macro_rules! both {
                ($x:expr, $y:expr) => {{
                    let (p, q) = ($x, $y);
                    if named {
                        let pair = (p, q);
                        computed_tuple!(a => pair.0, b => pair.1)
                    } else {
                        computed_tuple!(p, q)
                    }
                }};
            }
            let c = match (x, y) {
                (Slot::Val(x), Slot::Val(y)) => both!(x, y),
                (Slot::Val(x), Slot::Comp(y)) => both!(x, y),
                (Slot::Comp(x), Slot::Val(y)) => both!(x, y),
                (Slot::Comp(x), Slot::Comp(y)) => both!(x, y),
            };
            let tok = Tok::new("tok", id);
            let c = c.map(move |(x, y)| {
                let _ = &tok;
                log(nl!["ev", id]);
                x.wrapping_add(x.wrapping_add(y))
            });
            put(op.at(1).u(), Slot::Comp(c));
        }
        "conn" => {
            let id = op.at(2).i();
            let c = Value::with_connect(op.at(3).i(), move |v| {
                log(nl!["con", id]);
                let v = v.clone();
                let prev = ST.with(|s| s.emit.borrow_mut().insert(id, v));
                if prev.is_some() {
                    log(nl!["dbl", id]);
                }
                DropResource::new(move || {
                    log(nl!["dis", id]);
                    let old = ST.with(|s| s.emit.borrow_mut().remove(&id));
                    drop(old);
                })
            });
            put(op.at(1).u(), Slot::Comp(c));
        }
        "emit" => {
            let v = ST.with(|s| s.emit.borrow().get(&op.at(1).i()).cloned());
            match v {
                Some(v) => {
                    log(nl!["em", op.at(1).i()]);
                    v.set(op.at(2).i())
                }
                None => log(nl!["noem", op.at(1).i()]),
            }
        }
        "automap" => {
            let id = op.at(2).i();
            let kind = op.at(3).i();
            let base = if kind == 1 { Some(slot(op.at(4).u())?) } else { None };
            let tok = Tok::new("tok", id);
            let m = AutoMap::<i64, Slot>::new(move |map, key| {
                let _ = &tok;
                let key = *key;
                log(nl!["fac", id, key]);
                match &base {
                    None if kind == 2 && key > 0 => {
                        let prev = map.get(&(key - 1));
                        Slot::Comp(Computed::from(move |ctx| rd(&prev, ctx).wrapping_add(key)))
                    }
                    None => Slot::Val(Value::new(key * 10)),
                    Some(base) => {
                        let base = base.clone();
                        Slot::Comp(Computed::from(move |ctx| rd(&base, ctx).wrapping_mul(key) % 1009))
                    }
                }
            });
            let old = ST.with(|s| s.maps.borrow_mut().insert(op.at(1).u(), m));
            drop(old);
        }
        "mapget" => {
            let m = map(op.at(1).u())?;
            let key = op.at(2).i();
            let it = m.get(&key);
            let show = |v: i64| log(nl!["mg", op.at(1).i(), key, v]);
            match ctx {
                Some(ctx) => show(rd(&it, ctx)),
                None => transaction(|ctx| show(rd(&it, ctx))),
            };
        }
        "mapset" => {
            let m = map(op.at(1).u())?;
            if let Slot::Val(v) = m.get(&op.at(2).i()) {
                v.set(op.at(3).i());
            }
        }
        "dropmap" => {
            let old = ST.with(|s| s.maps.borrow_mut().remove(&op.at(1).u()));
            drop(old);
        }
        "clone" => put(op.at(1).u(), slot(op.at(2).u())?),
        "set" => val(op.at(1).u())?.set(op.at(2).i()),
        "rset" => Reactive::set(&val(op.at(1).u())?, op.at(2).i()),
        "setc" => val(op.at(1).u())?.set_value_and_compare(op.at(2).i()),
        "chg" => {
            let k = op.at(2).i();
            val(op.at(1).u())?.change(|x| *x = x.wrapping_add(k));
        }
        "rchg" => {
            let k = op.at(2).i();
            Reactive::change(&val(op.at(1).u())?, |x: &mut i64| *x = x.wrapping_add(k));
        }
        "get" => {
            let s = slot(op.at(1).u())?;
            let show = |v: i64| log(nl!["rd", op.at(1).i(), v]);
            match ctx {
                Some(ctx) => show(rd(&s, ctx)),
                None => {
                    if op.len() > 2 {
                        get_driver().transaction(|ctx| show(rd(&s, ctx)))
                    } else {
                        transaction(|ctx| show(rd(&s, ctx)))
                    }
                }
            };
        }
        "tx" => {
            let r = transaction(|ctx| {
                log(nl!["txb"]);
                exec_list(op.at(1).l(), Some(ctx));
                log(nl!["txe"]);
                op.at(1).len()
            });
            assert_eq!(r, op.at(1).len());
        }
        "sub" | "suba" => {
            let k = op.at(1).u();
            let c = to_comp(slot(op.at(2).u())?);
            let body = op.at(3).clone();
            let limit = op.at(4).i();
            let tok = Tok::new("stok", k as i64);
            let count = std::cell::Cell::new(0i64);
            let f = move |v: i64| {
                let _ = &tok;
                let n = count.get() + 1;
                count.set(n);
                log(nl!["nt", k, v, n]);
                if n <= limit {
                    exec_list(body.l(), None);
                }
                log(nl!["ntx", k]);
                Tok::new("res", k as i64 * 1000 + n)
            };
            let r = if op.at(0).s() == "sub" { c.subscribe(f) } else { c.subscribe_all(f) };
            let old = ST.with(|s| s.subs.borrow_mut().insert(k, r));
            drop(old);
        }
        "unsub" => {
            let old = ST.with(|s| s.subs.borrow_mut().remove(&op.at(1).u()));
            match old {
                Some(old) => {
                    log(nl!["us", op.at(1).i(), 1]);
                    if op.len() > 2 {
                        old.off();
                    } else {
                        drop(old);
                    }
                    log(nl!["usx", op.at(1).i()]);
                }
                None => log(nl!["us", op.at(1).i(), 0]),
            }
        }
        "drop" => {
            let old = ST.with(|s| s.nodes.borrow_mut().remove(&op.at(1).u()));
            drop(old);
        }
        "hook" => {
            let k = op.at(1).u();
            let body = op.at(2).clone();
            let limit = op.at(3).i();
            let tok = Tok::new("htok", k as i64);
            let count = std::cell::Cell::new(0i64);
            let r = get_driver().on_after_transaction(move || {
                let _ = &tok;
                let n = count.get() + 1;
                count.set(n);
                log(nl!["hk", k]);
                if n <= limit {
                    exec_list(body.l(), None);
                }
                log(nl!["hkx", k]);
            });
            let old = ST.with(|s| s.hooks.borrow_mut().insert(k, r));
            drop(old);
        }
        "unhook" => {
            let old = ST.with(|s| s.hooks.borrow_mut().remove(&op.at(1).u()));
            log(nl!["uh", op.at(1).i()]);
            drop(old);
        }
        other => {
            if !crate::page::exec(op) && !crate::insp::exec(op) && !crate::pay::exec(op) && !crate::host::exec(op, ctx) {
                panic!("harness: op {other}")
            }
        }
    }
    Some(())
}
