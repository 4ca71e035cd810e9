//! Values with data of the program's own, whose copying, comparing and dropping (and every function passed to the framework) runs
//! operations; none of them may find memory that was released.
use crate::rx::{exec_list, log};
use crate::{n::N, nl};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::task::{Context as Cx, Poll, Waker};
use vertigo::router::Router;
use vertigo::{dom, get_driver, LazyCache, RequestBuilder, Resource, ToComputed, WebsocketMessage, transaction, AutoMap, Callback1, Computed, Css, DomElement, DomNode, DropResource, FutureBox, FutureBoxSend, Value};

#[derive(Default)]
struct St {
    /// operations run when data with this number is dropped (0), copied (1), compared (2), hashed (3)
    bodies: RefCell<BTreeMap<(i64, i64), N>>,
    vals: RefCell<BTreeMap<usize, Value<Pay>>>,
    lists: RefCell<BTreeMap<usize, Value<Vec<Pay>>>>,
    comps: RefCell<BTreeMap<usize, Computed<Pay>>>,
    held: RefCell<BTreeMap<usize, Box<dyn std::any::Any>>>,
    maps: RefCell<BTreeMap<usize, AutoMap<Pay, Value<Pay>>>>,
    waits: RefCell<BTreeMap<usize, FutureBoxSend<Pay>>>,
    wakers: RefCell<BTreeMap<usize, Waker>>,
    lazies: RefCell<BTreeMap<usize, LazyCache<Pay>>>,
    routers: RefCell<BTreeMap<usize, Router<Way>>>,
}
thread_local! {
    static ST: St = St::default();
    static FUEL: Cell<i64> = const { Cell::new(300) };
    /// dropped data may write too
    static BOLD: Cell<bool> = const { Cell::new(false) };
    static DEPTH: Cell<i64> = const { Cell::new(0) };
    /// functions which forbid writing, as they may be called while values are refreshed
    static QUIET: Cell<i64> = const { Cell::new(0) };
}

pub fn run(body: &N, quiet: bool) {
    if body.is_null() || body.len() == 0 || FUEL.with(|f| f.get()) <= 0 || DEPTH.with(|d| d.get()) >= 4 {
        return;
    }
    DEPTH.with(|d| d.set(d.get() + 1));
    QUIET.with(|q| q.set(q.get() + quiet as i64));
    for op in body.l() {
        let left = FUEL.with(|f| {
            f.set(f.get() - 1);
            f.get()
        });
        if left <= 0 {
            break;
        }
        exec_list(std::slice::from_ref(op), None);
    }
    QUIET.with(|q| q.set(q.get() - quiet as i64));
    DEPTH.with(|d| d.set(d.get() - 1));
}

struct Mark(i64);
pub struct Pay {
    name: String,
    mark: Mark,
    bytes: Box<[u8]>,
    more: Vec<String>,
}
impl Pay {
    fn new(id: i64) -> Pay {
        Pay { name: format!("pay {id}"), mark: Mark(id), bytes: vec![id as u8 & 0x7f; 16 + (id as usize % 7) * 8].into(), more: vec![format!("more {id}"); 2] }
    }
    /// the data must be whole
    fn see(&self, what: &str) {
        let id = self.mark.0;
        let whole = self.name == format!("pay {id}") && self.bytes.iter().all(|b| *b == id as u8 & 0x7f) && self.more.len() == 2 && self.more.iter().all(|m| *m == format!("more {id}"));
        if !whole {
            log(nl!["torn", what, id]);
        }
    }
    fn react(&self, kind: i64) {
        self.mark.react(kind);
    }
}
impl Mark {
    fn react(&self, kind: i64) {
        let body = ST.try_with(|s| s.bodies.try_borrow().ok().and_then(|b| b.get(&(kind, self.0)).cloned()));
        if let Ok(Some(body)) = body {
            run(&body, !BOLD.with(|b| b.get()));
        }
    }
}
impl Drop for Mark {
    fn drop(&mut self) {
        log(nl!["pd", self.0]);
        self.react(0);
    }
}
impl Clone for Pay {
    fn clone(&self) -> Pay {
        self.see("copied");
        self.react(1);
        self.see("copied after the operations");
        Pay::new(self.mark.0)
    }
}
impl PartialEq for Pay {
    fn eq(&self, other: &Pay) -> bool {
        self.see("compared");
        self.react(2);
        other.see("compared");
        self.see("compared after the operations");
        self.mark.0 == other.mark.0
    }
}
impl Eq for Pay {}
impl Hash for Pay {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.see("hashed");
        self.react(3);
        self.mark.0.hash(h);
    }
}

fn val(i: usize) -> Option<Value<Pay>> {
    ST.with(|s| s.vals.borrow().get(&i).cloned())
}
fn list(i: usize) -> Option<Value<Vec<Pay>>> {
    ST.with(|s| s.lists.borrow().get(&i).cloned())
}
fn comp(i: usize) -> Option<Computed<Pay>> {
    ST.with(|s| s.comps.borrow().get(&i).cloned())
}
macro_rules! put {
    ($table:ident, $i:expr, $v:expr) => {{
        let v = $v;
        let old = ST.with(|s| s.$table.borrow_mut().insert($i, v));
        drop(old);
    }};
}
macro_rules! take {
    ($table:ident, $i:expr) => {
        ST.with(|s| s.$table.borrow_mut().remove(&$i))
    };
}
fn pays(n: &N) -> Vec<Pay> {
    n.l().iter().map(|x| Pay::new(x.i())).collect()
}
fn source(i: i64) -> Option<Computed<Pay>> {
    if i >= 100 {
        comp(i as usize)
    } else {
        val(i as usize).map(|v| v.to_computed())
    }
}
/// a route with functions of its own
#[derive(Clone, PartialEq)]
struct Way(Pay);
fn body_of(kind: i64, id: i64) -> N {
    ST.try_with(|s| s.bodies.try_borrow().ok().and_then(|b| b.get(&(kind, id)).cloned())).ok().flatten().unwrap_or(N::Null)
}
impl From<String> for Way {
    fn from(text: String) -> Way {
        let way = Way(Pay::new(text.parse().unwrap_or(0)));
        run(&body_of(10, 0), true);
        way.0.see("made from an address");
        way
    }
}
impl std::fmt::Display for Way {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        run(&body_of(10, 1), true);
        self.0.see("made an address");
        write!(f, "{}", self.0.mark.0)
    }
}
fn loading(is: bool) -> Css {
    let pay = Pay::new(is as i64);
    run(&body_of(9, is as i64), !BOLD.with(|b| b.get()));
    pay.see("used for a loading indication");
    if is {
        Css::str("color: busy")
    } else {
        Css::str("color: idle")
    }
}
/// something that is held, dropped with an operation of its own
struct Held<T>(#[allow(dead_code)] T);

/// a future that needs several turns
struct Turns {
    ways: Vec<i64>,
    next: usize,
    pay: Pay,
}
impl Future for Turns {
    type Output = Pay;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Pay> {
        self.pay.see("polled");
        let Some(way) = self.ways.get(self.next).copied() else {
            return Poll::Ready(Pay::new(self.pay.mark.0));
        };
        self.next += 1;
        let w = cx.waker();
        match way % 6 {
            0 => w.wake_by_ref(),
            1 => w.clone().wake(),
            2 => {
                drop(w.clone());
                w.wake_by_ref();
                w.wake_by_ref();
            }
            3 => {
                let all = [w.clone(), w.clone(), w.clone()];
                for x in all {
                    x.wake();
                }
            }
            4 => {
                put!(wakers, (way / 6) as usize % 2, w.clone());
                w.clone().wake_by_ref();
            }
            // woken from outside, if at all
            _ => put!(wakers, (way / 6) as usize % 2, w.clone()),
        }
        Poll::Pending
    }
}

pub fn exec(op: &N) -> bool {
    step(op).unwrap_or(op.at(0).s().starts_with("p:"))
}
fn step(op: &N) -> Option<bool> {
    let quiet = QUIET.with(|q| q.get()) > 0;
    let name = op.at(0).s().strip_prefix("p:")?;
    let i = if name == "tx" { 0 } else { op.at(1).i() as usize };
    match name {
        "bold" => BOLD.with(|b| b.set(true)),
        "fuel" => FUEL.with(|f| f.set(op.at(1).i())),
        "body" => {
            let old = ST.with(|s| s.bodies.borrow_mut().insert((op.at(1).i(), op.at(2).i()), op.at(3).clone()));
            drop(old);
        }
        "val" => put!(vals, i, Value::new(Pay::new(op.at(2).i()))),
        "list" => put!(lists, i, Value::new(pays(op.at(2)))),
        "set" if !quiet => val(i)?.set(Pay::new(op.at(2).i())),
        "setc" if !quiet => val(i)?.set_value_and_compare(Pay::new(op.at(2).i())),
        "chg" if !quiet => {
            let body = op.at(3).clone();
            let id = op.at(2).i();
            val(i)?.change(move |v| {
                v.see("changed");
                run(&body, false);
                v.see("changed after the operations");
                *v = Pay::new(id);
            });
        }
        "lset" if !quiet => list(i)?.set(pays(op.at(2))),
        "lchg" if !quiet => {
            let (id, at) = (op.at(2).i(), op.at(3).u());
            let body = op.at(4).clone();
            list(i)?.change(move |v| {
                run(&body, false);
                match v.len() {
                    0 => v.push(Pay::new(id)),
                    n if at % 3 == 0 => drop(v.remove(at % n)),
                    n if at % 3 == 1 => v.insert(at % n, Pay::new(id)),
                    n => v.swap(at % n, 0),
                }
            });
        }
        "get" => {
            let c = source(op.at(1).i())?;
            if quiet {
                drop(c.subscribe_all(|v| v.see("read by a subscriber")));
            } else {
                transaction(|ctx| c.get(ctx)).see("read");
            }
        }
        "tx" if !quiet => {
            let body = op.at(1).clone();
            transaction(|_| run(&body, false));
        }
        "comp" => {
            let srcs: Vec<_> = op.at(2).l().iter().filter_map(|x| source(x.i())).collect();
            let body = op.at(3).clone();
            put!(
                comps,
                i,
                Computed::from(move |ctx| {
                    let mut last = Pay::new(7);
                    for s in &srcs {
                        last = s.get(ctx);
                        last.see("used");
                    }
                    run(&body, true);
                    last.see("used after the operations");
                    last
                })
            );
        }
        "map" => {
            let src = source(op.at(2).i())?;
            let body = op.at(3).clone();
            put!(
                comps,
                i,
                src.map(move |v| {
                    run(&body, true);
                    v.see("mapped");
                    v
                })
            );
        }
        "conn" => {
            let id = op.at(2).i();
            let (on, off) = (op.at(3).clone(), op.at(4).clone());
            let c = Value::with_connect(Pay::new(id), move |_v| {
                run(&on, true);
                let off = off.clone();
                DropResource::new(move || run(&off, true))
            });
            put!(comps, i, c);
        }
        "sub" | "suba" => {
            let c = source(op.at(2).i())?;
            let body = op.at(3).clone();
            let give = op.at(4).i();
            let f = move |v: Pay| {
                v.see("received");
                run(&body, true);
                v.see("received, after the operations");
                Pay::new(give)
            };
            let r = if name == "sub" { c.subscribe(f) } else { c.subscribe_all(f) };
            put!(held, i, Box::new(r));
        }
        "hook" => {
            let body = op.at(2).clone();
            let pay = Pay::new(i as i64 % 9);
            put!(
                held,
                i,
                Box::new(get_driver().on_after_transaction(move || {
                    run(&body, false);
                    pay.see("captured by a hook");
                }))
            );
        }
        "res" => {
            let body = op.at(2).clone();
            let pay = Pay::new(op.at(3).i());
            put!(
                held,
                i,
                Box::new(DropResource::new(move || {
                    run(&body, !BOLD.with(|b| b.get()));
                    pay.see("held by a resource");
                }))
            );
        }
        "amap" => {
            let body = op.at(2).clone();
            let m = AutoMap::<Pay, Value<Pay>>::new(move |map, key| {
                key.see("the key of a new object");
                run(&body, true);
                if key.mark.0 % 3 == 0 && key.mark.0 > 0 {
                    drop(map.get(&Pay::new(key.mark.0 - 1)));
                }
                key.see("the key of a new object, after the operations");
                Value::new(Pay::new(key.mark.0))
            });
            put!(maps, i, m);
        }
        "amget" => {
            let m = ST.with(|s| s.maps.borrow().get(&i).cloned())?;
            let v = m.get(&Pay::new(op.at(2).i()));
            if quiet {
                drop(v.to_computed().subscribe_all(|v| v.see("read from the map")));
            } else {
                transaction(|ctx| v.get(ctx)).see("read from the map");
            }
        }
        // a node kept outside of the page
        "node" => {
            let kind = op.at(3).i();
            let body = op.at(4).clone();
            let text = move |p: &Pay| {
                p.see("shown");
                run(&body, true);
                p.see("shown, after the operations");
                p.name.clone()
            };
            let node: DomNode = match kind {
                0 => source(op.at(2).i())?.render_value(move |p| {
                    let t = text(&p);
                    dom! { <b>{t}</b> }
                }),
                1 => source(op.at(2).i())?.render_value_option(move |p| {
                    let t = text(&p);
                    (p.mark.0 % 2 == 0).then(|| dom! { <i>{t}</i> })
                }),
                2 => list(op.at(2).u())?.render_list(
                    |p| {
                        p.see("asked for its key");
                        Pay::new(p.mark.0)
                    },
                    move |p| {
                        let t = text(p);
                        dom! { <li>{t}</li> }
                    },
                ),
                3 => {
                    let t = source(op.at(2).i())?.map(move |p| text(&p));
                    dom! { <p id={t.clone()} class={t.clone()}>{t}</p> }
                }
                // an element that tells whether something below it is loading
                5 => {
                    let inner = source(op.at(2).i())?.render_value_option(move |p| {
                        let t = text(&p);
                        (p.mark.0 % 2 == 0).then(|| dom! { <p>{t}<vertigo-suspense /></p> })
                    });
                    DomElement::new("div").suspense(Some(loading)).child(inner).into()
                }
                _ => {
                    let c = source(op.at(2).i())?;
                    let t = c.map(move |p| text(&p));
                    let handler: Callback1<String, ()> = c
                        .map(move |p| {
                            std::rc::Rc::new(move |_: String| p.see("captured by a handler")) as std::rc::Rc<dyn Fn(String)>
                        })
                        .into();
                    DomElement::new("input").attr("title", t).on_input(handler).into()
                }
            };
            if op.at(5).is_null() {
                put!(held, i, Box::new(Held(node)));
            } else {
                put!(held, i, Box::new(Held(DomElement::new("div").child(node).child(DomElement::new("u")))));
            }
        }
        "timer" => {
            let body = op.at(3).clone();
            let ms = op.at(2).i() as u32;
            let pay = Pay::new(i as i64 % 9);
            put!(
                held,
                i,
                Box::new(get_driver().set_interval(ms, move || {
                    run(&body, false);
                    pay.see("captured by a timer");
                }))
            );
        }
        "task" => {
            let (send, wait) = FutureBox::<Pay>::new();
            let body = op.at(2).clone();
            let pay = Pay::new(op.at(3).i());
            put!(waits, i, send);
            get_driver().spawn(async move {
                let got = wait.await;
                got.see("awaited");
                run(&body, false);
                pay.see("captured by a task");
                get_driver().sleep(5).await;
                got.see("awaited, later");
            });
        }
        // remote data, whose conversion runs operations
        "lazy" => {
            let body = op.at(2).clone();
            let id = op.at(3).i();
            let pay = Pay::new(id);
            let c = RequestBuilder::get("/data").ttl_seconds(op.at(4).i() as u64).lazy_cache(move |status, _| {
                run(&body, false);
                pay.see("captured by a conversion");
                match status {
                    200 => Some(Ok(Pay::new(id))),
                    404 => Some(Err("none".to_string())),
                    _ => None,
                }
            });
            put!(lazies, i, c);
        }
        "lzget" => {
            let c = ST.with(|s| s.lazies.borrow().get(&i).cloned())?;
            let see = |r: Resource<std::rc::Rc<Pay>>| {
                if let Resource::Ready(p) = r {
                    p.see("loaded");
                }
            };
            if quiet {
                drop(c.to_computed().subscribe_all(see));
            } else {
                see(transaction(|ctx| c.get(ctx)));
            }
        }
        "lzforce" => {
            let c = ST.with(|s| s.lazies.borrow().get(&i).cloned())?;
            c.force_update(op.at(2).i() == 1 && !quiet);
        }
        "lzforget" if !quiet => {
            let c = ST.with(|s| s.lazies.borrow().get(&i).cloned())?;
            c.forget();
        }
        "lzcomp" => {
            let c = ST.with(|s| s.lazies.borrow().get(&op.at(2).u()).cloned())?;
            let body = op.at(3).clone();
            put!(
                comps,
                i,
                c.to_computed().map(move |r| {
                    run(&body, true);
                    match r {
                        Resource::Ready(p) => {
                            p.see("loaded, used");
                            Pay::new(p.mark.0)
                        }
                        _ => Pay::new(8),
                    }
                })
            );
        }
        "ws" => {
            let body = op.at(2).clone();
            let pay = Pay::new(op.at(3).i());
            let r = get_driver().websocket("ws://h.test/s", move |m| {
                run(&body, false);
                pay.see("captured by a socket");
                if let WebsocketMessage::Connection(c) = m {
                    c.send("hello");
                }
            });
            put!(held, i, Box::new(r));
        }
        "router" => put!(routers, i, Router::new_hash_router()),
        "rtcomp" => {
            let r = ST.with(|s| s.routers.borrow().get(&op.at(2).u()).cloned())?;
            put!(comps, i, r.route.map(|w| Pay::new(w.0.mark.0)));
        }
        "go" if !quiet => {
            let r = ST.with(|s| s.routers.borrow().get(&i).cloned())?;
            r.set(Way(Pay::new(op.at(2).i())));
        }
        "droplz" => drop(take!(lazies, i)),
        "droprt" => drop(take!(routers, i)),
        // many things at once, so that tables of the framework grow
        "many" => {
            let c = source(op.at(4).i())?;
            let all: Vec<Box<dyn std::any::Any>> = (0..op.at(2).i())
                .map(|n| -> Box<dyn std::any::Any> {
                    let pay = Pay::new((n + op.at(5).i()) % 9);
                    match op.at(3).i() {
                        0 => Box::new(get_driver().set_interval(1 + n as u32, move || pay.see("captured by one of many timers"))),
                        1 => Box::new(c.clone().subscribe(move |v| {
                            v.see("received by one of many subscribers");
                            pay.see("captured by one of many subscribers");
                        })),
                        2 => Box::new(get_driver().on_after_transaction(move || pay.see("captured by one of many hooks"))),
                        3 => Box::new(DomElement::new("input").on_input(move |_: String| pay.see("captured by one of many handlers")).child(DomElement::new("i"))),
                        _ => {
                            let c = Value::with_connect(pay, move |_v| DropResource::new(|| {}));
                            Box::new(c.subscribe_all(|v| v.see("received from one of many connected values")))
                        }
                    }
                })
                .collect();
            put!(held, i, Box::new(all));
        }
        // a task that is woken in every way a waker allows
        "turns" => {
            let (ways, body) = (op.at(2).l().iter().map(|x| x.i()).collect(), op.at(3).clone());
            let turns = Turns { ways, next: 0, pay: Pay::new(op.at(4).i()) };
            get_driver().spawn(async move {
                let pay = turns.await;
                pay.see("carried through turns");
                run(&body, false);
                pay.see("carried through turns, after the operations");
            });
        }
        // what was kept of the wakers is used later, also after the end of their tasks
        "wake" => {
            let kept = take!(wakers, i);
            if let Some(w) = kept {
                match op.at(2).i() {
                    0 => w.wake(),
                    1 => w.wake_by_ref(),
                    2 => {
                        let other = w.clone();
                        w.wake();
                        other.wake();
                    }
                    _ => drop(w),
                }
            }
        }
        "publish" if !quiet => {
            let send = ST.with(|s| s.waits.borrow().get(&i).cloned())?;
            send.publish(Pay::new(op.at(2).i()));
        }
        "drop" => drop(take!(held, i)),
        "dropv" => drop(take!(vals, i)),
        "dropl" => drop(take!(lists, i)),
        "dropc" => drop(take!(comps, i)),
        "dropm" => drop(take!(maps, i)),
        "dropw" => drop(take!(waits, i)),
        _ => return Some(name != "unknown"),
    }
    Some(true)
}
