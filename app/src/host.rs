//! What a program does with its environment: requests, timers, routers, sockets, cookies, JavaScript access.
use crate::n::N;
use crate::nl;
use crate::rx::{exec_list, log, Tok};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use vertigo::router::Router;
use vertigo::{
    get_driver, transaction, Computed, Context, DomNode, DomText, DropResource, EmbedDom, FetchMethod, FutureBox, FutureBoxSend, Instant, JsJson, JsValue,
    LazyCache, Reactive, RequestBody, RequestBuilder, Resource, ToComputed, WebsocketConnection, WebsocketMessage,
};

// values ---------------------------------------------------------------------------------------------------------
pub fn show_json(j: &JsJson) -> N {
    match j {
        JsJson::True => nl!["b", true],
        JsJson::False => nl!["b", false],
        JsJson::Null => N::Null,
        JsJson::String(s) => N::S(s.clone()),
        JsJson::Number(f) => N::F(*f),
        JsJson::List(l) => nl!["l", N::L(l.iter().map(show_json).collect())],
        JsJson::Object(m) => {
            let mut k: Vec<_> = m.iter().collect();
            k.sort_by(|a, b| a.0.cmp(b.0));
            nl!["o", N::L(k.into_iter().map(|(k, v)| nl![k.clone(), show_json(v)]).collect())]
        }
    }
}
pub fn parse_json(n: &N) -> JsJson {
    match n {
        N::Null => JsJson::Null,
        N::S(s) => JsJson::String(s.clone()),
        N::F(f) => JsJson::Number(*f),
        N::I(i) => JsJson::Number(*i as f64),
        N::L(_) => match n.at(0).s() {
            "b" => {
                if n.at(1).i() != 0 {
                    JsJson::True
                } else {
                    JsJson::False
                }
            }
            "l" => JsJson::List(n.at(1).l().iter().map(parse_json).collect()),
            "o" => JsJson::Object(n.at(1).l().iter().map(|p| (p.at(0).s().to_string(), parse_json(p.at(1)))).collect()),
            other => panic!("harness: json {other}"),
        },
        N::B(_) => panic!("harness: json"),
    }
}
pub fn show_value(v: &JsValue) -> N {
    match v {
        JsValue::U32(x) => nl!["u32", *x as i64],
        JsValue::I32(x) => nl!["i32", *x as i64],
        JsValue::U64(x) => nl!["u64", *x as i64],
        JsValue::I64(x) => nl!["i64", *x],
        JsValue::F64(x) => N::L(vec!["f64".into(), N::F(*x)]),
        JsValue::True => nl!["true"],
        JsValue::False => nl!["false"],
        JsValue::Null => nl!["null"],
        JsValue::Undefined => nl!["undef"],
        JsValue::Vec(b) => nl!["vec", b.clone()],
        JsValue::String(s) => nl!["str", s.clone()],
        JsValue::List(l) => nl!["list", N::L(l.iter().map(show_value).collect())],
        JsValue::Object(m) => {
            let mut k: Vec<_> = m.iter().collect();
            k.sort_by(|a, b| a.0.cmp(b.0));
            nl!["obj", N::L(k.into_iter().map(|(k, v)| nl![k.clone(), show_value(v)]).collect())]
        }
        JsValue::Json(j) => nl!["json", show_json(j)],
    }
}
pub fn parse_value(n: &N) -> JsValue {
    match n.at(0).s() {
        "u32" => JsValue::U32(n.at(1).i() as u32),
        "i32" => JsValue::I32(n.at(1).i() as i32),
        "u64" => JsValue::U64(n.at(1).i() as u64),
        "i64" => JsValue::I64(n.at(1).i()),
        "f64" => JsValue::F64(n.at(1).f()),
        "true" => JsValue::True,
        "false" => JsValue::False,
        "null" => JsValue::Null,
        "undef" => JsValue::Undefined,
        "vec" => JsValue::Vec(n.at(1).b().to_vec()),
        "str" => JsValue::String(n.at(1).s().to_string()),
        "list" => JsValue::List(n.at(1).l().iter().map(parse_value).collect()),
        "obj" => JsValue::Object(n.at(1).l().iter().map(|p| (p.at(0).s().to_string(), parse_value(p.at(1)))).collect()),
        "json" => JsValue::Json(parse_json(n.at(1))),
        other => panic!("harness: value {other}"),
    }
}
fn show_body(b: &RequestBody) -> N {
    match b {
        RequestBody::Text(s) => nl!["t", s.clone()],
        RequestBody::Json(j) => nl!["j", show_json(j)],
        RequestBody::Binary(b) => nl!["x", b.clone()],
    }
}

// JavaScript access ----------------------------------------------------------------------------------------------
pub enum Step {
    Get(String),
    Set(String, JsValue),
    Call(String, Vec<JsValue>),
    Props(Vec<String>),
}

macro_rules! chain {
    ($start:expr, $steps:expr) => {{
        let mut a = $start;
        for s in $steps {
            a = match s {
                Step::Get(n) => a.get(n),
                Step::Set(n, v) => a.set(n, v),
                Step::Call(n, v) => a.call(n, v),
                Step::Props(l) => a.get_props(&l.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
            };
        }
        a.fetch()
    }};
}

type RefFn = Rc<dyn Fn(Vec<Step>) -> JsValue>;
thread_local! {
    static REFS: RefCell<BTreeMap<usize, RefFn>> = const { RefCell::new(BTreeMap::new()) };
}
pub fn put_ref(i: usize, e: &vertigo::DomElement) {
    let r = e.get_ref();
    let f: RefFn = Rc::new(move |steps| chain!(r.dom_access(), steps));
    let old = REFS.with(|m| m.borrow_mut().insert(i, f));
    drop(old);
}
fn access(start: &N, steps: &N) -> JsValue {
    let steps: Vec<Step> = steps
        .l()
        .iter()
        .map(|s| match s.at(0).s() {
            "get" => Step::Get(s.at(1).s().to_string()),
            "set" => Step::Set(s.at(1).s().to_string(), parse_value(s.at(2))),
            "call" => Step::Call(s.at(1).s().to_string(), s.at(2).l().iter().map(parse_value).collect()),
            "props" => Step::Props(s.at(1).l().iter().map(|s| s.s().to_string()).collect()),
            other => panic!("harness: step {other}"),
        })
        .collect();
    match start {
        N::S(root) => chain!(get_driver().dom_access().root(root.clone()), steps),
        N::I(i) => match REFS.with(|m| m.borrow().get(&(*i as usize)).cloned()) {
            Some(f) => f(steps),
            None => JsValue::str("harness: no such reference"),
        },
        _ => panic!("harness: start"),
    }
}

/// the address of the page as the program sees it
pub fn address() -> String {
    let r: Router<Route> = Router::new_history_router();
    transaction(|ctx| r.route.get(ctx)).0
}

// state ----------------------------------------------------------------------------------------------------------
#[derive(Clone, PartialEq, Debug)]
pub struct Route(pub String);
impl fmt::Display for Route {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl From<String> for Route {
    fn from(s: String) -> Route {
        Route(s)
    }
}
type Fb = (FutureBoxSend<i64>, Option<FutureBox<i64>>);
type Made = Computed<Resource<Rc<String>>>;
thread_local! {
    static LAZY: RefCell<BTreeMap<usize, LazyCache<String>>> = const { RefCell::new(BTreeMap::new()) };
    static MADE: RefCell<BTreeMap<usize, Made>> = const { RefCell::new(BTreeMap::new()) };
    static HOLD: RefCell<BTreeMap<(&'static str, usize), DropResource>> = const { RefCell::new(BTreeMap::new()) };
    static ROUTERS: RefCell<BTreeMap<usize, Router<Route>>> = const { RefCell::new(BTreeMap::new()) };
    static CONNS: RefCell<BTreeMap<usize, WebsocketConnection>> = const { RefCell::new(BTreeMap::new()) };
    static INST: RefCell<BTreeMap<usize, Instant>> = const { RefCell::new(BTreeMap::new()) };
    static FBS: RefCell<BTreeMap<usize, Fb>> = const { RefCell::new(BTreeMap::new()) };
}
fn hold(kind: &'static str, k: usize, r: DropResource) {
    let old = HOLD.with(|h| h.borrow_mut().insert((kind, k), r));
    drop(old);
}
fn release(kind: &'static str, k: usize, off: bool) {
    let old = HOLD.with(|h| h.borrow_mut().remove(&(kind, k)));
    if let (true, Some(old)) = (off, old) {
        old.off()
    }
}
pub fn lazy(i: usize) -> Option<LazyCache<String>> {
    LAZY.with(|l| l.borrow().get(&i).cloned())
}

fn builder(n: &N) -> RequestBuilder {
    // [method, url, headers | null, body | null, ttl | null, style]
    let url = n.at(1).s();
    let style = n.at(5).i();
    let mut b = match (n.at(0).s(), style) {
        ("GET", 0) => RequestBuilder::get(url),
        ("GET", 1) => get_driver().request_get(url),
        ("GET", _) => RequestBuilder::new(FetchMethod::GET, url),
        ("POST", 0) => RequestBuilder::post(url),
        ("POST", 1) => get_driver().request_post(url),
        ("POST", _) => RequestBuilder::new(FetchMethod::POST, url),
        ("HEAD", _) => RequestBuilder::new(FetchMethod::HEAD, url),
        ("PUT", _) => RequestBuilder::new(FetchMethod::PUT, url),
        ("DELETE", _) => RequestBuilder::new(FetchMethod::DELETE, url),
        ("CONNECT", _) => RequestBuilder::new(FetchMethod::CONNECT, url),
        ("OPTIONS", _) => RequestBuilder::new(FetchMethod::OPTIONS, url),
        ("TRACE", _) => RequestBuilder::new(FetchMethod::TRACE, url),
        ("PATCH", _) => RequestBuilder::new(FetchMethod::PATCH, url),
        (other, _) => panic!("harness: method {other}"),
    };
    if !n.at(2).is_null() {
        if style == 2 {
            b = b.headers(n.at(2).l().iter().map(|p| (p.at(0).s().to_string(), p.at(1).s().to_string())).collect::<HashMap<_, _>>());
        } else {
            for p in n.at(2).l() {
                b = b.set_header(p.at(0).s(), p.at(1).s());
            }
        }
    }
    if !n.at(3).is_null() {
        let body = n.at(3);
        b = match body.at(0).s() {
            "t" => b.body(RequestBody::Text(body.at(1).s().to_string())),
            "x" => b.body(RequestBody::Binary(body.at(1).b().to_vec())),
            "j" => b.body(RequestBody::Json(parse_json(body.at(1)))),
            "js" => b.body_json(body.at(1).s().to_string()),
            other => panic!("harness: body {other}"),
        };
    }
    if n.len() > 6 && !n.at(6).is_null() {
        b = b.bearer_auth(n.at(6).s());
    }
    if !n.at(4).is_null() {
        let ttl = n.at(4).i() as u64;
        b = match style {
            1 if ttl % 60 == 0 => b.ttl_minutes(ttl / 60),
            2 if ttl % 3600 == 0 => b.ttl_hours(ttl / 3600),
            3 if ttl % 86400 == 0 => b.ttl_days(ttl / 86400),
            _ => b.ttl_seconds(ttl),
        };
    }
    b
}

thread_local! {
    static SEQ: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
/// the given number, or (if negative) the next of the running numbers
fn number(i: i64) -> i64 {
    if i >= 0 {
        return i;
    }
    SEQ.with(|s| {
        s.set(s.get() + 1);
        s.get()
    })
}

type Task = Pin<Box<dyn Future<Output = ()>>>;
thread_local! {
    static WAKERS: RefCell<BTreeMap<usize, std::task::Waker>> = const { RefCell::new(BTreeMap::new()) };
}
/// comes back a number of times, woken during its own poll (by reference, by value, through a copy)
struct Yield(i64);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 <= 0 {
            return std::task::Poll::Ready(());
        }
        self.0 -= 1;
        match self.0 % 3 {
            0 => cx.waker().wake_by_ref(),
            1 => cx.waker().clone().wake(),
            _ => {
                let copy = cx.waker().clone();
                cx.waker().wake_by_ref();
                copy.wake_by_ref();
            }
        }
        std::task::Poll::Pending
    }
}
/// two futures in one task: ready when both are, or one of them is
struct Two(Option<Task>, Option<Task>, bool);
impl Future for Two {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0.as_mut().is_some_and(|f| f.as_mut().poll(cx).is_ready()) {
            self.0 = None;
        }
        if self.1.as_mut().is_some_and(|f| f.as_mut().poll(cx).is_ready()) {
            self.1 = None;
        }
        let done = if self.2 { self.0.is_none() && self.1.is_none() } else { self.0.is_none() || self.1.is_none() };
        match done {
            true => std::task::Poll::Ready(()),
            false => std::task::Poll::Pending,
        }
    }
}
/// keeps the waker of the task
struct Keep(usize);
impl Future for Keep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        let old = WAKERS.with(|w| w.borrow_mut().insert(self.0, cx.waker().clone()));
        drop(old);
        std::task::Poll::Ready(())
    }
}
fn task(id: i64, steps: N) -> Task {
    let id = number(id);
    let tok = Tok::new("task", id);
    Box::pin(async move {
        let _tok = tok;
        log(nl!["start", id]);
        for s in steps.l() {
            match s.at(0).s() {
                "sleep" => {
                    get_driver().sleep(s.at(1).i() as u32).await;
                    log(nl!["woke", id, s.at(2).i()]);
                }
                "ops" => exec_list(s.at(1).l(), None),
                "yield" => {
                    Yield(s.at(1).i()).await;
                    log(nl!["yield", id, s.at(2).i()]);
                }
                "both" | "first" => {
                    let [a, b] = [1, 2].map(|i| -> Task { Box::pin(get_driver().sleep(s.at(i).i() as u32)) });
                    Two(Some(a), Some(b), s.at(0).s() == "both").await;
                    log(nl![s.at(0).s(), id, s.at(3).i()]);
                }
                "keep" => Keep(s.at(1).u()).await,
                "await" => {
                    let f = FBS.with(|f| f.borrow_mut().get_mut(&s.at(1).u()).and_then(|x| x.1.take()));
                    match f {
                        Some(f) => {
                            let v = f.await;
                            log(nl!["got", id, s.at(1).i(), v]);
                        }
                        None => log(nl!["got", id, s.at(1).i(), N::Null]),
                    }
                }
                "fetch" => {
                    let (rid, b, how) = (s.at(1).i(), builder(s.at(2)), s.at(3).i());
                    let r = b.call().await;
                    let status: N = match r.status() {
                        Some(s) => N::I(s as i64),
                        None => N::Null,
                    };
                    let out = match how {
                        0 => match r.into(|st, body| Some(Ok::<N, String>(nl![st as i64, show_body(&body)]))) {
                            Ok(n) => nl!["ok", n],
                            Err(e) => nl!["err", e],
                        },
                        1 => match r.into_data::<Vec<i32>>() {
                            Ok(v) => nl!["ok", N::L(v.into_iter().map(N::from).collect())],
                            Err(e) => nl!["err", e],
                        },
                        2 => match r.into_data::<String>() {
                            Ok(v) => nl!["ok", v],
                            Err(e) => nl!["err", e],
                        },
                        3 => match r.into(|st, body| if st == 200 { Some(body.into::<HashMap<String, i32>>()) } else { None }) {
                            Ok(v) => {
                                let mut l: Vec<_> = v.into_iter().collect();
                                l.sort_by(|a, b| a.0.cmp(&b.0));
                                nl!["ok", N::L(l.into_iter().map(|(k, v)| nl![k, v]).collect())]
                            }
                            Err(e) => nl!["err", e],
                        },
                        _ => match r.into_error_message::<i64>() {
                            Ok(v) => nl!["ok", v],
                            Err(e) => nl!["err", e],
                        },
                    };
                    if s.len() > 4 {
                        crate::page::strv(s.at(4).u()).set(nl![status.clone(), out.clone()].to_json());
                    }
                    log(nl!["resp", rid, status, out]);
                }
                "spawn" => get_driver().spawn(task(s.at(1).i(), s.at(2).clone())),
                other => panic!("harness: task step {other}"),
            }
        }
        log(nl!["end", id]);
    })
}

/// the same resource, in different ways
fn again(r: &Resource<Rc<String>>, how: i64) -> Resource<Rc<String>> {
    fn passed(r: Resource<Rc<String>>) -> Resource<Rc<String>> {
        let v = r?;
        Resource::Ready(v)
    }
    match how {
        0 => r.ref_clone(),
        1 => r.ref_map(|v| v.clone()),
        2 => r.clone().map(|v| Rc::new(v.as_ref().clone())),
        3 => passed(r.clone()),
        4 => {
            let c: Computed<Resource<Rc<String>>> = r.ref_map(|v| v.as_ref().clone()).to_computed();
            transaction(|ctx| c.get(ctx))
        }
        _ => {
            let plain = r.ref_map(|v| v.as_ref().clone());
            let c: Computed<Resource<String>> = Computed::from(move |_| plain.clone());
            let c: Computed<Resource<Rc<String>>> = c.to_computed();
            transaction(|ctx| c.get(ctx))
        }
    }
}
fn show_res(r: &Resource<Rc<String>>) -> N {
    match r {
        Resource::Loading => nl!["loading"],
        Resource::Ready(v) => nl!["ready", v.as_ref().clone()],
        Resource::Error(e) => nl!["error", e.clone()],
    }
}
fn map_response(kind: i64) -> impl Fn(u32, RequestBody) -> Option<Result<String, String>> {
    move |status, body| match kind {
        0 => (status == 200).then(|| body.into::<String>()),
        1 => match body {
            RequestBody::Text(t) => Some(Ok(format!("{status} {t}"))),
            RequestBody::Json(j) => Some(Ok(format!("{status} {j:?}"))),
            RequestBody::Binary(b) => Some(Ok(format!("{status} {b:?}"))),
        },
        _ => match status {
            200 => Some(body.into::<String>()),
            404 => Some(Err("not found".to_string())),
            _ => None,
        },
    }
}

/// ["lazy", cache, style, item description...]
pub fn lazy_node(n: &N, env: &[i64]) -> DomNode {
    let Some(c) = lazy(n.at(1).u()) else {
        return DomNode::from("no cache".to_string());
    };
    let env = env.to_vec();
    match n.at(2).i() {
        // the built-in rendering
        0 => c.render(move |v| DomText::new(v.as_ref().clone()).into()),
        // the same around more content
        1 => {
            let item = n.at(3).clone();
            c.render(move |_v| crate::page::node(&item, &env))
        }
        // text following the state
        _ => {
            let c = c.to_computed();
            c.map(|r| match r {
                Resource::Loading => "loading".to_string(),
                Resource::Ready(v) => format!("ready {v}"),
                Resource::Error(e) => format!("error {e}"),
            })
            .embed()
        }
    }
}

pub fn exec(op: &N, ctx: Option<&Context>) -> bool {
    match op.at(0).s() {
        // requests
        "wake" => {
            // a waker that was kept: once or twice, by reference or by value
            let w = WAKERS.with(|w| w.borrow().get(&op.at(1).u()).cloned());
            if let Some(w) = w {
                w.wake_by_ref();
                if op.at(2).i() == 1 {
                    w.wake();
                    let old = WAKERS.with(|w| w.borrow_mut().remove(&op.at(1).u()));
                    drop(old);
                }
            }
        }
        "task" => get_driver().spawn(task(op.at(1).i(), op.at(2).clone())),
        "lz" => {
            let b = builder(op.at(2));
            let kind = op.at(3).i();
            let c = match kind {
                3 => LazyCache::<String>::new_resource(op.at(2).at(1).s(), "", op.at(2).at(4).i() as u64),
                _ if op.at(4).i() == 1 => b.lazy_cache(map_response(kind)),
                _ => LazyCache::new(b, map_response(kind)),
            };
            let old = LAZY.with(|l| l.borrow_mut().insert(op.at(1).u(), c));
            drop(old);
        }
        "lzget" => {
            let Some(c) = lazy(op.at(1).u()) else { return true };
            let r = match (ctx, op.at(2).i()) {
                (Some(ctx), 0) => c.get(ctx),
                (Some(ctx), _) => c.to_computed().get(ctx),
                (None, 0) => transaction(|ctx| c.get(ctx)),
                (None, _) => transaction(|ctx| ToComputed::to_computed(&c).get(ctx)),
            };
            for how in 0..6 {
                let s = again(&r, how);
                if s != r || show_res(&s) != show_res(&r) {
                    log(nl!["differs", how, show_res(&r), show_res(&s)]);
                }
            }
            log(nl!["lzget", op.at(1).i(), show_res(&r)]);
        }
        "lzsub" => {
            let Some(c) = lazy(op.at(2).u()) else { return true };
            let k = op.at(1).i();
            let f = move |r: Resource<Rc<String>>| log(nl!["lzsub", k, show_res(&r)]);
            let comp = c.to_computed();
            MADE.with(|m| m.borrow_mut().insert(op.at(2).u(), comp.clone()));
            hold("lz", k as usize, comp.subscribe_all(f));
        }
        "lzunsub" => release("lz", op.at(1).u(), false),
        "lzforget" => {
            let Some(c) = lazy(op.at(1).u()) else { return true };
            c.forget()
        }
        "lzforce" => {
            let Some(c) = lazy(op.at(1).u()) else { return true };
            c.force_update(op.at(2).i() != 0)
        }
        "lzupd" => {
            let Some(c) = lazy(op.at(1).u()) else { return true };
            c.update(op.at(2).i() != 0, op.at(3).i() != 0)
        }
        "lzdrop" => {
            let old = LAZY.with(|l| l.borrow_mut().remove(&op.at(1).u()));
            drop(old);
            let old = MADE.with(|l| l.borrow_mut().remove(&op.at(1).u()));
            drop(old);
        }
        // timers
        "int" => {
            let k = op.at(1).i();
            let body = op.at(3).clone();
            let limit = op.at(4).i();
            let id = number(op.at(5).i());
            let tok = Tok::new("int", id);
            let count = std::cell::Cell::new(0i64);
            let r = get_driver().set_interval(op.at(2).i() as u32, move || {
                let _ = &tok;
                count.set(count.get() + 1);
                let n = count.get();
                log(nl!["tick", id, n]);
                if n <= limit {
                    exec_list(body.l(), None);
                }
                log(nl!["tickx", id]);
            });
            hold("int", k as usize, r);
        }
        "mark" => log(nl!["mark", op.at(1).i()]),
        "intdrop" => release("int", op.at(1).u(), op.at(2).i() != 0),
        "fb" => {
            let (s, f) = FutureBox::new();
            let old = FBS.with(|m| m.borrow_mut().insert(op.at(1).u(), (s, Some(f))));
            drop(old);
        }
        "publish" => {
            let s = FBS.with(|m| m.borrow().get(&op.at(1).u()).map(|x| x.0.clone()));
            if let Some(s) = s {
                s.publish(op.at(2).i())
            }
        }
        // routers
        "router" => {
            let r = match op.at(2).i() {
                0 => Router::new_hash_router(),
                1 => Router::new_history_router(),
                _ => Router::default(),
            };
            let old = ROUTERS.with(|m| m.borrow_mut().insert(op.at(1).u(), r));
            drop(old);
        }
        "rtdrop" => {
            let old = ROUTERS.with(|m| m.borrow_mut().remove(&op.at(1).u()));
            drop(old);
        }
        "rtset" | "rtget" | "rtsub" | "rtchg" => {
            let Some(r) = ROUTERS.with(|m| m.borrow().get(&op.at(1).u()).cloned()) else { return true };
            match op.at(0).s() {
                "rtset" => {
                    let v = Route(op.at(2).s().to_string());
                    if op.at(3).i() == 0 {
                        r.set(v)
                    } else {
                        Reactive::set(&r, v)
                    }
                }
                "rtchg" => {
                    let v = op.at(2).s().to_string();
                    Reactive::change(&r, move |x| x.0.push_str(&v));
                }
                "rtget" => {
                    let v = match ctx {
                        Some(ctx) => Reactive::get(&r, ctx),
                        None => transaction(|ctx| r.route.get(ctx)),
                    };
                    log(nl!["route", op.at(1).i(), v.0]);
                }
                _ => {
                    let k = op.at(2).i();
                    let c = if k % 2 == 0 { r.route.clone() } else { r.to_computed() };
                    hold("rt", k as usize, c.subscribe(move |v| log(nl!["rtsub", k, v.0])));
                }
            }
        }
        "rtunsub" => release("rt", op.at(1).u(), false),
        "back" => get_driver().history_back(),
        "replace" => get_driver().history_replace(op.at(1).s()),
        // sockets
        "ws" => {
            let k = op.at(1).i();
            let bodies = op.at(3).clone();
            let tok = Tok::new("ws", k);
            let id = op.at(4).i();
            let r = get_driver().websocket(op.at(2).s(), move |m| {
                let _ = &tok;
                let which = match m {
                    WebsocketMessage::Connection(c) => {
                        let old = CONNS.with(|m| m.borrow_mut().insert(k as usize, c));
                        drop(old);
                        log(nl!["ws", k, id, "open"]);
                        0
                    }
                    WebsocketMessage::Message(s) => {
                        log(nl!["ws", k, id, "msg", s]);
                        1
                    }
                    WebsocketMessage::Close => {
                        log(nl!["ws", k, id, "close"]);
                        2
                    }
                };
                exec_list(bodies.at(which).l(), None);
            });
            hold("ws", k as usize, r);
        }
        "wssend" => {
            let c = CONNS.with(|m| m.borrow().get(&op.at(1).u()).cloned());
            if let Some(c) = c {
                c.send(op.at(2).s())
            }
        }
        "wsdrop" => release("ws", op.at(1).u(), op.at(2).i() != 0),
        // cookies
        "cset" => get_driver().cookie_set(op.at(1).s(), op.at(2).s(), op.at(3).i() as u64),
        "csetj" => get_driver().cookie_set_json(op.at(1).s(), parse_json(op.at(2)), op.at(3).i() as u64),
        "cget" => log(nl!["cget", op.at(1).s(), get_driver().cookie_get(op.at(1).s())]),
        "cgetj" => log(nl!["cgetj", op.at(1).s(), show_json(&get_driver().cookie_get_json(op.at(1).s()))]),
        // JavaScript
        "js" => log(nl!["js", show_value(&access(op.at(1), op.at(2)))]),
        // a moment that is kept, and what is known of it later
        "inst" => {
            let now = get_driver().now();
            INST.with(|m| m.borrow_mut().insert(op.at(1).u(), now));
        }
        "instq" => {
            let Some(t) = INST.with(|m| m.borrow().get(&op.at(1).u()).cloned()) else { return true };
            let end = t.add_duration(std::time::Duration::from_millis(op.at(2).i() as u64));
            let again = t.refresh();
            log(nl!["instq", op.at(1).i(), t.instant as i64, t.elapsed() as i64, t.seconds_elapsed() as i64, end.instant as i64, end.is_expire(), again.instant as i64, again == t]);
        }
        "now" => log(nl!["now", get_driver().utc_now(), get_driver().now().instant as i64, get_driver().timezone_offset() as i64]),
        "rand" => {
            let l: Vec<i64> = (0..op.at(3).i()).map(|x| x * 3 + 1).collect();
            log(nl!["rand", get_driver().get_random(op.at(1).i() as u32, op.at(2).i() as u32) as i64, get_driver().get_random_from(&l).unwrap_or(-1)]);
        }
        "env" => log(nl!["env", op.at(1).s(), match get_driver().env(op.at(1).s()) { Some(s) => N::S(s), None => N::Null }]),
        // ["show", text value, what, name]
        "show" => {
            let v = match op.at(2).s() {
                "env" => match get_driver().env(op.at(3).s()) {
                    Some(s) => format!("={s}"),
                    None => "none".to_string(),
                },
                "route" => address(),
                "seq" => number(-1).to_string(),
                "now" => get_driver().utc_now().to_string(),
                "inst" => get_driver().now().instant.to_string(),
                "tz" => get_driver().timezone_offset().to_string(),
                "cget" => format!("={}", get_driver().cookie_get(op.at(3).s())),
                "cgetj" => format!("{}", matches!(get_driver().cookie_get_json(op.at(3).s()), JsJson::Null)),
                // ["rand", [min, max, how often]] and ["pick", [length, how often]]
                "rand" => {
                    let (a, b, n) = (op.at(3).at(0).i() as u32, op.at(3).at(1).i() as u32, op.at(3).at(2).i());
                    (0..n).map(|_| get_driver().get_random(a, b).to_string()).collect::<Vec<_>>().join(",")
                }
                "pick" => {
                    let l: Vec<i64> = (0..op.at(3).at(0).i()).map(|x| x * 3 + 1).collect();
                    (0..op.at(3).at(1).i()).map(|_| match get_driver().get_random_from(&l) { Some(x) => x.to_string(), None => "none".to_string() }).collect::<Vec<_>>().join(",")
                }
                _ => format!("{} {}", get_driver().is_browser(), get_driver().is_server()),
            };
            crate::page::strv(op.at(1).u()).set(v)
        }
        "plain" => {
            let l = op.at(1).clone();
            get_driver().plains(move |url| l.l().iter().find(|p| url.starts_with(p.at(0).s())).map(|p| p.at(1).s().to_string()))
        }
        "panic" => panic!("{}", op.at(1).s()),
        "trap" => std::arch::wasm32::unreachable(),
        "isb" => log(nl!["isb", get_driver().is_browser(), get_driver().is_server()]),
        "print" => match op.at(1).i() {
            0 => log::error!("{}", op.at(2).s()),
            1 => log::warn!("{}", op.at(2).s()),
            2 => log::info!("{}", op.at(2).s()),
            _ => log::debug!("{}", op.at(2).s()),
        },
        _ => return false,
    }
    true
}
