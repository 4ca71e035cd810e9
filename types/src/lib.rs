//! Types that derive the JSON conversion (gen.rs is written by tools/gen_types.py), and the requests to exercise them.
#![allow(uncommon_codepoints, non_snake_case, non_camel_case_types, dead_code, mixed_script_confusables)]
mod gen;
#[path = "../../app/src/n.rs"]
#[allow(dead_code)]
mod n;
use chrono::{DateTime, Datelike, NaiveDate, Utc};
use n::N;
use std::collections::{BTreeMap, HashMap};
use vertigo::{from_json, to_json, JsJson, JsJsonDeserialize, JsJsonSerialize};

/// The value as a tree, and back.
pub trait Shown: Sized {
    fn show(&self) -> N;
    fn build(n: &N) -> Self;
}
macro_rules! ints {
    ($($t:ty),*) => {$(impl Shown for $t {
        fn show(&self) -> N { N::I(*self as i64) }
        fn build(n: &N) -> Self { n.i() as $t }
    })*};
}
ints!(u32, i32, u64, i64);
impl Shown for bool {
    fn show(&self) -> N {
        N::I(*self as i64)
    }
    fn build(n: &N) -> Self {
        n.i() != 0
    }
}
impl Shown for String {
    fn show(&self) -> N {
        N::S(self.clone())
    }
    fn build(n: &N) -> Self {
        n.s().to_string()
    }
}
impl Shown for () {
    fn show(&self) -> N {
        N::Null
    }
    fn build(_: &N) -> Self {}
}
impl<T: Shown> Shown for Option<T> {
    fn show(&self) -> N {
        N::L(self.iter().map(|x| x.show()).collect())
    }
    fn build(n: &N) -> Self {
        n.l().first().map(T::build)
    }
}
impl<T: Shown> Shown for Vec<T> {
    fn show(&self) -> N {
        N::L(self.iter().map(|x| x.show()).collect())
    }
    fn build(n: &N) -> Self {
        n.l().iter().map(T::build).collect()
    }
}
impl<T: Shown> Shown for HashMap<String, T> {
    fn show(&self) -> N {
        let mut l: Vec<_> = self.iter().collect();
        l.sort_by(|a, b| a.0.cmp(b.0));
        N::L(l.into_iter().map(|(k, v)| N::L(vec![N::S(k.clone()), v.show()])).collect())
    }
    fn build(n: &N) -> Self {
        n.l().iter().map(|p| (p.at(0).s().to_string(), T::build(p.at(1)))).collect()
    }
}
impl<T: Shown> Shown for BTreeMap<String, T> {
    fn show(&self) -> N {
        N::L(self.iter().map(|(k, v)| N::L(vec![N::S(k.clone()), v.show()])).collect())
    }
    fn build(n: &N) -> Self {
        n.l().iter().map(|p| (p.at(0).s().to_string(), T::build(p.at(1)))).collect()
    }
}
impl Shown for DateTime<Utc> {
    fn show(&self) -> N {
        N::L(vec![N::I(self.timestamp()), N::I(self.timestamp_subsec_nanos() as i64)])
    }
    fn build(n: &N) -> Self {
        DateTime::from_timestamp(n.at(0).i(), n.at(1).i() as u32).expect("harness: date")
    }
}
impl Shown for NaiveDate {
    fn show(&self) -> N {
        N::I(self.num_days_from_ce() as i64)
    }
    fn build(n: &N) -> Self {
        NaiveDate::from_num_days_from_ce_opt(n.i() as i32).expect("harness: date")
    }
}

fn show_json(j: &JsJson) -> N {
    match j {
        JsJson::True => nl!["b", true],
        JsJson::False => nl!["b", false],
        JsJson::Null => N::Null,
        JsJson::String(s) => N::S(s.clone()),
        JsJson::Number(f) => N::F(*f),
        JsJson::List(l) => nl!["l", N::L(l.iter().map(show_json).collect())],
        JsJson::Object(m) => {
            let mut k: Vec<_> = m.iter().collect();
            k.sort_by(|a, b| a.0.cmp(b.0));
            nl!["o", N::L(k.into_iter().map(|(k, v)| nl![k.clone(), show_json(v)]).collect())]
        }
    }
}
fn parse_json(n: &N) -> JsJson {
    match n {
        N::Null => JsJson::Null,
        N::S(s) => JsJson::String(s.clone()),
        N::F(f) => JsJson::Number(*f),
        N::I(i) => JsJson::Number(*i as f64),
        N::L(_) => match n.at(0).s() {
            "b" if n.at(1).i() != 0 => JsJson::True,
            "b" => JsJson::False,
            "l" => JsJson::List(n.at(1).l().iter().map(parse_json).collect()),
            "o" => JsJson::Object(n.at(1).l().iter().map(|p| (p.at(0).s().to_string(), parse_json(p.at(1)))).collect()),
            other => panic!("harness: json {other}"),
        },
        N::B(_) => panic!("harness: json"),
    }
}

/// ["conv", type, json]: decodes, and encodes again; ["enc", type, tree]: encodes
pub fn run<T: Shown + JsJsonSerialize + JsJsonDeserialize + Clone + PartialEq>(req: &N) -> N {
    if req.at(0).s() == "enc" {
        return show_json(&to_json(T::build(req.at(2))));
    }
    match from_json::<T>(parse_json(req.at(2))) {
        Ok(v) => {
            let json = to_json(v.clone());
            let again = from_json::<T>(json.clone());
            nl!["ok", v.show(), show_json(&json), again == Ok(v)]
        }
        Err(e) => nl!["err", e],
    }
}

#[no_mangle]
pub extern "C" fn vp_alloc(len: u32) -> u32 {
    let v: Vec<u8> = vec![0; len.max(1) as usize];
    Box::leak(v.into_boxed_slice()).as_mut_ptr() as u32
}
#[no_mangle]
pub extern "C" fn vp_exec(ptr: u32, len: u32) -> u64 {
    let buf = unsafe { Vec::from_raw_parts(ptr as *mut u8, len as usize, len.max(1) as usize) };
    let res = gen::dispatch(&N::decode(&buf));
    let mut out = Vec::new();
    res.encode(&mut out);
    let out = out.into_boxed_slice();
    let l = out.len() as u64;
    let p = Box::leak(out).as_mut_ptr() as u32 as u64;
    (p << 32) | l
}
#[no_mangle]
pub extern "C" fn vp_free(ptr: u32, len: u32) {
    drop(unsafe { Vec::from_raw_parts(ptr as *mut u8, len as usize, len as usize) });
}
