//! The exchange format, and conversions.
use crate::host::{parse_json, parse_value, show_value};
use crate::n::N;
use crate::nl;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use vertigo::{JsJson, JsValue, MemoryBlock};

fn bytes(v: &JsValue) -> Vec<u8> {
    let b = v.to_snapshot();
    let (ptr, size) = b.get_ptr_and_size();
    unsafe { std::slice::from_raw_parts(ptr as *const u8, size as usize) }.to_vec()
}
fn back(b: &[u8]) -> Result<JsValue, String> {
    JsValue::from_block(MemoryBlock::from_slice(b))
}
fn show(r: &Result<JsValue, String>) -> N {
    match r {
        Ok(v) => nl!["ok", show_value(v)],
        Err(e) => nl!["err", e.clone()],
    }
}

/// [bytes, decoded, number of prefixes that were accepted]
pub fn codec(req: &N) -> N {
    let v = parse_value(req.at(1));
    let b = bytes(&v);
    let d = back(&b);
    let full = req.at(2).i() != 0;
    let cuts: Vec<usize> = if full { (1..b.len()).collect() } else { (1..20).map(|k| b.len() * k / 20).chain(b.len().saturating_sub(20)..b.len()).filter(|l| *l > 0 && *l < b.len()).collect() };
    let bad: Vec<N> = cuts.iter().filter(|l| back(&b[..**l]).is_ok()).map(|l| N::from(*l)).collect();
    nl![b, show(&d), N::L(bad)]
}
/// decodes any bytes
pub fn decode(req: &N) -> N {
    show(&back(req.at(1).b()))
}

fn build(n: &N, salt: usize) -> JsJson {
    match n {
        N::L(_) if n.at(0).s() == "o" => {
            let mut m: HashMap<String, JsJson> = if salt % 3 == 1 { HashMap::with_capacity(salt * 7) } else { HashMap::new() };
            let l = n.at(1).l();
            let k = l.len();
            for i in 0..k {
                if salt % 2 == 1 {
                    m.insert(format!("tmp{i}"), JsJson::Null);
                }
                let p = &l[if salt % 2 == 1 { k - 1 - i } else { (i + salt) % k }];
                m.insert(p.at(0).s().to_string(), build(p.at(1), salt));
            }
            for i in 0..k {
                if salt % 2 == 1 && !l.iter().any(|p| p.at(0).s() == format!("tmp{i}")) {
                    m.remove(&format!("tmp{i}"));
                }
            }
            JsJson::Object(m)
        }
        N::L(_) if n.at(0).s() == "l" => JsJson::List(n.at(1).l().iter().map(|x| build(x, salt)).collect()),
        _ => parse_json(n),
    }
}
fn hash(j: &JsJson) -> u64 {
    let mut h = DefaultHasher::new();
    j.hash(&mut h);
    h.finish()
}
/// how many of the ways of building the document are equal to the first one, and how many hash the same
pub fn hashes(req: &N) -> N {
    let docs: Vec<JsJson> = (0..6).map(|s| build(req.at(1), s)).collect();
    let other = build(req.at(2), 0);
    nl![
        docs.iter().filter(|d| **d == docs[0]).count(),
        docs.iter().filter(|d| hash(d) == hash(&docs[0])).count(),
        docs.iter().filter(|d| **d == other).count(),
        docs.iter().filter(|d| hash(d) == hash(&other)).count(),
    ]
}
