// Written by tools/gen_types.py.
use crate::n::N;
use crate::nl;
use crate::{run, Shown};
use std::collections::{BTreeMap, HashMap};
use vertigo::AutoJsJson;

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T0 {
    #[js_json(default = true)]
    pub get_property: bool,
    pub none: chrono::DateTime<chrono::Utc>,
    #[js_json(default = None)]
    pub err: Option<Vec<chrono::NaiveDate>>,
    #[js_json(default = 7)]
    pub fields_rev: i64,
    pub r#type: u32,
    pub item: chrono::DateTime<chrono::Utc>,
}
impl Shown for T0 {
    fn show(&self) -> N {
        nl![self.get_property.show(), self.none.show(), self.err.show(), self.fields_rev.show(), self.r#type.show(), self.item.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { get_property: Shown::build(n.at(0)), none: Shown::build(n.at(1)), err: Shown::build(n.at(2)), fields_rev: Shown::build(n.at(3)), r#type: Shown::build(n.at(4)), item: Shown::build(n.at(5)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T1 {
    pub имя: T0,
}
impl Shown for T1 {
    fn show(&self) -> N {
        nl![self.имя.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { имя: Shown::build(n.at(0)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T2 {
    pub default: u32,
    pub x: (),
    #[js_json(default = None)]
    pub UPPER: Option<String>,
    pub camelCase: u32,
    #[js_json(default = true)]
    pub some: bool,
    pub root: T1,
    #[js_json(default = Default::default())]
    pub none: HashMap<String, Vec<T1>>,
    pub r#match: Option<HashMap<String, i64>>,
    pub _hidden: T1,
}
impl Shown for T2 {
    fn show(&self) -> N {
        nl![self.default.show(), self.x.show(), self.UPPER.show(), self.camelCase.show(), self.some.show(), self.root.show(), self.none.show(), self.r#match.show(), self._hidden.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { default: Shown::build(n.at(0)), x: Shown::build(n.at(1)), UPPER: Shown::build(n.at(2)), camelCase: Shown::build(n.at(3)), some: Shown::build(n.at(4)), root: Shown::build(n.at(5)), none: Shown::build(n.at(6)), r#match: Shown::build(n.at(7)), _hidden: Shown::build(n.at(8)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T3(pub BTreeMap<String, u64>, pub Vec<HashMap<String, u64>>);
impl Shown for T3 {
    fn show(&self) -> N {
        nl![self.0.show(), self.1.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)), Shown::build(n.at(1)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T4(pub T3);
impl Shown for T4 {
    fn show(&self) -> N {
        nl![self.0.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T5;
impl Shown for T5 {
    fn show(&self) -> N {
        N::L(vec![])
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        T5
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T6 {
    Object(T0, String, u64, T0, Option<i64>),
    A,
    Err { to_json: chrono::NaiveDate, vertigo_: i64, ok: bool, len: chrono::DateTime<chrono::Utc>, fields_rev: i64 },
    Tuple,
}
impl Shown for T6 {
    fn show(&self) -> N {
        match self {
            Self::Object(v0, v1, v2, v3, v4) => nl![0i64, v0.show(), v1.show(), v2.show(), v3.show(), v4.show()],
            Self::A => nl![1i64],
            Self::Err { to_json: v0, vertigo_: v1, ok: v2, len: v3, fields_rev: v4 } => nl![2i64, v0.show(), v1.show(), v2.show(), v3.show(), v4.show()],
            Self::Tuple => nl![3i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::Object(Shown::build(n.at(1)), Shown::build(n.at(2)), Shown::build(n.at(3)), Shown::build(n.at(4)), Shown::build(n.at(5))),
            1 => Self::A,
            2 => Self::Err { to_json: Shown::build(n.at(1)), vertigo_: Shown::build(n.at(2)), ok: Shown::build(n.at(3)), len: Shown::build(n.at(4)), fields_rev: Shown::build(n.at(5)) },
            3 => Self::Tuple,
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T7 {
    Tuple(i32, Option<String>),
    String,
    Point,
}
impl Shown for T7 {
    fn show(&self) -> N {
        match self {
            Self::Tuple(v0, v1) => nl![0i64, v0.show(), v1.show()],
            Self::String => nl![1i64],
            Self::Point => nl![2i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::Tuple(Shown::build(n.at(1)), Shown::build(n.at(2))),
            1 => Self::String,
            2 => Self::Point,
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T8 {
    None,
    JsJson,
    X1(u64, i32, T2),
    Object(Option<T6>, chrono::NaiveDate),
}
impl Shown for T8 {
    fn show(&self) -> N {
        match self {
            Self::None => nl![0i64],
            Self::JsJson => nl![1i64],
            Self::X1(v0, v1, v2) => nl![2i64, v0.show(), v1.show(), v2.show()],
            Self::Object(v0, v1) => nl![3i64, v0.show(), v1.show()],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::None,
            1 => Self::JsJson,
            2 => Self::X1(Shown::build(n.at(1)), Shown::build(n.at(2)), Shown::build(n.at(3))),
            3 => Self::Object(Shown::build(n.at(1)), Shown::build(n.at(2))),
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T9 {
    Number,
    Tuple { len: Vec<i32>, имя: T5 },
    lower,
    Ok(T0, Option<T1>, Option<i64>, T2, T8),
}
impl Shown for T9 {
    fn show(&self) -> N {
        match self {
            Self::Number => nl![0i64],
            Self::Tuple { len: v0, имя: v1 } => nl![1i64, v0.show(), v1.show()],
            Self::lower => nl![2i64],
            Self::Ok(v0, v1, v2, v3, v4) => nl![3i64, v0.show(), v1.show(), v2.show(), v3.show(), v4.show()],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::Number,
            1 => Self::Tuple { len: Shown::build(n.at(1)), имя: Shown::build(n.at(2)) },
            2 => Self::lower,
            3 => Self::Ok(Shown::build(n.at(1)), Shown::build(n.at(2)), Shown::build(n.at(3)), Shown::build(n.at(4)), Shown::build(n.at(5))),
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T10 {
    Number,
}
impl Shown for T10 {
    fn show(&self) -> N {
        match self {
            Self::Number => nl![0i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::Number,
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T11(pub Option<u64>);
impl Shown for T11 {
    fn show(&self) -> N {
        nl![self.0.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T12 {
    pub r#match: T2,
}
impl Shown for T12 {
    fn show(&self) -> N {
        nl![self.r#match.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { r#match: Shown::build(n.at(0)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T13(pub i64, pub i32);
impl Shown for T13 {
    fn show(&self) -> N {
        nl![self.0.show(), self.1.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)), Shown::build(n.at(1)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T14(pub T7, pub chrono::NaiveDate);
impl Shown for T14 {
    fn show(&self) -> N {
        nl![self.0.show(), self.1.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)), Shown::build(n.at(1)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T15(pub BTreeMap<String, u64>);
impl Shown for T15 {
    fn show(&self) -> N {
        nl![self.0.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T16(pub T9);
impl Shown for T16 {
    fn show(&self) -> N {
        nl![self.0.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T17 {
    pub UPPER: T14,
}
impl Shown for T17 {
    fn show(&self) -> N {
        nl![self.UPPER.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { UPPER: Shown::build(n.at(0)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T18(pub chrono::DateTime<chrono::Utc>);
impl Shown for T18 {
    fn show(&self) -> N {
        nl![self.0.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T19 {
    pub age: u32,
    pub vertigo_: BTreeMap<String, T11>,
    pub fields_rev: T15,
    pub get_property: T16,
}
impl Shown for T19 {
    fn show(&self) -> N {
        nl![self.age.show(), self.vertigo_.show(), self.fields_rev.show(), self.get_property.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { age: Shown::build(n.at(0)), vertigo_: Shown::build(n.at(1)), fields_rev: Shown::build(n.at(2)), get_property: Shown::build(n.at(3)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T20 {
    #[js_json(default = Default::default())]
    pub r#fn: BTreeMap<String, Option<u64>>,
    pub r#match: T6,
}
impl Shown for T20 {
    fn show(&self) -> N {
        nl![self.r#fn.show(), self.r#match.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { r#fn: Shown::build(n.at(0)), r#match: Shown::build(n.at(1)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T21 {
    pub _hidden: chrono::NaiveDate,
    #[js_json(default = None)]
    pub ctx: Option<BTreeMap<String, T6>>,
    pub context: T9,
    pub x: chrono::DateTime<chrono::Utc>,
    pub list: Option<String>,
    #[js_json(default = None)]
    pub r#type: Option<i32>,
}
impl Shown for T21 {
    fn show(&self) -> N {
        nl![self._hidden.show(), self.ctx.show(), self.context.show(), self.x.show(), self.list.show(), self.r#type.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { _hidden: Shown::build(n.at(0)), ctx: Shown::build(n.at(1)), context: Shown::build(n.at(2)), x: Shown::build(n.at(3)), list: Shown::build(n.at(4)), r#type: Shown::build(n.at(5)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T22(pub Vec<T21>, pub i64, pub T13);
impl Shown for T22 {
    fn show(&self) -> N {
        nl![self.0.show(), self.1.show(), self.2.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)), Shown::build(n.at(1)), Shown::build(n.at(2)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T23 {
    #[js_json(default = Default::default())]
    pub ctx: HashMap<String, ()>,
}
impl Shown for T23 {
    fn show(&self) -> N {
        nl![self.ctx.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { ctx: Shown::build(n.at(0)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T24 {
    #[js_json(default = Vec::new())]
    pub r#type: Vec<HashMap<String, chrono::NaiveDate>>,
}
impl Shown for T24 {
    fn show(&self) -> N {
        nl![self.r#type.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { r#type: Shown::build(n.at(0)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T25 {
}
impl Shown for T25 {
    fn show(&self) -> N {
        N::L(vec![])
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self {  }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T26 {
    A(Vec<i32>, T8, T5),
    String(Vec<T13>, Vec<chrono::NaiveDate>, Option<chrono::NaiveDate>),
    Default,
    Some,
}
impl Shown for T26 {
    fn show(&self) -> N {
        match self {
            Self::A(v0, v1, v2) => nl![0i64, v0.show(), v1.show(), v2.show()],
            Self::String(v0, v1, v2) => nl![1i64, v0.show(), v1.show(), v2.show()],
            Self::Default => nl![2i64],
            Self::Some => nl![3i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::A(Shown::build(n.at(1)), Shown::build(n.at(2)), Shown::build(n.at(3))),
            1 => Self::String(Shown::build(n.at(1)), Shown::build(n.at(2)), Shown::build(n.at(3))),
            2 => Self::Default,
            3 => Self::Some,
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T27 {
    lower(T22, T13),
}
impl Shown for T27 {
    fn show(&self) -> N {
        match self {
            Self::lower(v0, v1) => nl![0i64, v0.show(), v1.show()],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::lower(Shown::build(n.at(1)), Shown::build(n.at(2))),
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T28;
impl Shown for T28 {
    fn show(&self) -> N {
        N::L(vec![])
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        T28
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T29 {
}
impl Shown for T29 {
    fn show(&self) -> N {
        N::L(vec![])
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self {  }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T30 {
    pub context: BTreeMap<String, T11>,
}
impl Shown for T30 {
    fn show(&self) -> N {
        nl![self.context.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { context: Shown::build(n.at(0)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T31 {
    pub list: chrono::DateTime<chrono::Utc>,
    pub root: String,
}
impl Shown for T31 {
    fn show(&self) -> N {
        nl![self.list.show(), self.root.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { list: Shown::build(n.at(0)), root: Shown::build(n.at(1)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T32 {
    A { to_json: chrono::NaiveDate },
    Vec {  },
    lower(),
    List { _hidden: BTreeMap<String, String> },
    Point(T11, i32),
    B(()),
}
impl Shown for T32 {
    fn show(&self) -> N {
        match self {
            Self::A { to_json: v0 } => nl![0i64, v0.show()],
            Self::Vec {  } => nl![1i64],
            Self::lower() => nl![2i64],
            Self::List { _hidden: v0 } => nl![3i64, v0.show()],
            Self::Point(v0, v1) => nl![4i64, v0.show(), v1.show()],
            Self::B(v0) => nl![5i64, v0.show()],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::A { to_json: Shown::build(n.at(1)) },
            1 => Self::Vec {  },
            2 => Self::lower(),
            3 => Self::List { _hidden: Shown::build(n.at(1)) },
            4 => Self::Point(Shown::build(n.at(1)), Shown::build(n.at(2))),
            5 => Self::B(Shown::build(n.at(1))),
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T33 {
}
impl Shown for T33 {
    fn show(&self) -> N {
        N::L(vec![])
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self {  }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T34 {
    pub get_property: T12,
    pub item: T17,
    pub ctx: HashMap<String, chrono::DateTime<chrono::Utc>>,
    pub result: T14,
    pub data: Option<i32>,
    pub r#fn: BTreeMap<String, Vec<u32>>,
    pub vertigo_: T16,
    pub r#type: T10,
    #[js_json(default = Vec::new())]
    pub json: Vec<Vec<T25>>,
}
impl Shown for T34 {
    fn show(&self) -> N {
        nl![self.get_property.show(), self.item.show(), self.ctx.show(), self.result.show(), self.data.show(), self.r#fn.show(), self.vertigo_.show(), self.r#type.show(), self.json.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { get_property: Shown::build(n.at(0)), item: Shown::build(n.at(1)), ctx: Shown::build(n.at(2)), result: Shown::build(n.at(3)), data: Shown::build(n.at(4)), r#fn: Shown::build(n.at(5)), vertigo_: Shown::build(n.at(6)), r#type: Shown::build(n.at(7)), json: Shown::build(n.at(8)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T35 {
    pub none: T22,
    pub some: Option<T6>,
}
impl Shown for T35 {
    fn show(&self) -> N {
        nl![self.none.show(), self.some.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { none: Shown::build(n.at(0)), some: Shown::build(n.at(1)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T36(pub Option<T9>);
impl Shown for T36 {
    fn show(&self) -> N {
        nl![self.0.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T37 {
    r#type,
    lower(T19),
    Some,
    JsJson,
}
impl Shown for T37 {
    fn show(&self) -> N {
        match self {
            Self::r#type => nl![0i64],
            Self::lower(v0) => nl![1i64, v0.show()],
            Self::Some => nl![2i64],
            Self::JsJson => nl![3i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::r#type,
            1 => Self::lower(Shown::build(n.at(1))),
            2 => Self::Some,
            3 => Self::JsJson,
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T38 {
    Default,
    String(Vec<T36>, u32, Vec<T14>, Option<T7>, T1),
    X1 { a1: Option<HashMap<String, T21>>, item: T5 },
    None,
}
impl Shown for T38 {
    fn show(&self) -> N {
        match self {
            Self::Default => nl![0i64],
            Self::String(v0, v1, v2, v3, v4) => nl![1i64, v0.show(), v1.show(), v2.show(), v3.show(), v4.show()],
            Self::X1 { a1: v0, item: v1 } => nl![2i64, v0.show(), v1.show()],
            Self::None => nl![3i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::Default,
            1 => Self::String(Shown::build(n.at(1)), Shown::build(n.at(2)), Shown::build(n.at(3)), Shown::build(n.at(4)), Shown::build(n.at(5))),
            2 => Self::X1 { a1: Shown::build(n.at(1)), item: Shown::build(n.at(2)) },
            3 => Self::None,
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T39(pub T29);
impl Shown for T39 {
    fn show(&self) -> N {
        nl![self.0.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T40 {
    pub value: BTreeMap<String, T5>,
    pub camelCase: T36,
    pub compound_variant: T2,
    #[js_json(default = Vec::new())]
    pub from_json: Vec<()>,
    #[js_json(default = "dflt".to_string())]
    pub data: String,
    pub json: T32,
}
impl Shown for T40 {
    fn show(&self) -> N {
        nl![self.value.show(), self.camelCase.show(), self.compound_variant.show(), self.from_json.show(), self.data.show(), self.json.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { value: Shown::build(n.at(0)), camelCase: Shown::build(n.at(1)), compound_variant: Shown::build(n.at(2)), from_json: Shown::build(n.at(3)), data: Shown::build(n.at(4)), json: Shown::build(n.at(5)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T41 {
    r#type,
    Err { to_json: u64, list: Vec<String>, root: u32, item: i64, none: T36 },
}
impl Shown for T41 {
    fn show(&self) -> N {
        match self {
            Self::r#type => nl![0i64],
            Self::Err { to_json: v0, list: v1, root: v2, item: v3, none: v4 } => nl![1i64, v0.show(), v1.show(), v2.show(), v3.show(), v4.show()],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::r#type,
            1 => Self::Err { to_json: Shown::build(n.at(1)), list: Shown::build(n.at(2)), root: Shown::build(n.at(3)), item: Shown::build(n.at(4)), none: Shown::build(n.at(5)) },
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T42 {
    #[js_json(default = "dflt".to_string())]
    pub simple_variant: String,
}
impl Shown for T42 {
    fn show(&self) -> N {
        nl![self.simple_variant.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { simple_variant: Shown::build(n.at(0)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T43 {
    None(chrono::NaiveDate, Option<T30>),
}
impl Shown for T43 {
    fn show(&self) -> N {
        match self {
            Self::None(v0, v1) => nl![0i64, v0.show(), v1.show()],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::None(Shown::build(n.at(1)), Shown::build(n.at(2))),
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T44 {
    Point,
    lower,
    Tuple,
    Err(T12),
    List { age: (), r#match: Vec<Vec<T20>> },
    Ok,
}
impl Shown for T44 {
    fn show(&self) -> N {
        match self {
            Self::Point => nl![0i64],
            Self::lower => nl![1i64],
            Self::Tuple => nl![2i64],
            Self::Err(v0) => nl![3i64, v0.show()],
            Self::List { age: v0, r#match: v1 } => nl![4i64, v0.show(), v1.show()],
            Self::Ok => nl![5i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::Point,
            1 => Self::lower,
            2 => Self::Tuple,
            3 => Self::Err(Shown::build(n.at(1))),
            4 => Self::List { age: Shown::build(n.at(1)), r#match: Shown::build(n.at(2)) },
            5 => Self::Ok,
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T45 {
    Number { some: Option<BTreeMap<String, chrono::NaiveDate>>, имя: Vec<T35> },
    B { age: T32, r#match: T16 },
    r#type,
    Some,
}
impl Shown for T45 {
    fn show(&self) -> N {
        match self {
            Self::Number { some: v0, имя: v1 } => nl![0i64, v0.show(), v1.show()],
            Self::B { age: v0, r#match: v1 } => nl![1i64, v0.show(), v1.show()],
            Self::r#type => nl![2i64],
            Self::Some => nl![3i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::Number { some: Shown::build(n.at(1)), имя: Shown::build(n.at(2)) },
            1 => Self::B { age: Shown::build(n.at(1)), r#match: Shown::build(n.at(2)) },
            2 => Self::r#type,
            3 => Self::Some,
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T46 {
}
impl Shown for T46 {
    fn show(&self) -> N {
        N::L(vec![])
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self {  }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T47(pub u32, pub HashMap<String, T13>);
impl Shown for T47 {
    fn show(&self) -> N {
        nl![self.0.show(), self.1.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)), Shown::build(n.at(1)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T48(pub T22);
impl Shown for T48 {
    fn show(&self) -> N {
        nl![self.0.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self(Shown::build(n.at(0)))
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T49 {
    Some { _hidden: u32, f_1: i64, r#match: String, list: i32, root: T3 },
    Object(),
}
impl Shown for T49 {
    fn show(&self) -> N {
        match self {
            Self::Some { _hidden: v0, f_1: v1, r#match: v2, list: v3, root: v4 } => nl![0i64, v0.show(), v1.show(), v2.show(), v3.show(), v4.show()],
            Self::Object() => nl![1i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::Some { _hidden: Shown::build(n.at(1)), f_1: Shown::build(n.at(2)), r#match: Shown::build(n.at(3)), list: Shown::build(n.at(4)), root: Shown::build(n.at(5)) },
            1 => Self::Object(),
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T50 {
    lower { simple_variant: BTreeMap<String, T26>, value: u32, item: T29, UPPER: Option<BTreeMap<String, bool>>, data: T22 },
    Object(HashMap<String, T39>, BTreeMap<String, Option<T44>>, Vec<i32>),
    Err,
}
impl Shown for T50 {
    fn show(&self) -> N {
        match self {
            Self::lower { simple_variant: v0, value: v1, item: v2, UPPER: v3, data: v4 } => nl![0i64, v0.show(), v1.show(), v2.show(), v3.show(), v4.show()],
            Self::Object(v0, v1, v2) => nl![1i64, v0.show(), v1.show(), v2.show()],
            Self::Err => nl![2i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::lower { simple_variant: Shown::build(n.at(1)), value: Shown::build(n.at(2)), item: Shown::build(n.at(3)), UPPER: Shown::build(n.at(4)), data: Shown::build(n.at(5)) },
            1 => Self::Object(Shown::build(n.at(1)), Shown::build(n.at(2)), Shown::build(n.at(3))),
            2 => Self::Err,
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T51 {
    JsJson {  },
    Default,
    B,
    X1,
    Number(chrono::DateTime<chrono::Utc>, chrono::DateTime<chrono::Utc>, BTreeMap<String, u32>),
    lower,
}
impl Shown for T51 {
    fn show(&self) -> N {
        match self {
            Self::JsJson {  } => nl![0i64],
            Self::Default => nl![1i64],
            Self::B => nl![2i64],
            Self::X1 => nl![3i64],
            Self::Number(v0, v1, v2) => nl![4i64, v0.show(), v1.show(), v2.show()],
            Self::lower => nl![5i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::JsJson {  },
            1 => Self::Default,
            2 => Self::B,
            3 => Self::X1,
            4 => Self::Number(Shown::build(n.at(1)), Shown::build(n.at(2)), Shown::build(n.at(3))),
            5 => Self::lower,
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T52 {
    Number,
    Tuple,
    A,
    B { self_: HashMap<String, bool>, err: T29, ctx: Vec<T34>, len: u64, json: T14 },
}
impl Shown for T52 {
    fn show(&self) -> N {
        match self {
            Self::Number => nl![0i64],
            Self::Tuple => nl![1i64],
            Self::A => nl![2i64],
            Self::B { self_: v0, err: v1, ctx: v2, len: v3, json: v4 } => nl![3i64, v0.show(), v1.show(), v2.show(), v3.show(), v4.show()],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::Number,
            1 => Self::Tuple,
            2 => Self::A,
            3 => Self::B { self_: Shown::build(n.at(1)), err: Shown::build(n.at(2)), ctx: Shown::build(n.at(3)), len: Shown::build(n.at(4)), json: Shown::build(n.at(5)) },
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T53;
impl Shown for T53 {
    fn show(&self) -> N {
        N::L(vec![])
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        T53
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T54 {
    pub r#type: HashMap<String, T0>,
    pub self_: T5,
    pub f_0: HashMap<String, Option<T14>>,
}
impl Shown for T54 {
    fn show(&self) -> N {
        nl![self.r#type.show(), self.self_.show(), self.f_0.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { r#type: Shown::build(n.at(0)), self_: Shown::build(n.at(1)), f_0: Shown::build(n.at(2)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T55 {
    X1(),
}
impl Shown for T55 {
    fn show(&self) -> N {
        match self {
            Self::X1() => nl![0i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::X1(),
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T56 {
    Err { list: T3, f_0: HashMap<String, chrono::DateTime<chrono::Utc>> },
    r#type,
    Some(chrono::DateTime<chrono::Utc>, chrono::DateTime<chrono::Utc>, Option<()>, String, Vec<i64>),
    List { fields_rev: T7, camelCase: HashMap<String, i32>, default: i64, from_json: Option<T0>, item: T48 },
}
impl Shown for T56 {
    fn show(&self) -> N {
        match self {
            Self::Err { list: v0, f_0: v1 } => nl![0i64, v0.show(), v1.show()],
            Self::r#type => nl![1i64],
            Self::Some(v0, v1, v2, v3, v4) => nl![2i64, v0.show(), v1.show(), v2.show(), v3.show(), v4.show()],
            Self::List { fields_rev: v0, camelCase: v1, default: v2, from_json: v3, item: v4 } => nl![3i64, v0.show(), v1.show(), v2.show(), v3.show(), v4.show()],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::Err { list: Shown::build(n.at(1)), f_0: Shown::build(n.at(2)) },
            1 => Self::r#type,
            2 => Self::Some(Shown::build(n.at(1)), Shown::build(n.at(2)), Shown::build(n.at(3)), Shown::build(n.at(4)), Shown::build(n.at(5))),
            3 => Self::List { fields_rev: Shown::build(n.at(1)), camelCase: Shown::build(n.at(2)), default: Shown::build(n.at(3)), from_json: Shown::build(n.at(4)), item: Shown::build(n.at(5)) },
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T57 {
    pub r#type: T40,
}
impl Shown for T57 {
    fn show(&self) -> N {
        nl![self.r#type.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { r#type: Shown::build(n.at(0)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct T58 {
    pub f_0: Vec<T6>,
    pub age: Vec<bool>,
    pub camelCase: Vec<Option<i32>>,
}
impl Shown for T58 {
    fn show(&self) -> N {
        nl![self.f_0.show(), self.age.show(), self.camelCase.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { f_0: Shown::build(n.at(0)), age: Shown::build(n.at(1)), camelCase: Shown::build(n.at(2)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum T59 {
    Err,
    None,
    Vec { r#match: T53, ctx: T10, len: T40, get_property: T16, value: HashMap<String, T21> },
    Default(Vec<Vec<u64>>, u32, Vec<i64>, i32, HashMap<String, chrono::NaiveDate>),
}
impl Shown for T59 {
    fn show(&self) -> N {
        match self {
            Self::Err => nl![0i64],
            Self::None => nl![1i64],
            Self::Vec { r#match: v0, ctx: v1, len: v2, get_property: v3, value: v4 } => nl![2i64, v0.show(), v1.show(), v2.show(), v3.show(), v4.show()],
            Self::Default(v0, v1, v2, v3, v4) => nl![3i64, v0.show(), v1.show(), v2.show(), v3.show(), v4.show()],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::Err,
            1 => Self::None,
            2 => Self::Vec { r#match: Shown::build(n.at(1)), ctx: Shown::build(n.at(2)), len: Shown::build(n.at(3)), get_property: Shown::build(n.at(4)), value: Shown::build(n.at(5)) },
            3 => Self::Default(Shown::build(n.at(1)), Shown::build(n.at(2)), Shown::build(n.at(3)), Shown::build(n.at(4)), Shown::build(n.at(5))),
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct Tree {
    pub value: i32,
    pub children: Vec<Tree>,
}
impl Shown for Tree {
    fn show(&self) -> N {
        nl![self.value.show(), self.children.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { value: Shown::build(n.at(0)), children: Shown::build(n.at(1)) }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub enum Expr {
    Num(i32),
    Add(Vec<Expr>, Vec<Expr>),
    Let { name: String, value: Vec<Expr>, env: HashMap<String, Expr> },
    Unit,
    Empty(),
    Nil {  },
}
impl Shown for Expr {
    fn show(&self) -> N {
        match self {
            Self::Num(v0) => nl![0i64, v0.show()],
            Self::Add(v0, v1) => nl![1i64, v0.show(), v1.show()],
            Self::Let { name: v0, value: v1, env: v2 } => nl![2i64, v0.show(), v1.show(), v2.show()],
            Self::Unit => nl![3i64],
            Self::Empty() => nl![4i64],
            Self::Nil {  } => nl![5i64],
        }
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        match n.at(0).i() {
            0 => Self::Num(Shown::build(n.at(1))),
            1 => Self::Add(Shown::build(n.at(1)), Shown::build(n.at(2))),
            2 => Self::Let { name: Shown::build(n.at(1)), value: Shown::build(n.at(2)), env: Shown::build(n.at(3)) },
            3 => Self::Unit,
            4 => Self::Empty(),
            5 => Self::Nil {  },
            _ => panic!("harness: variant"),
        }
    }
}

#[derive(AutoJsJson, Clone, PartialEq)]
pub struct Deep {
    pub a: Vec<HashMap<String, Vec<Option<BTreeMap<String, Expr>>>>>,
    #[js_json(default = None)]
    pub b: Option<Vec<Option<chrono::DateTime<chrono::Utc>>>>,
}
impl Shown for Deep {
    fn show(&self) -> N {
        nl![self.a.show(), self.b.show()]
    }
    #[allow(unused_variables)]
    fn build(n: &N) -> Self {
        Self { a: Shown::build(n.at(0)), b: Shown::build(n.at(1)) }
    }
}

pub fn dispatch(req: &N) -> N {
    match req.at(1).s() {
        "T0" => run::<T0>(req),
        "T1" => run::<T1>(req),
        "T2" => run::<T2>(req),
        "T3" => run::<T3>(req),
        "T4" => run::<T4>(req),
        "T5" => run::<T5>(req),
        "T6" => run::<T6>(req),
        "T7" => run::<T7>(req),
        "T8" => run::<T8>(req),
        "T9" => run::<T9>(req),
        "T10" => run::<T10>(req),
        "T11" => run::<T11>(req),
        "T12" => run::<T12>(req),
        "T13" => run::<T13>(req),
        "T14" => run::<T14>(req),
        "T15" => run::<T15>(req),
        "T16" => run::<T16>(req),
        "T17" => run::<T17>(req),
        "T18" => run::<T18>(req),
        "T19" => run::<T19>(req),
        "T20" => run::<T20>(req),
        "T21" => run::<T21>(req),
        "T22" => run::<T22>(req),
        "T23" => run::<T23>(req),
        "T24" => run::<T24>(req),
        "T25" => run::<T25>(req),
        "T26" => run::<T26>(req),
        "T27" => run::<T27>(req),
        "T28" => run::<T28>(req),
        "T29" => run::<T29>(req),
        "T30" => run::<T30>(req),
        "T31" => run::<T31>(req),
        "T32" => run::<T32>(req),
        "T33" => run::<T33>(req),
        "T34" => run::<T34>(req),
        "T35" => run::<T35>(req),
        "T36" => run::<T36>(req),
        "T37" => run::<T37>(req),
        "T38" => run::<T38>(req),
        "T39" => run::<T39>(req),
        "T40" => run::<T40>(req),
        "T41" => run::<T41>(req),
        "T42" => run::<T42>(req),
        "T43" => run::<T43>(req),
        "T44" => run::<T44>(req),
        "T45" => run::<T45>(req),
        "T46" => run::<T46>(req),
        "T47" => run::<T47>(req),
        "T48" => run::<T48>(req),
        "T49" => run::<T49>(req),
        "T50" => run::<T50>(req),
        "T51" => run::<T51>(req),
        "T52" => run::<T52>(req),
        "T53" => run::<T53>(req),
        "T54" => run::<T54>(req),
        "T55" => run::<T55>(req),
        "T56" => run::<T56>(req),
        "T57" => run::<T57>(req),
        "T58" => run::<T58>(req),
        "T59" => run::<T59>(req),
        "Tree" => run::<Tree>(req),
        "Expr" => run::<Expr>(req),
        "Deep" => run::<Deep>(req),
        "X0" => run::<String>(req),
        "X1" => run::<u64>(req),
        "X2" => run::<i64>(req),
        "X3" => run::<u32>(req),
        "X4" => run::<i32>(req),
        "X5" => run::<bool>(req),
        "X6" => run::<()>(req),
        "X7" => run::<chrono::DateTime<chrono::Utc>>(req),
        "X8" => run::<chrono::NaiveDate>(req),
        "X9" => run::<Vec<String>>(req),
        "X10" => run::<Vec<Vec<u32>>>(req),
        "X11" => run::<Option<i64>>(req),
        "X12" => run::<HashMap<String, bool>>(req),
        "X13" => run::<BTreeMap<String, Option<String>>>(req),
        "X14" => run::<Vec<Option<()>>>(req),
        "X15" => run::<HashMap<String, HashMap<String, chrono::NaiveDate>>>(req),
        other => panic!("harness: type {other}"),
    }
}
