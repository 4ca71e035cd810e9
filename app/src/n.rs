//! The exchange format of the harness: a tagged tree (independent of vertigo's own codec).
#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Null,
    I(i64),
    F(f64),
    S(String),
    B(Vec<u8>),
    L(Vec<N>),
}

impl N {
    pub fn decode(buf: &[u8]) -> N {
        let mut pos = 0;
        let out = Self::dec(buf, &mut pos);
        if pos != buf.len() {
            panic!("harness: trailing bytes");
        }
        out
    }
    fn u32(buf: &[u8], pos: &mut usize) -> usize {
        let v = u32::from_le_bytes(buf[*pos..*pos + 4].try_into().unwrap());
        *pos += 4;
        v as usize
    }
    fn dec(buf: &[u8], pos: &mut usize) -> N {
        let tag = buf[*pos];
        *pos += 1;
        match tag {
            0 => N::Null,
            1 => {
                let v = i64::from_le_bytes(buf[*pos..*pos + 8].try_into().unwrap());
                *pos += 8;
                N::I(v)
            }
            2 => {
                let v = f64::from_le_bytes(buf[*pos..*pos + 8].try_into().unwrap());
                *pos += 8;
                N::F(v)
            }
            3 | 4 => {
                let len = Self::u32(buf, pos);
                let s = buf[*pos..*pos + len].to_vec();
                *pos += len;
                if tag == 3 {
                    N::S(String::from_utf8(s).unwrap())
                } else {
                    N::B(s)
                }
            }
            5 => {
                let len = Self::u32(buf, pos);
                let mut v = Vec::with_capacity(len);
                for _ in 0..len {
                    v.push(Self::dec(buf, pos));
                }
                N::L(v)
            }
            _ => panic!("harness: tag {tag}"),
        }
    }
    pub fn encode(&self, out: &mut Vec<u8>) {
        match self {
            N::Null => out.push(0),
            N::I(v) => {
                out.push(1);
                out.extend(v.to_le_bytes());
            }
            N::F(v) => {
                out.push(2);
                out.extend(v.to_le_bytes());
            }
            N::S(s) => {
                out.push(3);
                out.extend((s.len() as u32).to_le_bytes());
                out.extend(s.as_bytes());
            }
            N::B(s) => {
                out.push(4);
                out.extend((s.len() as u32).to_le_bytes());
                out.extend(s);
            }
            N::L(l) => {
                out.push(5);
                out.extend((l.len() as u32).to_le_bytes());
                for x in l {
                    x.encode(out);
                }
            }
        }
    }
    /// JSON text in letters that stand for themselves everywhere; floats as {"f": bits}, bytes as {"x": hex}
    pub fn to_json(&self) -> String {
        match self {
            N::Null => "null".to_string(),
            N::I(v) => v.to_string(),
            N::F(v) => format!("{{\"f\":\"{:016x}\"}}", v.to_bits()),
            N::B(b) => format!("{{\"x\":\"{}\"}}", b.iter().map(|b| format!("{b:02x}")).collect::<String>()),
            N::L(l) => format!("[{}]", l.iter().map(|x| x.to_json()).collect::<Vec<_>>().join(",")),
            N::S(s) => {
                let mut out = String::from("\"");
                for u in s.encode_utf16() {
                    match u {
                        48..=57 | 65..=90 | 97..=122 | 32 | 44..=46 => out.push(u as u8 as char),
                        u => out.push_str(&format!("\\u{u:04x}")),
                    }
                }
                out.push('"');
                out
            }
        }
    }
    pub fn i(&self) -> i64 {
        match self {
            N::I(v) => *v,
            other => panic!("harness: int expected, got {other:?}"),
        }
    }
    pub fn f(&self) -> f64 {
        match self {
            N::F(v) => *v,
            N::I(v) => *v as f64,
            other => panic!("harness: float expected, got {other:?}"),
        }
    }
    pub fn u(&self) -> usize {
        self.i() as usize
    }
    pub fn s(&self) -> &str {
        match self {
            N::S(v) => v,
            other => panic!("harness: str expected, got {other:?}"),
        }
    }
    pub fn b(&self) -> &[u8] {
        match self {
            N::B(v) => v,
            other => panic!("harness: bytes expected, got {other:?}"),
        }
    }
    pub fn l(&self) -> &[N] {
        match self {
            N::L(v) => v,
            other => panic!("harness: list expected, got {other:?}"),
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, N::Null)
    }
    pub fn at(&self, i: usize) -> &N {
        &self.l()[i]
    }
    pub fn len(&self) -> usize {
        self.l().len()
    }
}

impl From<i64> for N {
    fn from(v: i64) -> N {
        N::I(v)
    }
}
impl From<i32> for N {
    fn from(v: i32) -> N {
        N::I(v as i64)
    }
}
impl From<usize> for N {
    fn from(v: usize) -> N {
        N::I(v as i64)
    }
}
impl From<bool> for N {
    fn from(v: bool) -> N {
        N::I(v as i64)
    }
}
impl From<&str> for N {
    fn from(v: &str) -> N {
        N::S(v.to_string())
    }
}
impl From<String> for N {
    fn from(v: String) -> N {
        N::S(v)
    }
}
impl From<Vec<N>> for N {
    fn from(v: Vec<N>) -> N {
        N::L(v)
    }
}
impl From<Vec<u8>> for N {
    fn from(v: Vec<u8>) -> N {
        N::B(v)
    }
}
#[macro_export]
macro_rules! nl {
    ($($e:expr),* $(,)?) => { $crate::n::N::L(vec![$($crate::n::N::from($e)),*]) };
}
