//! Stand-in for facet-postcard: a compact binary encoding of `facet::Value`.
use facet::{Facet, Value};

#[derive(Debug, Clone, PartialEq)]
pub struct SerializeError(pub String);
#[derive(Debug, Clone, PartialEq)]
pub struct DeserializeError(pub String);
impl std::fmt::Display for SerializeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SerializeError {}
impl std::fmt::Display for DeserializeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for DeserializeError {}

fn num(out: &mut Vec<u8>, mut n: u64) {
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

fn text(out: &mut Vec<u8>, s: &str) {
    num(out, s.len() as u64);
    out.extend_from_slice(s.as_bytes());
}

fn put(out: &mut Vec<u8>, v: &Value) {
    match v {
        Value::Unit => out.push(0),
        Value::Bool(b) => out.extend([1, *b as u8]),
        Value::Num(n) => {
            out.push(2);
            num(out, *n);
        }
        Value::Str(s) => {
            out.push(3);
            text(out, s);
        }
        Value::None => out.push(4),
        Value::Some(x) => {
            out.push(5);
            put(out, x);
        }
        Value::List(l) => {
            out.push(6);
            num(out, l.len() as u64);
            l.iter().for_each(|x| put(out, x));
        }
        Value::Map(m) => {
            out.push(7);
            num(out, m.len() as u64);
            for (k, x) in m {
                text(out, k);
                put(out, x);
            }
        }
        Value::Variant(k, n, x) => {
            out.push(8);
            num(out, *k as u64);
            text(out, n);
            put(out, x);
        }
    }
}

struct R<'a>(&'a [u8]);
impl R<'_> {
    fn byte(&mut self) -> Option<u8> {
        let (b, r) = self.0.split_first()?;
        self.0 = r;
        Some(*b)
    }
    fn num(&mut self) -> Option<u64> {
        let (mut n, mut sh) = (0u64, 0);
        loop {
            let b = self.byte()?;
            n |= ((b & 0x7f) as u64).checked_shl(sh)?;
            if b & 0x80 == 0 {
                return Some(n);
            }
            sh += 7;
            if sh > 63 {
                return None;
            }
        }
    }
    fn text(&mut self) -> Option<String> {
        let n = self.num()? as usize;
        if n > self.0.len() {
            return None;
        }
        let (s, r) = self.0.split_at(n);
        self.0 = r;
        String::from_utf8(s.to_vec()).ok()
    }
    fn get(&mut self) -> Option<Value> {
        Some(match self.byte()? {
            0 => Value::Unit,
            1 => Value::Bool(self.byte()? != 0),
            2 => Value::Num(self.num()?),
            3 => Value::Str(self.text()?),
            4 => Value::None,
            5 => Value::Some(Box::new(self.get()?)),
            6 => {
                let n = self.num()?;
                let mut l = vec![];
                for _ in 0..n {
                    l.push(self.get()?);
                }
                Value::List(l)
            }
            7 => {
                let n = self.num()?;
                let mut l = vec![];
                for _ in 0..n {
                    l.push((self.text()?, self.get()?));
                }
                Value::Map(l)
            }
            8 => {
                let k = u32::try_from(self.num()?).ok()?;
                Value::Variant(k, self.text()?, Box::new(self.get()?))
            }
            _ => return None,
        })
    }
}

pub fn to_vec<T: Facet>(v: &T) -> Result<Vec<u8>, SerializeError> {
    let mut out = vec![];
    put(&mut out, &v.to_value());
    Ok(out)
}

pub fn from_slice<T: Facet>(b: &[u8]) -> Result<T, DeserializeError> {
    let mut r = R(b);
    let v = r.get().ok_or_else(|| DeserializeError("truncated or malformed".into()))?;
    T::from_value(v).map_err(|e| DeserializeError(e.to_string()))
}
