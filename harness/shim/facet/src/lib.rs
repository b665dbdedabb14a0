//! Stand-in for the facet reflection crate (not available offline): a trait
//! that turns a value into a small self-describing tree and back.
extern crate self as facet;
pub use facet_macros::Facet;

#[derive(Debug, Clone, PartialEq)]
pub enum Value {
    Unit,
    Bool(bool),
    Num(u64),
    Str(String),
    None,
    Some(Box<Value>),
    List(Vec<Value>),
    Map(Vec<(String, Value)>),
    Variant(u32, String, Box<Value>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Bad(pub String);

impl Bad {
    pub fn new(s: &str) -> Bad {
        Bad(s.to_string())
    }
}
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "cannot decode {}", self.0)
    }
}
impl std::error::Error for Bad {}

pub struct FieldMap(Vec<(String, Value)>);
impl FieldMap {
    pub fn take(&mut self, k: &str) -> Result<Value, Bad> {
        match self.0.iter().position(|(n, _)| n == k) {
            Some(i) => Ok(self.0.remove(i).1),
            None => Err(Bad::new(k)),
        }
    }
}

impl Value {
    pub fn into_list(self) -> Result<Vec<Value>, Bad> {
        match self {
            Value::List(l) => Ok(l),
            _ => Err(Bad::new("list")),
        }
    }
    pub fn into_fields(self) -> Result<FieldMap, Bad> {
        match self {
            Value::Map(m) => Ok(FieldMap(m)),
            _ => Err(Bad::new("struct")),
        }
    }
    pub fn into_variant(self, names: &[&str]) -> Result<(u32, Value), Bad> {
        match self {
            Value::Variant(k, n, b) if names.get(k as usize) == Some(&n.as_str()) => Ok((k, *b)),
            _ => Err(Bad::new("enum variant")),
        }
    }
}

pub trait Facet: Sized {
    fn to_value(&self) -> Value;
    fn from_value(v: Value) -> Result<Self, Bad>;
}

macro_rules! num {
    ($($t:ty),*) => {$(
        impl Facet for $t {
            fn to_value(&self) -> Value { Value::Num(*self as u64) }
            fn from_value(v: Value) -> Result<Self, Bad> {
                match v {
                    Value::Num(n) => <$t>::try_from(n).map_err(|_| Bad::new("number range")),
                    _ => Err(Bad::new("number")),
                }
            }
        }
    )*};
}
num!(u8, u16, u32, u64, usize);

impl Facet for bool {
    fn to_value(&self) -> Value {
        Value::Bool(*self)
    }
    fn from_value(v: Value) -> Result<Self, Bad> {
        match v {
            Value::Bool(b) => Ok(b),
            _ => Err(Bad::new("bool")),
        }
    }
}
impl Facet for String {
    fn to_value(&self) -> Value {
        Value::Str(self.clone())
    }
    fn from_value(v: Value) -> Result<Self, Bad> {
        match v {
            Value::Str(s) => Ok(s),
            _ => Err(Bad::new("string")),
        }
    }
}
impl Facet for compact_str::CompactString {
    fn to_value(&self) -> Value {
        Value::Str(self.as_str().to_string())
    }
    fn from_value(v: Value) -> Result<Self, Bad> {
        String::from_value(v).map(Into::into)
    }
}
impl<T: Facet> Facet for Option<T> {
    fn to_value(&self) -> Value {
        match self {
            None => Value::None,
            Some(x) => Value::Some(Box::new(x.to_value())),
        }
    }
    fn from_value(v: Value) -> Result<Self, Bad> {
        match v {
            Value::None => Ok(None),
            Value::Some(x) => T::from_value(*x).map(Some),
            _ => Err(Bad::new("option")),
        }
    }
}
impl<T: Facet> Facet for Box<T> {
    fn to_value(&self) -> Value {
        (**self).to_value()
    }
    fn from_value(v: Value) -> Result<Self, Bad> {
        T::from_value(v).map(Box::new)
    }
}
impl<T: Facet> Facet for Vec<T> {
    fn to_value(&self) -> Value {
        Value::List(self.iter().map(T::to_value).collect())
    }
    fn from_value(v: Value) -> Result<Self, Bad> {
        v.into_list()?.into_iter().map(T::from_value).collect()
    }
}
impl<A: smallvec::Array> Facet for smallvec::SmallVec<A>
where
    A::Item: Facet,
{
    fn to_value(&self) -> Value {
        Value::List(self.iter().map(Facet::to_value).collect())
    }
    fn from_value(v: Value) -> Result<Self, Bad> {
        v.into_list()?.into_iter().map(A::Item::from_value).collect()
    }
}
impl<A: Facet, B: Facet> Facet for (A, B) {
    fn to_value(&self) -> Value {
        Value::List(vec![self.0.to_value(), self.1.to_value()])
    }
    fn from_value(v: Value) -> Result<Self, Bad> {
        let mut l = v.into_list()?.into_iter();
        match (l.next(), l.next()) {
            (Some(a), Some(b)) => Ok((A::from_value(a)?, B::from_value(b)?)),
            _ => Err(Bad::new("pair")),
        }
    }
}
