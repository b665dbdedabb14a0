//! Stand-in for wasm-bindgen: JavaScript values as Rust values. Nodes of the
//! DOM are numbers in the web-sys stand-in's tables.
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

#[derive(Clone)]
pub enum Val {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Node(usize),
    Attr(usize),
    Obj(Rc<RefCell<Vec<(String, JsValue)>>>),
}
#[repr(transparent)]
#[derive(Clone)]
pub struct JsValue(pub Val);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Val::Undefined);
    pub const NULL: JsValue = JsValue(Val::Null);
    pub const TRUE: JsValue = JsValue(Val::Bool(true));
    pub const FALSE: JsValue = JsValue(Val::Bool(false));
    pub fn undefined() -> JsValue {
        JsValue::UNDEFINED
    }
    pub fn null() -> JsValue {
        JsValue::NULL
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(Val::Bool(b))
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Val::Num(n))
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self.0 {
            Val::Num(n) => Some(n),
            _ => None,
        }
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Val::Str(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, Val::Obj(_) | Val::Node(_) | Val::Attr(_))
    }
    pub fn is_truthy(&self) -> bool {
        !self.is_falsy()
    }
    pub fn is_falsy(&self) -> bool {
        match &self.0 {
            Val::Undefined | Val::Null | Val::Bool(false) => true,
            Val::Num(n) => *n == 0.0 || n.is_nan(),
            Val::Str(s) => s.is_empty(),
            _ => false,
        }
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Val::Str(s.into()))
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Val::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self.0 {
            Val::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Val::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, Val::Null)
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool {
        match (&self.0, &o.0) {
            (Val::Undefined, Val::Undefined) | (Val::Null, Val::Null) => true,
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::Num(a), Val::Num(b)) => a == b,
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::Node(a), Val::Node(b)) | (Val::Attr(a), Val::Attr(b)) => a == b,
            (Val::Obj(a), Val::Obj(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match &self.0 {
            Val::Undefined => write!(f, "JsValue(undefined)"),
            Val::Null => write!(f, "JsValue(null)"),
            Val::Bool(b) => write!(f, "JsValue({b})"),
            Val::Num(n) => write!(f, "JsValue({n})"),
            Val::Str(s) => write!(f, "JsValue({s:?})"),
            Val::Node(n) => write!(f, "JsValue(node {n})"),
            Val::Attr(n) => write!(f, "JsValue(attribute {n})"),
            Val::Obj(o) => write!(f, "JsValue({:?})", o.borrow()),
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::from_str(&s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue(Val::Bool(b))
    }
}
macro_rules! numbers {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue {
            fn from(n: $t) -> JsValue {
                JsValue(Val::Num(n as f64))
            }
        }
    )*};
}
numbers!(i8 u8 i16 u16 i32 u32 f32 f64 usize isize);
impl From<&String> for JsValue {
    fn from(s: &String) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<char> for JsValue {
    fn from(c: char) -> JsValue {
        JsValue::from_str(c.encode_utf8(&mut [0; 4]))
    }
}
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(x: Option<T>) -> JsValue {
        x.map_or(JsValue::UNDEFINED, Into::into)
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, o: &str) -> bool {
        matches!(&self.0, Val::Str(s) if **s == *o)
    }
}
impl PartialEq<&str> for JsValue {
    fn eq(&self, o: &&str) -> bool {
        *self == **o
    }
}
impl PartialEq<String> for JsValue {
    fn eq(&self, o: &String) -> bool {
        *self == **o
    }
}
impl PartialEq<bool> for JsValue {
    fn eq(&self, o: &bool) -> bool {
        matches!(self.0, Val::Bool(b) if b == *o)
    }
}
impl Default for JsValue {
    fn default() -> JsValue {
        JsValue::UNDEFINED
    }
}
/// An error for JavaScript.
#[derive(Clone, Debug)]
pub struct JsError(JsValue);
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(JsValue::from_str(s))
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        e.0
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> JsError {
        JsError::new(&e.to_string())
    }
}
pub fn throw_str(s: &str) -> ! {
    panic!("{s}")
}
pub fn throw_val(v: JsValue) -> ! {
    panic!("{v:?}")
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

/// Casts between classes. Every class is a transparent wrapper around `JsValue`.
pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(v: &JsValue) -> bool;
    fn unchecked_from_js(v: JsValue) -> Self;
    fn unchecked_from_js_ref(v: &JsValue) -> &Self;

    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if T::instanceof(self.as_ref()) { Ok(T::unchecked_from_js(self.into())) } else { Err(self) }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        T::instanceof(self.as_ref()).then(|| T::unchecked_from_js_ref(self.as_ref()))
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(v: JsValue) -> JsValue {
        v
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &JsValue {
        v
    }
}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
pub mod prelude {
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt, wasm_bindgen};
}
