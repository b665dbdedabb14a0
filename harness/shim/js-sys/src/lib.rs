//! Stand-in for js-sys: plain objects and reflection on them.
use std::cell::RefCell;
use std::ops::Deref;
use std::rc::Rc;
use wasm_bindgen::{JsCast, JsValue, Val};

#[repr(transparent)]
#[derive(Clone, Debug, PartialEq)]
pub struct Object(JsValue);
impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Object {
        Object(JsValue(Val::Obj(Rc::new(RefCell::new(vec![])))))
    }
}
impl Deref for Object {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        &self.0
    }
}
impl AsRef<JsValue> for Object {
    fn as_ref(&self) -> &JsValue {
        &self.0
    }
}
impl From<Object> for JsValue {
    fn from(o: Object) -> JsValue {
        o.0
    }
}
impl JsCast for Object {
    fn instanceof(v: &JsValue) -> bool {
        matches!(v.0, Val::Obj(_) | Val::Node(_) | Val::Attr(_))
    }
    fn unchecked_from_js(v: JsValue) -> Object {
        Object(v)
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &Object {
        unsafe { &*(v as *const JsValue as *const Object) }
    }
}

/// A list, as an object with the indices for keys.
#[repr(transparent)]
#[derive(Clone, Debug, PartialEq)]
pub struct Array(Object);
impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Array {
        Array(Object::new())
    }
    fn items(&self) -> &RefCell<Vec<(String, JsValue)>> {
        match &self.0.0.0 {
            Val::Obj(o) => o,
            _ => panic!("no array"),
        }
    }
    pub fn length(&self) -> u32 {
        self.items().borrow().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.items().borrow().get(i as usize).map(|x| x.1.clone()).unwrap_or(JsValue::UNDEFINED)
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        let i = self.length();
        self.items().borrow_mut().push((i.to_string(), v.clone()));
        i + 1
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.items().borrow().iter().map(|x| x.1.clone()).collect()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn of1(a: &JsValue) -> Array {
        [a].into_iter().cloned().collect()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        [a, b].into_iter().cloned().collect()
    }
}
impl<T: Into<JsValue>> FromIterator<T> for Array {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Array {
        let a = Array::new();
        i.into_iter().for_each(|x| drop(a.push(&x.into())));
        a
    }
}
impl Deref for Array {
    type Target = Object;
    fn deref(&self) -> &Object {
        &self.0
    }
}
impl AsRef<JsValue> for Array {
    fn as_ref(&self) -> &JsValue {
        &self.0.0
    }
}
impl From<Array> for JsValue {
    fn from(a: Array) -> JsValue {
        a.0.0
    }
}

/// `Error` objects: an object with a name and a message.
#[repr(transparent)]
#[derive(Clone, Debug, PartialEq)]
pub struct Error(Object);
impl Error {
    pub fn new(message: &str) -> Error {
        let o = Object::new();
        let _ = Reflect::set(&o, &"name".into(), &"Error".into());
        let _ = Reflect::set(&o, &"message".into(), &message.into());
        Error(o)
    }
    fn part(&self, k: &str) -> String {
        Reflect::get(&self.0, &k.into()).ok().and_then(|v| v.as_string()).unwrap_or_default()
    }
    pub fn message(&self) -> String {
        self.part("message")
    }
    pub fn name(&self) -> String {
        self.part("name")
    }
}
impl Deref for Error {
    type Target = Object;
    fn deref(&self) -> &Object {
        &self.0
    }
}
impl AsRef<JsValue> for Error {
    fn as_ref(&self) -> &JsValue {
        &self.0.0
    }
}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        e.0.0
    }
}
impl JsCast for Error {
    fn instanceof(v: &JsValue) -> bool {
        matches!(v.0, Val::Obj(_)) && Reflect::has(v, &"message".into()).unwrap_or(false)
    }
    fn unchecked_from_js(v: JsValue) -> Error {
        Error(Object(v))
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &Error {
        unsafe { &*(v as *const JsValue as *const Error) }
    }
}

#[allow(non_snake_case)]
pub mod Reflect {
    use super::*;
    pub fn get(o: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        match &o.0 {
            Val::Obj(o) => {
                let k = k.as_string().unwrap_or_default();
                Ok(o.borrow().iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or(JsValue::UNDEFINED))
            }
            Val::Node(_) | Val::Attr(_) => Ok(JsValue::UNDEFINED),
            _ => Err(JsValue::from_str("Reflect.get called on non-object")),
        }
    }
    pub fn has(o: &JsValue, k: &JsValue) -> Result<bool, JsValue> {
        get(o, k).map(|v| !v.is_undefined())
    }
    pub fn set(o: &JsValue, k: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        let Val::Obj(o) = &o.0 else { return Err(JsValue::from_str("Reflect.set called on non-object")) };
        let k = k.as_string().unwrap_or_default();
        let mut o = o.borrow_mut();
        match o.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 = v.clone(),
            None => o.push((k, v.clone())),
        }
        Ok(true)
    }
}
#[allow(non_snake_case)]
pub mod JSON {
    use super::*;
    pub fn stringify(v: &JsValue) -> Result<JsValue, JsValue> {
        Ok(JsValue::from_str(&format!("{v:?}")))
    }
}
