//! Stand-in for roam: service declarations.
use std::any::Any;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

pub use roam_macros::service;

pub type LocalBoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

#[derive(Clone, Debug, Default)]
pub struct Context(());

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CallError {
    Refused,
    Closed,
}
impl std::fmt::Display for CallError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for CallError {}

pub trait Dispatch {
    fn dispatch<'x>(&'x self, method: &'x str, args: Box<dyn Any>) -> LocalBoxFuture<'x, Option<Box<dyn Any>>>;
}

type Call = dyn Fn(&'static str, Box<dyn Any>) -> LocalBoxFuture<'static, Result<Box<dyn Any>, CallError>>;
/// The caller's end of a connection.
#[derive(Clone)]
pub struct Handle(Rc<Call>);
impl Handle {
    pub fn new(f: impl Fn(&'static str, Box<dyn Any>) -> LocalBoxFuture<'static, Result<Box<dyn Any>, CallError>> + 'static) -> Handle {
        Handle(Rc::new(f))
    }
    pub fn call(&self, method: &'static str, args: Box<dyn Any>) -> LocalBoxFuture<'static, Result<Box<dyn Any>, CallError>> {
        (self.0)(method, args)
    }
}
