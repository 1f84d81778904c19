//! jsonrpc-core 15: the types of the other version, and methods that answer later.
pub use jsonrpc_core::*;

use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

pub type Later<T> = Pin<Box<dyn Future<Output = T>>>;

pub trait Metadata: Clone + 'static {}
impl Metadata for () {}
impl<T: 'static> Metadata for std::sync::Arc<T> {}

pub trait Middleware<M> {}
#[derive(Default, Clone)]
pub struct Noop;
impl<M> Middleware<M> for Noop {}
pub mod middleware {
    pub use super::Noop;
}

pub type Method<M> = Rc<dyn Fn(Params, M) -> Later<Result<Value>>>;

pub struct MetaIoHandler<M, S = Noop> {
    pub methods: BTreeMap<String, Method<M>>,
    _s: std::marker::PhantomData<S>,
}
impl<M> Default for MetaIoHandler<M, Noop> {
    fn default() -> Self {
        MetaIoHandler { methods: BTreeMap::new(), _s: std::marker::PhantomData }
    }
}
impl<M: 'static, S> MetaIoHandler<M, S> {
    pub fn add_method<F, R>(&mut self, name: &str, f: F)
    where
        F: Fn(Params) -> R + 'static,
        R: Future<Output = Result<Value>> + 'static,
    {
        self.methods.insert(name.to_string(), Rc::new(move |p, _| Box::pin(f(p))));
    }
}
