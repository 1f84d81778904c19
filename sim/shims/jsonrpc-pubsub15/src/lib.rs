//! jsonrpc-pubsub 15: subscriptions whose notifications end in a list that the harness reads.

use futures01::sync::mpsc::SendError;
use jsonrpc_core15 as core;
use jsonrpc_core15::{Error, Later, MetaIoHandler, Method, Middleware, Noop, Params, Value};
use std::cell::RefCell;
use std::future::{Future, Ready, ready};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum SubscriptionId {
    Number(u64),
    String(String),
}
impl SubscriptionId {
    pub fn parse_value(v: &Value) -> Option<SubscriptionId> {
        match v {
            Value::String(s) => Some(SubscriptionId::String(s.clone())),
            Value::Number(n) => n.as_u64().map(SubscriptionId::Number),
            _ => None,
        }
    }
}
impl From<SubscriptionId> for Value {
    fn from(s: SubscriptionId) -> Value {
        match s {
            SubscriptionId::Number(n) => Value::from(n),
            SubscriptionId::String(s) => Value::String(s),
        }
    }
}

/// One client of the server.
#[derive(Default)]
pub struct Session {
    pub out: Mutex<Vec<(String, Params)>>,
    pub gone: Mutex<bool>,
}

pub trait PubSubMetadata: core::Metadata {
    fn session(&self) -> Option<Arc<Session>>;
}
impl PubSubMetadata for Arc<Session> {
    fn session(&self) -> Option<Arc<Session>> {
        Some(self.clone())
    }
}

#[derive(Clone)]
pub struct Sink {
    method: String,
    to: Arc<Session>,
}
impl std::fmt::Debug for Sink {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sink({})", self.method)
    }
}
impl Sink {
    pub fn notify(&self, p: Params) -> Ready<Result<Sink, SendError<String>>> {
        if *self.to.gone.lock().unwrap() {
            return ready(Err(SendError(self.method.clone())));
        }
        self.to.out.lock().unwrap().push((self.method.clone(), p));
        ready(Ok(self.clone()))
    }
}

type Answer = Rc<RefCell<Option<Result<SubscriptionId, Error>>>>;

pub struct Subscriber {
    method: String,
    to: Arc<Session>,
    answer: simrt::oneshot::Sender<Result<SubscriptionId, Error>>,
    _a: std::marker::PhantomData<Answer>,
}
impl Subscriber {
    pub fn assign_id_async(self, id: SubscriptionId) -> Ready<Result<Sink, ()>> {
        let _ = self.answer.send(Ok(id));
        ready(Ok(Sink { method: self.method, to: self.to }))
    }
    pub fn reject_async(self, e: Error) -> Ready<Result<(), ()>> {
        let _ = self.answer.send(Err(e));
        ready(Ok(()))
    }
}

pub struct PubSubHandler<T, S = Noop> {
    io: MetaIoHandler<T, S>,
}
impl<T> Default for PubSubHandler<T, Noop> {
    fn default() -> Self {
        PubSubHandler { io: MetaIoHandler::default() }
    }
}
impl<T: PubSubMetadata, S: Middleware<T>> PubSubHandler<T, S> {
    pub fn new(io: MetaIoHandler<T, S>) -> Self {
        PubSubHandler { io }
    }
    pub fn add_method<F, R>(&mut self, name: &str, f: F)
    where
        F: Fn(Params) -> R + 'static,
        R: Future<Output = Result<Value, Error>> + 'static,
    {
        self.io.add_method(name, f)
    }
    pub fn add_subscription<F, G, R>(&mut self, notification: &str, on: (&str, F), off: (&str, G))
    where
        F: Fn(Params, T, Subscriber) + 'static,
        G: Fn(SubscriptionId, Option<T>) -> R + 'static,
        R: Future<Output = Result<Value, Error>> + 'static,
    {
        let n = notification.to_string();
        let f = on.1;
        let m: Method<T> = Rc::new(move |p, meta: T| {
            let Some(to) = meta.session() else {
                return Box::pin(ready(Err(Error::method_not_found()))) as Later<_>;
            };
            let (tx, rx) = simrt::oneshot::channel();
            f(p, meta, Subscriber { method: n.clone(), to, answer: tx, _a: std::marker::PhantomData });
            Box::pin(async move {
                match rx.await {
                    Some(Ok(id)) => Ok(id.into()),
                    Some(Err(e)) => Err(e),
                    None => Err(Error::internal_error()),
                }
            })
        });
        self.io.methods.insert(on.0.to_string(), m);
        let g = off.1;
        let m: Method<T> = Rc::new(move |p, meta: T| {
            let id = match p {
                Params::Array(v) if v.len() == 1 => SubscriptionId::parse_value(&v[0]),
                _ => None,
            };
            match id {
                Some(id) => Box::pin(g(id, Some(meta))) as Later<_>,
                None => Box::pin(ready(Err(Error::invalid_params("Expected subscription id.")))),
            }
        });
        self.io.methods.insert(off.0.to_string(), m);
    }
    /// The answer to one call.
    pub fn call(&self, method: &str, p: Params, meta: T) -> Later<Result<Value, Error>> {
        match self.io.methods.get(method) {
            Some(m) => m(p, meta),
            None => Box::pin(ready(Err(Error::method_not_found()))),
        }
    }
    pub fn names(&self) -> Vec<String> {
        self.io.methods.keys().cloned().collect()
    }
}
