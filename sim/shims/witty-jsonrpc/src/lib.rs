//! Stands in for witty-jsonrpc: the requests come from the harness (`call`), not from sockets.

use jsonrpc_core::{BoxFuture, Error, Params, Result, Value};
use jsonrpc_pubsub::{Outbox, Subscriber, SubscriptionId};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::rc::Rc;
use std::sync::Arc;

pub mod handler {
    pub trait Handler {
        type Metadata: Clone + Default + std::fmt::Debug + 'static;
    }
    pub struct SimHandler;
    impl Handler for SimHandler {
        type Metadata = super::Session;
    }
}

/// The connection of a client.
#[derive(Clone, Debug, Default)]
pub struct Session(pub Option<Outbox>);
impl Session {
    pub fn mock() -> Session {
        Session(Some(Outbox::default()))
    }
}

pub mod server {
    use super::*;
    pub trait ActixServer<H: handler::Handler> {
        fn add_actix_method<F, Fut>(&mut self, system: &Option<actix::System>, name: &str, method: F)
        where
            F: Fn(Params) -> Fut + 'static,
            Fut: Future<Output = Result<Value>> + 'static;
        fn add_actix_subscription<F, G>(&mut self, system: &Option<actix::System>, notification: &str, subscribe: (&str, Arc<F>), unsubscribe: (&str, Arc<G>))
        where
            F: Fn(Params, H::Metadata, Subscriber) + 'static,
            G: Fn(SubscriptionId, Option<H::Metadata>) -> BoxFuture<Result<Value>> + 'static;
    }
}

pub mod transports {
    macro_rules! transport {
        ($m:ident, $t:ident, $s:ident) => {
            pub mod $m {
                pub struct $s {
                    pub address: String,
                }
                pub struct $t(pub String);
                impl $t {
                    pub fn new(s: $s) -> $t {
                        $t(s.address)
                    }
                }
                impl super::Transport for $t {}
            }
        };
    }
    pub trait Transport {}
    transport!(http, HttpTransport, HttpTransportSettings);
    transport!(tcp, TcpTransport, TcpTransportSettings);
    transport!(ws, WsTransport, WsTransportSettings);
}

pub mod prelude {
    pub use crate::server::ActixServer;
    pub use crate::{Server, Session, WittyMultiServer, WittyMonoServer};
}

type Method = Rc<dyn Fn(Params) -> BoxFuture<Result<Value>>>;
type Subscribe = Rc<dyn Fn(Params, Session, Subscriber)>;
type Unsubscribe = Rc<dyn Fn(SubscriptionId, Option<Session>) -> BoxFuture<Result<Value>>>;

#[derive(Clone)]
enum Entry {
    Method(Method),
    Subscribe(String, Subscribe),
    Unsubscribe(Unsubscribe),
}

type Table = Rc<RefCell<BTreeMap<String, Entry>>>;

#[derive(Default)]
pub struct WittyMultiServer {
    table: Table,
    transports: usize,
}
pub type WittyMonoServer = WittyMultiServer;

#[derive(Debug)]
pub struct StartError;
impl std::fmt::Display for StartError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no transport")
    }
}
impl std::error::Error for StartError {}

/// Gives the trait a name to import, as in the original.
pub trait Server {}
impl Server for WittyMultiServer {}

#[derive(Clone)]
struct Running(Table);

impl WittyMultiServer {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_runtime(self, _: tokio::runtime::Handle) -> Self {
        self
    }
    pub fn add_transport<T: transports::Transport>(&mut self, _: T) {
        self.transports += 1;
    }
    pub fn start(&mut self) -> std::result::Result<(), StartError> {
        if self.transports == 0 {
            return Err(StartError);
        }
        simrt::registry_set(std::any::TypeId::of::<Running>(), Running(self.table.clone()));
        Ok(())
    }
    pub fn describe_api(&self) -> Vec<String> {
        self.table.borrow().keys().cloned().collect()
    }
    /// Polls until the answer is there.
    pub fn handle_request_sync(&self, request: &str, meta: Session) -> Option<String> {
        let mut f = Box::pin(handle(self.table.clone(), request.to_string(), meta));
        let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
        loop {
            if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                return v;
            }
        }
    }
}

/// What the server of the current node answers to a request. `None` if it has no server or it is a notification.
pub async fn call(request: String, meta: Session) -> Option<String> {
    let r: Running = simrt::registry_get(std::any::TypeId::of::<Running>())?;
    handle(r.0, request, meta).await
}

fn answer(id: Value, r: Result<Value>) -> Value {
    let mut m = serde_json::Map::new();
    m.insert("jsonrpc".into(), "2.0".into());
    match r {
        Ok(v) => m.insert("result".into(), v),
        Err(e) => m.insert("error".into(), serde_json::to_value(e).unwrap()),
    };
    m.insert("id".into(), id);
    Value::Object(m)
}

async fn handle(table: Table, request: String, meta: Session) -> Option<String> {
    let Ok(v) = serde_json::from_str::<Value>(&request) else {
        return Some(answer(Value::Null, Err(Error::parse_error())).to_string());
    };
    match v {
        Value::Array(calls) if !calls.is_empty() => {
            let mut out = vec![];
            for c in calls {
                out.extend(one(&table, c, &meta).await);
            }
            if out.is_empty() { None } else { Some(Value::Array(out).to_string()) }
        }
        Value::Array(_) => Some(answer(Value::Null, Err(Error::invalid_request())).to_string()),
        v => one(&table, v, &meta).await.map(|v| v.to_string()),
    }
}

async fn one(table: &Table, call: Value, meta: &Session) -> Option<Value> {
    let bad = |id: Value| Some(answer(id, Err(Error::invalid_request())));
    let Value::Object(mut m) = call else { return bad(Value::Null) };
    let id = m.remove("id");
    let shown = match &id {
        Some(v @ (Value::Null | Value::String(_) | Value::Number(_))) => v.clone(),
        Some(_) => return bad(Value::Null),
        None => Value::Null,
    };
    if m.get("jsonrpc").is_some_and(|v| v != "2.0" && !v.is_null()) {
        return bad(shown);
    }
    let params = match m.remove("params") {
        None | Some(Value::Null) => Params::None,
        Some(Value::Array(a)) => Params::Array(a),
        Some(Value::Object(o)) => Params::Map(o),
        Some(_) => return bad(shown),
    };
    let Some(Value::String(method)) = m.remove("method") else { return bad(shown) };
    let entry = table.borrow().get(&method).cloned();
    let r = match entry {
        None => Err(Error::method_not_found()),
        Some(Entry::Method(f)) => f(params).await,
        Some(Entry::Subscribe(n, f)) => match &meta.0 {
            Some(out) => {
                let (s, a) = Subscriber::make(&n, out.clone());
                f(params, meta.clone(), s);
                let a = a.lock().unwrap().take();
                match a {
                    Some(r) => r.map(Value::from),
                    None => Err(Error::internal_error()),
                }
            }
            None => Err(Error {
                code: jsonrpc_core::ErrorCode::ServerError(-32090),
                message: "Subscriptions are not available on this transport.".into(),
                data: None,
            }),
        },
        Some(Entry::Unsubscribe(f)) => match &params {
            Params::Array(a) if a.len() == 1 => match SubscriptionId::parse_value(&a[0]) {
                Some(i) => match f(i, Some(meta.clone())).await {
                    // The original refuses ids it did not give out itself.
                    Ok(Value::Bool(false)) => Err(Error::invalid_params("Invalid subscription id.")),
                    r => r,
                },
                None => Err(Error::invalid_params("Expected subscription id.")),
            },
            _ => Err(Error::invalid_params("Expected subscription id.")),
        },
    };
    id.map(|_| answer(shown, r))
}

impl server::ActixServer<handler::SimHandler> for WittyMultiServer {
    fn add_actix_method<F, Fut>(&mut self, _: &Option<actix::System>, name: &str, method: F)
    where
        F: Fn(Params) -> Fut + 'static,
        Fut: Future<Output = Result<Value>> + 'static,
    {
        let m: Method = Rc::new(move |p| Box::pin(method(p)));
        self.table.borrow_mut().insert(name.to_string(), Entry::Method(m));
    }
    fn add_actix_subscription<F, G>(&mut self, _: &Option<actix::System>, notification: &str, subscribe: (&str, Arc<F>), unsubscribe: (&str, Arc<G>))
    where
        F: Fn(Params, Session, Subscriber) + 'static,
        G: Fn(SubscriptionId, Option<Session>) -> BoxFuture<Result<Value>> + 'static,
    {
        let (f, g) = (subscribe.1, unsubscribe.1);
        let mut t = self.table.borrow_mut();
        t.insert(subscribe.0.to_string(), Entry::Subscribe(notification.to_string(), Rc::new(move |p, m, s| f(p, m, s))));
        t.insert(unsubscribe.0.to_string(), Entry::Unsubscribe(Rc::new(move |i, m| g(i, m))));
    }
}
