//! Stands in for jsonrpc-pubsub: the notifications of a session end in a list that the harness reads.

use jsonrpc_core::{Error, Params, Value};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum SubscriptionId {
    Number(u64),
    String(String),
}
impl SubscriptionId {
    pub fn parse_value(v: &Value) -> Option<SubscriptionId> {
        match v {
            Value::String(s) => Some(SubscriptionId::String(s.clone())),
            Value::Number(n) => n.as_u64().map(SubscriptionId::Number),
            _ => None,
        }
    }
}
impl From<SubscriptionId> for Value {
    fn from(s: SubscriptionId) -> Value {
        match s {
            SubscriptionId::Number(n) => Value::from(n),
            SubscriptionId::String(s) => Value::String(s),
        }
    }
}

/// Notifications sent to one client: method and parameters.
pub type Outbox = Arc<Mutex<Vec<(String, Params)>>>;

#[derive(Debug, Clone)]
pub struct Sink {
    method: String,
    to: Outbox,
}
#[derive(Debug)]
pub struct TransportError;
impl Sink {
    pub fn notify(&self, p: Params) -> Result<(), TransportError> {
        self.to.lock().map_err(|_| TransportError)?.push((self.method.clone(), p));
        Ok(())
    }
}

pub type Answer = Arc<Mutex<Option<Result<SubscriptionId, Error>>>>;

pub struct Subscriber {
    method: String,
    to: Outbox,
    answer: Answer,
}
impl Subscriber {
    pub fn make(method: &str, to: Outbox) -> (Subscriber, Answer) {
        let answer = Answer::default();
        (Subscriber { method: method.to_string(), to, answer: answer.clone() }, answer)
    }
    pub fn assign_id(self, id: SubscriptionId) -> Result<Sink, ()> {
        *self.answer.lock().unwrap() = Some(Ok(id));
        Ok(Sink { method: self.method, to: self.to })
    }
    pub fn reject(self, e: Error) -> Result<(), ()> {
        *self.answer.lock().unwrap() = Some(Err(e));
        Ok(())
    }
}
