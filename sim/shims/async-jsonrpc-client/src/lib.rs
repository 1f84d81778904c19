//! JSON-RPC connections to nodes that the harness plays.

use futures_core::Stream;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

use serde_json::Value;

#[derive(Debug, Clone)]
pub enum ErrorKind {
    Unreachable,
    Decoder(String),
    InvalidResponse(String),
    Transport(String),
    Rpc(jsonrpc_core::Error),
    Internal,
}
impl std::fmt::Display for ErrorKind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            ErrorKind::Unreachable => write!(f, "Server is unreachable"),
            ErrorKind::Decoder(e) => write!(f, "Cannot decode contract output, {e}"),
            ErrorKind::InvalidResponse(e) => write!(f, "Server returned invalid response: {e}"),
            ErrorKind::Transport(e) => write!(f, "Transport error: {e}"),
            ErrorKind::Rpc(e) => write!(f, "RPC error: {e:?}"),
            ErrorKind::Internal => write!(f, "Internal error"),
        }
    }
}
#[derive(Debug, Clone)]
pub struct Error(pub ErrorKind, ());
impl Error {
    pub fn kind(k: ErrorKind) -> Error {
        Error(k, ())
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::error::Error for Error {}

pub type Answer = Pin<Box<dyn Future<Output = Result<Value, Error>>>>;
/// What the other side answers to a call on a connection.
pub type Server = Rc<dyn Fn(Arc<Conn>, String, Value) -> Answer>;

thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
    static NEXT: RefCell<u64> = const { RefCell::new(0) };
}
pub fn set_server(s: Option<Server>) {
    let old = SERVER.with(|x| std::mem::replace(&mut *x.borrow_mut(), s));
    drop(old);
    NEXT.with(|n| *n.borrow_mut() = 0);
}

#[derive(Default)]
struct Queue {
    items: VecDeque<Value>,
    waker: Option<Waker>,
    ended: bool,
}
struct State {
    broken: bool,
    subs: BTreeMap<String, Arc<Q>>,
    waiting: Vec<Waker>,
}
struct Q(RefCell<Queue>);
// SAFETY: a simulated machine room lives in one thread.
unsafe impl Send for Q {}
unsafe impl Sync for Q {}

pub struct Conn {
    pub id: u64,
    pub url: String,
    st: RefCell<State>,
}
// SAFETY: as above.
unsafe impl Send for Conn {}
unsafe impl Sync for Conn {}
impl Conn {
    /// The connection is lost: what was asked fails and the notifications end.
    pub fn break_off(&self) {
        let (subs, waiting) = {
            let mut s = self.st.borrow_mut();
            s.broken = true;
            (std::mem::take(&mut s.subs), std::mem::take(&mut s.waiting))
        };
        for q in subs.into_values() {
            let w = {
                let mut q = q.0.borrow_mut();
                q.ended = true;
                q.waker.take()
            };
            if let Some(w) = w {
                w.wake()
            }
        }
        waiting.into_iter().for_each(Waker::wake);
    }
    pub fn broken(&self) -> bool {
        self.st.borrow().broken
    }
    /// A notification for a subscription; lost when the client does not listen.
    pub fn notify(&self, id: &str, v: Value) -> bool {
        let q = self.st.borrow().subs.get(id).cloned();
        let Some(q) = q else { return false };
        let w = {
            let mut q = q.0.borrow_mut();
            q.items.push_back(v);
            q.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
        true
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct SubscriptionId(String);
impl From<String> for SubscriptionId {
    fn from(s: String) -> Self {
        SubscriptionId(s)
    }
}

pub struct Call {
    conn: Arc<Conn>,
    f: Option<Answer>,
}
// SAFETY: as above.
unsafe impl Send for Call {}
impl Future for Call {
    type Output = Result<Value, Error>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let gone = || Poll::Ready(Err(Error::kind(ErrorKind::Unreachable)));
        if self.conn.broken() {
            return gone();
        }
        let Some(f) = self.f.as_mut() else { return gone() };
        let r = f.as_mut().poll(cx);
        if r.is_pending() {
            self.conn.st.borrow_mut().waiting.push(cx.waker().clone());
        }
        r
    }
}

pub struct NotificationStream(Arc<Q>);
impl Stream for NotificationStream {
    type Item = Result<Value, Error>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut q = self.0.0.borrow_mut();
        match q.items.pop_front() {
            Some(v) => Poll::Ready(Some(Ok(v))),
            None if q.ended => Poll::Ready(None),
            None => {
                q.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

pub trait Transport {
    fn execute(&self, method: &str, params: Value) -> Call;
}
pub trait DuplexTransport: Transport {
    fn subscribe(&self, id: &SubscriptionId) -> NotificationStream;
    fn unsubscribe(&self, id: &SubscriptionId);
}

pub mod transports {
    pub mod shared {
        use super::super::*;
        /// The connection lives as long as this.
        pub struct EventLoopHandle(pub(crate) Arc<Conn>);
        impl Drop for EventLoopHandle {
            fn drop(&mut self) {
                self.0.break_off()
            }
        }
    }
    pub mod tcp {
        use super::super::*;
        use super::shared::EventLoopHandle;

        #[derive(Clone)]
        pub struct TcpSocket(Arc<Conn>);
        impl TcpSocket {
            pub fn new(url: &str) -> Result<(EventLoopHandle, TcpSocket), Error> {
                let id = NEXT.with(|n| {
                    let mut n = n.borrow_mut();
                    *n += 1;
                    *n
                });
                let c = Arc::new(Conn {
                    id,
                    url: url.to_string(),
                    st: RefCell::new(State { broken: false, subs: BTreeMap::new(), waiting: vec![] }),
                });
                Ok((EventLoopHandle(c.clone()), TcpSocket(c)))
            }
        }
        impl Transport for TcpSocket {
            fn execute(&self, method: &str, params: Value) -> Call {
                let s = SERVER.with(|x| x.borrow().clone());
                let f = match s {
                    Some(s) if !self.0.broken() => Some(s(self.0.clone(), method.to_string(), params)),
                    _ => None,
                };
                Call { conn: self.0.clone(), f }
            }
        }
        impl DuplexTransport for TcpSocket {
            fn subscribe(&self, id: &SubscriptionId) -> NotificationStream {
                let q = Arc::new(Q(RefCell::new(Queue::default())));
                let mut s = self.0.st.borrow_mut();
                if s.broken {
                    q.0.borrow_mut().ended = true;
                } else {
                    s.subs.insert(id.0.clone(), q.clone());
                }
                NotificationStream(q)
            }
            fn unsubscribe(&self, id: &SubscriptionId) {
                self.0.st.borrow_mut().subs.remove(&id.0);
            }
        }
    }
}
