use crate::actor::{Actor, ActorContext};
use crate::message::{Handler, Message, MessageResponse, OneshotSender};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Weak};
use std::task::{Context as Cx, Poll, Waker};

pub(crate) type Envelope<A> = Box<dyn FnOnce(&mut A, &mut <A as Actor>::Context)>;

pub(crate) struct Queue<A: Actor> {
    pub(crate) msgs: VecDeque<Envelope<A>>,
    /// Who waits for a message: an actor, or workers that share the queue.
    pub(crate) wakers: Vec<Waker>,
    pub(crate) closed: bool,
}

pub(crate) struct Mailbox<A: Actor>(pub(crate) RefCell<Queue<A>>);
// SAFETY: a simulated machine room lives in one thread.
unsafe impl<A: Actor> Send for Mailbox<A> {}
unsafe impl<A: Actor> Sync for Mailbox<A> {}

impl<A: Actor> Mailbox<A> {
    pub(crate) fn new() -> Arc<Mailbox<A>> {
        Arc::new(Mailbox(RefCell::new(Queue { msgs: VecDeque::new(), wakers: vec![], closed: false })))
    }
    fn push(&self, e: Envelope<A>) -> bool {
        if simrt::dying() {
            return false;
        }
        let w = {
            let mut q = self.0.borrow_mut();
            if q.closed {
                return false;
            }
            q.msgs.push_back(e);
            std::mem::take(&mut q.wakers)
        };
        for w in w {
            w.wake();
        }
        true
    }
    pub(crate) fn close(&self) {
        let msgs = {
            let mut q = self.0.borrow_mut();
            q.closed = true;
            q.wakers.clear();
            std::mem::take(&mut q.msgs)
        };
        drop(msgs);
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum MailboxError {
    Closed,
    Timeout,
}
impl fmt::Display for MailboxError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            MailboxError::Closed => "Mailbox has closed",
            MailboxError::Timeout => "Message delivery timed out",
        })
    }
}
impl fmt::Debug for MailboxError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "MailboxError({self})")
    }
}
impl std::error::Error for MailboxError {}

pub enum SendError<T> {
    Full(T),
    Closed(T),
}
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            SendError::Full(_) => "SendError::Full(..)",
            SendError::Closed(_) => "SendError::Closed(..)",
        })
    }
}
impl<T> fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            SendError::Full(_) => "send failed because receiver is full",
            SendError::Closed(_) => "send failed because receiver is gone",
        })
    }
}
impl<T> std::error::Error for SendError<T> {}

fn envelope<A, M>(msg: M, tx: Option<OneshotSender<M::Result>>) -> Envelope<A>
where
    A: Handler<M>,
    M: Message + 'static,
{
    Box::new(move |act, ctx| {
        // As in the original: a request whose sender lost interest is not handled.
        if tx.as_ref().is_some_and(|t| t.is_closed()) {
            return;
        }
        let r = <A as Handler<M>>::handle(act, msg, ctx);
        r.handle(ctx, tx);
    })
}

/// Counts the addresses: an actor without any ends once it has nothing left to do.
struct Counted<A: Actor>(Arc<Mailbox<A>>);
impl<A: Actor> Drop for Counted<A> {
    fn drop(&mut self) {
        let w = self.0.0.try_borrow_mut().map(|mut q| std::mem::take(&mut q.wakers)).unwrap_or_default();
        for w in w {
            w.wake();
        }
    }
}

pub struct Addr<A: Actor>(Arc<Counted<A>>);
pub struct WeakAddr<A: Actor>(Weak<Counted<A>>);

pub(crate) struct Origin<A: Actor> {
    pub(crate) mailbox: Arc<Mailbox<A>>,
    addrs: RefCell<Weak<Counted<A>>>,
}
impl<A: Actor> Origin<A> {
    pub(crate) fn new() -> Self {
        Origin { mailbox: Mailbox::new(), addrs: RefCell::new(Weak::new()) }
    }
    pub(crate) fn address(&self) -> Addr<A> {
        if let Some(a) = self.addrs.borrow().upgrade() {
            return Addr(a);
        }
        let a = Arc::new(Counted(self.mailbox.clone()));
        *self.addrs.borrow_mut() = Arc::downgrade(&a);
        Addr(a)
    }
    pub(crate) fn connected(&self) -> bool {
        self.addrs.borrow().strong_count() > 0
    }
}

// SAFETY: a simulated machine room lives in one thread.
unsafe impl<A: Actor> Send for Addr<A> {}
unsafe impl<A: Actor> Sync for Addr<A> {}

impl<A: Actor> Clone for Addr<A> {
    fn clone(&self) -> Self {
        Addr(self.0.clone())
    }
}
impl<A: Actor> fmt::Debug for Addr<A> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Addr")
    }
}
impl<A: Actor> PartialEq for Addr<A> {
    fn eq(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.0.0, &o.0.0)
    }
}
impl<A: Actor> Eq for Addr<A> {}
impl<A: Actor> std::hash::Hash for Addr<A> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (Arc::as_ptr(&self.0.0) as *const u8 as usize).hash(h)
    }
}

impl<A: Actor> Addr<A> {
    pub fn connected(&self) -> bool {
        !self.0.0.0.borrow().closed
    }
    pub fn do_send<M>(&self, msg: M)
    where
        M: Message + 'static,
        A: Handler<M>,
    {
        self.0.0.push(envelope(msg, None));
    }
    pub fn try_send<M>(&self, msg: M) -> Result<(), SendError<M>>
    where
        M: Message + 'static,
        A: Handler<M>,
    {
        if !self.connected() {
            return Err(SendError::Closed(msg));
        }
        self.do_send(msg);
        Ok(())
    }
    pub fn send<M>(&self, msg: M) -> Request<A, M>
    where
        M: Message + 'static,
        A: Handler<M>,
    {
        let (tx, rx) = simrt::oneshot::channel();
        let ok = self.0.0.push(envelope(msg, Some(tx)));
        Request { rx: ok.then_some(rx), _a: std::marker::PhantomData }
    }
    pub fn recipient<M>(self) -> Recipient<M>
    where
        A: Handler<M>,
        M: Message + 'static,
    {
        Recipient(Arc::new(self))
    }
    pub fn downgrade(&self) -> WeakAddr<A> {
        WeakAddr(Arc::downgrade(&self.0))
    }
}
impl<A: Actor> WeakAddr<A> {
    pub fn upgrade(&self) -> Option<Addr<A>> {
        self.0.upgrade().map(Addr)
    }
}

#[must_use = "You have to wait on request otherwise the Message wont be delivered"]
pub struct Request<A: Actor, M: Message> {
    rx: Option<simrt::oneshot::Receiver<M::Result>>,
    _a: std::marker::PhantomData<fn(A)>,
}
impl<A: Actor, M: Message> Unpin for Request<A, M> {}
impl<A: Actor, M: Message> Future for Request<A, M> {
    type Output = Result<M::Result, MailboxError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        poll_reply(&mut self.rx, cx)
    }
}
fn poll_reply<T>(rx: &mut Option<simrt::oneshot::Receiver<T>>, cx: &mut Cx<'_>) -> Poll<Result<T, MailboxError>> {
    match rx {
        None => Poll::Ready(Err(MailboxError::Closed)),
        Some(r) => Pin::new(r).poll(cx).map(|v| v.ok_or(MailboxError::Closed)),
    }
}

trait Sender<M: Message> {
    fn do_send(&self, msg: M);
    fn send(&self, msg: M) -> Option<simrt::oneshot::Receiver<M::Result>>;
    fn connected(&self) -> bool;
    fn id(&self) -> usize;
}
impl<A, M> Sender<M> for Addr<A>
where
    A: Handler<M>,
    M: Message + 'static,
{
    fn do_send(&self, msg: M) {
        Addr::do_send(self, msg)
    }
    fn send(&self, msg: M) -> Option<simrt::oneshot::Receiver<M::Result>> {
        Addr::send(self, msg).rx
    }
    fn connected(&self) -> bool {
        Addr::connected(self)
    }
    fn id(&self) -> usize {
        Arc::as_ptr(&self.0.0) as *const u8 as usize
    }
}

pub struct Recipient<M: Message>(Arc<dyn Sender<M>>);
// SAFETY: a simulated machine room lives in one thread.
unsafe impl<M: Message> Send for Recipient<M> {}
unsafe impl<M: Message> Sync for Recipient<M> {}
impl<M: Message> Clone for Recipient<M> {
    fn clone(&self) -> Self {
        Recipient(self.0.clone())
    }
}
impl<M: Message> PartialEq for Recipient<M> {
    fn eq(&self, o: &Self) -> bool {
        self.0.id() == o.0.id()
    }
}
impl<M: Message> Eq for Recipient<M> {}
impl<M: Message> std::hash::Hash for Recipient<M> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.id().hash(h)
    }
}
impl<M: Message> fmt::Debug for Recipient<M> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Recipient")
    }
}
impl<M: Message> Recipient<M> {
    pub fn do_send(&self, msg: M) {
        self.0.do_send(msg)
    }
    pub fn try_send(&self, msg: M) -> Result<(), SendError<M>> {
        if !self.0.connected() {
            return Err(SendError::Closed(msg));
        }
        self.0.do_send(msg);
        Ok(())
    }
    pub fn send(&self, msg: M) -> RecipientRequest<M> {
        RecipientRequest(self.0.send(msg))
    }
    pub fn connected(&self) -> bool {
        self.0.connected()
    }
}
impl<A, M> From<Addr<A>> for Recipient<M>
where
    A: Handler<M>,
    M: Message + 'static,
{
    fn from(a: Addr<A>) -> Self {
        a.recipient()
    }
}
pub struct RecipientRequest<M: Message>(Option<simrt::oneshot::Receiver<M::Result>>);
impl<M: Message> Unpin for RecipientRequest<M> {}
impl<M: Message> Future for RecipientRequest<M> {
    type Output = Result<M::Result, MailboxError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        poll_reply(&mut self.0, cx)
    }
}

#[allow(unused)]
fn _bound<A: Actor>()
where
    A::Context: ActorContext,
{
}
