//! Writing frames to a simulated stream.
use crate::actor::{Actor, ActorContext, AsyncContext, Running};
use crate::fut::ActorFuture;
use bytes::BytesMut;
use std::cell::RefCell;
use std::io;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context as Cx, Poll, Waker};
use tokio::net::tcp::OwnedWriteHalf;
use tokio_util::codec::Encoder;

pub trait WriteHandler<E>
where
    Self: Actor,
    Self::Context: ActorContext,
{
    fn error(&mut self, _err: E, _ctx: &mut Self::Context) -> Running {
        Running::Stop
    }
    fn finished(&mut self, ctx: &mut Self::Context) {
        ctx.stop()
    }
}

struct St<T> {
    io: T,
    err: Option<io::Error>,
    closed: bool,
    waker: Option<Waker>,
}

pub struct FramedWrite<I, T, U: Encoder<I>> {
    st: Rc<RefCell<St<T>>>,
    enc: U,
    _i: PhantomData<fn(I)>,
}

impl<I, U> FramedWrite<I, OwnedWriteHalf, U>
where
    U: Encoder<I>,
    U::Error: From<io::Error>,
{
    pub fn new<A, C>(io: OwnedWriteHalf, enc: U, ctx: &mut C) -> Self
    where
        A: Actor<Context = C> + WriteHandler<U::Error>,
        C: AsyncContext<A>,
        U::Error: 'static,
    {
        let st = Rc::new(RefCell::new(St { io, err: None, closed: false, waker: None }));
        ctx.spawn(Watch::<A, U::Error> { st: st.clone(), _a: PhantomData });
        FramedWrite { st, enc, _i: PhantomData }
    }
    pub fn write(&mut self, item: I) {
        let mut buf = BytesMut::new();
        let r = match self.enc.encode(item, &mut buf) {
            Ok(()) => self.st.borrow_mut().io.write_now(&buf).map_err(U::Error::from),
            Err(e) => Err(e),
        };
        if r.is_err() {
            let mut st = self.st.borrow_mut();
            st.err = Some(io::ErrorKind::BrokenPipe.into());
            if let Some(w) = st.waker.take() {
                w.wake();
            }
        }
    }
    pub fn close(&mut self) {
        let mut st = self.st.borrow_mut();
        st.closed = true;
        if let Some(w) = st.waker.take() {
            w.wake();
        }
    }
    pub fn closed(&self) -> bool {
        self.st.borrow().closed
    }
}

struct Watch<A, E> {
    st: Rc<RefCell<St<OwnedWriteHalf>>>,
    _a: PhantomData<fn(A, E)>,
}
impl<A, E> Unpin for Watch<A, E> {}
impl<A, E> ActorFuture<A> for Watch<A, E>
where
    A: Actor + WriteHandler<E>,
    A::Context: AsyncContext<A>,
    E: From<io::Error>,
{
    type Output = ();
    fn poll(self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<()> {
        let e = {
            let mut st = self.st.borrow_mut();
            if st.err.is_none() && st.io.broken() {
                st.err = Some(io::ErrorKind::ConnectionReset.into());
            }
            if st.err.is_none() && !st.closed {
                st.waker = Some(cx.waker().clone());
                st.io.watch(cx);
                return Poll::Pending;
            }
            st.err.take()
        };
        match e {
            Some(e) => {
                if act.error(E::from(e), ctx) == Running::Stop {
                    act.finished(ctx);
                }
            }
            None => act.finished(ctx),
        }
        Poll::Ready(())
    }
}
