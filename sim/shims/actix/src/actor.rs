use crate::fut::{self, ActorFuture, ActorStream};
use crate::message::{Handler, Message};
use crate::stream::StreamHandler;
use crate::{Addr, Context};
use futures_core::Stream;
use std::time::Duration;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Running {
    Stop,
    Continue,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ActorState {
    Started,
    Running,
    Stopping,
    Stopped,
}
impl ActorState {
    pub fn alive(self) -> bool {
        matches!(self, ActorState::Started | ActorState::Running)
    }
    pub fn stopping(self) -> bool {
        matches!(self, ActorState::Stopping | ActorState::Stopped)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct SpawnHandle(pub(crate) usize);

pub trait Actor: Sized + Unpin + 'static {
    type Context: ActorContext;

    fn started(&mut self, _ctx: &mut Self::Context) {}
    fn stopping(&mut self, _ctx: &mut Self::Context) -> Running {
        Running::Stop
    }
    fn stopped(&mut self, _ctx: &mut Self::Context) {}

    fn start(self) -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>>,
    {
        Context::new().run(self)
    }
    fn start_default() -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>> + Default,
    {
        Self::default().start()
    }
    fn create<F>(f: F) -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>>,
        F: FnOnce(&mut Context<Self>) -> Self,
    {
        let mut ctx = Context::new();
        let act = f(&mut ctx);
        ctx.run(act)
    }
}

pub trait Supervised: Actor {
    fn restarting(&mut self, _ctx: &mut Self::Context) {}
}

pub trait ActorContext: Sized {
    fn stop(&mut self);
    fn terminate(&mut self);
    fn state(&self) -> ActorState;
}

pub trait AsyncContext<A>: ActorContext
where
    A: Actor<Context = Self>,
{
    fn address(&self) -> Addr<A>;
    fn spawn<F>(&mut self, fut: F) -> SpawnHandle
    where
        F: ActorFuture<A, Output = ()> + 'static;
    fn wait<F>(&mut self, fut: F)
    where
        F: ActorFuture<A, Output = ()> + 'static;
    fn waiting(&self) -> bool;
    fn cancel_future(&mut self, handle: SpawnHandle) -> bool;

    fn add_stream<S>(&mut self, s: S) -> SpawnHandle
    where
        S: Stream + 'static,
        A: StreamHandler<S::Item>,
    {
        <A as StreamHandler<S::Item>>::add_stream(s, self)
    }
    fn add_message_stream<S>(&mut self, s: S)
    where
        S: Stream + 'static,
        S::Item: Message,
        A: Handler<S::Item>,
    {
        let s = fut::wrap_stream::<_, A>(s);
        self.spawn(MessageStream(Box::pin(s)));
    }
    fn notify<M>(&mut self, msg: M)
    where
        A: Handler<M>,
        M: Message + 'static,
    {
        if self.state() != ActorState::Stopped {
            self.spawn(Notify { msg: Some(msg) });
        }
    }
    fn notify_later<M>(&mut self, msg: M, after: Duration) -> SpawnHandle
    where
        A: Handler<M>,
        M: Message + 'static,
    {
        if self.state() == ActorState::Stopped {
            return SpawnHandle::default();
        }
        self.run_later(after, move |act, ctx| {
            deliver(act, ctx, msg);
        })
    }
    fn run_later<F>(&mut self, dur: Duration, f: F) -> SpawnHandle
    where
        F: FnOnce(&mut A, &mut A::Context) + 'static,
    {
        self.spawn(Later { at: simrt::sleep(dur), f: Some(f) })
    }
    fn run_interval<F>(&mut self, dur: Duration, f: F) -> SpawnHandle
    where
        F: FnMut(&mut A, &mut A::Context) + 'static,
    {
        self.spawn(Interval { dur, at: simrt::sleep(dur), f })
    }
}

use std::pin::Pin;
use std::task::{Context as Cx, Poll};

fn deliver<A: Handler<M>, M: Message>(act: &mut A, ctx: &mut A::Context, msg: M) {
    use crate::message::MessageResponse;
    let r = <A as Handler<M>>::handle(act, msg, ctx);
    r.handle(ctx, None);
}

struct Notify<M> {
    msg: Option<M>,
}
impl<M> Unpin for Notify<M> {}
impl<A: Handler<M>, M: Message> ActorFuture<A> for Notify<M> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, _: &mut Cx<'_>) -> Poll<()> {
        let msg = self.msg.take().expect("polled after completion");
        deliver(act, ctx, msg);
        Poll::Ready(())
    }
}

struct Later<F> {
    at: simrt::Until,
    f: Option<F>,
}
impl<F> Unpin for Later<F> {}
impl<A: Actor, F: FnOnce(&mut A, &mut A::Context)> ActorFuture<A> for Later<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<()> {
        use std::future::Future;
        match Pin::new(&mut self.at).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let f = self.f.take().expect("polled after completion");
                f(act, ctx);
                Poll::Ready(())
            }
        }
    }
}

struct Interval<F> {
    dur: Duration,
    at: simrt::Until,
    f: F,
}
impl<F> Unpin for Interval<F> {}
impl<A: Actor, F: FnMut(&mut A, &mut A::Context)> ActorFuture<A> for Interval<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<()> {
        use std::future::Future;
        loop {
            match Pin::new(&mut self.at).poll(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(()) => {
                    self.at = simrt::sleep(self.dur);
                    let this = &mut *self;
                    (this.f)(act, ctx);
                }
            }
        }
    }
}

struct MessageStream<S>(Pin<Box<S>>);
impl<A, S> ActorFuture<A> for MessageStream<S>
where
    S: ActorStream<A>,
    A: Handler<S::Item>,
    A::Context: AsyncContext<A>,
    S::Item: Message,
{
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<()> {
        let mut n = 0;
        while let Poll::Ready(item) = self.0.as_mut().poll_next(act, ctx, cx) {
            match item {
                Some(msg) => deliver(act, ctx, msg),
                None => return Poll::Ready(()),
            }
            n += 1;
            if n == 16 || ctx.waiting() {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        Poll::Pending
    }
}
