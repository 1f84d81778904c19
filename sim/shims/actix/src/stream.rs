use crate::actor::{Actor, ActorContext, AsyncContext, SpawnHandle};
use crate::fut::ActorFuture;
use futures_core::Stream;
use std::pin::Pin;
use std::task::{Context as Cx, Poll};

pub trait StreamHandler<I>
where
    Self: Actor,
{
    fn handle(&mut self, item: I, ctx: &mut Self::Context);
    fn started(&mut self, _ctx: &mut Self::Context) {}
    fn finished(&mut self, ctx: &mut Self::Context) {
        ctx.stop()
    }
    fn add_stream<S>(fut: S, ctx: &mut Self::Context) -> SpawnHandle
    where
        S: Stream<Item = I> + 'static,
        Self::Context: AsyncContext<Self>,
        I: 'static,
    {
        if ctx.state() == crate::ActorState::Stopped {
            return SpawnHandle::default();
        }
        ctx.spawn(Feed { stream: Box::pin(fut), started: false })
    }
}

struct Feed<S> {
    stream: Pin<Box<S>>,
    started: bool,
}
impl<A, S> ActorFuture<A> for Feed<S>
where
    S: Stream,
    A: StreamHandler<S::Item>,
    A::Context: AsyncContext<A>,
{
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<()> {
        if !self.started {
            self.started = true;
            <A as StreamHandler<S::Item>>::started(act, ctx);
        }
        let mut n = 0;
        while let Poll::Ready(item) = self.stream.as_mut().poll_next(cx) {
            match item {
                Some(m) => {
                    <A as StreamHandler<S::Item>>::handle(act, m, ctx);
                    if ctx.waiting() {
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                    n += 1;
                    if n == 16 {
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                }
                None => {
                    <A as StreamHandler<S::Item>>::finished(act, ctx);
                    return Poll::Ready(());
                }
            }
        }
        Poll::Pending
    }
}
