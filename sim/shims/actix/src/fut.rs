//! Futures that run with an actor and its context.
use crate::actor::{Actor, AsyncContext};
use futures_core::Stream;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::task::{Context as Cx, Poll};

pub type LocalBoxActorFuture<A, T> = Pin<Box<dyn ActorFuture<A, Output = T>>>;

pub trait ActorFuture<A: Actor> {
    type Output;
    fn poll(self: Pin<&mut Self>, srv: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Self::Output>;
}
impl<F, A> ActorFuture<A> for Box<F>
where
    F: ActorFuture<A> + Unpin + ?Sized,
    A: Actor,
{
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, srv: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Self::Output> {
        Pin::new(&mut **self).poll(srv, ctx, task)
    }
}
impl<P, A> ActorFuture<A> for Pin<P>
where
    P: Unpin + std::ops::DerefMut,
    <P as std::ops::Deref>::Target: ActorFuture<A>,
    A: Actor,
{
    type Output = <<P as std::ops::Deref>::Target as ActorFuture<A>>::Output;
    fn poll(self: Pin<&mut Self>, srv: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Self::Output> {
        Pin::get_mut(self).as_mut().poll(srv, ctx, task)
    }
}

pub trait ActorStream<A: Actor> {
    type Item;
    fn poll_next(self: Pin<&mut Self>, srv: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Option<Self::Item>>;
}
impl<P, A> ActorStream<A> for Pin<P>
where
    P: Unpin + std::ops::DerefMut,
    <P as std::ops::Deref>::Target: ActorStream<A>,
    A: Actor,
{
    type Item = <<P as std::ops::Deref>::Target as ActorStream<A>>::Item;
    fn poll_next(self: Pin<&mut Self>, srv: &mut A, ctx: &mut A::Context, task: &mut Cx<'_>) -> Poll<Option<Self::Item>> {
        Pin::get_mut(self).as_mut().poll_next(srv, ctx, task)
    }
}

pub struct Map<Fut, F> {
    fut: Pin<Box<Fut>>,
    f: Option<F>,
}
impl<Fut, F> Unpin for Map<Fut, F> {}
impl<A, Fut, F, T> ActorFuture<A> for Map<Fut, F>
where
    A: Actor,
    Fut: ActorFuture<A>,
    F: FnOnce(Fut::Output, &mut A, &mut A::Context) -> T,
{
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut Cx<'_>) -> Poll<T> {
        match self.fut.as_mut().poll(a, c, t) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(v) => {
                let f = self.f.take().expect("polled after completion");
                Poll::Ready(f(v, a, c))
            }
        }
    }
}

pub enum Then<Fut, Next, F> {
    First(Pin<Box<Fut>>, Option<F>),
    Second(Pin<Box<Next>>),
    Done,
}
impl<Fut, Next, F> Unpin for Then<Fut, Next, F> {}
impl<A, Fut, Next, F> ActorFuture<A> for Then<Fut, Next, F>
where
    A: Actor,
    Fut: ActorFuture<A>,
    Next: ActorFuture<A>,
    F: FnOnce(Fut::Output, &mut A, &mut A::Context) -> Next,
{
    type Output = Next::Output;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut Cx<'_>) -> Poll<Self::Output> {
        loop {
            match &mut *self {
                Then::First(fut, f) => match fut.as_mut().poll(a, c, t) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(v) => {
                        let f = f.take().expect("polled after completion");
                        let n = f(v, a, c);
                        *self = Then::Second(Box::pin(n));
                    }
                },
                Then::Second(n) => match n.as_mut().poll(a, c, t) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(v) => {
                        *self = Then::Done;
                        return Poll::Ready(v);
                    }
                },
                Then::Done => panic!("polled after completion"),
            }
        }
    }
}

pub trait ActorFutureExt<A: Actor>: ActorFuture<A> {
    fn map<F, U>(self, f: F) -> Map<Self, F>
    where
        F: FnOnce(Self::Output, &mut A, &mut A::Context) -> U,
        Self: Sized,
    {
        Map { fut: Box::pin(self), f: Some(f) }
    }
    /// The output, or `Err(())` when it takes longer.
    fn timeout(self, d: std::time::Duration) -> Timeout<Self>
    where
        Self: Sized,
    {
        Timeout { fut: Box::pin(self), timer: simrt::sleep(d) }
    }
    fn then<F, Fut>(self, f: F) -> Then<Self, Fut, F>
    where
        F: FnOnce(Self::Output, &mut A, &mut A::Context) -> Fut,
        Fut: ActorFuture<A>,
        Self: Sized,
    {
        Then::First(Box::pin(self), Some(f))
    }
    fn boxed_local(self) -> LocalBoxActorFuture<A, Self::Output>
    where
        Self: Sized + 'static,
    {
        Box::pin(self)
    }
}
impl<F, A> ActorFutureExt<A> for F
where
    F: ActorFuture<A> + ?Sized,
    A: Actor,
{
}

pub struct AndThen<Fut, Next, F> {
    st: Then<Fut, Next, F>,
}
impl<Fut, Next, F> Unpin for AndThen<Fut, Next, F> {}
impl<A, Fut, Next, F, T, U, E> ActorFuture<A> for AndThen<Fut, Next, F>
where
    A: Actor,
    Fut: ActorFuture<A, Output = Result<T, E>>,
    Next: ActorFuture<A, Output = Result<U, E>>,
    F: FnOnce(T, &mut A, &mut A::Context) -> Next,
{
    type Output = Result<U, E>;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut Cx<'_>) -> Poll<Self::Output> {
        loop {
            match &mut self.st {
                Then::First(fut, f) => match fut.as_mut().poll(a, c, t) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => {
                        self.st = Then::Done;
                        return Poll::Ready(Err(e));
                    }
                    Poll::Ready(Ok(v)) => {
                        let f = f.take().expect("polled after completion");
                        let n = f(v, a, c);
                        self.st = Then::Second(Box::pin(n));
                    }
                },
                Then::Second(n) => match n.as_mut().poll(a, c, t) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(v) => {
                        self.st = Then::Done;
                        return Poll::Ready(v);
                    }
                },
                Then::Done => panic!("polled after completion"),
            }
        }
    }
}

pub struct Timeout<Fut> {
    fut: Pin<Box<Fut>>,
    timer: simrt::Until,
}
impl<Fut> Unpin for Timeout<Fut> {}
impl<A: Actor, Fut: ActorFuture<A>> ActorFuture<A> for Timeout<Fut> {
    type Output = Result<Fut::Output, ()>;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut Cx<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.fut.as_mut().poll(a, c, t) {
            return Poll::Ready(Ok(v));
        }
        Pin::new(&mut self.timer).poll(t).map(Err)
    }
}
/// Calls a function of the actor after a while.
pub struct TimerFunc<A: Actor> {
    f: Option<Box<dyn FnOnce(&mut A, &mut A::Context)>>,
    timer: simrt::Until,
}
impl<A: Actor> Unpin for TimerFunc<A> {}
impl<A: Actor> TimerFunc<A> {
    pub fn new<F>(d: std::time::Duration, f: F) -> TimerFunc<A>
    where
        F: FnOnce(&mut A, &mut A::Context) + 'static,
    {
        TimerFunc { f: Some(Box::new(f)), timer: simrt::sleep(d) }
    }
}
impl<A: Actor> ActorFuture<A> for TimerFunc<A> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut Cx<'_>) -> Poll<()> {
        std::task::ready!(Pin::new(&mut self.timer).poll(t));
        self.f.take().expect("polled after completion")(a, c);
        Poll::Ready(())
    }
}
pub struct MapOk<Fut, F>(Pin<Box<Fut>>, Option<F>);
impl<Fut, F> Unpin for MapOk<Fut, F> {}
impl<A, Fut, F, T, U, E> ActorFuture<A> for MapOk<Fut, F>
where
    A: Actor,
    Fut: ActorFuture<A, Output = Result<T, E>>,
    F: FnOnce(T, &mut A, &mut A::Context) -> U,
{
    type Output = Result<U, E>;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut Cx<'_>) -> Poll<Self::Output> {
        match self.0.as_mut().poll(a, c, t) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(v)) => {
                let f = self.1.take().expect("polled after completion");
                Poll::Ready(Ok(f(v, a, c)))
            }
        }
    }
}
pub struct MapErr<Fut, F>(Pin<Box<Fut>>, Option<F>);
impl<Fut, F> Unpin for MapErr<Fut, F> {}
impl<A, Fut, F, T, E, D> ActorFuture<A> for MapErr<Fut, F>
where
    A: Actor,
    Fut: ActorFuture<A, Output = Result<T, E>>,
    F: FnOnce(E, &mut A, &mut A::Context) -> D,
{
    type Output = Result<T, D>;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut Cx<'_>) -> Poll<Self::Output> {
        match self.0.as_mut().poll(a, c, t) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(v)) => Poll::Ready(Ok(v)),
            Poll::Ready(Err(e)) => {
                let f = self.1.take().expect("polled after completion");
                Poll::Ready(Err(f(e, a, c)))
            }
        }
    }
}

mod private {
    use super::{Actor, ActorFuture};
    pub trait Sealed<A> {}
    impl<A, F, T, E> Sealed<A> for F
    where
        A: Actor,
        F: ?Sized + ActorFuture<A, Output = Result<T, E>>,
    {
    }
}
pub trait ActorTryFuture<A: Actor>: ActorFuture<A> + private::Sealed<A> {
    type Ok;
    type Error;
}
impl<A, F, T, E> ActorTryFuture<A> for F
where
    A: Actor,
    F: ActorFuture<A, Output = Result<T, E>> + ?Sized,
{
    type Ok = T;
    type Error = E;
}

pub trait ActorTryFutureExt<A: Actor>: ActorTryFuture<A> {
    fn and_then<F, Fut>(self, f: F) -> AndThen<Self, Fut, F>
    where
        F: FnOnce(Self::Ok, &mut A, &mut A::Context) -> Fut,
        Fut: ActorTryFuture<A, Error = Self::Error>,
        Self: Sized,
    {
        AndThen { st: Then::First(Box::pin(self), Some(f)) }
    }
    fn map_ok<F, U>(self, f: F) -> MapOk<Self, F>
    where
        F: FnOnce(Self::Ok, &mut A, &mut A::Context) -> U,
        Self: Sized,
    {
        MapOk(Box::pin(self), Some(f))
    }
    fn map_err<F, E>(self, f: F) -> MapErr<Self, F>
    where
        F: FnOnce(Self::Error, &mut A, &mut A::Context) -> E,
        Self: Sized,
    {
        MapErr(Box::pin(self), Some(f))
    }
}
impl<A, F> ActorTryFutureExt<A> for F
where
    A: Actor,
    F: ActorTryFuture<A> + ?Sized,
{
}

pub trait ActorStreamExt<A: Actor>: ActorStream<A> {
    fn map<F, U>(self, f: F) -> StreamMap<Self, F>
    where
        F: FnMut(Self::Item, &mut A, &mut A::Context) -> U,
        Self: Sized,
    {
        StreamMap(Box::pin(self), f)
    }
    fn then<F, Fut>(self, f: F) -> StreamThen<Self, F, Fut>
    where
        F: FnMut(Self::Item, &mut A, &mut A::Context) -> Fut,
        Fut: ActorFuture<A>,
        Self: Sized,
    {
        StreamThen { s: Box::pin(self), f, fut: None }
    }
    fn finish(self) -> Finish<Self>
    where
        Self: Sized,
    {
        Finish(Box::pin(self))
    }
}
impl<A: Actor, S: ActorStream<A>> ActorStreamExt<A> for S {}

pub struct StreamMap<S, F>(Pin<Box<S>>, F);
impl<S, F> Unpin for StreamMap<S, F> {}
impl<A, S, F, U> ActorStream<A> for StreamMap<S, F>
where
    A: Actor,
    S: ActorStream<A>,
    F: FnMut(S::Item, &mut A, &mut A::Context) -> U,
{
    type Item = U;
    fn poll_next(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut Cx<'_>) -> Poll<Option<U>> {
        match self.0.as_mut().poll_next(a, c, t) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Ready(Some(v)) => Poll::Ready(Some((self.1)(v, a, c))),
        }
    }
}
pub struct StreamThen<S, F, Fut> {
    s: Pin<Box<S>>,
    f: F,
    fut: Option<Pin<Box<Fut>>>,
}
impl<S, F, Fut> Unpin for StreamThen<S, F, Fut> {}
impl<A, S, F, Fut> ActorStream<A> for StreamThen<S, F, Fut>
where
    A: Actor,
    S: ActorStream<A>,
    F: FnMut(S::Item, &mut A, &mut A::Context) -> Fut,
    Fut: ActorFuture<A>,
{
    type Item = Fut::Output;
    fn poll_next(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut Cx<'_>) -> Poll<Option<Fut::Output>> {
        loop {
            if let Some(f) = self.fut.as_mut() {
                return match f.as_mut().poll(a, c, t) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(v) => {
                        self.fut = None;
                        Poll::Ready(Some(v))
                    }
                };
            }
            match self.s.as_mut().poll_next(a, c, t) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(None),
                Poll::Ready(Some(v)) => self.fut = Some(Box::pin((self.f)(v, a, c))),
            }
        }
    }
}
pub struct Finish<S>(Pin<Box<S>>);
impl<S> Unpin for Finish<S> {}
impl<A, S> ActorFuture<A> for Finish<S>
where
    A: Actor,
    S: ActorStream<A>,
{
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut Cx<'_>) -> Poll<()> {
        while let Poll::Ready(v) = self.0.as_mut().poll_next(a, c, t) {
            if v.is_none() {
                return Poll::Ready(());
            }
        }
        Poll::Pending
    }
}

pub struct FutureWrap<F, A> {
    fut: Pin<Box<F>>,
    _a: PhantomData<fn(A)>,
}
impl<F, A> Unpin for FutureWrap<F, A> {}
impl<F: Future, A: Actor> ActorFuture<A> for FutureWrap<F, A> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, _: &mut A, _: &mut A::Context, t: &mut Cx<'_>) -> Poll<F::Output> {
        self.fut.as_mut().poll(t)
    }
}
pub fn wrap_future<F: Future, A: Actor>(f: F) -> FutureWrap<F, A> {
    FutureWrap { fut: Box::pin(f), _a: PhantomData }
}

pub struct StreamWrap<S, A> {
    stream: Pin<Box<S>>,
    _a: PhantomData<fn(A)>,
}
impl<S, A> Unpin for StreamWrap<S, A> {}
impl<S: Stream, A: Actor> ActorStream<A> for StreamWrap<S, A> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut A, _: &mut A::Context, t: &mut Cx<'_>) -> Poll<Option<S::Item>> {
        self.stream.as_mut().poll_next(t)
    }
}
pub fn wrap_stream<S: Stream, A: Actor>(s: S) -> StreamWrap<S, A> {
    StreamWrap { stream: Box::pin(s), _a: PhantomData }
}

pub trait WrapFuture<A: Actor> {
    type Future: ActorFuture<A>;
    fn into_actor(self, a: &A) -> Self::Future;
    fn actfuture(self) -> Self::Future;
}
impl<F: Future, A: Actor> WrapFuture<A> for F {
    type Future = FutureWrap<F, A>;
    fn into_actor(self, _: &A) -> Self::Future {
        wrap_future(self)
    }
    fn actfuture(self) -> Self::Future {
        wrap_future(self)
    }
}
pub trait WrapStream<A: Actor> {
    type Stream: ActorStream<A>;
    fn into_actor(self, a: &A) -> Self::Stream;
    fn actstream(self) -> Self::Stream;
}
impl<S: Stream, A: Actor> WrapStream<A> for S {
    type Stream = StreamWrap<S, A>;
    fn into_actor(self, _: &A) -> Self::Stream {
        wrap_stream(self)
    }
    fn actstream(self) -> Self::Stream {
        wrap_stream(self)
    }
}

pub trait ContextFutureSpawner<A>
where
    A: Actor,
    A::Context: AsyncContext<A>,
{
    fn spawn(self, ctx: &mut A::Context);
    fn wait(self, ctx: &mut A::Context);
}
impl<A, T> ContextFutureSpawner<A> for T
where
    A: Actor,
    A::Context: AsyncContext<A>,
    T: ActorFuture<A, Output = ()> + 'static,
{
    fn spawn(self, ctx: &mut A::Context) {
        ctx.spawn(self);
    }
    fn wait(self, ctx: &mut A::Context) {
        ctx.wait(self);
    }
}

pub use futures_util::future::{Either, Ready, err, ok, ready};
pub fn result<T, E>(r: Result<T, E>) -> Ready<Result<T, E>> {
    ready(r)
}
impl<A: Actor, T> ActorFuture<A> for Ready<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, _: &mut A, _: &mut A::Context, t: &mut Cx<'_>) -> Poll<T> {
        Future::poll(self, t)
    }
}
impl<A, L, R> ActorFuture<A> for Either<L, R>
where
    A: Actor,
    L: ActorFuture<A>,
    R: ActorFuture<A, Output = L::Output>,
{
    type Output = L::Output;
    fn poll(self: Pin<&mut Self>, a: &mut A, c: &mut A::Context, t: &mut Cx<'_>) -> Poll<L::Output> {
        match self.as_pin_mut() {
            Either::Left(l) => l.poll(a, c, t),
            Either::Right(r) => r.poll(a, c, t),
        }
    }
}
