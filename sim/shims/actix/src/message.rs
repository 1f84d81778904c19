use crate::actor::{Actor, AsyncContext};
use crate::fut::{ActorFuture, ActorFutureExt};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

pub trait Message {
    type Result: 'static;
}
impl<M: Message> Message for Arc<M> {
    type Result = M::Result;
}
impl<M: Message> Message for Box<M> {
    type Result = M::Result;
}

pub type OneshotSender<T> = simrt::oneshot::Sender<T>;

pub trait Handler<M>
where
    Self: Actor,
    M: Message,
{
    type Result: MessageResponse<Self, M>;
    fn handle(&mut self, msg: M, ctx: &mut Self::Context) -> Self::Result;
}

pub trait MessageResponse<A: Actor, M: Message> {
    fn handle(self, ctx: &mut A::Context, tx: Option<OneshotSender<M::Result>>);
}

fn reply<T>(tx: Option<OneshotSender<T>>, v: T) {
    if let Some(tx) = tx {
        let _ = tx.send(v);
    }
}

pub struct MessageResult<M: Message>(pub M::Result);

pub type ResponseFuture<T> = Pin<Box<dyn Future<Output = T>>>;
pub type ResponseActFuture<A, T> = Pin<Box<dyn ActorFuture<A, Output = T>>>;

impl<A: Actor, M: Message> MessageResponse<A, M> for MessageResult<M> {
    fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<M::Result>>) {
        reply(tx, self.0)
    }
}
impl<A, M, I, E> MessageResponse<A, M> for Result<I, E>
where
    A: Actor,
    M: Message<Result = Result<I, E>>,
    I: 'static,
    E: 'static,
{
    fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<Result<I, E>>>) {
        reply(tx, self)
    }
}
macro_rules! generic {
    ($($t:ident),*) => {$(
        impl<A, M, I> MessageResponse<A, M> for $t<I>
        where
            A: Actor,
            M: Message<Result = $t<I>>,
            I: 'static,
        {
            fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<$t<I>>>) {
                reply(tx, self)
            }
        }
    )*};
}
generic!(Option, Vec, Arc);
macro_rules! plain {
    ($($t:ty),*) => {$(
        impl<A: Actor, M: Message<Result = $t>> MessageResponse<A, M> for $t {
            fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<$t>>) {
                reply(tx, self)
            }
        }
    )*};
}
plain!((), bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, char, String);

impl<A, M, T: 'static> MessageResponse<A, M> for ResponseActFuture<A, T>
where
    A: Actor,
    M: Message<Result = T>,
    A::Context: AsyncContext<A>,
{
    fn handle(self, ctx: &mut A::Context, tx: Option<OneshotSender<T>>) {
        ctx.spawn(self.map(move |v, _, _| reply(tx, v)));
    }
}
impl<A, M, T: 'static> MessageResponse<A, M> for ResponseFuture<T>
where
    A: Actor,
    M: Message<Result = T>,
{
    fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<T>>) {
        simrt::spawn(async move {
            let v = self.await;
            reply(tx, v);
        });
    }
}

/// Either a value or a future.
pub enum Response<T> {
    Reply(T),
    Fut(ResponseFuture<T>),
}
impl<T> Response<T> {
    pub fn reply(v: T) -> Self {
        Response::Reply(v)
    }
    pub fn fut(f: impl Future<Output = T> + 'static) -> Self {
        Response::Fut(Box::pin(f))
    }
}
impl<A, M, T: 'static> MessageResponse<A, M> for Response<T>
where
    A: Actor,
    M: Message<Result = T>,
{
    fn handle(self, ctx: &mut A::Context, tx: Option<OneshotSender<T>>) {
        match self {
            Response::Reply(v) => reply(tx, v),
            Response::Fut(f) => <ResponseFuture<T> as MessageResponse<A, M>>::handle(f, ctx, tx),
        }
    }
}
