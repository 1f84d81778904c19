//! The actor framework over the simulated machine room: the part of actix 0.13 that the node uses, with the
//! same order of events inside one actor (wait futures, then the mailbox, then spawned futures) and every
//! actor of a simulated node in one thread. Worker threads (`SyncArbiter`) answer after a simulated delay.

mod actor;
mod address;
mod context;
pub mod fut;
pub mod io;
mod message;
mod stream;
mod sync;
mod system;

pub use actor::{Actor, ActorContext, ActorState, AsyncContext, Running, SpawnHandle, Supervised};
pub use address::{Addr, MailboxError, Recipient, RecipientRequest, Request, SendError, WeakAddr};
pub use context::Context;
pub use fut::{
    ActorFuture, ActorFutureExt, ActorStream, ActorStreamExt, ActorTryFutureExt, ContextFutureSpawner, LocalBoxActorFuture, WrapFuture,
    WrapStream,
};
pub use message::{Handler, Message, MessageResponse, MessageResult, Response, ResponseActFuture, ResponseFuture};
pub use stream::StreamHandler;
pub use sync::{SyncArbiter, SyncContext, set_worker_delay, set_worker_threads};
pub use system::{Arbiter, Registry, System, SystemRegistry, SystemRunner, SystemService, spawn};

pub type ArbiterHandle = Arbiter;

pub mod utils {
    pub use crate::fut::TimerFunc;
}
pub mod clock {
    pub use tokio::time::{Duration, Instant, Sleep, sleep};
}
pub mod dev {
    pub use crate::message::{MessageResponse, OneshotSender};
    pub trait ToEnvelope<A, M> {}
    impl<A, M, C> ToEnvelope<A, M> for C {}
}
pub mod prelude {
    pub use crate::fut::{
        ActorFuture, ActorFutureExt, ActorStream, ActorStreamExt, ActorTryFutureExt, ContextFutureSpawner, WrapFuture, WrapStream,
    };
    pub use crate::{
        Actor, ActorContext, ActorState, Addr, Arbiter, ArbiterHandle, AsyncContext, Context, Handler, MailboxError, Message,
        MessageResult, Recipient, Request, Response, ResponseActFuture, ResponseFuture, Running, SendError, SpawnHandle,
        StreamHandler, Supervised, SyncArbiter, SyncContext, System, SystemRegistry, SystemRunner, SystemService, WeakAddr,
    };
    pub use crate::{clock, fut, io};
}
