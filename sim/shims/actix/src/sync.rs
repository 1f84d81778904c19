//! Actors of a worker thread: one message at a time, each after a delay that the scheduler chooses.
use crate::actor::{Actor, ActorContext, ActorState};
use crate::address::{Addr, Mailbox, Origin};
use std::cell::Cell;
use std::sync::Arc;

thread_local! {
    static DELAY: Cell<(i64, i64)> = const { Cell::new((0, 2_000_000)) };
    static THREADS: Cell<bool> = const { Cell::new(false) };
}
/// Whether workers may block: each then runs on a stack of its own.
pub fn set_worker_threads(on: bool) {
    THREADS.with(|d| d.set(on));
}
/// How long a worker takes for a message: from `min` to `max` nanoseconds.
pub fn set_worker_delay(min: i64, max: i64) {
    DELAY.with(|d| d.set((min, max)));
}

pub struct SyncContext<A: Actor<Context = SyncContext<A>>> {
    stopping: bool,
    restart: bool,
    _a: std::marker::PhantomData<fn(A)>,
}
impl<A: Actor<Context = SyncContext<A>>> ActorContext for SyncContext<A> {
    fn stop(&mut self) {
        self.stopping = true;
        self.restart = true;
    }
    fn terminate(&mut self) {
        self.stopping = true;
    }
    fn state(&self) -> ActorState {
        if self.stopping { ActorState::Stopping } else { ActorState::Running }
    }
}

pub struct SyncArbiter<A: Actor<Context = SyncContext<A>>>(std::marker::PhantomData<fn(A)>);

impl<A: Actor<Context = SyncContext<A>>> SyncArbiter<A> {
    pub fn start<F>(threads: usize, factory: F) -> Addr<A>
    where
        F: Fn() -> A + Send + Sync + 'static,
    {
        let origin = Origin::new();
        let addr = origin.address();
        let mailbox = origin.mailbox.clone();
        let factory = Arc::new(factory);
        let workers = Arc::new(Cell::new(threads));
        for _ in 0..threads {
            let g = Worker { mailbox: mailbox.clone(), workers: workers.clone() };
            let f = factory.clone();
            simrt::spawn(work(g, move || f()));
        }
        addr
    }
}

struct Worker<A: Actor> {
    mailbox: Arc<Mailbox<A>>,
    workers: Arc<Cell<usize>>,
}
impl<A: Actor> Drop for Worker<A> {
    fn drop(&mut self) {
        self.workers.set(self.workers.get() - 1);
        if self.workers.get() == 0 {
            self.mailbox.close();
        }
    }
}

async fn work<A: Actor<Context = SyncContext<A>>>(g: Worker<A>, factory: impl Fn() -> A) {
    let mut act = factory();
    let mut ctx = SyncContext { stopping: false, restart: false, _a: std::marker::PhantomData };
    act.started(&mut ctx);
    loop {
        let m = g.mailbox.clone();
        let msg = std::future::poll_fn(move |cx| {
            let mut q = m.0.borrow_mut();
            match q.msgs.pop_front() {
                Some(e) => std::task::Poll::Ready(e),
                None => {
                    if !q.wakers.iter().any(|w| w.will_wake(cx.waker())) {
                        q.wakers.push(cx.waker().clone());
                    }
                    std::task::Poll::Pending
                }
            }
        })
        .await;
        let (lo, hi) = DELAY.with(|d| d.get());
        let d = lo + simrt::choose((hi - lo).max(1) as u64) as i64;
        if d > 0 {
            simrt::until(simrt::now() + d).await;
        }
        if THREADS.with(|t| t.get()) {
            // SAFETY: this future keeps the actor and its context in place until the thread ends.
            let mut co = unsafe { simrt::coro::Coro::new(|| msg(&mut act, &mut ctx)) };
            std::future::poll_fn(|cx| co.poll(cx)).await;
        } else {
            msg(&mut act, &mut ctx);
        }
        if ctx.stopping {
            act.stopped(&mut ctx);
            if !ctx.restart {
                return;
            }
            ctx.stopping = false;
            ctx.restart = false;
            act = factory();
            act.started(&mut ctx);
        }
    }
}
