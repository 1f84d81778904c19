use crate::actor::{Actor, ActorContext, ActorState, AsyncContext, Running, SpawnHandle};
use crate::address::{Addr, Origin};
use crate::fut::ActorFuture;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context as Cx, Poll};

type Item<A> = Pin<Box<dyn ActorFuture<A, Output = ()>>>;

/// The context of an actor.
pub struct Context<A: Actor<Context = Context<A>>> {
    origin: Origin<A>,
    running: bool,
    stopping: bool,
    stopped: bool,
    wait: Vec<Item<A>>,
    items: Vec<(SpawnHandle, Item<A>)>,
    cancelled: Vec<SpawnHandle>,
    next: usize,
    current: SpawnHandle,
}

impl<A: Actor<Context = Context<A>>> Context<A> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Context {
            origin: Origin::new(),
            running: false,
            stopping: false,
            stopped: false,
            wait: vec![],
            items: vec![],
            cancelled: vec![],
            next: 0,
            current: SpawnHandle::default(),
        }
    }
    pub fn run(self, act: A) -> Addr<A> {
        let addr = self.origin.address();
        simrt::spawn(Running_ { act, ctx: self, started: false, wait: vec![], items: vec![] });
        addr
    }
    pub fn connected(&self) -> bool {
        self.origin.connected()
    }
    pub fn handle(&self) -> SpawnHandle {
        self.current
    }
    pub fn set_mailbox_capacity(&mut self, _: usize) {}
}

impl<A: Actor<Context = Context<A>>> ActorContext for Context<A> {
    fn stop(&mut self) {
        if self.running {
            self.running = false;
            self.stopping = true;
        } else if !self.stopped && !self.stopping {
            self.stopping = true;
        }
    }
    fn terminate(&mut self) {
        self.stopped = true;
    }
    fn state(&self) -> ActorState {
        if self.running {
            ActorState::Running
        } else if self.stopped {
            ActorState::Stopped
        } else if self.stopping {
            ActorState::Stopping
        } else {
            ActorState::Started
        }
    }
}

impl<A: Actor<Context = Context<A>>> AsyncContext<A> for Context<A> {
    fn address(&self) -> Addr<A> {
        self.origin.address()
    }
    fn spawn<F>(&mut self, fut: F) -> SpawnHandle
    where
        F: ActorFuture<A, Output = ()> + 'static,
    {
        self.next += 1;
        let h = SpawnHandle(self.next);
        self.items.push((h, Box::pin(fut)));
        h
    }
    fn wait<F>(&mut self, fut: F)
    where
        F: ActorFuture<A, Output = ()> + 'static,
    {
        self.wait.push(Box::pin(fut));
    }
    fn waiting(&self) -> bool {
        !self.wait.is_empty() || self.stopping || self.stopped
    }
    fn cancel_future(&mut self, handle: SpawnHandle) -> bool {
        self.cancelled.push(handle);
        true
    }
}

/// The running actor: field order is drop order (futures may hold what the actor owns).
struct Running_<A: Actor<Context = Context<A>>> {
    wait: Vec<Item<A>>,
    items: Vec<(SpawnHandle, Item<A>)>,
    act: A,
    ctx: Context<A>,
    started: bool,
}
impl<A: Actor<Context = Context<A>>> Unpin for Running_<A> {}
impl<A: Actor<Context = Context<A>>> Drop for Running_<A> {
    fn drop(&mut self) {
        self.ctx.origin.mailbox.close();
    }
}

impl<A: Actor<Context = Context<A>>> Running_<A> {
    fn merge(&mut self) -> bool {
        let mut m = false;
        if !self.ctx.wait.is_empty() {
            m = true;
            self.wait.append(&mut self.ctx.wait);
        }
        if !self.ctx.items.is_empty() {
            m = true;
            self.items.append(&mut self.ctx.items);
        }
        if !self.ctx.cancelled.is_empty() {
            m = true;
            self.clean();
        }
        m
    }
    fn clean(&mut self) {
        for h in std::mem::take(&mut self.ctx.cancelled) {
            self.items.retain(|i| i.0 != h);
            self.ctx.items.retain(|i| i.0 != h);
        }
    }
    fn halting(&self) -> bool {
        self.ctx.stopping || self.ctx.stopped
    }
    fn alive(&self) -> bool {
        self.ctx.origin.connected() || !self.items.is_empty() || !self.wait.is_empty()
    }
}

impl<A: Actor<Context = Context<A>>> Future for Running_<A> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        let this = self.get_mut();
        if !this.started {
            this.started = true;
            this.ctx.running = !this.ctx.stopping;
            this.act.started(&mut this.ctx);
            this.merge();
        }
        'outer: loop {
            // Futures the actor waits for, the most recent first: nothing else happens meanwhile.
            while !this.wait.is_empty() && !this.halting() {
                let last = this.wait.len() - 1;
                if this.wait[last].as_mut().poll(&mut this.act, &mut this.ctx, cx).is_pending() {
                    // What the future spawned or waits for in turn.
                    if this.ctx.wait.is_empty() {
                        this.merge();
                        return Poll::Pending;
                    }
                    this.merge();
                    continue;
                }
                drop(this.wait.remove(last));
                this.merge();
            }
            // The mailbox.
            while !this.ctx.waiting() {
                let next = {
                    let mut q = this.ctx.origin.mailbox.0.borrow_mut();
                    let m = q.msgs.pop_front();
                    if m.is_none() {
                        q.wakers = vec![cx.waker().clone()];
                    }
                    m
                };
                match next {
                    Some(m) => m(&mut this.act, &mut this.ctx),
                    None => break,
                }
            }
            if !this.wait.is_empty() && !this.halting() {
                continue;
            }
            // Futures the actor has spawned.
            let mut i = 0;
            while i < this.items.len() && !this.halting() {
                this.ctx.current = this.items[i].0;
                match this.items[i].1.as_mut().poll(&mut this.act, &mut this.ctx, cx) {
                    Poll::Pending => {
                        if !this.ctx.cancelled.is_empty() {
                            this.clean();
                            continue 'outer;
                        }
                        if !this.ctx.wait.is_empty() && !this.halting() {
                            let last = this.items.len() - 1;
                            this.items.swap(i, last);
                            this.merge();
                            continue 'outer;
                        }
                        i += 1;
                    }
                    Poll::Ready(()) => {
                        drop(this.items.swap_remove(i));
                        if !this.ctx.wait.is_empty() && !this.halting() {
                            this.merge();
                            continue 'outer;
                        }
                    }
                }
            }
            this.ctx.current = SpawnHandle::default();
            if this.merge() && !this.halting() {
                continue;
            }
            if this.ctx.stopped {
                this.act.stopped(&mut this.ctx);
                return Poll::Ready(());
            }
            if this.ctx.stopping {
                if this.act.stopping(&mut this.ctx) == Running::Stop {
                    this.ctx.stopped = true;
                    this.act.stopped(&mut this.ctx);
                    return Poll::Ready(());
                }
                this.ctx.stopping = false;
                this.ctx.running = true;
                continue;
            }
            if !this.alive() && this.act.stopping(&mut this.ctx) == Running::Stop {
                this.ctx.running = false;
                this.ctx.stopped = true;
                this.act.stopped(&mut this.ctx);
                return Poll::Ready(());
            }
            return Poll::Pending;
        }
    }
}
