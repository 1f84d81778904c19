//! The simulated machine room: several nodes in one thread, each with its own tasks, timers and sockets,
//! under one seeded scheduler and one simulated clock.
//!
//! A task belongs to the node that spawned it. Within a node, tasks that are ready run in the order in which
//! they became ready, as on a current-thread runtime; between nodes the scheduler chooses. When nothing is
//! ready the clock moves to the next event (timer, network delivery or a step of the scenario).

use std::any::{Any, TypeId};
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, HashMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

pub mod coro;
pub mod net;
pub mod oneshot;

pub use simkit::rng::Rng;

pub type NodeId = usize;
pub type TaskId = u64;

enum Event {
    Wake(Waker),
    Call(Box<dyn FnOnce()>),
}

struct Timed {
    at: i64,
    seq: u64,
    event: Event,
}
impl PartialEq for Timed {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Timed {}
impl PartialOrd for Timed {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timed {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

struct Task {
    node: NodeId,
    /// Taken out while the task is polled.
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    queued: bool,
    again: bool,
    /// One waker for the task's life, so that a future sees it is the one it has stored.
    waker: Waker,
}

#[derive(Default)]
struct Node {
    alive: bool,
    exit: Option<i32>,
    ready: VecDeque<TaskId>,
    registry: HashMap<TypeId, Box<dyn Any>>,
    frozen_until: i64,
    skew_ns: i64,
    polls: u64,
}

struct Sim {
    nodes: Vec<Node>,
    tasks: BTreeMap<TaskId, Task>,
    next_task: TaskId,
    events: BinaryHeap<Reverse<Timed>>,
    seq: u64,
    rng: Rng,
    panics: Vec<(NodeId, String)>,
    fatal: Option<(NodeId, Box<dyn Any + Send>)>,
    polls: u64,
}

thread_local! {
    static SIM: RefCell<Option<Sim>> = const { RefCell::new(None) };
    static CURRENT: Cell<Option<NodeId>> = const { Cell::new(None) };
    static SKEW: Cell<i64> = const { Cell::new(0) };
    static DYING: Cell<bool> = const { Cell::new(false) };
    static LAST: Cell<Option<NodeId>> = const { Cell::new(None) };
    static SWITCH: RefCell<Option<Box<dyn FnMut(Option<NodeId>, NodeId)>>> = const { RefCell::new(None) };
}

/// Called when another node than the last one is about to run: what a process keeps in global variables is
/// the node's own, and the hook puts it in place.
pub fn set_switch_hook(f: Option<Box<dyn FnMut(Option<NodeId>, NodeId)>>) {
    LAST.with(|c| c.set(None));
    let old = SWITCH.with(|s| std::mem::replace(&mut *s.borrow_mut(), f));
    drop(old);
}

fn switch_to(node: NodeId) {
    let last = LAST.with(|c| c.replace(Some(node)));
    if last != Some(node) {
        SWITCH.with(|s| {
            if let Some(f) = s.borrow_mut().as_mut() {
                f(last, node)
            }
        });
    }
}

fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    SIM.with(|s| f(s.borrow_mut().as_mut().expect("no simulated machine room")))
}

/// Whether this thread runs a simulated machine room.
pub fn active() -> bool {
    SIM.try_with(|s| s.try_borrow().map(|s| s.is_some()).unwrap_or(true))
        .unwrap_or(false)
}

/// Starts afresh. `rng` decides every choice of the scheduler and the network.
pub fn start(rng: Rng) {
    shutdown();
    SIM.with(|s| {
        *s.borrow_mut() = Some(Sim {
            nodes: vec![],
            tasks: BTreeMap::new(),
            next_task: 0,
            events: BinaryHeap::new(),
            seq: 0,
            rng,
            panics: vec![],
            fatal: None,
            polls: 0,
        })
    });
    net::start();
}

/// Ends everything that still runs.
pub fn shutdown() {
    let n = SIM.with(|s| s.borrow().as_ref().map(|s| s.nodes.len()).unwrap_or(0));
    for i in 0..n {
        kill_node(i);
    }
    let events = SIM.with(|s| {
        s.borrow_mut()
            .as_mut()
            .map(|s| std::mem::take(&mut s.events))
    });
    drop(events);
    net::stop();
    let s = SIM.with(|s| s.borrow_mut().take());
    drop(s);
    set_switch_hook(None);
    set_skew(0);
}

pub fn now() -> i64 {
    simkit::simos::mono_ns()
}

pub fn add_node() -> NodeId {
    with(|s| {
        s.nodes.push(Node {
            alive: true,
            ..Default::default()
        });
        s.nodes.len() - 1
    })
}

/// Below `n` by the scheduler's choice.
pub fn choose(n: u64) -> u64 {
    if n <= 1 { 0 } else { with(|s| s.rng.below(n)) }
}

pub fn current_node() -> Option<NodeId> {
    CURRENT.try_with(|c| c.get()).ok().flatten()
}

fn set_skew(ns: i64) {
    let old = SKEW.with(|c| c.replace(ns));
    if ns != old {
        simkit::simos::jump_realtime_ns(ns - old);
    }
}

/// Runs `f` as the node, with its clock.
pub fn on_node<R>(node: NodeId, f: impl FnOnce() -> R) -> R {
    struct Back(Option<NodeId>, i64);
    impl Drop for Back {
        fn drop(&mut self) {
            CURRENT.with(|c| c.set(self.0));
            set_skew(self.1);
            if let Some(n) = self.0 {
                switch_to(n);
            }
        }
    }
    let _back = Back(
        CURRENT.with(|c| c.replace(Some(node))),
        SKEW.with(|c| c.get()),
    );
    set_skew(with(|s| s.nodes[node].skew_ns));
    switch_to(node);
    f()
}

/// How far the node's wall clock is ahead.
pub fn set_clock_skew(node: NodeId, ns: i64) {
    with(|s| s.nodes[node].skew_ns = ns);
}

/// The node stands still until then.
pub fn freeze(node: NodeId, for_ns: i64) {
    let at = now() + for_ns;
    with(|s| s.nodes[node].frozen_until = at);
    at_time(at, || ());
}

pub fn alive(node: NodeId) -> bool {
    with(|s| s.nodes[node].alive)
}
/// The code with which the node's process ended itself, if it did.
pub fn exit_code(node: NodeId) -> Option<i32> {
    with(|s| s.nodes[node].exit)
}
pub fn set_exit(node: NodeId, code: i32) {
    if !DYING.with(|d| d.get()) {
        with(|s| {
            let n = &mut s.nodes[node];
            if n.alive && n.exit.is_none() {
                n.exit = Some(code);
            }
        })
    }
}
/// Panics of the nodes' tasks since the last call.
pub fn take_panics() -> Vec<(NodeId, String)> {
    with(|s| std::mem::take(&mut s.panics))
}
/// The last panic that was no string: what the storage of a crashed machine raises.
pub fn take_fatal() -> Option<(NodeId, Box<dyn Any + Send>)> {
    with(|s| s.fatal.take())
}

pub fn registry_get<T: Clone + 'static>(key: TypeId) -> Option<T> {
    let node = current_node().expect("not on a simulated node");
    with(|s| {
        s.nodes[node]
            .registry
            .get(&key)
            .map(|v| v.downcast_ref::<T>().expect("registry").clone())
    })
}
pub fn registry_set<T: 'static>(key: TypeId, v: T) {
    let node = current_node().expect("not on a simulated node");
    let old = with(|s| s.nodes[node].registry.insert(key, Box::new(v)));
    drop(old);
}

struct TaskWaker(TaskId);
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let _ = SIM.try_with(|s| {
            if let Ok(mut s) = s.try_borrow_mut()
                && let Some(s) = s.as_mut()
            {
                s.make_ready(self.0);
            }
        });
    }
}

impl Sim {
    fn make_ready(&mut self, id: TaskId) {
        if let Some(t) = self.tasks.get_mut(&id)
            && !t.queued
        {
            t.queued = true;
            self.nodes[t.node].ready.push_back(id);
        }
    }
}

/// A task of the current node.
pub fn spawn(fut: impl Future<Output = ()> + 'static) -> TaskId {
    let node = current_node().expect("not on a simulated node");
    let fut: Pin<Box<dyn Future<Output = ()>>> = Box::pin(fut);
    if DYING.with(|d| d.get()) {
        std::mem::forget(fut);
        return u64::MAX;
    }
    with(|s| {
        let id = s.next_task;
        s.next_task += 1;
        s.tasks.insert(
            id,
            Task {
                node,
                fut: Some(fut),
                queued: false,
                again: false,
                waker: Waker::from(Arc::new(TaskWaker(id))),
            },
        );
        s.make_ready(id);
        id
    })
}

/// Wakes at that time.
pub fn wake_at(at: i64, w: Waker) {
    with(|s| {
        s.seq += 1;
        let seq = s.seq;
        s.events.push(Reverse(Timed {
            at,
            seq,
            event: Event::Wake(w),
        }));
    })
}

/// Runs `f` (of no node) at that time.
pub fn at_time(at: i64, f: impl FnOnce() + 'static) {
    with(|s| {
        s.seq += 1;
        let seq = s.seq;
        s.events.push(Reverse(Timed {
            at,
            seq,
            event: Event::Call(Box::new(f)),
        }));
    })
}

/// Ready at a time of the simulated clock.
pub struct Until {
    at: i64,
    set: Option<Waker>,
}
pub fn until(at: i64) -> Until {
    Until { at, set: None }
}
pub fn sleep(d: Duration) -> Until {
    until(now().saturating_add(i64::try_from(d.as_nanos()).unwrap_or(i64::MAX / 4)))
}
impl Future for Until {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if now() >= self.at {
            return Poll::Ready(());
        }
        if !self.set.as_ref().is_some_and(|w| w.will_wake(cx.waker())) {
            self.set = Some(cx.waker().clone());
            wake_at(self.at, cx.waker().clone());
        }
        Poll::Pending
    }
}

/// The machine stops here and now: nothing of the node runs any more, its sockets are gone.
pub fn kill_node(node: NodeId) {
    let (tasks, registry) = with(|s| {
        let n = &mut s.nodes[node];
        n.alive = false;
        n.ready.clear();
        let registry = std::mem::take(&mut n.registry);
        let ids: Vec<TaskId> = s
            .tasks
            .iter()
            .filter(|(_, t)| t.node == node)
            .map(|(i, _)| *i)
            .collect();
        let tasks: Vec<Task> = ids.iter().filter_map(|i| s.tasks.remove(i)).collect();
        (tasks, registry)
    });
    net::node_gone(node);
    DYING.with(|d| d.set(true));
    simkit::simos::no_sleep(true);
    on_node(node, || {
        for t in tasks {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(t)));
        }
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(registry)));
    });
    simkit::simos::no_sleep(false);
    DYING.with(|d| d.set(false));
    with(|s| {
        // What its destructors may have spawned or woken.
        s.tasks.retain(|_, t| t.node != node || t.fut.is_none());
        s.nodes[node].ready.clear();
        s.nodes[node].registry.clear();
    });
}

/// The machine is powered on again (with no task).
pub fn revive_node(node: NodeId) {
    with(|s| {
        let skew = s.nodes[node].skew_ns;
        s.nodes[node] = Node {
            alive: true,
            skew_ns: skew,
            ..Default::default()
        };
    });
}

/// Whether the node is in the middle of being switched off.
pub fn dying() -> bool {
    DYING.try_with(|d| d.get()).unwrap_or(true)
}

pub fn polls() -> u64 {
    with(|s| s.polls)
}

/// What `step` did.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Step {
    Ran(NodeId),
    Event,
    Idle,
}

/// One step: a ready task runs, or the clock moves to the next event (not past `limit`).
pub fn step(limit: i64) -> Step {
    let t = now();
    let pick = with(|s| {
        let ready: Vec<NodeId> = s
            .nodes
            .iter()
            .enumerate()
            .filter(|(_, n)| {
                n.alive && n.exit.is_none() && n.frozen_until <= t && !n.ready.is_empty()
            })
            .map(|(i, _)| i)
            .collect();
        if ready.is_empty() {
            return None;
        }
        let node = ready[s.rng.below(ready.len() as u64) as usize];
        let id = s.nodes[node].ready.pop_front().unwrap();
        Some((node, id))
    });
    if let Some((node, id)) = pick {
        run_task(node, id);
        return Step::Ran(node);
    }
    let ev = with(|s| match s.events.peek() {
        Some(Reverse(e)) if e.at <= limit => Some(s.events.pop().unwrap().0),
        _ => None,
    });
    match ev {
        Some(e) => {
            if e.at > t {
                simkit::simos::advance_ns(e.at - t);
            }
            match e.event {
                Event::Wake(w) => w.wake(),
                Event::Call(f) => f(),
            }
            Step::Event
        }
        None => {
            if limit > t {
                simkit::simos::advance_ns(limit - t);
            }
            Step::Idle
        }
    }
}

fn run_task(node: NodeId, id: TaskId) {
    let Some((mut fut, waker)) = with(|s| {
        s.polls += 1;
        s.nodes[node].polls += 1;
        s.tasks.get_mut(&id).and_then(|t| {
            t.queued = false;
            // A task that is being polled (it blocks, and runs everything else) is polled once more.
            t.again = t.fut.is_none();
            t.fut.take().map(|f| (f, t.waker.clone()))
        })
    }) else {
        return;
    };
    let r = on_node(node, || {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let mut cx = Context::from_waker(&waker);
            match fut.as_mut().poll(&mut cx) {
                // A task that ends is dropped as its own node.
                Poll::Ready(()) => None,
                Poll::Pending => Some(fut),
            }
        }))
    });
    match r {
        Ok(Some(fut)) => {
            let back = with(|s| match s.tasks.get_mut(&id) {
                Some(t) => {
                    t.fut = Some(fut);
                    if std::mem::take(&mut t.again) {
                        s.make_ready(id);
                    }
                    None
                }
                None => Some(fut),
            });
            drop(back);
        }
        Ok(None) => {
            with(|s| s.tasks.remove(&id));
        }
        Err(payload) => {
            let text = match (
                payload.downcast_ref::<&str>(),
                payload.downcast_ref::<String>(),
            ) {
                (Some(s), _) => Some(s.to_string()),
                (_, Some(s)) => Some(s.clone()),
                _ => None,
            };
            let text = text.map(|t| simkit::runner::panic_place().unwrap_or(t));
            with(|s| {
                s.tasks.remove(&id);
                match text {
                    Some(t) => s.panics.push((node, t)),
                    None => s.fatal = Some((node, payload)),
                }
            });
        }
    }
}
