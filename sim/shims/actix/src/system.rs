use crate::actor::{Actor, Supervised};
use crate::{Addr, Context};
use std::any::TypeId;
use std::future::Future;
use std::io;
use std::task::Poll;

/// The process of one simulated node.
#[derive(Clone, Debug)]
pub struct System {
    node: simrt::NodeId,
}

impl System {
    /// Inside a simulated machine room: the current node. Outside: a machine room of its own with one node.
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> SystemRunner {
        if let Some(node) = simrt::current_node() {
            return SystemRunner { node, own: false };
        }
        simrt::start(simrt::Rng::new(1));
        SystemRunner { node: simrt::add_node(), own: true }
    }
    pub fn current() -> System {
        Self::try_current().expect("System is not running")
    }
    pub fn try_current() -> Option<System> {
        simrt::current_node().map(|node| System { node })
    }
    pub fn id(&self) -> usize {
        self.node
    }
    pub fn stop(&self) {
        self.stop_with_code(0)
    }
    pub fn stop_with_code(&self, code: i32) {
        simrt::set_exit(self.node, code)
    }
    pub fn arbiter(&self) -> Arbiter {
        Arbiter
    }
}

#[derive(Clone, Debug)]
pub struct Arbiter;
impl Arbiter {
    pub fn current() -> Arbiter {
        Arbiter
    }
    pub fn spawn(&self, f: impl Future<Output = ()> + 'static) -> bool {
        simrt::spawn(f);
        true
    }
}
pub fn spawn(f: impl Future<Output = ()> + 'static) {
    simrt::spawn(f);
}

pub struct SystemRunner {
    node: simrt::NodeId,
    own: bool,
}
impl SystemRunner {
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        let mut f = Box::pin(f);
        loop {
            let w = std::task::Waker::noop();
            let r = simrt::on_node(self.node, || f.as_mut().poll(&mut std::task::Context::from_waker(w)));
            if let Poll::Ready(v) = r {
                return v;
            }
            simrt::step(i64::MAX);
        }
    }
    pub fn run(self) -> io::Result<()> {
        loop {
            if let Some(code) = simrt::exit_code(self.node) {
                return if code == 0 { Ok(()) } else { Err(io::Error::other(format!("Non-zero exit code: {code}"))) };
            }
            if simrt::step(simrt::now() + 1_000_000_000_000) == simrt::Step::Idle {
                return Err(io::Error::other("nothing left to do"));
            }
        }
    }
}
impl Drop for SystemRunner {
    fn drop(&mut self) {
        if self.own && !std::thread::panicking() {
            simrt::shutdown();
        }
    }
}

pub struct SystemRegistry;
pub type Registry = SystemRegistry;
impl SystemRegistry {
    pub fn set<A: SystemService>(addr: Addr<A>) {
        assert!(
            simrt::registry_get::<Addr<A>>(TypeId::of::<A>()).is_none(),
            "System already has an actor of this kind: {}",
            std::any::type_name::<A>()
        );
        simrt::registry_set(TypeId::of::<A>(), addr);
    }
}

pub trait SystemService: Actor<Context = Context<Self>> + Supervised + Default {
    fn service_started(&mut self, _ctx: &mut Context<Self>) {}
    fn start_service(_: &Arbiter) -> Addr<Self> {
        Self::create(|ctx| {
            let mut a = Self::default();
            a.service_started(ctx);
            a
        })
    }
    fn from_registry() -> Addr<Self> {
        if let Some(a) = simrt::registry_get::<Addr<Self>>(TypeId::of::<Self>()) {
            return a;
        }
        let a = Self::start_service(&Arbiter);
        simrt::registry_set(TypeId::of::<Self>(), a.clone());
        a
    }
}
