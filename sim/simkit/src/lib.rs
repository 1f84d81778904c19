//! Deterministic simulation kit: tape-driven choices, a simulated OS seam, cooperative threads, a runner.

pub mod coop;
pub mod ctx;
pub mod lin;
pub mod rng;
pub mod runner;
pub mod simos;

pub use ctx::{Ctx, Fail, Res};
pub use runner::{Known, PropertyDef, main, main_warm};

use std::cell::RefCell;

thread_local! {
    static CURRENT: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}

/// The run that the current thread belongs to.
pub fn current() -> Option<Ctx> {
    CURRENT.try_with(|c| c.borrow().clone()).ok().flatten()
}
pub fn set_current(c: Option<Ctx>) {
    CURRENT.with(|x| *x.borrow_mut() = c);
}

/// Message of a caught panic.
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic with a non-text payload".into()
    }
}

/// Runs `f`, turning a panic of the code under test into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.is::<coop::Killed>() {
                std::panic::resume_unwind(e);
            }
            Err(panic_text(&*e))
        }
    }
}
