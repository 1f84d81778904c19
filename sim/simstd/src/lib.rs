//! Stands in for `std` when code of /repo is built for the simulator: everything is the real standard
//! library, except the locks, which are simulated.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    pub use simkit::coop::{
        SimMutex as Mutex, SimMutexGuard as MutexGuard, SimRwLock as RwLock, SimRwLockReadGuard as RwLockReadGuard,
        SimRwLockWriteGuard as RwLockWriteGuard,
    };
}
