//! The one name that the wallet takes from failure.
pub use core as _core;
