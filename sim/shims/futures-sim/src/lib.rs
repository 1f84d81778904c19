//! `futures`, where blocking a thread gives way to the simulated machine room.
pub use ::futures::*;
pub mod executor {
    pub use simrt::coro::block_on;
}
