//! The wallet, with its modules open to the harness and its locks simulated.
#![allow(dead_code, unused_imports)]
pub use crate::actors::app;

#[path = "/repo/wallet/src/account.rs"]
pub mod account;
#[path = "/repo/wallet/src/actors/mod.rs"]
pub mod actors;
#[path = "/repo/wallet/src/constants.rs"]
pub mod constants;
#[path = "/repo/wallet/src/crypto.rs"]
pub mod crypto;
#[path = "/repo/wallet/src/db/mod.rs"]
pub mod db;
#[path = "/repo/wallet/src/model.rs"]
pub mod model;
#[path = "/repo/wallet/src/params.rs"]
pub mod params;
#[path = "/repo/wallet/src/repository/mod.rs"]
pub mod repository;
#[path = "/repo/wallet/src/types.rs"]
pub mod types;
