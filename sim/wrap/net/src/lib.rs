//! The HTTP and JSON-RPC clients; the servers are the simulation's.
pub mod client {
    #[path = "/repo/net/src/client/http/mod.rs"]
    pub mod http;
    #[path = "/repo/net/src/client/tcp/mod.rs"]
    pub mod tcp;
}
pub mod server;

/// A URL.
pub type Uri = reqwest::Url;
