//! Stands in for the websockets server: the harness calls the handler that the process has set up.
pub mod ws {
    use jsonrpc_pubsub::{PubSubHandler, Session};
    use std::any::TypeId;
    use std::net::SocketAddr;
    use std::rc::Rc;
    use std::sync::Arc;

    type Handler = PubSubHandler<Arc<Session>>;

    #[derive(Debug, thiserror::Error)]
    #[error("server error")]
    pub struct Error;

    pub struct Server(());
    impl Server {
        pub fn build() -> ServerBuilder {
            ServerBuilder { handler: Handler::default() }
        }
    }
    pub struct ServerBuilder {
        handler: Handler,
    }
    impl ServerBuilder {
        pub fn handler(mut self, h: Handler) -> Self {
            self.handler = h;
            self
        }
        pub fn addr(self, _: SocketAddr) -> Self {
            self
        }
        pub fn start(self) -> Result<Server, Box<Error>> {
            simrt::registry_set(TypeId::of::<Handler>(), Rc::new(self.handler));
            Ok(Server(()))
        }
    }
    /// The handler of the current process.
    pub fn handler() -> Option<Rc<Handler>> {
        simrt::registry_get::<Rc<Handler>>(TypeId::of::<Handler>())
    }
}
