//! Timers on the simulated clock, for futures that are polled until they are ready.
pub mod time {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use std::time::{Duration, Instant};

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }

    pub struct Timeout<F> {
        fut: Pin<Box<F>>,
        at: Instant,
        timer: Option<std::task::Waker>,
    }

    pub fn timeout<F: Future>(d: Duration, fut: F) -> Timeout<F> {
        Timeout { fut: Box::pin(fut), at: Instant::now() + d, timer: None }
    }

    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, error::Elapsed>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if let Poll::Ready(v) = self.fut.as_mut().poll(cx) {
                return Poll::Ready(Ok(v));
            }
            if Instant::now() >= self.at {
                return Poll::Ready(Err(error::Elapsed(())));
            }
            let at = self.at;
            super::time::later(at, cx, &mut self.timer);
            Poll::Pending
        }
    }

    pub struct Sleep(Instant, Option<std::task::Waker>);

    pub fn sleep(d: Duration) -> Sleep {
        Sleep(Instant::now() + d, None)
    }

    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if Instant::now() >= self.0 {
                return Poll::Ready(());
            }
            let at = self.0;
            later(at, cx, &mut self.1);
            Poll::Pending
        }
    }

    /// Sees to it that the task is polled again then: by an event in a machine room, at once by an executor
    /// that polls until things are ready.
    pub fn later(at: Instant, cx: &mut Context<'_>, set: &mut Option<std::task::Waker>) {
        if !simrt::active() {
            cx.waker().wake_by_ref();
        } else if !set.as_ref().is_some_and(|w| w.will_wake(cx.waker())) {
            *set = Some(cx.waker().clone());
            let left = at.saturating_duration_since(Instant::now());
            simrt::wake_at(simrt::now() + left.as_nanos() as i64, cx.waker().clone());
        }
    }
}

pub mod net {
    use std::io;
    use std::net::SocketAddr;

    pub struct TcpStream(simrt::net::Stream);
    impl TcpStream {
        pub async fn connect(addr: SocketAddr) -> io::Result<TcpStream> {
            let node = simrt::current_node().expect("not on a simulated node");
            simrt::net::connect(node, addr).await.map(TcpStream)
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            if self.0.write.broken() {
                return Err(io::ErrorKind::NotConnected.into());
            }
            Ok(self.0.peer)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.0.local)
        }
        pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
            (tcp::OwnedReadHalf(self.0.read), tcp::OwnedWriteHalf(self.0.write))
        }
    }
    impl std::fmt::Debug for TcpStream {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "TcpStream({} -> {})", self.0.local, self.0.peer)
        }
    }

    pub struct TcpListener(SocketAddr);
    impl TcpListener {
        pub async fn bind(addr: &SocketAddr) -> io::Result<TcpListener> {
            let node = simrt::current_node().expect("not on a simulated node");
            simrt::net::listen(node, *addr)?;
            Ok(TcpListener(*addr))
        }
        pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
            let a = self.0;
            let s = std::future::poll_fn(move |cx| simrt::net::poll_accept(a, cx)).await?;
            let peer = s.peer;
            Ok((TcpStream(s), peer))
        }
    }
    impl Drop for TcpListener {
        fn drop(&mut self) {
            simrt::net::unlisten(self.0);
        }
    }

    pub mod tcp {
        use bytes::BytesMut;
        use std::io;
        use std::task::{Context, Poll};

        pub struct OwnedReadHalf(pub(crate) simrt::net::ReadEnd);
        pub struct OwnedWriteHalf(pub(crate) simrt::net::WriteEnd);
        impl OwnedReadHalf {
            pub fn poll_read(&mut self, cx: &mut Context<'_>, buf: &mut BytesMut) -> Poll<io::Result<usize>> {
                self.0.poll_read(cx, buf, 8 * 1024)
            }
        }
        impl OwnedWriteHalf {
            pub fn write_now(&mut self, b: &[u8]) -> io::Result<()> {
                self.0.write(b)
            }
            pub fn broken(&self) -> bool {
                self.0.broken()
            }
            pub fn watch(&mut self, cx: &mut Context<'_>) {
                self.0.watch(cx)
            }
        }
    }
}

pub mod runtime {
    use std::future::Future;
    use std::task::{Context, Poll, Waker};

    pub struct Builder;
    pub struct Runtime;

    impl Builder {
        pub fn new_current_thread() -> Builder {
            Builder
        }
        pub fn enable_all(&mut self) -> &mut Builder {
            self
        }
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            Ok(Runtime)
        }
    }

    #[derive(Clone)]
    pub struct Handle;

    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            Ok(Runtime)
        }
        pub fn handle(&self) -> &Handle {
            &Handle
        }
        /// Polls until ready: every future here makes time pass when polled.
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            let mut f = Box::pin(f);
            let mut cx = Context::from_waker(Waker::noop());
            loop {
                if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                    return v;
                }
            }
        }
    }
}
