//! `futures_util`; the futures of version 0.1 are those of today in the simulation.
pub use ::futures_util::*;
pub mod compat {
    use futures_core::Stream;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    macro_rules! same {
        ($n:ident) => {
            pub struct $n<T>(T);
            impl<T> $n<T> {
                pub fn new(t: T) -> Self {
                    $n(t)
                }
            }
            impl<T: Future + Unpin> Future for $n<T> {
                type Output = T::Output;
                fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T::Output> {
                    Pin::new(&mut self.0).poll(cx)
                }
            }
            impl<T: Stream + Unpin> Stream for $n<T> {
                type Item = T::Item;
                fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T::Item>> {
                    Pin::new(&mut self.0).poll_next(cx)
                }
            }
        };
    }
    same!(Compat);
    same!(Compat01As03);
}
