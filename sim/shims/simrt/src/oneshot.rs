//! A value handed over once between tasks of one thread.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

struct Slot<T> {
    value: Option<T>,
    closed: bool,
    gone: bool,
    waker: Option<Waker>,
}
struct Shared<T>(RefCell<Slot<T>>);
// SAFETY: a simulated machine room lives in one thread.
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

pub struct Sender<T>(Option<Arc<Shared<T>>>);
pub struct Receiver<T>(Arc<Shared<T>>);

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let s = Arc::new(Shared(RefCell::new(Slot {
        value: None,
        closed: false,
        gone: false,
        waker: None,
    })));
    (Sender(Some(s.clone())), Receiver(s))
}

impl<T> Sender<T> {
    /// Nobody waits for the value any more.
    pub fn is_closed(&self) -> bool {
        self.0.as_ref().is_none_or(|s| s.0.borrow().gone)
    }
    /// Gives the value back if nobody waits for it any more.
    pub fn send(mut self, v: T) -> Result<(), T> {
        let s = self.0.take().unwrap();
        let w = {
            let mut s = s.0.borrow_mut();
            if s.gone {
                return Err(v);
            }
            s.value = Some(v);
            s.closed = true;
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        Ok(())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let v = {
            let mut s = self.0.0.borrow_mut();
            s.gone = true;
            s.value.take()
        };
        drop(v);
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        if let Some(s) = self.0.take() {
            let w = {
                let mut s = s.0.borrow_mut();
                s.closed = true;
                s.waker.take()
            };
            if let Some(w) = w {
                w.wake();
            }
        }
    }
}
impl<T> Future for Receiver<T> {
    /// `None` when the sender is gone.
    type Output = Option<T>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let mut s = self.0.0.borrow_mut();
        if let Some(v) = s.value.take() {
            return Poll::Ready(Some(v));
        }
        if s.closed {
            return Poll::Ready(None);
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
