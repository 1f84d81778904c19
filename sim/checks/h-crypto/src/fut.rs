//! F01: flattening a future changes nothing but the shape of its result.

use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use witnet_futures_utils::TryFutureExt2;

#[derive(Clone, Debug, PartialEq)]
struct Inner(u64);
#[derive(Clone, Debug, PartialEq)]
struct Outer(u64);
#[derive(Clone, Debug, PartialEq)]
enum All {
    I(u64),
    O(u64),
}
impl From<Inner> for All {
    fn from(e: Inner) -> All {
        All::I(e.0)
    }
}
impl From<Outer> for All {
    fn from(e: Outer) -> All {
        All::O(e.0)
    }
}

#[derive(Default)]
struct Log {
    polls: u64,
    after: u64,
    dropped: u64,
    waker: Option<Waker>,
}

struct Src<T> {
    left: u64,
    out: Option<T>,
    done: bool,
    log: Arc<Mutex<Log>>,
}
impl<T: Unpin> Future for Src<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let mut g = self.log.lock().unwrap();
        g.polls += 1;
        if self.done {
            g.after += 1;
        }
        g.waker = Some(cx.waker().clone());
        drop(g);
        if self.left > 0 {
            self.left -= 1;
            return Poll::Pending;
        }
        self.done = true;
        Poll::Ready(self.out.take().expect("polled after completion"))
    }
}
impl<T> Drop for Src<T> {
    fn drop(&mut self) {
        self.log.lock().unwrap().dropped += 1;
    }
}

struct Count(AtomicU64);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

type R3 = Result<u64, All>;

pub fn run(ctx: &Ctx) -> Res {
    let n = 1 + ctx.idx(4);
    type Fut = Pin<Box<dyn Future<Output = R3>>>;
    let mut futs: Vec<Option<(Fut, R3, Arc<Mutex<Log>>, u64)>> = Vec::new();
    for i in 0..n {
        let log: Arc<Mutex<Log>> = Arc::default();
        let left = ctx.skewed(6);
        let v = 100 * i as u64 + ctx.below(50);
        let nested = ctx.chance(1, 3);
        let kind = ctx.below(3);
        ctx.probe_if(kind == 2, "outer_error");
        ctx.probe_if(kind == 1, "inner_error");
        ctx.probe_if(nested, "nested");
        let res: Result<Result<u64, Inner>, Outer> = match kind {
            0 => Ok(Ok(v)),
            1 => Ok(Err(Inner(v))),
            _ => Err(Outer(v)),
        };
        let want = match kind {
            0 => Ok(v),
            1 => Err(All::I(v)),
            _ => Err(All::O(v)),
        };
        let f: Fut = if nested {
            // Result<Result<Result<..>>>: flattened twice.
            let lvl = ctx.below(2);
            let r3: Result<Result<Result<u64, Inner>, Outer>, Outer> = if kind == 2 && lvl == 1 { Err(Outer(v)) } else { Ok(res) };
            let a = Src { left, out: Some(r3), done: false, log: log.clone() };
            Box::pin(TryFutureExt2::flatten_err::<Result<u64, Inner>, Outer, Outer, All>(a).flatten_err::<u64, Inner, All, All>())
        } else {
            Box::pin(Src { left, out: Some(res), done: false, log: log.clone() }.flatten_err::<u64, Inner, Outer, All>())
        };
        futs.push(Some((f, want, log, left)));
    }
    let mut steps = 0;
    while futs.iter().any(Option::is_some) {
        ctx.mark();
        steps += 1;
        ensure!(steps < 2000, "no-progress", "the futures do not complete");
        let i = ctx.idx(n);
        if futs[i].is_none() {
            continue;
        }
        if ctx.chance(1, 20) {
            let (f, _, log, _) = futs[i].take().unwrap();
            drop(f);
            ctx.fault("cancelled");
            ev!(ctx, "future {i} cancelled");
            ensure_eq!(log.lock().unwrap().dropped, 1, "leak", "times the inner future of the cancelled one was dropped");
            continue;
        }
        let (f, want, log, left) = futs[i].as_mut().unwrap();
        let w = Arc::new(Count(AtomicU64::new(0)));
        let waker = Waker::from(w.clone());
        let before = log.lock().unwrap().polls;
        ctx.probe_if(before > 0, "spurious_poll");
        let r = simkit::catch(|| f.as_mut().poll(&mut Context::from_waker(&waker))).map_err(|m| Fail::new("panic", m))?;
        let polls = log.lock().unwrap().polls;
        ev!(ctx, "future {i}: {r:?}");
        ensure_eq!(polls, before + 1, "wrong-polls", "polls of the inner future by one poll of the outer one");
        match r {
            Poll::Pending => {
                ctx.probe("pending");
                ctx.nontrivial();
                ensure!(polls <= *left, "late", "still pending after the inner future completed");
                if let Some(x) = log.lock().unwrap().waker.clone() {
                    x.wake();
                }
                ensure_eq!(w.0.load(Ordering::SeqCst), 1, "lost-wakeup", "wake-ups that reached the task");
            }
            Poll::Ready(got) => {
                ensure_eq!(got, *want, "wrong-result", "result of future {i}");
                ensure_eq!(polls, *left + 1, "wrong-polls", "polls until completion");
                let l = log.clone();
                futs[i] = None;
                ensure_eq!(l.lock().unwrap().dropped, 1, "leak", "times the inner future was dropped");
                ensure_eq!(l.lock().unwrap().after, 0, "wrong-polls", "polls after completion");
                ctx.state(simkit::rng::mix("f", &[i as u64, polls, n as u64]));
            }
        }
    }
    Ok(())
}
