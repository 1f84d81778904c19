//! Worker threads on the simulated machine: code that blocks runs on a stack of its own and gives way to the
//! scheduler wherever it would block (or where it could be preempted).

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::task::{Context, Poll, Waker};

/// Payload of the unwinding of a thread whose machine died.
pub struct Killed;

const STACK: usize = 4 << 20;

core::arch::global_asm!(
    ".global simrt_coro_switch",
    "simrt_coro_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "sub rsp, 8",
    "stmxcsr [rsp]",
    "fnstcw [rsp + 4]",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "ldmxcsr [rsp]",
    "fldcw [rsp + 4]",
    "add rsp, 8",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
unsafe extern "C" {
    fn simrt_coro_switch(save: *mut usize, to: usize);
}

struct Stack(*mut u8);
impl Stack {
    fn layout() -> std::alloc::Layout {
        std::alloc::Layout::from_size_align(STACK, 64).unwrap()
    }
    fn new() -> Stack {
        if let Some(s) = POOL.with(|p| p.borrow_mut().pop()) {
            return s;
        }
        // SAFETY: the layout is not empty.
        let p = unsafe { std::alloc::alloc(Self::layout()) };
        assert!(!p.is_null());
        Stack(p)
    }
}
impl Drop for Stack {
    fn drop(&mut self) {
        // SAFETY: allocated with this layout.
        unsafe { std::alloc::dealloc(self.0, Self::layout()) }
    }
}

thread_local! {
    static POOL: RefCell<Vec<Stack>> = const { RefCell::new(Vec::new()) };
    static CURRENT: Cell<*mut Inner> = const { Cell::new(std::ptr::null_mut()) };
}

struct Inner {
    stack: Option<Stack>,
    /// Where the thread stands while it is paused, and the scheduler while it runs.
    sp: usize,
    back: usize,
    f: Option<Box<dyn FnOnce()>>,
    done: bool,
    kill: bool,
    panic: Option<Box<dyn Any + Send>>,
    waker: Option<Waker>,
}

/// One thread.
pub struct Coro(Box<Inner>);

extern "C" fn entry() -> ! {
    let me = CURRENT.with(|c| c.get());
    // SAFETY: `resume` set it and keeps it alive until the thread is done.
    unsafe {
        let f = (*me).f.take().unwrap();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(()) => {}
            Err(e) if e.is::<Killed>() => {}
            Err(e) => (*me).panic = Some(e),
        }
        (*me).done = true;
        simrt_coro_switch(&raw mut (*me).sp, (*me).back);
    }
    unreachable!()
}

impl Coro {
    /// # Safety
    /// What `f` borrows must outlive the thread.
    pub unsafe fn new<'a>(f: impl FnOnce() + 'a) -> Coro {
        let f: Box<dyn FnOnce() + 'a> = Box::new(f);
        // SAFETY: the caller's promise.
        let f: Box<dyn FnOnce()> = unsafe { std::mem::transmute(f) };
        let stack = Stack::new();
        // SAFETY: inside the stack.
        let sp = unsafe {
            let top = ((stack.0 as usize + STACK) & !63) as *mut usize;
            // From the top: a null return address, the entry, six registers, the control words.
            // A function finds its stack at 8 modulo 16.
            *top.sub(1) = 0;
            *top.sub(2) = entry as *const () as usize;
            for i in 3..9 {
                *top.sub(i) = 0;
            }
            let words = top.sub(9) as *mut u32;
            *words = 0x1f80;
            *words.add(1) = 0x037f;
            words as usize
        };
        Coro(Box::new(Inner {
            stack: Some(stack),
            sp,
            back: 0,
            f: Some(f),
            done: false,
            kill: false,
            panic: None,
            waker: None,
        }))
    }

    fn enter(&mut self) {
        let me: *mut Inner = &raw mut *self.0;
        let outer = CURRENT.with(|c| c.replace(me));
        // SAFETY: the thread is not done, so its stack is valid.
        unsafe { simrt_coro_switch(&raw mut (*me).back, (*me).sp) };
        CURRENT.with(|c| c.set(outer));
    }

    /// Runs until the thread blocks or ends; raises its panic.
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        assert!(!self.0.done);
        self.0.waker = Some(cx.waker().clone());
        self.enter();
        if !self.0.done {
            return Poll::Pending;
        }
        self.recycle();
        if let Some(e) = self.0.panic.take() {
            std::panic::resume_unwind(e);
        }
        Poll::Ready(())
    }

    fn recycle(&mut self) {
        if let Some(s) = self.0.stack.take() {
            let _ = POOL.try_with(|p| p.borrow_mut().push(s));
        }
    }
}
impl Drop for Coro {
    fn drop(&mut self) {
        if self.0.done {
            return;
        }
        if self.0.f.is_some() || std::thread::panicking() {
            // Not begun, or no way to unwind it now.
            if self.0.f.is_none() {
                std::mem::forget(self.0.stack.take());
            }
            return;
        }
        self.0.kill = true;
        while !self.0.done {
            self.enter();
        }
        self.recycle();
    }
}

/// Whether this code runs on a simulated worker thread.
pub fn inside() -> bool {
    CURRENT.try_with(|c| !c.get().is_null()).unwrap_or(false)
}

/// Gives way until the thread's waker is woken.
pub fn pause() {
    let me = CURRENT.with(|c| c.get());
    assert!(!me.is_null(), "not on a worker thread");
    // SAFETY: `me` is the thread that runs.
    unsafe {
        if !(*me).kill {
            simrt_coro_switch(&raw mut (*me).sp, (*me).back);
        }
        if (*me).kill && !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(Killed));
        }
    }
}

pub fn waker() -> Waker {
    let me = CURRENT.with(|c| c.get());
    // SAFETY: as above.
    unsafe { (*me).waker.clone().unwrap() }
}

/// Gives way for a while.
pub fn nap(ns: i64) {
    crate::wake_at(crate::now() + ns, waker());
    pause();
}

/// Waits for the future: on a worker thread by giving way, elsewhere by running everything else.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    loop {
        if inside() {
            let w = waker();
            if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                return v;
            }
            pause();
        } else {
            let w = Waker::noop();
            if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(w)) {
                return v;
            }
            assert!(
                crate::step(crate::now() + 1_000_000_000_000) != crate::Step::Idle,
                "blocked for ever"
            );
        }
    }
}

thread_local! {
    static PREEMPT: Cell<u64> = const { Cell::new(0) };
}

/// Locks of simulated threads: one point in `odds` where a thread takes or drops a lock is a preemption
/// (0: never).
pub fn locks(odds: u64) {
    PREEMPT.with(|p| p.set(odds));
    simkit::coop::set_thread_hook(Some(hook));
}

fn hook(blocked: bool) -> bool {
    if !crate::active() {
        return false;
    }
    if blocked {
        if inside() {
            nap(20_000 + crate::choose(30_000) as i64);
        } else if crate::step(crate::now() + 1_000_000_000_000) == crate::Step::Idle {
            return false;
        }
        return true;
    }
    let odds = PREEMPT.with(|p| p.get());
    if odds > 0 && inside() && crate::choose(odds) == 0 {
        nap(1 + crate::choose(200_000) as i64);
    }
    true
}
