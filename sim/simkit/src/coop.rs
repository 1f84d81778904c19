//! Cooperative scheduling of real threads: exactly one runs at a time and every switch is a recorded choice.
//!
//! `SimRwLock`/`SimMutex` stand in for the standard ones (semantics included: poisoning, exclusion), with a
//! scheduling point before and after every acquisition and release.

use crate::ctx::Ctx;
use std::cell::{RefCell, UnsafeCell};
use std::ops::{Deref, DerefMut};
use std::sync::{Arc, Condvar, LockResult, Mutex, PoisonError, TryLockError, TryLockResult};

/// Payload of the panic that ends a killed or deadlocked thread.
pub struct Killed;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Ready,
    Blocked(usize),
    Done,
}

struct St {
    current: usize,
    status: Vec<Status>,
    kill: Vec<bool>,
    over: bool,
    deadlock: bool,
    steps: u64,
}

pub struct Sched {
    ctx: Ctx,
    st: Mutex<St>,
    cvs: Vec<Condvar>,
    names: Vec<String>,
    kill_odds: u64,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

/// What a lock does outside of `run`: called with `false` where a thread could be preempted and with `true`
/// where it must wait; answers whether waiting is possible.
pub type ThreadHook = fn(bool) -> bool;
thread_local! {
    static HOOK: std::cell::Cell<Option<ThreadHook>> = const { std::cell::Cell::new(None) };
}
pub fn set_thread_hook(h: Option<ThreadHook>) {
    HOOK.with(|c| c.set(h));
}
fn hook(blocked: bool) -> bool {
    HOOK.try_with(|c| c.get()).ok().flatten().is_some_and(|h| h(blocked))
}

pub type Task = (String, Box<dyn FnOnce() + Send>);

/// How one thread ended.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum End {
    Finished,
    Panicked(String),
    /// The scheduler ended it at a scheduling point.
    Killed,
}

pub struct Outcome {
    pub ends: Vec<End>,
    pub deadlock: bool,
}

const STEP_LIMIT: u64 = 200_000;

impl Sched {
    /// The current thread gives way: `to` is its new status. Returns when it is scheduled again.
    fn switch(self: &Arc<Self>, me: usize, to: Status) -> bool {
        let mut st = self.st.lock().unwrap();
        st.steps += 1;
        if st.steps > STEP_LIMIT {
            st.deadlock = true;
            st.over = true;
        }
        st.status[me] = to;
        self.pick(&mut st, me);
        while st.current != me {
            st = self.cvs[me].wait(st).unwrap();
        }
        st.status[me] = Status::Ready;
        let die = st.kill[me];
        st.kill[me] = false;
        die || st.over
    }

    /// Hands the baton on.
    fn pick(&self, st: &mut St, me: usize) {
        let mut ready: Vec<usize> = Vec::with_capacity(st.status.len());
        if st.status[me] == Status::Ready {
            ready.push(me);
        }
        for (i, s) in st.status.iter().enumerate() {
            if i != me && *s == Status::Ready {
                ready.push(i);
            }
        }
        if ready.is_empty() {
            // Everyone left is blocked: wake them one by one so that they unwind.
            if let Some(i) = st.status.iter().position(|s| matches!(s, Status::Blocked(_))) {
                st.deadlock = true;
                st.over = true;
                st.current = i;
                self.cvs[i].notify_one();
            }
            return;
        }
        let n = if st.over { ready[0] } else { ready[self.ctx.idx(ready.len())] };
        if n != me {
            self.ctx.switch();
        }
        if !st.over && self.kill_odds > 0 && self.ctx.chance(1, self.kill_odds) {
            st.kill[n] = true;
        }
        st.current = n;
        self.cvs[n].notify_one();
    }

    fn wake(&self, key: usize) {
        let mut st = self.st.lock().unwrap();
        for s in st.status.iter_mut() {
            if *s == Status::Blocked(key) {
                *s = Status::Ready;
            }
        }
    }
}

fn me() -> Option<(Arc<Sched>, usize)> {
    ME.try_with(|m| m.borrow().clone()).ok().flatten()
}

/// A scheduling point.
pub fn yield_point() {
    if std::thread::panicking() {
        return;
    }
    if let Some((s, i)) = me() {
        if s.switch(i, Status::Ready) {
            kill_self(&s, i);
        }
    } else {
        hook(false);
    }
}

fn kill_self(s: &Sched, i: usize) -> ! {
    if !s.st.lock().unwrap().over {
        s.ctx.fault("thread_killed");
        crate::ev!(s.ctx, "kill {}", s.names[i]);
    }
    std::panic::resume_unwind(Box::new(Killed));
}

/// Name of the running simulated thread.
pub fn thread_name() -> Option<String> {
    me().map(|(s, i)| s.names[i].clone())
}

/// Runs the threads to completion under the scheduler. `kill_odds` > 0: one scheduling point in that many
/// kills the thread that would run next (it unwinds from there).
pub fn run(ctx: &Ctx, tasks: Vec<Task>, kill_odds: u64) -> Outcome {
    let n = tasks.len();
    if n == 0 {
        return Outcome { ends: vec![], deadlock: false };
    }
    let mut names = Vec::new();
    let mut fns = Vec::new();
    for (a, f) in tasks {
        names.push(a);
        fns.push(f);
    }
    let s = Arc::new(Sched {
        ctx: ctx.clone(),
        st: Mutex::new(St {
            current: usize::MAX,
            status: vec![Status::Ready; n],
            kill: vec![false; n],
            over: false,
            deadlock: false,
            steps: 0,
        }),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
        names,
        kill_odds,
    });
    let mut hs = Vec::new();
    for (i, f) in fns.into_iter().enumerate() {
        let s = s.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    crate::simos::enter();
                    crate::set_current(Some(s.ctx.clone()));
                    {
                        let mut st = s.st.lock().unwrap();
                        while st.current != i {
                            st = s.cvs[i].wait(st).unwrap();
                        }
                    }
                    ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
                    let over = s.st.lock().unwrap().over;
                    let r = if over {
                        End::Killed
                    } else {
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                            Ok(()) => End::Finished,
                            Err(e) if e.is::<Killed>() => End::Killed,
                            Err(e) => End::Panicked(crate::panic_text(&*e)),
                        }
                    };
                    ME.with(|m| *m.borrow_mut() = None);
                    let mut st = s.st.lock().unwrap();
                    st.status[i] = Status::Done;
                    s.pick(&mut st, i);
                    drop(st);
                    crate::set_current(None);
                    crate::simos::leave();
                    r
                })
                .expect("simulated thread"),
        );
    }
    {
        let mut st = s.st.lock().unwrap();
        let f = ctx.idx(n);
        st.current = f;
        s.cvs[f].notify_one();
    }
    let ends = hs.into_iter().map(|h| h.join().unwrap_or(End::Killed)).collect();
    let deadlock = s.st.lock().unwrap().deadlock;
    Outcome { ends, deadlock }
}

/// State of a simulated lock: -1 is a writer.
#[derive(Default)]
struct LockSt {
    holders: i64,
    poisoned: bool,
}

struct RawLock {
    st: Mutex<LockSt>,
    cv: Condvar,
}

impl RawLock {
    const fn new() -> Self {
        RawLock { st: Mutex::new(LockSt { holders: 0, poisoned: false }), cv: Condvar::new() }
    }
    fn g(&self) -> std::sync::MutexGuard<'_, LockSt> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    fn try_acquire(&self, write: bool) -> Option<bool> {
        let mut g = self.g();
        if write && g.holders == 0 {
            g.holders = -1;
            Some(g.poisoned)
        } else if !write && g.holders >= 0 {
            g.holders += 1;
            Some(g.poisoned)
        } else {
            None
        }
    }
    /// Returns whether the lock is poisoned.
    fn acquire(&self, write: bool) -> bool {
        yield_point();
        loop {
            if let Some(p) = self.try_acquire(write) {
                return p;
            }
            match me() {
                Some((s, i)) => {
                    if s.switch(i, Status::Blocked(self.key())) {
                        if std::thread::panicking() {
                            // Cannot unwind twice: wait for real, the holder is unwinding too.
                            std::thread::yield_now();
                        } else {
                            kill_self(&s, i);
                        }
                    }
                }
                None if hook(true) => {}
                None if crate::simos::in_sim() => panic!("deadlock: the lock is held by this very thread"),
                None => {
                    let g = self.g();
                    let _g = self.cv.wait_timeout(g, std::time::Duration::from_millis(5));
                }
            }
        }
    }
    fn release(&self, write: bool, was_panicking: bool) {
        {
            let mut g = self.g();
            if write {
                g.holders = 0;
                if std::thread::panicking() && !was_panicking {
                    g.poisoned = true;
                }
            } else {
                g.holders -= 1;
            }
        }
        self.cv.notify_all();
        if let Some((s, _)) = me() {
            s.wake(self.key());
        }
        yield_point();
    }
}

pub struct SimRwLock<T: ?Sized> {
    raw: RawLock,
    data: UnsafeCell<T>,
}
// SAFETY: as std::sync::RwLock.
unsafe impl<T: ?Sized + Send> Send for SimRwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for SimRwLock<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for SimRwLock<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for SimRwLock<T> {}

pub struct SimRwLockReadGuard<'a, T: ?Sized> {
    l: &'a SimRwLock<T>,
}
pub struct SimRwLockWriteGuard<'a, T: ?Sized> {
    l: &'a SimRwLock<T>,
    panicking: bool,
}
// SAFETY: as the standard guards.
unsafe impl<T: ?Sized + Sync> Sync for SimRwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for SimRwLockWriteGuard<'_, T> {}

impl<T> SimRwLock<T> {
    pub const fn new(t: T) -> Self {
        SimRwLock { raw: RawLock::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.raw.g().poisoned;
        let v = self.data.into_inner();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> SimRwLock<T> {
    pub fn read(&self) -> LockResult<SimRwLockReadGuard<'_, T>> {
        let p = self.raw.acquire(false);
        let g = SimRwLockReadGuard { l: self };
        if p { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn write(&self) -> LockResult<SimRwLockWriteGuard<'_, T>> {
        let p = self.raw.acquire(true);
        let g = SimRwLockWriteGuard { l: self, panicking: std::thread::panicking() };
        if p { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn try_read(&self) -> TryLockResult<SimRwLockReadGuard<'_, T>> {
        yield_point();
        match self.raw.try_acquire(false) {
            None => Err(TryLockError::WouldBlock),
            Some(true) => Err(TryLockError::Poisoned(PoisonError::new(SimRwLockReadGuard { l: self }))),
            Some(false) => Ok(SimRwLockReadGuard { l: self }),
        }
    }
    pub fn try_write(&self) -> TryLockResult<SimRwLockWriteGuard<'_, T>> {
        yield_point();
        let panicking = std::thread::panicking();
        match self.raw.try_acquire(true) {
            None => Err(TryLockError::WouldBlock),
            Some(true) => Err(TryLockError::Poisoned(PoisonError::new(SimRwLockWriteGuard { l: self, panicking }))),
            Some(false) => Ok(SimRwLockWriteGuard { l: self, panicking }),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.g().poisoned
    }
    pub fn clear_poison(&self) {
        self.raw.g().poisoned = false;
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.raw.g().poisoned;
        let v = self.data.get_mut();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: Default> Default for SimRwLock<T> {
    fn default() -> Self {
        SimRwLock::new(T::default())
    }
}
impl<T> From<T> for SimRwLock<T> {
    fn from(t: T) -> Self {
        SimRwLock::new(t)
    }
}
impl<T: ?Sized> std::fmt::Debug for SimRwLock<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized> Deref for SimRwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        // SAFETY: a reader is registered.
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> Deref for SimRwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        // SAFETY: the only holder.
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> DerefMut for SimRwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        // SAFETY: the only holder.
        unsafe { &mut *self.l.data.get() }
    }
}
impl<T: ?Sized> Drop for SimRwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.release(false, true);
    }
}
impl<T: ?Sized> Drop for SimRwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.release(true, self.panicking);
    }
}

pub struct SimMutex<T: ?Sized> {
    raw: RawLock,
    data: UnsafeCell<T>,
}
// SAFETY: as std::sync::Mutex.
unsafe impl<T: ?Sized + Send> Send for SimMutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for SimMutex<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for SimMutex<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for SimMutex<T> {}

pub struct SimMutexGuard<'a, T: ?Sized> {
    l: &'a SimMutex<T>,
    panicking: bool,
}
// SAFETY: as the standard guard.
unsafe impl<T: ?Sized + Sync> Sync for SimMutexGuard<'_, T> {}

impl<T> SimMutex<T> {
    pub const fn new(t: T) -> Self {
        SimMutex { raw: RawLock::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.raw.g().poisoned;
        let v = self.data.into_inner();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> SimMutex<T> {
    pub fn lock(&self) -> LockResult<SimMutexGuard<'_, T>> {
        let p = self.raw.acquire(true);
        let g = SimMutexGuard { l: self, panicking: std::thread::panicking() };
        if p { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn try_lock(&self) -> TryLockResult<SimMutexGuard<'_, T>> {
        yield_point();
        let panicking = std::thread::panicking();
        match self.raw.try_acquire(true) {
            None => Err(TryLockError::WouldBlock),
            Some(true) => Err(TryLockError::Poisoned(PoisonError::new(SimMutexGuard { l: self, panicking }))),
            Some(false) => Ok(SimMutexGuard { l: self, panicking }),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.g().poisoned
    }
    pub fn clear_poison(&self) {
        self.raw.g().poisoned = false;
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.raw.g().poisoned;
        let v = self.data.get_mut();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: Default> Default for SimMutex<T> {
    fn default() -> Self {
        SimMutex::new(T::default())
    }
}
impl<T> From<T> for SimMutex<T> {
    fn from(t: T) -> Self {
        SimMutex::new(t)
    }
}
impl<T: ?Sized> std::fmt::Debug for SimMutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized> Deref for SimMutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        // SAFETY: the only holder.
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> DerefMut for SimMutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        // SAFETY: the only holder.
        unsafe { &mut *self.l.data.get() }
    }
}
impl<T: ?Sized> Drop for SimMutexGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.release(true, self.panicking);
    }
}
