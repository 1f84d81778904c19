//! The operating system seam: entropy and clocks of the threads that take part in a simulated run.
//!
//! The symbols below take the place of libc's in the harness executable, for the standard library and
//! every dependency alike. Threads that are not part of a run get the real system calls.

use crate::rng::Rng;
use std::cell::Cell;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};

thread_local! {
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

/// What the simulated entropy source does next.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EntropyFault {
    /// Deliver all the bytes.
    None,
    /// Deliver at most this many bytes in one call.
    Short(usize),
    /// Fail with this errno.
    Errno(i32),
}

struct Entropy {
    rng: Rng,
    plan: Vec<EntropyFault>,
    forever: EntropyFault,
    log: Option<Vec<u8>>,
    calls: u64,
    failed: u64,
    short: u64,
}

static ENTROPY: Mutex<Option<Entropy>> = Mutex::new(None);
static REALTIME_NS: AtomicI64 = AtomicI64::new(0);
static MONO_NS: AtomicI64 = AtomicI64::new(0);
static CLOCK_ON: AtomicBool = AtomicBool::new(false);
static NO_SLEEP: AtomicBool = AtomicBool::new(false);

/// Makes the current thread part of the run.
pub fn enter() {
    IN_SIM.with(|c| c.set(true));
}
pub fn leave() {
    IN_SIM.with(|c| c.set(false));
}
pub fn in_sim() -> bool {
    IN_SIM.try_with(|c| c.get()).unwrap_or(false)
}

pub fn reset(seed: u64) {
    *ENTROPY.lock().unwrap_or_else(|e| e.into_inner()) = Some(Entropy {
        rng: Rng::new(seed),
        plan: Vec::new(),
        forever: EntropyFault::None,
        log: None,
        calls: 0,
        failed: 0,
        short: 0,
    });
    REALTIME_NS.store(1_600_000_000_000_000_000, Ordering::SeqCst);
    MONO_NS.store(1_000_000_000_000, Ordering::SeqCst);
    NO_SLEEP.store(false, Ordering::SeqCst);
    CLOCK_ON.store(true, Ordering::SeqCst);
}

/// Next results of the entropy source, then `forever`.
pub fn entropy_plan(plan: Vec<EntropyFault>, forever: EntropyFault) {
    if let Some(e) = ENTROPY.lock().unwrap().as_mut() {
        e.plan = plan;
        e.plan.reverse();
        e.forever = forever;
        e.failed = 0;
        e.short = 0;
        e.calls = 0;
    }
}
/// Starts recording delivered bytes.
pub fn entropy_record() {
    if let Some(e) = ENTROPY.lock().unwrap().as_mut() {
        e.log = Some(Vec::new());
    }
}
/// Bytes delivered since `entropy_record`.
pub fn entropy_taken() -> Vec<u8> {
    ENTROPY.lock().unwrap().as_mut().and_then(|e| e.log.take()).unwrap_or_default()
}
/// (calls, failed, short) since the last plan.
pub fn entropy_counts() -> (u64, u64, u64) {
    ENTROPY.lock().unwrap().as_ref().map(|e| (e.calls, e.failed, e.short)).unwrap_or_default()
}

pub fn set_realtime_ns(v: i64) {
    REALTIME_NS.store(v, Ordering::SeqCst);
}
pub fn mono_ns() -> i64 {
    MONO_NS.load(Ordering::SeqCst)
}
/// While set, sleeping takes no time (destructors of a machine that is switched off).
pub fn no_sleep(v: bool) {
    NO_SLEEP.store(v, Ordering::SeqCst);
}
pub fn realtime_ns() -> i64 {
    REALTIME_NS.load(Ordering::SeqCst)
}
pub fn advance_ns(d: i64) {
    REALTIME_NS.fetch_add(d, Ordering::SeqCst);
    MONO_NS.fetch_add(d.max(0), Ordering::SeqCst);
}
/// Moves the wall clock only.
pub fn jump_realtime_ns(d: i64) {
    REALTIME_NS.fetch_add(d, Ordering::SeqCst);
}

fn deliver(buf: *mut u8, len: usize) -> isize {
    let mut g = match ENTROPY.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    let Some(e) = g.as_mut() else {
        return raw_getrandom(buf, len, 0);
    };
    e.calls += 1;
    let f = e.plan.pop().unwrap_or(e.forever);
    let n = match f {
        EntropyFault::None => len,
        EntropyFault::Short(k) => {
            if k < len {
                e.short += 1;
            }
            k.clamp(1, len.max(1)).min(len)
        }
        EntropyFault::Errno(no) => {
            e.failed += 1;
            set_errno(no);
            return -1;
        }
    };
    for i in 0..n {
        let b = e.rng.next() as u8;
        if let Some(l) = e.log.as_mut() {
            l.push(b);
        }
        // SAFETY: the caller gave a buffer of `len` bytes and i < n <= len.
        unsafe { *buf.add(i) = b };
    }
    n as isize
}

fn raw_getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    cvt(unsafe { raw6(318, buf as usize, len, flags as usize, 0, 0, 0) })
}

fn cvt(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

unsafe extern "C" {
    fn __errno_location() -> *mut i32;
}
fn set_errno(e: i32) {
    unsafe { *__errno_location() = e };
}

#[cfg(target_arch = "x86_64")]
unsafe fn raw6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}

/// # Safety
/// As getrandom(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if in_sim() { deliver(buf, len) } else { raw_getrandom(buf, len, flags) }
}

/// # Safety
/// As syscall(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == 318 && in_sim() {
        return deliver(a as *mut u8, b);
    }
    cvt(unsafe { raw6(n, a, b, c, d, e, f) })
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

/// # Safety
/// As clock_gettime(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if in_sim() && CLOCK_ON.load(Ordering::Relaxed) {
        let v = match id {
            0 | 5 => REALTIME_NS.load(Ordering::SeqCst),
            _ => MONO_NS.load(Ordering::SeqCst),
        };
        unsafe {
            (*ts).sec = v.div_euclid(1_000_000_000);
            (*ts).nsec = v.rem_euclid(1_000_000_000);
        }
        return 0;
    }
    cvt(unsafe { raw6(228, id as usize, ts as usize, 0, 0, 0, 0) }) as i32
}

/// Sleeping only moves the simulated clock.
///
/// # Safety
/// As clock_nanosleep(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if in_sim() && CLOCK_ON.load(Ordering::Relaxed) {
        let (s, n) = unsafe { ((*req).sec, (*req).nsec) };
        let mut d = s * 1_000_000_000 + n;
        if flags & 1 != 0 {
            d -= if matches!(id, 0 | 5) { REALTIME_NS.load(Ordering::SeqCst) } else { MONO_NS.load(Ordering::SeqCst) };
        }
        if !NO_SLEEP.load(Ordering::SeqCst) {
            advance_ns(d.max(0));
        }
        return 0;
    }
    (-unsafe { raw6(230, id as usize, flags as usize, req as usize, rem as usize, 0, 0) }) as i32
}
