//! P01: a secret is gone from memory when its owner is.

use simkit::coop;
use simkit::{Ctx, Fail, Res, ensure, ev};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use witnet_crypto::key::{ExtendedSK, KeyPath, MasterKeyGen};
use witnet_crypto::pbkdf2::pbkdf2_sha256;
use witnet_protected::{Protected, ProtectedString};

/// The system's allocator, with a look at what is given back.
pub struct Watch;

const MAX: usize = 64;
const LEN: usize = 32;
struct Secrets(UnsafeCell<[[u8; LEN]; MAX]>);
// SAFETY: written only by the thread that runs, under the scheduler; read by the same.
unsafe impl Sync for Secrets {}
static SECRETS: Secrets = Secrets(UnsafeCell::new([[0; LEN]; MAX]));
static COUNT: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
static LEAKS: AtomicU64 = AtomicU64::new(0);
static WHICH: AtomicUsize = AtomicUsize::new(usize::MAX);
static BLOCK: AtomicUsize = AtomicUsize::new(0);

fn search(p: *const u8, size: usize) {
    let n = COUNT.load(Ordering::SeqCst);
    // SAFETY: the block is still allocated. Bytes that were never written are read as well: they are compared, nothing else.
    let b = unsafe { std::slice::from_raw_parts(p, size) };
    let s = unsafe { &*SECRETS.0.get() };
    for i in 0..=size - LEN {
        for (k, x) in s.iter().enumerate().take(n) {
            if b[i] == x[0] && b[i + 1] == x[1] && b[i..i + LEN] == x[..] {
                LEAKS.fetch_add(1, Ordering::SeqCst);
                WHICH.store(k, Ordering::SeqCst);
                BLOCK.store(size, Ordering::SeqCst);
                return;
            }
        }
    }
}

// SAFETY: forwards to the system's allocator.
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Ordering::Relaxed) { unsafe { System.alloc_zeroed(l) } } else { unsafe { System.alloc(l) } }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() >= LEN && l.size() <= 1 << 16 && ON.load(Ordering::Relaxed) && simkit::simos::in_sim() {
            search(p, l.size());
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n <= l.size() || !ON.load(Ordering::Relaxed) {
            return unsafe { System.realloc(p, l, n) };
        }
        unsafe {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size());
                self.dealloc(p, l);
            }
            q
        }
    }
}

fn register(s: &[u8]) {
    let n = COUNT.load(Ordering::SeqCst);
    if n < MAX && s.len() >= LEN {
        // SAFETY: one thread runs at a time.
        unsafe { (&mut *SECRETS.0.get())[n].copy_from_slice(&s[..LEN]) };
        COUNT.store(n + 1, Ordering::SeqCst);
    }
}

struct Armed;
impl Armed {
    fn new() -> Armed {
        COUNT.store(0, Ordering::SeqCst);
        LEAKS.store(0, Ordering::SeqCst);
        ON.store(true, Ordering::SeqCst);
        Armed
    }
}
impl Drop for Armed {
    fn drop(&mut self) {
        ON.store(false, Ordering::SeqCst);
        COUNT.store(0, Ordering::SeqCst);
    }
}

/// A buffer of the harness itself: wiped by the harness.
struct Wiped(Vec<u8>);
impl Drop for Wiped {
    fn drop(&mut self) {
        for b in self.0.iter_mut() {
            // SAFETY: a valid byte.
            unsafe { std::ptr::write_volatile(b, 0) };
        }
    }
}

enum Val {
    P(Protected),
    S(ProtectedString),
}

fn fresh(ctx: &Ctx) -> Wiped {
    let n = LEN + ctx.skewed(64) as usize;
    let mut v = Vec::with_capacity(n);
    let mut r = ctx.sub_rng();
    for _ in 0..n {
        // Printable, so that it is also a text; never zero.
        v.push(b'!' + (r.below(90)) as u8);
    }
    register(&v);
    Wiped(v)
}

fn make(ctx: &Ctx) -> (Val, Wiped, &'static str) {
    let w = fresh(ctx);
    let text = || std::str::from_utf8(&w.0).unwrap();
    let (v, n) = match ctx.below(7) {
        0 => (Val::P(Protected::new(w.0.clone())), "new(vec)"),
        1 => (Val::P(Protected::from(&w.0[..])), "from(slice)"),
        2 => (Val::P(Protected::new(text().to_string())), "new(string)"),
        3 => (Val::S(ProtectedString::new(text())), "text new(str)"),
        4 => (Val::S(ProtectedString::new(text().to_string())), "text new(string)"),
        5 => (Val::S(ProtectedString::from(text())), "text from(str)"),
        _ => (Val::P(Protected::from(ProtectedString::from(text()))), "from(text)"),
    };
    (v, w, n)
}

fn bytes(v: &Val) -> &[u8] {
    match v {
        Val::P(p) => p.as_ref(),
        Val::S(s) => s.as_ref(),
    }
}

fn verdict(what: &str) -> Res {
    let n = LEAKS.load(Ordering::SeqCst);
    ensure!(
        n == 0,
        "secret-in-freed-memory",
        "{what}: secret number {} was in a block of {} bytes given back to the allocator",
        WHICH.load(Ordering::SeqCst),
        BLOCK.load(Ordering::SeqCst)
    );
    Ok(())
}

struct Boom;

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let armed = Armed::new();
    let r = match ctx.below(4) {
        0 => keys(ctx),
        1 => threads(ctx),
        _ => values(ctx),
    };
    drop(armed);
    r
}

fn hide(v: &Val) -> Result<(), Fail> {
    let d = match v {
        Val::P(p) => format!("{p:?}"),
        Val::S(s) => format!("{s:?}"),
    };
    let b = bytes(v);
    let t = String::from_utf8_lossy(b);
    let dec = format!("{}, {}, {}", b[0], b[1], b[2]);
    let leak = d.contains(&t[..6]) || d.contains(&dec) || d.to_lowercase().contains(&hex::encode(&b[..6]));
    ensure!(!leak, "secret-printed", "the debug output shows the secret: {d}");
    Ok(())
}

fn values(ctx: &Ctx) -> Res {
    let mut live: Vec<(Val, Wiped, &'static str)> = Vec::new();
    let mut shape = 0u64;
    let mut boxes: BTreeMap<u64, (Val, Wiped, &'static str)> = BTreeMap::new();
    while ctx.more(30) {
        if COUNT.load(Ordering::SeqCst) + 2 >= MAX {
            break;
        }
        let k = ctx.below(11);
        let what;
        if live.is_empty() || k == 0 {
            live.push(make(ctx));
            what = live.last().unwrap().2;
        } else {
            let i = ctx.idx(live.len());
            match k {
                1 => {
                    live.remove(i);
                    what = "drop";
                }
                2 => {
                    let x = live.swap_remove(i);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                        let _x = x;
                        std::panic::resume_unwind(Box::new(Boom))
                    }));
                    if let Err(e) = r
                        && !e.is::<Boom>()
                    {
                        return Err(Fail::new("panic", simkit::panic_text(&*e)));
                    }
                    ctx.fault("unwind");
                    what = "unwind";
                }
                3 => {
                    let (v, w, n) = &live[i];
                    let v2 = match v {
                        Val::P(p) => Val::P(p.clone()),
                        Val::S(s) => Val::S(s.clone()),
                    };
                    let c = (v2, Wiped(w.0.clone()), *n);
                    live.push(c);
                    what = "clone";
                }
                4 => {
                    let (v, w, n) = live.swap_remove(i);
                    ctx.probe("moved_out");
                    match v {
                        Val::S(s) => live.push((Val::P(s.into()), w, n)),
                        p => {
                            let k = ctx.below(100);
                            boxes.insert(k, (p, w, n));
                        }
                    }
                    what = "move";
                }
                5 => {
                    let (v, w, n) = make(ctx);
                    let old = std::mem::replace(&mut live[i], (v, w, n));
                    drop(old);
                    ctx.probe("replaced");
                    what = "replace";
                }
                6 => {
                    let w2 = fresh(ctx);
                    let (v, w, _) = &mut live[i];
                    if let Val::P(p) = v {
                        let m = p.len().min(w2.0.len());
                        if ctx.chance(1, 2) {
                            p.as_mut()[..m].copy_from_slice(&w2.0[..m]);
                        } else {
                            p[..m].copy_from_slice(&w2.0[..m]);
                        }
                        w.0[..m].copy_from_slice(&w2.0[..m]);
                        ctx.probe("mutated");
                    }
                    what = "mutate";
                }
                7 => {
                    let x = live.swap_remove(i);
                    let waker = Waker::noop();
                    let mut f = Box::pin(async move {
                        let y = x;
                        std::future::pending::<()>().await;
                        drop(y);
                    });
                    for _ in 0..ctx.below(3) {
                        let _: Poll<()> = f.as_mut().poll(&mut Context::from_waker(waker));
                    }
                    drop(f);
                    ctx.fault("future_cancelled");
                    what = "cancel";
                }
                8 => {
                    let (v, w, _) = &live[i];
                    let back = match v {
                        Val::P(p) => {
                            let b = Wiped(bincode::serialize(p).map_err(|e| Fail::new("not-stored", e.to_string()))?);
                            Val::P(bincode::deserialize(&b.0).map_err(|e| Fail::new("not-restored", e.to_string()))?)
                        }
                        Val::S(s) => {
                            let b = Wiped(bincode::serialize(s).map_err(|e| Fail::new("not-stored", e.to_string()))?);
                            Val::S(bincode::deserialize(&b.0).map_err(|e| Fail::new("not-restored", e.to_string()))?)
                        }
                    };
                    let c = (back, Wiped(w.0.clone()), "serde");
                    live.push(c);
                    ctx.probe("serde");
                    what = "serde";
                }
                9 => {
                    hide(&live[i].0)?;
                    what = "debug";
                }
                _ => {
                    boxes.pop_first();
                    what = "drop boxed";
                }
            }
        }
        ctx.op(what);
        ev!(ctx, "{what}");
        shape = simkit::rng::mix(what, &[shape]);
        for (v, w, n) in &live {
            ensure!(bytes(v) == &w.0[..], "wrong-value", "a live value ({n}) changed during {what}");
        }
        verdict(what)?;
    }
    drop(live);
    drop(boxes);
    ctx.state(shape);
    verdict("the end of all owners")
}

fn threads(ctx: &Ctx) -> Res {
    let n = 2 + ctx.idx(2);
    let shared: Arc<Mutex<Vec<(Val, Wiped, &'static str)>>> = Arc::default();
    let mut tasks: Vec<coop::Task> = Vec::new();
    for t in 0..n {
        let (c, sh) = (ctx.clone(), shared.clone());
        let steps = 1 + ctx.idx(5);
        tasks.push((
            format!("t{t}"),
            Box::new(move || {
                let mut mine = Vec::new();
                for _ in 0..steps {
                    if COUNT.load(Ordering::SeqCst) + 2 >= MAX {
                        return;
                    }
                    mine.push(make(&c));
                    coop::yield_point();
                    if c.chance(1, 2) {
                        let x = mine.pop().unwrap();
                        sh.lock().unwrap().push(x);
                    }
                    coop::yield_point();
                    if c.chance(1, 2)
                        && let Some(x) = { sh.lock().unwrap().pop() }
                    {
                        coop::yield_point();
                        match x.0 {
                            Val::S(s) => drop(Protected::from(s)),
                            p => drop(p),
                        }
                    }
                }
            }),
        ));
    }
    let out = coop::run(ctx, tasks, 12);
    for e in &out.ends {
        if let coop::End::Panicked(m) = e {
            return Err(Fail::new("panic", m.clone()));
        }
    }
    shared.lock().unwrap_or_else(|e| e.into_inner()).clear();
    ev!(ctx, "{:?}", out.ends);
    verdict("threads that end or die")
}

/// Keys leave no copy of the secret key on the heap.
fn keys(ctx: &Ctx) -> Res {
    let seed = ctx.bytes(32);
    // Twice: once to know the secrets, once watched.
    ON.store(false, Ordering::SeqCst);
    let path: Vec<u32> = (0..ctx.skewed(20)).map(|_| ctx.below(1 << 32) as u32).collect();
    let kp: KeyPath = path.clone().into();
    let e = |x: String| Fail::new("spurious-error", x);
    let m = MasterKeyGen::new(&seed[..]).generate().map_err(|x| e(x.to_string()))?;
    let k = m.derive(&kp).map_err(|x| e(x.to_string()))?;
    register(k.secret().as_ref());
    register(m.secret().as_ref());
    ON.store(true, Ordering::SeqCst);
    while ctx.more(6) {
        let what = match ctx.below(6) {
            0 => {
                ctx.probe("key_concat");
                let c = k.concat();
                ensure!(c.len() == 64, "wrong-value", "length of key and chain code");
                "key_concat"
            }
            1 => {
                drop(k.secret());
                drop(k.chain_code());
                "key_secret"
            }
            2 => {
                ctx.probe("key_export");
                let s = k.to_slip32(&kp).map_err(|x| e(x.to_string()))?;
                drop(Wiped(s.into_bytes()));
                "key_export"
            }
            3 => {
                ctx.probe("key_import");
                let s = Wiped(k.to_slip32(&kp).map_err(|x| e(x.to_string()))?.into_bytes());
                let (k2, _) = ExtendedSK::from_slip32(std::str::from_utf8(&s.0).unwrap()).map_err(|x| e(x.to_string()))?;
                ensure!(k2 == k, "wrong-value", "imported key");
                "key_import"
            }
            4 => {
                let again = m.derive(&kp).map_err(|x| e(x.to_string()))?;
                ensure!(again == k, "wrong-value", "derived key");
                "key_derive"
            }
            _ => {
                let key = pbkdf2_sha256(&seed, b"salt", 1 + ctx.below(3) as u32);
                register(key.as_ref());
                if ctx.chance(1, 2) {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                        let _k = key;
                        std::panic::resume_unwind(Box::new(Boom))
                    }));
                    drop(r);
                    ctx.fault("unwind");
                }
                "pbkdf2"
            }
        };
        ctx.op(what);
        ev!(ctx, "{what} at depth {}", path.len());
        verdict(&format!("{what} at depth {}", path.len()))?;
    }
    Ok(())
}
