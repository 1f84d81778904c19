//! One simulated execution: every choice it makes is drawn from (and recorded on) a tape.

use crate::rng::{Rng, fnv, mix};
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex, MutexGuard};

/// A broken property.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Fail {
    /// Kind of violation: shrinking keeps it.
    pub class: String,
    /// What was observed.
    pub msg: String,
    /// Identifies a specific defect, for the known-findings file.
    pub sig: Option<String>,
}

impl Fail {
    pub fn new(class: &str, msg: impl Into<String>) -> Fail {
        Fail { class: class.into(), msg: msg.into(), sig: None }
    }
    pub fn with_sig(mut self, sig: impl Into<String>) -> Fail {
        self.sig = Some(sig.into());
        self
    }
}

pub type Res<T = ()> = Result<T, Fail>;

/// `ensure!(cond, "class", "fmt", args..)`: a violation unless `cond`.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !$c { return Err($crate::Fail::new($class, format!($($a)*))); }
    };
}
/// `ensure_eq!(got, want, "class", "what ..")`.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $class:expr, $($m:tt)*) => {{
        match (&$a, &$b) {
            (a, b) => {
                if a != b {
                    return Err($crate::Fail::new($class, format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)));
                }
            }
        }
    }};
}
/// Appends to the event log of the run (hashed always, kept when tracing).
#[macro_export]
macro_rules! ev {
    ($ctx:expr, $($a:tt)*) => { $ctx.event(format_args!($($a)*)) };
}

enum Src {
    Gen(Rng),
    Tape(Vec<u64>, usize),
}

#[derive(Default, Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Stats {
    pub ops: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub switches: u64,
    pub steps: u64,
    pub draws: u64,
}

pub(crate) struct Inner {
    src: Src,
    pub rec: Vec<u64>,
    pub marks: Vec<usize>,
    steps: usize,
    target: Option<usize>,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub hash: u64,
    pub stats: Stats,
    pub states: HashSet<u64>,
    pub now_ns: u64,
    pub nontrivial: bool,
    buf: String,
}

#[derive(Clone)]
pub struct Ctx(Arc<Mutex<Inner>>);

/// Tapes longer than this are cut: draws past it return 0.
const MAX_TAPE: usize = 400_000;

impl Ctx {
    fn with(src: Src, trace_on: bool) -> Ctx {
        Ctx(Arc::new(Mutex::new(Inner {
            src,
            rec: Vec::new(),
            marks: Vec::new(),
            steps: 0,
            target: None,
            trace_on,
            trace: Vec::new(),
            hash: 0,
            stats: Stats::default(),
            states: HashSet::new(),
            now_ns: 0,
            nontrivial: false,
            buf: String::new(),
        })))
    }
    pub fn generate(seed: u64, trace_on: bool) -> Ctx {
        Ctx::with(Src::Gen(Rng::new(seed)), trace_on)
    }
    pub fn from_tape(tape: Vec<u64>, trace_on: bool) -> Ctx {
        Ctx::with(Src::Tape(tape, 0), trace_on)
    }
    pub(crate) fn lock(&self) -> MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// The one source of choice: uniform in 0..n.
    pub fn below(&self, n: u64) -> u64 {
        let mut g = self.lock();
        let g = &mut *g;
        let v = if n <= 1 {
            // Still on the tape, so that positions do not depend on the bound.
            if let Src::Tape(_, p) = &mut g.src {
                *p += 1;
            }
            0
        } else if g.rec.len() >= MAX_TAPE {
            0
        } else {
            match &mut g.src {
                Src::Gen(r) => r.below(n),
                Src::Tape(t, p) => {
                    let v = t.get(*p).copied().unwrap_or(0) % n;
                    *p += 1;
                    v
                }
            }
        };
        g.rec.push(v);
        g.stats.draws += 1;
        v
    }
    pub fn idx(&self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            self.below(1);
            return lo;
        }
        let span = hi - lo;
        if span == u64::MAX { self.u64() } else { lo + self.below(span + 1) }
    }
    pub fn u64(&self) -> u64 {
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }
    /// True with probability num/den; a zeroed tape says false.
    pub fn chance(&self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den.saturating_sub(num)
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// Index drawn with these weights.
    pub fn weighted(&self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// Mostly small values, sometimes huge: sizes, amounts.
    pub fn skewed(&self, max: u64) -> u64 {
        match self.below(8) {
            0..=3 => self.range(0, max.min(4)),
            4..=5 => self.range(0, max.min(64)),
            6 => self.range(0, max),
            _ => max - self.range(0, max.min(3)),
        }
    }
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        // One draw seeds the content: shrinks quickly.
        let s = self.below(1 << 20);
        let mut r = Rng::new(mix("bytes", &[s, n as u64]));
        (0..n).map(|_| r.next() as u8).collect()
    }
    /// A private generator whose seed is one draw.
    pub fn sub_rng(&self) -> Rng {
        Rng::new(mix("sub", &[self.below(1 << 32)]))
    }
    /// Starts the next step of the workload; false when the run should end.
    pub fn more(&self, max: usize) -> bool {
        let mut g = self.lock();
        let g = &mut *g;
        let pos = g.rec.len();
        g.marks.push(pos);
        if g.steps >= max {
            return false;
        }
        let go = match &mut g.src {
            Src::Gen(r) => {
                let t = *g.target.get_or_insert_with(|| {
                    let m = max as u64;
                    let t = match r.below(4) {
                        0 => 1 + r.below(m.min(8)),
                        1 => 1 + r.below(m.div_ceil(4)),
                        2 => 1 + r.below(m),
                        _ => m,
                    };
                    t as usize
                });
                u64::from(g.steps < t)
            }
            Src::Tape(t, p) => {
                let v = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                u64::from(v != 0)
            }
        };
        g.rec.push(go);
        if go == 1 {
            g.steps += 1;
            g.stats.steps += 1;
        }
        go == 1
    }
    /// Starts a new phase of the workload: `more` counts from zero again.
    pub fn phase(&self) {
        let mut g = self.lock();
        g.steps = 0;
        g.target = None;
    }
    /// Marks a point where the tape may be cut (an event of the scheduler, say).
    pub fn mark(&self) {
        let mut g = self.lock();
        let p = g.rec.len();
        g.marks.push(p);
    }

    pub fn event(&self, a: std::fmt::Arguments<'_>) {
        use std::fmt::Write;
        let mut g = self.lock();
        let g = &mut *g;
        g.buf.clear();
        let _ = g.buf.write_fmt(a);
        g.hash = g.hash.rotate_left(5) ^ fnv(g.buf.as_bytes());
        g.hash = g.hash.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        if g.trace_on && g.trace.len() < 20_000 {
            let s = format!("[{:>12.6}] {}", g.now_ns as f64 / 1e9, g.buf);
            g.trace.push(s);
        }
    }
    pub fn op(&self, kind: &str) {
        bump(&mut self.lock().stats.ops, kind);
    }
    /// A fault that really fired.
    pub fn fault(&self, kind: &str) {
        let mut g = self.lock();
        bump(&mut g.stats.faults, kind);
        g.nontrivial = true;
    }
    /// A rare condition that was reached.
    pub fn probe(&self, kind: &str) {
        bump(&mut self.lock().stats.probes, kind);
    }
    pub fn probe_if(&self, c: bool, kind: &str) {
        if c {
            self.probe(kind)
        }
    }
    /// Marks the run as non-trivial (a fault or a context switch does it too).
    pub fn nontrivial(&self) {
        self.lock().nontrivial = true;
    }
    pub fn switch(&self) {
        let mut g = self.lock();
        g.stats.switches += 1;
        g.nontrivial = true;
    }
    /// A state reached, under the scenario's own measure.
    pub fn state(&self, h: u64) {
        let mut g = self.lock();
        if g.states.len() < 50_000 {
            g.states.insert(h);
        }
    }
    pub fn now_ns(&self) -> u64 {
        self.lock().now_ns
    }
    pub fn advance_ns(&self, d: u64) {
        let mut g = self.lock();
        g.now_ns += d;
        g.stats.sim_ns += d;
    }
    pub fn advance_secs(&self, d: u64) {
        self.advance_ns(d.saturating_mul(1_000_000_000));
    }
    pub fn tracing(&self) -> bool {
        self.lock().trace_on
    }
}

fn bump(m: &mut BTreeMap<String, u64>, k: &str) {
    if let Some(v) = m.get_mut(k) {
        *v += 1;
    } else {
        m.insert(k.into(), 1);
    }
}
