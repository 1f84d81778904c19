//! S01: the in-memory backend is linearizable, batches are atomic and a scan is one snapshot.

use simkit::coop;
use simkit::lin::{Op, linearizable};
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use witnet_storage::backends::hashmap::Backend;
use witnet_storage::storage::{Storage, WriteBatch};

pub type Key = Vec<u8>;
pub type Val = Vec<u8>;
pub type Model = BTreeMap<Key, Val>;

#[derive(Clone, Debug)]
pub enum Call {
    Get(Key),
    Put(Key, Val),
    Delete(Key),
    Batch(Vec<(Key, Option<Val>)>),
    Scan(Key),
    /// A scan whose thread dies after that many items.
    DyingScan(Key, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Unit,
    Val(Option<Val>),
    Pairs(Vec<(Key, Val)>),
    Err(String),
}

pub fn step(s: &mut Model, c: &Call, r: Option<&Ret>) -> bool {
    match c {
        Call::Get(k) => r.is_none_or(|r| *r == Ret::Val(s.get(k).cloned())),
        Call::Put(k, v) => {
            s.insert(k.clone(), v.clone());
            r.is_none_or(|r| *r == Ret::Unit)
        }
        Call::Delete(k) => {
            s.remove(k);
            r.is_none_or(|r| *r == Ret::Unit)
        }
        Call::Batch(b) => {
            for (k, v) in b {
                match v {
                    Some(v) => {
                        s.insert(k.clone(), v.clone());
                    }
                    None => {
                        s.remove(k);
                    }
                }
            }
            r.is_none_or(|r| *r == Ret::Unit)
        }
        Call::Scan(p) => {
            r.is_none_or(|r| {
                *r == Ret::Pairs(s.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect())
            })
        }
        Call::DyingScan(..) => true,
    }
}

pub fn mk_batch(b: &[(Key, Option<Val>)]) -> WriteBatch {
    let mut w = WriteBatch::default();
    for (k, v) in b {
        match v {
            Some(v) => w.put(k.clone(), v.clone()),
            None => w.delete(k.clone()),
        }
    }
    w
}

struct ReaderDied;

pub fn perform<S: Storage + ?Sized>(s: &S, c: &Call) -> Ret {
    let unit = |r: Result<(), anyhow::Error>| match r {
        Ok(()) => Ret::Unit,
        Err(e) => Ret::Err(e.to_string()),
    };
    match c {
        Call::Get(k) => match s.get(k) {
            Ok(v) => Ret::Val(v),
            Err(e) => Ret::Err(e.to_string()),
        },
        Call::Put(k, v) => unit(s.put(k.clone(), v.clone())),
        Call::Delete(k) => unit(s.delete(k)),
        Call::Batch(b) => unit(s.write(mk_batch(b))),
        Call::Scan(p) => match s.prefix_iterator(p) {
            Ok(mut it) => {
                let mut out = Vec::new();
                loop {
                    coop::yield_point();
                    match it.next() {
                        Some(x) => out.push(x),
                        None => break,
                    }
                    if out.len() > 10_000 {
                        return Ret::Err("the iterator does not end".into());
                    }
                }
                out.sort();
                Ret::Pairs(out)
            }
            Err(e) => Ret::Err(e.to_string()),
        },
        Call::DyingScan(p, n) => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if let Ok(mut it) = s.prefix_iterator(p) {
                    for _ in 0..*n {
                        coop::yield_point();
                        it.next();
                    }
                    std::panic::resume_unwind(Box::new(ReaderDied));
                }
            }));
            if let Err(e) = r
                && !e.is::<ReaderDied>()
            {
                std::panic::resume_unwind(e);
            }
            Ret::Unit
        }
    }
}

/// Keys that are prefixes of one another, the empty key among them.
pub fn key(ctx: &Ctx, wide: bool) -> Key {
    const NARROW: [&[u8]; 6] = [b"a", b"ab", b"", b"abc", b"b", b"a\xff"];
    if !wide {
        return ctx.pick(&NARROW).to_vec();
    }
    let n = ctx.skewed(6) as usize;
    (0..n).map(|_| *ctx.pick(b"ab\x00\xff")).collect()
}

pub fn gen_call(ctx: &Ctx, wide: bool, uniq: &mut u64, die: bool) -> Call {
    let mut val = |ctx: &Ctx| {
        *uniq += 1;
        let mut v = format!("v{uniq}").into_bytes();
        if ctx.chance(1, 8) {
            v.clear();
            let n = if ctx.chance(1, 30) { *ctx.pick(&[256usize, 1024, 5000]) } else { 40 };
            v.extend(ctx.bytes(n));
            v.extend(uniq.to_le_bytes());
        }
        v
    };
    match ctx.weighted(&[4, 5, 3, 4, 4, if die { 1 } else { 0 }]) {
        0 => Call::Get(key(ctx, wide)),
        1 => Call::Put(key(ctx, wide), val(ctx)),
        2 => Call::Delete(key(ctx, wide)),
        3 => {
            let n = if wide && ctx.chance(1, 40) { *ctx.pick(&[33u64, 65, 130, 260, 520, 1030]) } else { 1 + ctx.skewed(6) };
            Call::Batch(
                (0..n)
                    .map(|_| {
                        let k = key(ctx, wide);
                        let v = if ctx.chance(1, 3) { None } else { Some(val(ctx)) };
                        (k, v)
                    })
                    .collect(),
            )
        }
        4 => Call::Scan(key(ctx, wide)),
        _ => Call::DyingScan(key(ctx, wide), ctx.idx(3)),
    }
}

pub type Hist = Vec<Op<Call, Ret>>;

/// Runs scripts concurrently on `s`; the history, stamped with the scheduler's own order.
pub fn concurrent<S: Storage + Send + Sync + 'static>(ctx: &Ctx, s: &Arc<S>, scripts: Vec<Vec<Call>>) -> Result<Hist, Fail> {
    let hist: Arc<Mutex<(u64, Hist)>> = Arc::default();
    let mut tasks: Vec<coop::Task> = Vec::new();
    for (who, script) in scripts.into_iter().enumerate() {
        let (s, hist, ctx) = (s.clone(), hist.clone(), ctx.clone());
        tasks.push((
            format!("t{who}"),
            Box::new(move || {
                for c in script {
                    let at = {
                        let mut h = hist.lock().unwrap();
                        h.0 += 1;
                        let t_inv = h.0;
                        h.1.push(Op { who, call: c.clone(), ret: None, t_inv, t_ret: u64::MAX });
                        h.1.len() - 1
                    };
                    let r = perform(&*s, &c);
                    ev!(ctx, "t{who} {c:?} -> {r:?}");
                    if let Call::DyingScan(..) = c {
                        ctx.fault("reader_died");
                    }
                    let mut h = hist.lock().unwrap();
                    h.0 += 1;
                    let t = h.0;
                    h.1[at].t_ret = t;
                    h.1[at].ret = Some(r);
                    drop(h);
                    coop::yield_point();
                }
            }),
        ));
    }
    let out = coop::run(ctx, tasks, 0);
    ensure!(!out.deadlock, "deadlock", "the clients are blocked on one another for ever");
    for (i, e) in out.ends.iter().enumerate() {
        if let coop::End::Panicked(m) = e {
            return Err(Fail::new("panic", format!("client t{i} panicked: {m}")));
        }
    }
    let h = std::mem::take(&mut hist.lock().unwrap().1);
    Ok(h)
}

pub fn overlap(a: &Op<Call, Ret>, b: &Op<Call, Ret>) -> bool {
    a.t_inv < b.t_ret && b.t_inv < a.t_ret
}

pub fn check_history(ctx: &Ctx, hist: &Hist, init: &Model) -> Res {
    for a in hist {
        for b in hist {
            if overlap(a, b) && a.who != b.who {
                match (&a.call, &b.call) {
                    (Call::Scan(_), Call::Put(..) | Call::Batch(_) | Call::Delete(_)) => ctx.probe("scan_during_write"),
                    (Call::Batch(_), Call::Get(_) | Call::Scan(_)) => ctx.probe("batch_vs_read"),
                    _ => {}
                }
            }
        }
    }
    ctx.probe_if(hist.len() >= 16, "deep_history");
    ensure!(
        linearizable(hist, init, &step),
        "not-linearizable",
        "no order of these operations explains their results: {:?}",
        hist.iter().map(|o| format!("t{} [{},{}] {:?} -> {:?}", o.who, o.t_inv, o.t_ret, o.call, o.ret)).collect::<Vec<_>>()
    );
    Ok(())
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let b = Arc::new(Backend::default());
    let mut uniq = 0;
    if ctx.chance(1, 3) {
        // One client, long history: checked operation by operation.
        let mut m = Model::new();
        let wide = ctx.chance(3, 4);
        while ctx.more(120) {
            let c = gen_call(ctx, wide, &mut uniq, true);
            let r = perform(&*b, &c);
            ev!(ctx, "{c:?} -> {r:?}");
            ctx.op(op_name(&c));
            let mut m2 = m.clone();
            ensure!(step(&mut m2, &c, Some(&r)), "wrong-result", "{c:?} on {m:?} returned {r:?}");
            m = m2;
        }
        final_scan(ctx, &*b, &m)?;
        return Ok(());
    }
    let wide = ctx.chance(1, 4);
    let mut init = Model::new();
    for _ in 0..ctx.skewed(24) {
        let (k, v) = (key(ctx, true), {
            uniq += 1;
            format!("v{uniq}").into_bytes()
        });
        b.put(k.clone(), v.clone()).map_err(|e| Fail::new("put", e.to_string()))?;
        init.insert(k, v);
    }
    let n = 2 + ctx.idx(3);
    let each = 1 + ctx.idx(if n == 2 { 9 } else { 6 });
    let mut scripts = Vec::new();
    for _ in 0..n {
        scripts.push(
            (0..each)
                .map(|_| {
                    ctx.mark();
                    let c = gen_call(ctx, wide, &mut uniq, true);
                    ctx.op(op_name(&c));
                    c
                })
                .collect::<Vec<_>>(),
        );
    }
    ctx.mark();
    let hist = concurrent(ctx, &b, scripts)?;
    // What is left is one more read of everything, after all the others.
    let t = hist.iter().map(|o| o.t_ret).filter(|t| *t != u64::MAX).max().unwrap_or(0);
    let mut hist = hist;
    let c = Call::Scan(vec![]);
    let r = perform(&*b, &c);
    ev!(ctx, "final {r:?}");
    ctx.state(simkit::rng::fnv(format!("{r:?}{}", hist.len()).as_bytes()));
    hist.push(Op { who: 99, call: c, ret: Some(r), t_inv: t + 1, t_ret: t + 2 });
    check_history(ctx, &hist, &init)
}

fn op_name(c: &Call) -> &'static str {
    match c {
        Call::Get(_) => "get",
        Call::Put(..) => "put",
        Call::Delete(_) => "delete",
        Call::Batch(_) => "batch",
        Call::Scan(_) => "scan",
        Call::DyingScan(..) => "dying_scan",
    }
}

fn final_scan(ctx: &Ctx, b: &Backend, m: &Model) -> Res {
    let r = perform(b, &Call::Scan(vec![]));
    ctx.state(simkit::rng::fnv(format!("{r:?}").as_bytes()));
    ensure_eq!(r, Ret::Pairs(m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()), "wrong-result", "everything stored");
    for (k, v) in m {
        ensure_eq!(perform(b, &Call::Get(k.clone())), Ret::Val(Some(v.clone())), "wrong-result", "get {k:?}");
    }
    Ok(())
}
