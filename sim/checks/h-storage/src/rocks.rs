//! S02: the persistent backend on a disk that fails, and the backend that stores nothing.

use crate::conc::{self, Call, Model, Ret, gen_call, perform, step};
use rocksdb::{Crashed, Disk, IoFault};
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::sync::Arc;
use witnet_storage::backends::nobackend;
use witnet_storage::backends::rocks::Backend;

/// The call, or None when the process died in it.
fn guarded(db: &Backend, c: &Call) -> Result<Option<Ret>, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(db, c))) {
        Ok(r) => Ok(Some(r)),
        Err(e) if e.is::<Crashed>() => Ok(None),
        Err(e) => Err(Fail::new("panic", format!("{c:?} panicked: {}", simkit::panic_text(&*e)))),
    }
}

fn open(d: &Disk) -> Result<Backend, Fail> {
    d.open().map_err(|e| Fail::new("harness", e.to_string()))
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    match ctx.below(8) {
        0 => return no_backend(ctx),
        1 | 2 => return concurrent(ctx),
        _ => {}
    }
    let disk = Disk::new();
    let mut db = open(&disk)?;
    let mut uniq = 0;
    // `all[i]`: contents after i log records were acknowledged; the last one is the current state.
    let mut all: Vec<Model> = vec![Model::new()];
    let faults = ctx.chance(3, 4);
    let wide = ctx.chance(1, 2);
    while ctx.more(80) {
        let cur = all.last().unwrap().clone();
        let c = gen_call(ctx, wide, &mut uniq, false);
        let mut next = cur.clone();
        step(&mut next, &c, None);
        let is_write = matches!(c, Call::Put(..) | Call::Delete(_) | Call::Batch(_));
        if faults && ctx.chance(1, 3) {
            match ctx.below(8) {
                0 => disk.fault_write(ctx.below(3), IoFault::Fail),
                1 => disk.fault_write(ctx.below(3), IoFault::FailAfter),
                2 => disk.fault_write(ctx.below(3), IoFault::CrashBefore),
                3 => disk.fault_write(ctx.below(3), IoFault::CrashAfter),
                4 => disk.set_full(true),
                5 => disk.fault_read(0),
                6 => disk.set_full(false),
                _ => {
                    // Power loss between two operations.
                    let lost = ctx.idx(disk.unsynced() + 1);
                    drop(db);
                    disk.crash(lost);
                    disk.clear_faults();
                    ctx.fault("power_loss");
                    db = open(&disk)?;
                    let got = disk.contents();
                    ev!(ctx, "power loss, {lost} records gone");
                    let Some(at) = all.iter().rposition(|m| *m == got) else {
                        return Err(Fail::new(
                            "torn-state",
                            format!("after a power loss the database holds {got:?}, which no prefix of the acknowledged writes gives"),
                        ));
                    };
                    ensure!(lost > 0 || *all.last().unwrap() == got, "lost-write", "an acknowledged write is gone after a clean restart");
                    all.truncate(at + 1);
                    continue;
                }
            }
        }
        if let Call::Batch(b) = &c {
            ctx.probe_if(b.len() > 1, "torn_batch_candidate");
        }
        let r = guarded(&db, &c)?;
        let fired = disk.take_fired();
        for f in &fired {
            ctx.fault(f);
        }
        ev!(ctx, "{c:?} -> {r:?} {fired:?}");
        match r {
            Some(Ret::Err(e)) => {
                ensure!(!fired.is_empty(), "spurious-error", "{c:?} failed without any disk fault: {e}");
                // The caller was told: the effect may be there or not, but whole.
                let got = disk.contents();
                if is_write && got == next {
                    all.push(next);
                } else {
                    ensure_eq!(got, cur, "torn-state", "contents after the failed {c:?} (the batch must apply whole or not at all)");
                }
            }
            Some(r) => {
                ensure!(fired.is_empty(), "swallowed-error", "{c:?} reported {r:?} although the disk reported {fired:?}");
                let mut m = cur.clone();
                ensure!(step(&mut m, &c, Some(&r)), "wrong-result", "{c:?} on {cur:?} returned {r:?}");
                if is_write {
                    ensure_eq!(disk.contents(), m, "lost-write", "what is on disk after the acknowledged {c:?}");
                    all.push(m);
                }
            }
            None => {
                drop(db);
                disk.crash(0);
                disk.clear_faults();
                db = open(&disk)?;
                let got = disk.contents();
                ensure!(
                    got == cur || got == next,
                    "torn-state",
                    "the process died in {c:?}; afterwards the database holds {got:?}, neither the contents before ({cur:?}) nor after"
                );
                if got != cur {
                    all.push(got);
                }
            }
        }
        ctx.state(simkit::rng::fnv(format!("{:?}", all.last()).as_bytes()));
        if all.len() > 60 {
            // Records this old count as synced.
            disk.sync();
            all.drain(..all.len() - 1);
        }
    }
    disk.clear_faults();
    let m = all.last().unwrap();
    for p in [&b""[..], b"a", b"ab", b"b"] {
        let mut x = m.clone();
        let r = perform(&db, &Call::Scan(p.to_vec()));
        ensure!(step(&mut x, &Call::Scan(p.to_vec()), Some(&r)), "wrong-result", "scan of {p:?} on {m:?} returned {r:?}");
    }
    Ok(())
}

fn concurrent(ctx: &Ctx) -> Res {
    let disk = Disk::new();
    let db = Arc::new(open(&disk)?);
    let mut uniq = 0;
    let n = 2 + ctx.idx(2);
    let each = 1 + ctx.idx(6);
    let mut scripts = Vec::new();
    for _ in 0..n {
        scripts.push(
            (0..each)
                .map(|_| {
                    ctx.mark();
                    gen_call(ctx, false, &mut uniq, false)
                })
                .collect::<Vec<_>>(),
        );
    }
    let hist = conc::concurrent(ctx, &db, scripts)?;
    conc::check_history(ctx, &hist, &Model::new())
}

/// The backend without storage says no to everything.
fn no_backend(ctx: &Ctx) -> Res {
    let mut uniq = 0;
    while ctx.more(10) {
        let c = gen_call(ctx, false, &mut uniq, false);
        let r = perform(&nobackend::Backend, &c);
        ev!(ctx, "no backend: {c:?} -> {r:?}");
        ensure!(matches!(r, Ret::Err(_)), "false-ack", "the backend that stores nothing answered {c:?} with {r:?}");
    }
    Ok(())
}

/// A scan that meets an I/O error yields a shorter result instead of the error.
pub fn known_scan(ctx: &Ctx) -> Res {
    let disk = Disk::new();
    let db = open(&disk)?;
    for i in 0..4u8 {
        perform(&db, &Call::Put(vec![b'k', i], vec![i]));
    }
    disk.fault_iter(Some(2));
    let r = perform(&db, &Call::Scan(b"k".to_vec()));
    ev!(ctx, "scan over a failing disk -> {r:?}, {:?}", disk.take_fired());
    match r {
        Ret::Err(_) => Ok(()),
        r => Err(Fail::new("swallowed-error", format!("the scan met an I/O error after 2 of 4 keys and reported {r:?}"))
            .with_sig("rocks-scan-truncated-on-io-error")),
    }
}
