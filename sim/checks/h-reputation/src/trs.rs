//! R01: reputation is conserved, packet by packet.

use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::collections::BTreeMap;
use witnet_reputation::TotalReputationSet;

pub type Id = u32;
pub type Trs = TotalReputationSet<Id, u64, u32>;

/// Packets in the order they expire.
#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Model {
    pub queue: Vec<(u32, BTreeMap<Id, u64>)>,
}

impl Model {
    pub fn get(&self, id: Id) -> u64 {
        self.queue.iter().filter_map(|(_, m)| m.get(&id)).sum()
    }
    pub fn total(&self) -> u64 {
        self.queue.iter().flat_map(|(_, m)| m.values()).sum()
    }
    pub fn ids(&self) -> BTreeMap<Id, u64> {
        let mut t = BTreeMap::new();
        for (_, m) in &self.queue {
            for (k, v) in m {
                *t.entry(*k).or_default() += v;
            }
        }
        t
    }
    pub fn gain(&mut self, alpha: u32, diff: &[(Id, u64)]) -> bool {
        match self.queue.last() {
            Some((a, _)) if *a > alpha => return false,
            Some((a, _)) if *a == alpha => {}
            _ => self.queue.push((alpha, BTreeMap::new())),
        }
        let back = &mut self.queue.last_mut().unwrap().1;
        for (k, v) in diff {
            if *v > 0 {
                *back.entry(*k).or_default() += v;
            }
        }
        true
    }
    pub fn expire(&mut self, alpha: u32) -> u64 {
        let mut t = 0;
        self.queue.retain(|(a, m)| {
            if *a <= alpha {
                t += m.values().sum::<u64>();
                false
            } else {
                true
            }
        });
        t
    }
    /// Takes `amount` from the packets of `id` that expire last.
    pub fn take(&mut self, id: Id, mut amount: u64, ctx: &Ctx) {
        for (_, m) in self.queue.iter_mut().rev() {
            if amount == 0 {
                return;
            }
            if let Some(v) = m.get_mut(&id) {
                let d = amount.min(*v);
                *v -= d;
                amount -= d;
                ctx.probe(if *v == 0 { "packet_exhausted" } else { "partial_packet" });
                if *v == 0 {
                    m.remove(&id);
                }
            }
        }
        assert_eq!(amount, 0);
    }
    /// Packets that hold something.
    pub fn packets(&self) -> Vec<(u32, Vec<(Id, u64)>)> {
        self.queue.iter().filter(|(_, m)| !m.is_empty()).map(|(a, m)| (*a, m.iter().map(|(k, v)| (*k, *v)).collect())).collect()
    }
}

pub fn packets(t: &Trs) -> Vec<(u32, Vec<(Id, u64)>)> {
    t.queue()
        .map(|(a, it)| {
            let mut v: Vec<_> = it.map(|(k, v)| (*k, *v)).collect();
            v.sort();
            (*a, v)
        })
        .filter(|(_, v)| !v.is_empty())
        .collect()
}

pub fn check(t: &Trs, m: &Model, when: &str) -> Res {
    ensure_eq!(packets(t), m.packets(), "wrong-packets", "packets {when}");
    let ids = m.ids();
    for (id, v) in &ids {
        ensure_eq!(t.get(id), *v, "wrong-total", "reputation of {id} {when}");
    }
    let mut got: Vec<_> = t.identities().map(|(k, v)| (*k, *v)).collect();
    got.sort();
    ensure_eq!(got, ids.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "wrong-total", "reputation of the identities {when}");
    ensure_eq!(t.num_identities(), ids.len(), "wrong-total", "number of identities {when}");
    ensure_eq!(t.get_total_sum(), m.total(), "wrong-total", "total reputation {when}");
    for id in 0..12 {
        ensure_eq!(t.get(&id), m.get(id), "wrong-total", "reputation of {id} {when}");
    }
    let some = [0, 3, 3, 7, 1_000_000];
    ensure_eq!(t.get_sum(&some), some.iter().map(|i| m.get(*i)).sum::<u64>(), "wrong-total", "sum over {some:?} {when}");
    Ok(())
}

pub fn restart(t: &Trs, how: u64) -> Result<Trs, Fail> {
    let e = |x: String| Fail::new("snapshot", x);
    if how == 0 {
        let b = bincode::serialize(t).map_err(|x| e(x.to_string()))?;
        bincode::deserialize(&b).map_err(|x| e(x.to_string()))
    } else {
        let b = serde_json::to_vec(t).map_err(|x| e(x.to_string()))?;
        serde_json::from_slice(&b).map_err(|x| e(x.to_string()))
    }
}

#[derive(Clone, Debug)]
enum F {
    /// Keep this share, in hundredths.
    Keep(u64),
    /// Lose this much, at most everything.
    Lose(u64),
    /// Ask for more than there is.
    More(u64),
    /// Die.
    Panic,
}
struct Boom;

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let n = 1 + ctx.idx(3);
    let mut reps: Vec<Trs> = (0..n).map(|_| Trs::new()).collect();
    let mut m = Model::default();
    let crowd = ctx.chance(1, 40);
    let ids = if crowd { 400 } else { *ctx.pick(&[3u64, 6, 12]) };
    let faulty = ctx.chance(3, 4);
    let mut now = 0u32;
    let amount = |ctx: &Ctx| ctx.skewed(if ctx.chance(1, 10) { 1 << 40 } else { 1000 });
    while ctx.more(100) {
        let (old, old_queue) = (reps[0].clone(), m.queue.clone());
        match ctx.weighted(&[6, 3, 6, 2, 1, 1]) {
            0 => {
                let back = faulty && ctx.chance(1, 6);
                let alpha = if back {
                    now.saturating_sub(ctx.skewed(20) as u32)
                } else {
                    now.saturating_add(if ctx.chance(1, 4) { 0 } else { 1 + ctx.skewed(20) as u32 })
                };
                let diff: Vec<(Id, u64)> =
                    (0..ctx.skewed(if crowd { 300 } else { 8 })).map(|_| (ctx.below(ids) as Id, amount(ctx))).collect();
                ctx.op("gain");
                let ok = m.gain(alpha, &diff);
                if ok {
                    now = alpha;
                } else {
                    ctx.fault("stale_gain");
                }
                ev!(ctx, "gain {alpha} {diff:?}: {ok}");
                for (i, t) in reps.iter_mut().enumerate() {
                    let r = t.gain(alpha, diff.clone());
                    ensure_eq!(r.is_ok(), ok, "wrong-result", "replica {i}: whether gain({alpha}) is accepted");
                }
            }
            1 => {
                let alpha = match ctx.below(4) {
                    0 => now,
                    1 => now.saturating_sub(ctx.skewed(60) as u32),
                    2 => m.queue.first().map(|x| x.0).unwrap_or(0),
                    _ => now.saturating_sub(ctx.skewed(8) as u32),
                };
                ctx.op("expire");
                let want = m.expire(alpha);
                ev!(ctx, "expire {alpha}: {want}");
                for (i, t) in reps.iter_mut().enumerate() {
                    ensure_eq!(t.expire(&alpha), want, "wrong-result", "replica {i}: total expired at {alpha}");
                }
            }
            2 => {
                let many = ctx.chance(3, 4);
                let k = if many { ctx.skewed(if crowd { 100 } else { 8 }) } else { 1 };
                let list: Vec<(Id, F)> = (0..k)
                    .map(|_| {
                        let id = ctx.below(ids) as Id;
                        let f = match ctx.weighted(&[4, 6, if faulty { 1 } else { 0 }, if faulty { 1 } else { 0 }]) {
                            0 => F::Keep(*ctx.pick(&[0, 50, 99, 100, 10])),
                            1 => F::Lose(amount(ctx)),
                            2 => F::More(1 + ctx.skewed(100)),
                            _ => F::Panic,
                        };
                        (id, f)
                    })
                    .collect();
                penalize(ctx, &mut reps, &mut m, &list, many)?;
            }
            3 if faulty => {
                let i = ctx.idx(n);
                let how = ctx.below(2);
                reps[i] = restart(&reps[i], how)?;
                ctx.fault("restart");
                ev!(ctx, "restart replica {i}");
            }
            4 => {
                // A replica built anew from the others' packets.
                let i = ctx.idx(n);
                let q: Vec<(u32, Vec<(Id, u64)>)> =
                    reps[i].queue().map(|(a, it)| (*a, it.map(|(k, v)| (*k, *v)).collect())).collect();
                let t = Trs::from_queue(q).map_err(|e| Fail::new("wrong-result", format!("from_queue: {e}")))?;
                ensure!(t == reps[i], "wrong-result", "the set rebuilt from its own queue is not equal to it");
                ev!(ctx, "replica {i} rebuilt from its queue");
                reps[i] = t;
            }
            5 if ctx.chance(1, 4) => {
                for t in &mut reps {
                    t.clear();
                }
                m = Model::default();
                ev!(ctx, "clear");
            }
            _ => {}
        }
        if m.queue != old_queue {
            ensure!(old != reps[0], "wrong-equality", "{old_queue:?} and {:?} count as equal", m.queue);
        }
        for (i, t) in reps.iter().enumerate() {
            check(t, &m, &format!("on replica {i}"))?;
            ensure!(*t == reps[0], "replicas-differ", "replicas 0 and {i} did the same and are not equal");
        }
        ctx.probe_if(m.queue.len() > 12, "many_packets");
        ctx.state(simkit::rng::fnv(format!("{:?}", m.queue).as_bytes()));
    }
    Ok(())
}

fn penalize(ctx: &Ctx, reps: &mut [Trs], m: &mut Model, list: &[(Id, F)], many: bool) -> Res {
    ctx.op("penalize");
    let old = m.clone();
    let mut new = m.clone();
    let mut want = 0u64;
    let mut fails: Option<&F> = None;
    for (i, (id, f)) in list.iter().enumerate() {
        if list[..i].iter().any(|x| x.0 == *id) {
            ctx.probe("duplicate_identity");
        }
        let have = new.get(*id);
        let keep = match f {
            F::Keep(p) => (u128::from(have) * u128::from(*p) / 100) as u64,
            F::Lose(x) => have.saturating_sub(*x),
            F::More(_) | F::Panic => {
                fails = Some(f);
                break;
            }
        };
        want += have - keep;
        new.take(*id, have - keep, ctx);
    }
    match fails {
        Some(F::More(_)) => ctx.fault("penalty_fn_error"),
        Some(_) => ctx.fault("penalty_fn_panic"),
        None => {}
    }
    ev!(ctx, "penalize {list:?}: {want} {}", if fails.is_some() { "fails" } else { "" });
    let apply = |f: &F, v: u64| -> u64 {
        match f {
            F::Keep(p) => (u128::from(v) * u128::from(*p) / 100) as u64,
            F::Lose(x) => v.saturating_sub(*x),
            F::More(x) => v + x,
            F::Panic => std::panic::resume_unwind(Box::new(Boom)),
        }
    };
    for (i, t) in reps.iter_mut().enumerate() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if many {
                t.penalize_many(list.iter().map(|(id, f)| (id, move |v| apply(f, v))))
            } else {
                let (id, f) = &list[0];
                t.penalize(id, |v| apply(f, v))
            }
        }));
        match (r, fails) {
            (Ok(Ok(got)), None) => ensure_eq!(got, want, "wrong-result", "replica {i}: total subtracted by {list:?}"),
            (Ok(Err(_)), Some(F::More(_))) => {}
            (Err(e), Some(F::Panic)) if e.is::<Boom>() => {}
            (Err(e), _) => {
                return Err(Fail::new("panic", format!("replica {i}: {list:?} on {old:?} panicked: {}", simkit::panic_text(&*e))));
            }
            (Ok(r), f) => {
                return Err(Fail::new("wrong-result", format!("replica {i}: {list:?} on {old:?} gave {r:?}, failing function: {f:?}")));
            }
        }
    }
    // A failed penalization changes nothing.
    if fails.is_none() {
        *m = new;
    }
    Ok(())
}
