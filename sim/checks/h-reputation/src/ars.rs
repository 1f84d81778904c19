//! R02: the active set is exactly the identities seen in the last window of epochs.

use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::collections::{BTreeMap, BTreeSet};
use witnet_reputation::ActiveReputationSet;

pub type Ars = ActiveReputationSet<u32>;

#[derive(Clone, Debug)]
pub struct Model {
    pub cap: u32,
    pub last: u32,
    pub at: BTreeMap<u32, BTreeSet<u32>>,
}
impl Model {
    pub fn new(cap: u32) -> Model {
        Model { cap, last: 0, at: BTreeMap::new() }
    }
    /// Whether the update is accepted.
    pub fn update(&mut self, ids: &[u32], epoch: u32) -> bool {
        if epoch == 0 {
            return true;
        }
        if epoch <= self.last {
            return false;
        }
        self.last = epoch;
        self.at.insert(epoch, ids.iter().copied().collect());
        let cap = self.cap;
        self.at.retain(|e, _| epoch - *e < cap);
        true
    }
    pub fn active(&self) -> BTreeSet<u32> {
        self.at.values().flatten().copied().collect()
    }
}

pub fn check(a: &Ars, m: &Model, when: &str) -> Res {
    let want = m.active();
    let got: Vec<u32> = a.active_identities().copied().collect();
    let set: BTreeSet<u32> = got.iter().copied().collect();
    ensure_eq!(got.len(), set.len(), "wrong-active", "active identities without repetition {when}");
    ensure_eq!(set, want, "wrong-active", "active identities {when} (epoch {}, window {})", m.last, m.cap);
    ensure_eq!(a.active_identities_number(), want.len(), "wrong-active", "number of active identities {when}");
    for i in 0..14 {
        ensure_eq!(a.contains(&i), want.contains(&i), "wrong-active", "whether {i} is active {when}");
    }
    ensure_eq!(a.buffer_capacity(), m.cap as usize, "wrong-window", "capacity {when}");
    ensure!(a.buffer_size() <= m.cap as usize, "wrong-window", "the buffer holds {} entries, the window is {}", a.buffer_size(), m.cap);
    Ok(())
}

pub fn restart(a: &Ars, how: u64) -> Result<Ars, Fail> {
    let e = |x: String| Fail::new("snapshot", x);
    if how == 0 {
        let b = bincode::serialize(a).map_err(|x| e(x.to_string()))?;
        bincode::deserialize(&b).map_err(|x| e(x.to_string()))
    } else {
        let b = serde_json::to_vec(a).map_err(|x| e(x.to_string()))?;
        serde_json::from_slice(&b).map_err(|x| e(x.to_string()))
    }
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let n = 1 + ctx.idx(3);
    let cap = match ctx.below(4) {
        0 => 1,
        1 => 2 + ctx.below(3) as u32,
        2 => 1 + ctx.below(20) as u32,
        _ => *ctx.pick(&[64u32, 2000]),
    };
    if ctx.chance(1, 5) {
        return pushes(ctx, cap);
    }
    let mut reps: Vec<Ars> = (0..n).map(|_| Ars::new(cap as usize)).collect();
    let mut m = Model::new(cap);
    let ids = *ctx.pick(&[3u64, 12]);
    let faulty = ctx.chance(3, 4);
    while ctx.more(100) {
        match ctx.weighted(&[12, if faulty { 2 } else { 0 }, 1]) {
            0 => {
                let epoch = match ctx.weighted(&[8, 4, if faulty { 3 } else { 0 }, 1, 1]) {
                    0 => m.last.saturating_add(1),
                    1 => m.last.saturating_add(2 + ctx.skewed(u64::from(cap) + 3) as u32),
                    2 => m.last.saturating_sub(ctx.skewed(u64::from(cap) + 2) as u32),
                    3 => m.last.saturating_add(cap).saturating_add(ctx.below(3) as u32).saturating_sub(1),
                    _ => {
                        if ctx.chance(1, 12) {
                            u32::MAX - ctx.below(3) as u32
                        } else if ctx.chance(1, 3) {
                            // Gaps around the powers of two.
                            let p = 1u32 << (7 + ctx.below(25));
                            m.last.saturating_add(p).saturating_add(ctx.skewed(12) as u32).saturating_sub(ctx.below(3) as u32)
                        } else {
                            m.last.saturating_add(ctx.skewed(5000) as u32)
                        }
                    }
                };
                let who: Vec<u32> = (0..ctx.skewed(6)).map(|_| ctx.below(ids) as u32).collect();
                let gap = epoch.saturating_sub(m.last);
                ctx.probe_if(gap > 1, "gap");
                if gap > 1 {
                    ctx.nontrivial();
                }
                ctx.probe_if(gap >= cap, "gap_over_window");
                let before = m.clone();
                let ok = m.update(&who, epoch);
                if !ok {
                    ctx.fault("stale_update");
                    ensure_eq!(m.active(), before.active(), "harness", "model");
                }
                ctx.probe_if(who.iter().any(|i| m.at.values().filter(|s| s.contains(i)).count() > 1), "same_identity_many_epochs");
                ctx.probe_if(m.at.len() == cap as usize, "window_full");
                ctx.op("update");
                ev!(ctx, "update {who:?} at {epoch}: {ok}");
                let old = reps[0].clone();
                for (i, a) in reps.iter_mut().enumerate() {
                    ensure_eq!(a.update(who.clone(), epoch).is_ok(), ok, "wrong-result", "replica {i}: whether the update at {epoch} (last {}) is accepted", before.last);
                }
                if m.active() != before.active() {
                    ensure!(old != reps[0], "wrong-equality", "the sets before and after the update at {epoch} have other members and count as equal");
                }
            }
            1 => {
                let i = ctx.idx(n);
                let how = ctx.below(2);
                reps[i] = restart(&reps[i], how)?;
                ctx.fault("restart");
                ev!(ctx, "restart replica {i}");
            }
            _ => {
                if ctx.chance(1, 3) {
                    for a in &mut reps {
                        a.clear();
                    }
                    m.at.clear();
                    ev!(ctx, "clear");
                }
            }
        }
        for (i, a) in reps.iter().enumerate() {
            check(a, &m, &format!("on replica {i}"))?;
            ensure!(*a == reps[0], "replicas-differ", "replicas 0 and {i} did the same and are not equal");
        }
        ctx.state(simkit::rng::fnv(format!("{:?}{}", m.active(), m.last).as_bytes()));
    }
    Ok(())
}

/// Without epochs: the window is the last `cap` pushes.
fn pushes(ctx: &Ctx, cap: u32) -> Res {
    let mut a = Ars::new(cap as usize);
    let mut q: Vec<BTreeSet<u32>> = Vec::new();
    while ctx.more(100) {
        let who: Vec<u32> = (0..ctx.skewed(6)).map(|_| ctx.below(8) as u32).collect();
        ctx.op("push");
        ev!(ctx, "push {who:?}");
        a.push_activity(who.clone());
        q.push(who.into_iter().collect());
        if q.len() > cap as usize {
            q.remove(0);
        }
        if ctx.chance(1, 8) {
            a = restart(&a, ctx.below(2))?;
            ctx.fault("restart");
        }
        let want: BTreeSet<u32> = q.iter().flatten().copied().collect();
        let got: BTreeSet<u32> = a.active_identities().copied().collect();
        ensure_eq!(got, want, "wrong-active", "active identities after {} pushes, window {cap}", q.len());
        ensure_eq!(a.active_identities_number(), want.len(), "wrong-active", "number of active identities");
        ensure!(a.buffer_size() <= cap as usize, "wrong-window", "the buffer holds {} entries, the window is {cap}", a.buffer_size());
    }
    Ok(())
}
