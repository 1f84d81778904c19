//! R03: nodes that applied the same blocks agree on reputation, whatever the network and the crashes did.

use crate::{ars, trs};
use simkit::{Ctx, Fail, Res, ensure, ev};
use std::collections::BTreeMap;

/// The reputation part of one block.
#[derive(Clone, Debug)]
struct Update {
    epoch: u32,
    alpha: u32,
    gains: Vec<(u32, u64)>,
    lies: Vec<(u32, u32)>,
    active: Vec<u32>,
}

struct State {
    trs: trs::Trs,
    ars: ars::Ars,
    height: usize,
}

struct Node {
    up: bool,
    live: Option<State>,
    /// (height, bytes of both sets)
    disk: (usize, Vec<u8>, Vec<u8>),
    cut_until: u64,
}

enum Msg {
    Block(usize),
}

const LIFE: u32 = 30;

fn apply(s: &mut State, u: &Update) -> Result<(), String> {
    s.trs.expire(&u.alpha);
    let lies = u.lies.clone();
    s.trs
        .penalize_many(lies.iter().map(|(id, n)| {
            let n = *n;
            (id, move |v: u64| {
                let mut v = v;
                for _ in 0..n {
                    v -= v.div_ceil(2);
                }
                v
            })
        }))
        .map_err(|e| e.to_string())?;
    s.trs.gain(u.alpha + LIFE, u.gains.clone()).map_err(|e| e.to_string())?;
    s.ars.update(u.active.clone(), u.epoch).map_err(|e| e.to_string())?;
    s.height += 1;
    Ok(())
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let n = 2 + ctx.idx(3);
    let window = 1 + ctx.skewed(12) as u32;
    // The chain and what it leads to, by the models.
    let mut chain: Vec<Update> = Vec::new();
    let mut truth = vec![(trs::Model::default(), ars::Model::new(window))];
    let len = 1 + ctx.skewed(40) as usize;
    let (mut epoch, mut alpha) = (0u32, 0u32);
    for _ in 0..len {
        ctx.mark();
        epoch += 1 + if ctx.chance(1, 4) { ctx.skewed(u64::from(window) + 2) as u32 } else { 0 };
        alpha += ctx.skewed(12) as u32;
        let ids = 8;
        let u = Update {
            epoch,
            alpha,
            gains: (0..ctx.skewed(5)).map(|_| (ctx.below(ids) as u32, ctx.skewed(500))).collect(),
            lies: {
                let mut l: BTreeMap<u32, u32> = BTreeMap::new();
                for _ in 0..ctx.skewed(3) {
                    *l.entry(ctx.below(ids) as u32).or_default() += 1;
                }
                l.into_iter().collect()
            },
            active: (0..ctx.skewed(5)).map(|_| ctx.below(ids) as u32).collect(),
        };
        let (mut t, mut a) = truth.last().unwrap().clone();
        t.expire(u.alpha);
        for (id, k) in &u.lies {
            for _ in 0..*k {
                let h = t.get(*id);
                t.take(*id, h.div_ceil(2), ctx);
            }
        }
        if !t.gain(u.alpha + LIFE, &u.gains) || !a.update(&u.active, u.epoch) {
            return Err(Fail::new("harness", "the chain is not applicable"));
        }
        truth.push((t, a));
        chain.push(u);
    }
    let fresh = || State { trs: trs::Trs::new(), ars: ars::Ars::new(window as usize), height: 0 };
    let snap = |s: &State| -> Result<(usize, Vec<u8>, Vec<u8>), Fail> {
        let e = |x: bincode::Error| Fail::new("snapshot", x.to_string());
        Ok((s.height, bincode::serialize(&s.trs).map_err(e)?, bincode::serialize(&s.ars).map_err(e)?))
    };
    let mut nodes: Vec<Node> = Vec::new();
    for _ in 0..n {
        let s = fresh();
        nodes.push(Node { up: true, disk: snap(&s)?, live: Some(s), cut_until: 0 });
    }
    let loss = *ctx.pick(&[0u64, 10, 30]);
    let dup = *ctx.pick(&[0u64, 20]);
    let jitter = *ctx.pick(&[1u64, 50, 400]);
    let crashes = ctx.chance(2, 3);
    // (time ms, seq) -> delivery
    let mut q: BTreeMap<(u64, u64), (usize, Msg)> = BTreeMap::new();
    let mut seq = 0u64;
    let mut now = 0u64;
    let quiet_after = 60 * len as u64;
    for (h, _) in chain.iter().enumerate() {
        for i in 0..n {
            let base = 50 * h as u64;
            if ctx.chance(loss, 100) {
                ctx.fault("msg_lost");
            } else {
                let d = ctx.below(jitter + 1);
                if d > 50 {
                    ctx.fault("msg_delayed");
                }
                seq += 1;
                q.insert((base + d, seq), (i, Msg::Block(h)));
            }
            if ctx.chance(dup, 100) {
                ctx.fault("msg_duplicated");
                seq += 1;
                q.insert((base + ctx.below(4 * jitter + 1), seq), (i, Msg::Block(h)));
            }
        }
    }
    let mut steps = 0;
    loop {
        steps += 1;
        let Some((&(t, s), _)) = q.iter().next() else {
            // Nothing under way: the laggards ask for what they miss, and by now the faults are over.
            let mut asked = false;
            for (i, nd) in nodes.iter_mut().enumerate() {
                if !nd.up {
                    nd.up = true;
                    nd.live = Some(load(&nd.disk)?);
                }
                let h = nd.live.as_ref().map(|s| s.height).unwrap_or(0);
                if h < len {
                    for (k, _) in chain.iter().enumerate().skip(h) {
                        seq += 1;
                        q.insert((now + 1 + k as u64, seq), (i, Msg::Block(k)));
                    }
                    asked = true;
                }
            }
            if !asked {
                break;
            }
            ensure!(steps < 20_000, "no-progress", "the nodes do not catch up after the faults have ended");
            continue;
        };
        let (i, Msg::Block(h)) = q.remove(&(t, s)).unwrap();
        ctx.advance_ns((t.max(now) - now) * 1_000_000);
        now = t.max(now);
        let faults_on = now < quiet_after;
        if faults_on && crashes && ctx.chance(1, 25) {
            let k = ctx.idx(n);
            if nodes[k].up {
                nodes[k].up = false;
                nodes[k].live = None;
                ctx.fault("crash");
                ev!(ctx, "node {k} crashes");
            } else {
                nodes[k].up = true;
                let s = load(&nodes[k].disk)?;
                ctx.probe_if(s.height > 0 && s.height < h, "restart_from_old_snapshot");
                ev!(ctx, "node {k} restarts at height {}", s.height);
                nodes[k].live = Some(s);
            }
        }
        if faults_on && loss > 0 && ctx.chance(1, 60) {
            let k = ctx.idx(n);
            nodes[k].cut_until = now + ctx.below(500);
            ctx.fault("partition");
        }
        let nd = &mut nodes[i];
        if !nd.up || (faults_on && now < nd.cut_until) {
            continue;
        }
        let st = nd.live.as_mut().unwrap();
        let next = st.height;
        if h == next {
            apply(st, &chain[h]).map_err(|e| Fail::new("wrong-result", format!("node {i} refuses block {h}: {e}")))?;
            ev!(ctx, "node {i} applies block {h}");
            let (mt, ma) = &truth[st.height];
            trs::check(&st.trs, mt, &format!("on node {i} at height {}", st.height))?;
            ars::check(&st.ars, ma, &format!("on node {i} at height {}", st.height))?;
            ctx.state(simkit::rng::mix("st", &[i as u64, st.height as u64, simkit::rng::fnv(format!("{:?}", mt.queue).as_bytes())]));
            if ctx.chance(1, 4) {
                nd.disk = snap(st)?;
            }
        } else if h < next {
            // A block that was applied already: the active set turns it down by itself.
            let u = &chain[h];
            ensure!(st.ars.update(u.active.clone(), u.epoch).is_err(), "stale-accepted", "node {i} at height {next} accepts block {h} again");
            ars::check(&st.ars, &truth[next].1, &format!("on node {i} after a stale block"))?;
        }
        ensure!(steps < 50_000, "no-progress", "too many steps");
    }
    for (i, nd) in nodes.iter().enumerate() {
        let (a, b) = (nd.live.as_ref().unwrap(), nodes[0].live.as_ref().unwrap());
        ensure!(a.trs == b.trs && a.ars == b.ars, "replicas-differ", "nodes 0 and {i} applied the same chain and differ");
    }
    Ok(())
}

fn load(d: &(usize, Vec<u8>, Vec<u8>)) -> Result<State, Fail> {
    let e = |x: bincode::Error| Fail::new("snapshot", x.to_string());
    Ok(State { height: d.0, trs: bincode::deserialize(&d.1).map_err(e)?, ars: bincode::deserialize(&d.2).map_err(e)? })
}
