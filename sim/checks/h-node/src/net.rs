//! A network under faults, with what every node claims recorded and compared.

use crate::world::*;
use rocksdb::IoFault;
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::collections::{BTreeMap, HashMap};
use witnet_data_structures::{
    chain::{Block, CheckpointBeacon, Epoch, Hash, Hashable, StateMachine},
    get_protocol_version,
    proto::versioning::VersionedHashable,
};
use witnet_node::actors::{inventory_manager::InventoryManager, messages::*};
use actix::SystemService;

#[derive(Clone, Debug, Default)]
pub struct View {
    pub state: Option<StateMachine>,
    pub tip: CheckpointBeacon,
    pub chain: BTreeMap<Epoch, Hash>,
    /// First epoch that is not known to be confirmed.
    pub confirmed: Epoch,
}

/// Which parts of the network are disturbed.
#[derive(Clone, Copy)]
pub struct Faults {
    pub crash: bool,
    pub power_loss: bool,
    pub partition: bool,
    pub reset: bool,
    pub slow: bool,
    pub freeze: bool,
    pub skew: bool,
    pub disk: bool,
}
impl Faults {
    pub const ALL: Faults =
        Faults { crash: true, power_loss: true, partition: true, reset: true, slow: true, freeze: true, skew: true, disk: true };
    pub const NONE: Faults = Faults {
        crash: false,
        power_loss: false,
        partition: false,
        reset: false,
        slow: false,
        freeze: false,
        skew: false,
        disk: false,
    };
}

pub struct Net {
    pub w: World,
    pub ctx: Ctx,
    pub view: Vec<View>,
    /// Every block any node has in its chain.
    pub blocks: HashMap<Hash, Block>,
    /// What was confirmed by anyone, and by whom first.
    pub final_: BTreeMap<Epoch, (Hash, usize)>,
    pub down_until: Vec<Option<i64>>,
    pub frozen_until: Vec<i64>,
    /// The nodes that faults may hit.
    pub victims: Vec<usize>,
    /// Nodes whose disk failed an operation: their owner is to look after them.
    pub failing: Vec<bool>,
    pub split: bool,
    pub disturbed: bool,
    /// What a run is about decides whether two confirmed histories may differ.
    pub reorgs: u64,
}


pub const EPOCH: i64 = 45 * SEC;

impl Net {
    pub fn new(ctx: &Ctx, o: Opts) -> Res<Net> {
        let n = o.nodes;
        let mut w = World::new(ctx, o);
        for i in 0..n {
            w.boot(i)?;
        }
        Ok(Net {
            w,
            ctx: ctx.clone(),
            view: vec![View::default(); n],
            blocks: HashMap::new(),
            final_: BTreeMap::new(),
            down_until: vec![None; n],
            frozen_until: vec![0; n],
            victims: (0..n).collect(),
            failing: vec![false; n],
            split: false,
            disturbed: false,
            reorgs: 0,
        })
    }

    pub fn n(&self) -> usize {
        self.w.nodes.len()
    }

    pub fn block(&mut self, i: usize, hash: Hash) -> Res<Block> {
        if let Some(b) = self.blocks.get(&hash) {
            return Ok(b.clone());
        }
        let r = self.w.ask(i, 60 * SEC, || {
            let a = InventoryManager::from_registry();
            async move { a.send(GetItemBlock { hash }).await }
        })?;
        match r {
            Some(Ok(Ok(b))) => {
                let epoch = b.block_header.beacon.checkpoint;
                let got = b.versioned_hash(get_protocol_version(Some(epoch)));
                ensure_eq!(got, hash, "wrong-block", "node {i} stores under {hash} a block with hash {got}");
                self.blocks.insert(hash, b.clone());
                Ok(b)
            }
            Some(Ok(Err(e))) => Err(Fail::new("block-missing", format!("node {i} has {hash} in its chain, but its inventory says {e:?}"))),
            Some(Err(e)) => Err(Fail::new("no-answer", format!("inventory manager of node {i}: {e}"))),
            None => Err(Fail::new("no-answer", format!("the inventory manager of node {i} does not answer within a minute"))),
        }
    }

    /// Asks a node for its state and its chain and checks them against what is known.
    pub fn observe(&mut self, i: usize) -> Res {
        let state = self.w.chain(i, GetState)?.ok();
        let Ok(tip) = self.w.chain(i, GetHighestCheckpointBeacon)? else {
            self.view[i].state = None;
            return Ok(());
        };
        let chain = match self.w.chain(i, GetBlocksEpochRange::new(..))? {
            Ok(c) => c,
            Err(e) => return Err(Fail::new("no-chain", format!("node {i}: {e:?}"))),
        };
        let chain: BTreeMap<Epoch, Hash> = chain.into_iter().collect();
        // a chain is a chain
        let before = self.view[i].clone();
        let mut prev: Option<(Epoch, Hash)> = None;
        for (&e, &h) in &chain {
            if before.chain.get(&e) != Some(&h) || prev.is_some_and(|(pe, ph)| before.chain.get(&pe) != Some(&ph)) {
                let b = self.block(i, h)?;
                let got = b.block_header.beacon;
                ensure_eq!(got.checkpoint, e, "wrong-block", "node {i} has the block of epoch {} at epoch {e}", got.checkpoint);
                if let Some((pe, ph)) = prev {
                    ensure_eq!(got.hash_prev_block, ph, "broken-chain", "node {i}: block {e} does not follow block {pe}");
                }
            }
            prev = Some((e, h));
        }
        if let Some((e, h)) = prev {
            ensure!(
                tip.checkpoint == e && tip.hash_prev_block == h,
                "wrong-tip",
                "node {i}: the chain ends with {h} at {e}, the beacon is {tip:?}"
            );
        }
        if before.chain.iter().any(|(e, h)| chain.get(e).is_some_and(|x| x != h)) {
            self.ctx.probe("reorganised");
            self.reorgs += 1;
        }
        // confirmed blocks
        let mut confirmed = 0;
        for (&e, &h) in &chain {
            let Ok(c) = self.w.chain(i, IsConfirmedBlock { block_hash: h, block_epoch: e })? else { break };
            if !c {
                break;
            }
            confirmed = e + 1;
            match self.final_.get(&e) {
                None => {
                    // everything confirmed has to be in order: no block of another chain in between
                    if let Some((fe, (fh, who))) = self.final_.range(e + 1..).next() {
                        let fb = self.blocks.get(fh).map(|b| b.block_header.beacon);
                        return Err(Fail::new(
                            "confirmed-fork",
                            format!("node {i} confirms {h} at epoch {e}, where node {who} confirmed nothing but {fh} at {fe} ({fb:?})"),
                        ));
                    }
                    self.final_.insert(e, (h, i));
                    ev!(self.ctx, "node {i} confirms {e} {h}");
                }
                Some((fh, who)) => {
                    ensure_eq!(h, *fh, "confirmed-fork", "at epoch {e} node {i} confirms {h}, node {who} had confirmed {fh}")
                }
            }
        }
        // none of the confirmed blocks below is missing
        if confirmed > 0 {
            for (fe, (fh, who)) in self.final_.range(..confirmed) {
                ensure!(
                    chain.get(fe) == Some(fh),
                    "confirmed-fork",
                    "node {i} confirms up to epoch {}, without {fh} at {fe}, which node {who} confirmed",
                    confirmed - 1
                );
            }
        }
        let v = &mut self.view[i];
        if v.state != state {
            ev!(self.ctx, "node {i} is {state:?} at {} confirmed {confirmed}", tip.checkpoint);
        }
        *v = View { state, tip, chain, confirmed };
        self.ctx.state(simkit::rng::fnv(format!("{i}{:?}{}", self.view[i].state, confirmed).as_bytes()));
        Ok(())
    }

    pub fn thawed(&self, i: usize) -> bool {
        self.w.nodes[i].up && simrt::now() >= self.frozen_until[i]
    }

    pub fn observe_all(&mut self) -> Res {
        for i in 0..self.n() {
            if self.thawed(i) {
                self.observe(i)?;
            }
        }
        Ok(())
    }

    /// Runs for so long, restarting the nodes whose time has come.
    pub fn run(&mut self, ns: i64) -> Res {
        let end = simrt::now() + ns;
        loop {
            let next = self.down_until.iter().flatten().copied().min().unwrap_or(i64::MAX).min(end);
            if next > simrt::now() {
                self.w.run_ns(next - simrt::now())?;
            }
            self.reap();
            for i in 0..self.n() {
                if self.down_until[i].is_some_and(|t| t <= simrt::now()) {
                    self.down_until[i] = None;
                    self.ctx.probe("rejoined_after_crash");
                    self.w.boot(i)?;
                }
            }
            if simrt::now() >= end {
                return Ok(());
            }
        }
    }

    /// Nodes that crashed in the middle of a write come back later.
    pub fn reap(&mut self) {
        for i in std::mem::take(&mut self.w.fell) {
            self.down_until[i] = Some(simrt::now() + self.ctx.range(1, 200) as i64 * SEC);
        }
    }

    pub fn crash(&mut self, i: usize, power_loss: bool, for_ns: i64) {
        let unsynced = self.w.nodes[i].disk.unsynced();
        let lost = if power_loss && self.ctx.chance(1, 2) { self.ctx.below(unsynced as u64 + 1) as usize } else { 0 };
        self.ctx.fault(if lost > 0 { "power loss" } else { "crash" });
        self.w.crash(i, lost);
        self.down_until[i] = Some(simrt::now() + for_ns);
    }

    /// The epoch it is now, by the true clock.
    pub fn epoch(&self) -> Epoch {
        let ts = simrt::now() / SEC - 1007 + ZERO;
        self.w.constants.epoch_at(ts).unwrap_or(0)
    }

    /// Runs to the beginning of the next epoch, and so much longer.
    pub fn next_epoch(&mut self, more: i64) -> Res {
        let at = (self.w.epoch_start(self.epoch() + 1) - ZERO + 1007) * SEC + more;
        self.run(at - simrt::now())
    }

    pub fn ups(&self) -> Vec<usize> {
        (0..self.n()).filter(|&i| self.w.nodes[i].up).collect()
    }

    /// Something goes wrong.
    pub fn disturb(&mut self, f: Faults) -> Res {
        let ctx = self.ctx.clone();
        self.disturbed = true;
        let on = |b: bool, w: u64| if b { w } else { 0 };
        let ups: Vec<usize> = self.victims.iter().copied().filter(|&i| self.w.nodes[i].up).collect();
        if ups.is_empty() {
            return Ok(());
        }
        let what = ctx.weighted(&[
            1,
            on(f.crash, 4),
            on(f.partition, 3),
            on(self.split, 3),
            on(f.reset, 2),
            on(f.slow, 2),
            on(f.freeze, 2),
            on(f.skew, 2),
            on(f.disk, 3),
            on(f.crash && f.disk, 2),
        ]);
        let i = *ctx.pick(&ups);
        match what {
            0 => {}
            1 => {
                let t = ctx.range(1, 400) as i64 * SEC / 2;
                self.crash(i, f.power_loss, t);
            }
            2 => {
                self.heal();
                let others = ctx.range(1, (1 << self.n()) - 1);
                ctx.fault("partition");
                ev!(ctx, "cut {i} from {others:b}");
                for b in 0..self.n() {
                    if b != i && (others >> b) & 1 == 1 {
                        simrt::net::set_blocked(self.w.nodes[i].id, self.w.nodes[b].id, true);
                    }
                }
                self.split = true;
            }
            3 => self.heal(),
            4 => {
                let j = (i + 1 + ctx.idx(self.n() - 1)) % self.n();
                let (x, y) = (self.w.nodes[i].id, self.w.nodes[j].id);
                if simrt::net::reset_between(x, y) > 0 {
                    ctx.fault("connection reset");
                }
            }
            5 => {
                let max_ns = *ctx.pick(&[200_000_000, 2 * SEC, 8 * SEC, 20 * SEC]);
                ctx.fault("slow network");
                let towards = ctx.chance(1, 2);
                ev!(ctx, "slow {i} {towards} {max_ns}");
                for j in 0..self.n() {
                    if j != i {
                        let (mut x, mut y) = (self.w.nodes[i].id, self.w.nodes[j].id);
                        if towards {
                            std::mem::swap(&mut x, &mut y);
                        }
                        let blocked = simrt::net::link(x, y).blocked;
                        simrt::net::set_link(x, y, simrt::net::LinkCfg { max_ns, spike_odds: 10, spike_ns: 2 * max_ns, blocked, ..Default::default() });
                    }
                }
            }
            6 => {
                let t = ctx.range(1, 200) as i64 * SEC;
                ctx.fault("stall");
                ev!(ctx, "freeze {i} {t}");
                simrt::freeze(self.w.nodes[i].id, t);
                self.frozen_until[i] = simrt::now() + t;
            }
            7 => {
                let s = ctx.range(0, 16) as i64 - 8;
                ctx.fault("clock skew");
                ev!(ctx, "skew {i} {s}");
                simrt::set_clock_skew(self.w.nodes[i].id, s * SEC);
            }
            8 => {
                ctx.fault("disk error armed");
                let d = &self.w.nodes[i].disk;
                match ctx.below(4) {
                    0 => d.fault_write(ctx.below(6), IoFault::Fail),
                    1 => d.fault_write(ctx.below(6), IoFault::FailAfter),
                    2 => d.fault_read(ctx.below(20)),
                    _ => d.set_full(true),
                }
            }
            _ => {
                ctx.fault("crash in a write armed");
                let d = &self.w.nodes[i].disk;
                d.fault_write(ctx.below(12), if ctx.chance(1, 2) { IoFault::CrashBefore } else { IoFault::CrashAfter });
            }
        }
        Ok(())
    }

    pub fn heal(&mut self) {
        for a in 0..self.n() {
            for b in a + 1..self.n() {
                simrt::net::set_blocked(self.w.nodes[a].id, self.w.nodes[b].id, false);
            }
        }
        self.split = false;
    }

    /// No more faults, and everyone is up.
    pub fn calm(&mut self) -> Res {
        ev!(self.ctx, "calm");
        self.heal();
        for i in 0..self.n() {
            for j in 0..self.n() {
                simrt::net::set_link(self.w.nodes[i].id, self.w.nodes[j].id, Default::default());
            }
            self.w.nodes[i].disk.clear_faults();
            simrt::set_clock_skew(self.w.nodes[i].id, 0);
        }
        self.reap();
        for i in 0..self.n() {
            if !self.w.nodes[i].up {
                self.down_until[i] = None;
                self.w.boot(i)?;
            }
        }
        Ok(())
    }

    /// Everyone is synced, on one chain.
    pub fn settled(&self) -> bool {
        self.view.iter().all(|v| v.state == Some(StateMachine::Synced) && v.tip == self.view[0].tip)
    }

    pub fn summary(&self) -> String {
        (0..self.n())
            .map(|i| {
                let v = &self.view[i];
                format!("{i}: {:?} tip {} {} confirmed {}; ", v.state, v.tip.checkpoint, &v.tip.hash_prev_block.to_string()[..8], v.confirmed)
            })
            .collect()
    }
}
