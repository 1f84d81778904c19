//! D01: the set of unspent outputs through blocks, consolidations, rollbacks, disk errors and crashes.

use crate::make;
use rocksdb::{Crashed, Disk, IoFault};
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::collections::BTreeMap;
use std::sync::Arc;
use witnet_data_structures::chain::*;
use witnet_data_structures::utxo_pool::*;
use witnet_storage::backends::rocks::Backend;
use witnet_storage::storage::Storage;

type Set = BTreeMap<OutputPointer, (ValueTransferOutput, u32)>;
type Db = CacheUtxosByPkh<UtxoDbWrapStorage<Backend>>;

const OWNERS: u64 = 5;
const STATE_KEY: &[u8] = b"chain-1-key";

fn died<T>(f: impl FnOnce() -> T) -> Result<Option<T>, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(Some(r)),
        Err(e) if e.is::<Crashed>() => Ok(None),
        Err(e) => Err(Fail::new("panic", simkit::panic_text(&*e))),
    }
}

fn open(disk: &Disk) -> Result<(Arc<Db>, UnspentOutputsPool), Fail> {
    let b = disk.open().map_err(|e| Fail::new("harness", e.to_string()))?;
    let db = Arc::new(CacheUtxosByPkh::new(UtxoDbWrapStorage(b)).map_err(|e| Fail::new("harness", e.to_string()))?);
    let pool = UnspentOutputsPool { db: Some(db.clone()), ..Default::default() };
    Ok((db, pool))
}

fn collect(it: impl Iterator<Item = (OutputPointer, (ValueTransferOutput, u32))>, what: &str) -> Result<Set, Fail> {
    let mut s = Set::new();
    for (k, v) in it {
        if s.insert(k, v).is_some() {
            return Err(Fail::new("duplicate", format!("{what} lists {k} twice")));
        }
    }
    Ok(s)
}

fn owned(s: &Set, who: PublicKeyHash) -> Set {
    s.iter().filter(|(_, v)| v.0.pkh == who).map(|(k, v)| (*k, v.clone())).collect()
}

/// Everything that can be asked of the pool, against the two reference maps.
fn check(ctx: &Ctx, db: &Db, pool: &UnspentOutputsPool, disk_set: &Set, all: &Set, seen: &[OutputPointer]) -> Res {
    ensure_eq!(collect(pool.iter(), "iter")?, *all, "wrong-set", "the outputs of the pool");
    ensure_eq!(collect(db.utxo_iterator().unwrap(), "utxo_iterator")?, *disk_set, "wrong-set", "the stored outputs");
    for _ in 0..3.min(seen.len()) {
        let k = ctx.pick(seen);
        ensure_eq!(pool.get(k), all.get(k).map(|v| v.0.clone()), "wrong-get", "get of {k}");
        ensure_eq!(pool.contains_key(k), all.contains_key(k), "wrong-get", "contains_key of {k}");
        ensure_eq!(pool.included_in_block_number(k), all.get(k).map(|v| v.1), "wrong-block-number", "block number of {k}");
        ensure_eq!(db.get_utxo(k).unwrap(), disk_set.get(k).cloned(), "wrong-get", "get_utxo of {k}");
    }
    let who = make::pkh(ctx.below(OWNERS + 1) as u8);
    let by = simkit::catch(|| db.utxo_iterator_by_pkh(who).unwrap().collect::<Vec<_>>())
        .map_err(|e| Fail::new("index-panic", format!("listing the stored outputs of {who} panicked: {e}")))?;
    ensure_eq!(collect(by.into_iter(), "utxo_iterator_by_pkh")?, owned(disk_set, who), "wrong-index", "the stored outputs of {who}");
    let (mut conf, mut every) = (vec![], vec![]);
    pool.visit_with_pkh(who, |x| conf.push(x.clone()), |x| every.push(x.clone()));
    ensure_eq!(collect(conf.into_iter(), "visit_with_pkh")?, owned(disk_set, who), "wrong-index", "the confirmed outputs of {who}");
    ensure_eq!(collect(every.into_iter(), "visit_with_pkh")?, owned(all, who), "wrong-index", "all outputs of {who}");
    let (mut conf, mut every) = (vec![], vec![]);
    pool.visit(|x| conf.push(x.clone()), |x| every.push(x.clone()));
    ensure_eq!(collect(conf.into_iter(), "visit")?, *disk_set, "wrong-set", "the confirmed outputs");
    ensure_eq!(collect(every.into_iter(), "visit")?, *all, "wrong-set", "all outputs");
    // Balance and information as the node's API computes them.
    let info = get_utxo_info(Some(who), &OwnUnspentOutputsPool::new(), pool, 1, 40);
    let got: BTreeMap<_, _> = info.utxos.iter().map(|m| (m.output_pointer, (m.value, m.utxo_mature))).collect();
    let want: BTreeMap<_, _> = owned(all, who).iter().map(|(k, v)| (*k, (v.0.value, v.1 <= 40))).collect();
    ensure_eq!(got, want, "wrong-info", "utxo information of {who}");
    let mut own = OwnUnspentOutputsPool::new();
    for k in owned(all, who).keys() {
        own.insert(*k, 0);
    }
    ensure_eq!(own.get_balance(pool), owned(all, who).values().map(|v| v.0.value).sum::<u64>(), "wrong-balance", "balance of {who}");
    for big in [true, false] {
        let order: Vec<u64> = own.sort(pool, big).iter().map(|o| all[o].0.value).collect();
        let mut want: Vec<u64> = owned(all, who).values().map(|v| v.0.value).collect();
        want.sort();
        if big {
            want.reverse();
        }
        ensure_eq!(order, want, "wrong-order", "values in selection order, bigger first: {big}");
    }
    Ok(())
}

struct World {
    disk: Disk,
    db: Arc<Db>,
    pool: UnspentOutputsPool,
    /// What the disk holds, what the node believes, and the block numbers of both.
    disk_set: Set,
    all: Set,
    height: u32,
    disk_height: u32,
    /// Snapshot of the pool at a superblock that was not consolidated yet.
    snap: Option<(UnspentOutputsPool, Set, u32)>,
    seen: Vec<OutputPointer>,
    next_tx: u64,
    synced: Vec<(Set, u32)>,
}

impl World {
    fn restart(&mut self, ctx: &Ctx) -> Res {
        self.snap = None;
        // The old handles must be gone before the database is opened again.
        self.pool = UnspentOutputsPool::default();
        let d = Disk::new();
        self.db = open(&d)?.0;
        let (db, pool) = open(&self.disk)?;
        self.db = db;
        self.pool = pool;
        let st = self.db.get(STATE_KEY).unwrap();
        let h: u32 = st.map(|b| bincode::deserialize(&b).unwrap()).unwrap_or(0);
        let got = collect(self.db.utxo_iterator().unwrap(), "utxo_iterator")?;
        ev!(ctx, "restarted at height {h} with {} outputs", got.len());
        let Some(i) = self.synced.iter().rposition(|(s, sh)| *s == got && *sh == h) else {
            return Err(Fail::new(
                "torn-state",
                format!("after a crash the chain state is at height {h} and the outputs are {got:?}; no consolidation wrote that pair"),
            ));
        };
        self.synced.truncate(i + 1);
        self.disk_set = got.clone();
        self.all = got;
        self.height = h;
        self.disk_height = h;
        Ok(())
    }
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let disk = Disk::new();
    let (db, pool) = open(&disk)?;
    let mut w = World {
        disk,
        db,
        pool,
        disk_set: Set::new(),
        all: Set::new(),
        height: 0,
        disk_height: 0,
        snap: None,
        seen: vec![],
        next_tx: 1,
        synced: vec![(Set::new(), 0)],
    };
    let faults = ctx.chance(3, 4);
    while ctx.more(60) {
        match ctx.weighted(&[8, 3, 4, if faults { 3 } else { 0 }, 1, 1]) {
            0 => block(ctx, &mut w)?,
            1 => {
                ctx.op("snapshot");
                w.snap = Some((w.pool.clone(), w.all.clone(), w.height));
                ev!(ctx, "snapshot at height {}", w.height);
            }
            2 => {
                let fault = if faults && ctx.chance(1, 3) {
                    let f = *ctx.pick(&[IoFault::Fail, IoFault::CrashBefore, IoFault::CrashAfter, IoFault::FailAfter]);
                    w.disk.fault_write(0, f);
                    Some(f)
                } else if faults && ctx.chance(1, 8) {
                    w.disk.set_full(true);
                    None
                } else {
                    None
                };
                consolidate(ctx, &mut w, matches!(fault, Some(IoFault::FailAfter)))?;
                w.disk.clear_faults();
                w.disk.set_full(false);
            }
            3 => {
                // Power loss: anything not yet synced may be gone, from the end.
                let lost = ctx.idx(w.disk.unsynced() + 1);
                ctx.fault("power_loss");
                ev!(ctx, "power loss, {lost} records lost");
                w.disk.crash(lost);
                let before = w.synced.len();
                w.restart(ctx)?;
                ensure!(lost > 0 || w.synced.len() == before, "lost-write", "an acknowledged consolidation is gone after a clean restart");
            }
            4 => {
                // The node falls back to the last consolidated state without restarting.
                ctx.op("rollback");
                ev!(ctx, "rollback to height {}", w.disk_height);
                w.pool.diff = Diff::new();
                w.snap = None;
                w.all = w.disk_set.clone();
                w.height = w.disk_height;
            }
            _ => {
                if ctx.chance(1, 3) {
                    // Start over: every stored output goes, together with the new empty state.
                    ctx.op("reinitialize");
                    let mut batch = UtxoWriteBatch::default();
                    let n = w.pool.delete_all_from_db_batch(&mut batch);
                    ensure_eq!(n, w.disk_set.len(), "wrong-count", "outputs to delete");
                    batch.put_raw(STATE_KEY.to_vec(), bincode::serialize(&0u32).unwrap());
                    UtxoDb::write(&*w.db, batch).map_err(|e| Fail::new("spurious-error", e.to_string()))?;
                    w.pool.diff = Diff::new();
                    w.snap = None;
                    w.disk_set.clear();
                    w.all.clear();
                    w.height = 0;
                    w.disk_height = 0;
                    w.synced.push((Set::new(), 0));
                    ev!(ctx, "reinitialized");
                } else {
                    // Export and import into a fresh node.
                    ctx.op("migrate");
                    let mut old = OldUnspentOutputsPool::from(w.pool.clone());
                    let d = Disk::new();
                    let (db2, mut p2) = open(&d)?;
                    p2.migrate_old_unspent_outputs_pool_to_db(&mut old, |_, _| {});
                    ensure!(old.is_empty(), "wrong-set", "the old pool is not empty after the migration");
                    check(ctx, &db2, &p2, &w.all, &w.all, &w.seen)?;
                }
            }
        }
        check(ctx, &w.db, &w.pool, &w.disk_set, &w.all, &w.seen)?;
        ctx.state(simkit::rng::fnv(format!("{:?}{:?}", w.disk_set, w.all).as_bytes()));
    }
    Ok(())
}

fn block(ctx: &Ctx, w: &mut World) -> Res {
    ctx.op("block");
    w.height += 1;
    let before = w.all.clone();
    let mut now = w.all.clone();
    let mut d = UtxoDiff::new(&w.pool, w.height);
    let dropped = ctx.chance(1, 6);
    for _ in 0..1 + ctx.below(4) {
        let tx = w.next_tx;
        w.next_tx += 1;
        // Inputs: outputs of earlier blocks or of earlier transactions in this one.
        for _ in 0..ctx.below(3) {
            let keys: Vec<OutputPointer> = now.keys().copied().collect();
            if keys.is_empty() {
                break;
            }
            let k = if ctx.chance(1, 3) { *keys.last().unwrap() } else { *ctx.pick(&keys) };
            ctx.probe_if(!before.contains_key(&k), "spent_in_same_block");
            ctx.probe_if(w.disk_set.contains_key(&k), "spent_confirmed");
            d.remove_utxo(k);
            now.remove(&k);
            ensure_eq!(d.get(&k), None, "double-spend", "output {k} just spent in this block");
            ensure_eq!(d.included_in_block_number(&k), None, "double-spend", "block number of the output {k} just spent");
        }
        for i in 0..1 + ctx.below(3) {
            let k = make::op(tx, i as u32);
            let v = make::vto(ctx, OWNERS);
            let n = if ctx.chance(1, 5) { Some(0) } else { None };
            d.insert_utxo(k, v.clone(), n);
            now.insert(k, (v.clone(), n.unwrap_or(w.height)));
            w.seen.push(k);
            ensure_eq!(d.get(&k), Some(v), "wrong-get", "the output {k} just created");
        }
    }
    for k in w.seen.iter().rev().take(12) {
        ensure_eq!(d.get(k), now.get(k).map(|x| x.0.clone()), "wrong-get", "{k} during the block");
        // The age of an output counts from the block before.
        let since = before.get(k).filter(|_| now.contains_key(k)).map(|x| x.1);
        ensure_eq!(d.included_in_block_number(k), since, "wrong-block-number", "{k} during the block");
    }
    if dropped {
        // The block was only a candidate.
        ctx.op("discarded_block");
        w.height -= 1;
        ev!(ctx, "candidate block dropped");
        return Ok(());
    }
    let diff = d.take_diff();
    // The node updates its list of own outputs from the same difference.
    let mut mine: BTreeMap<OutputPointer, u64> = before.iter().filter(|(_, v)| v.0.pkh == make::pkh(0)).map(|(k, v)| (*k, v.0.value)).collect();
    diff.visit(
        &mut mine,
        |m, k, v| {
            if v.pkh == make::pkh(0) {
                m.insert(*k, v.value);
            }
        },
        |m, k| {
            m.remove(k);
        },
    );
    let want: BTreeMap<OutputPointer, u64> = now.iter().filter(|(_, v)| v.0.pkh == make::pkh(0)).map(|(k, v)| (*k, v.0.value)).collect();
    ensure_eq!(mine, want, "wrong-diff", "own outputs after visiting the difference");
    diff.apply(&mut w.pool);
    w.all = now;
    ev!(ctx, "block {}: {} outputs", w.height, w.all.len());
    Ok(())
}

/// As `ChainManager::persist_chain_state` does it.
fn consolidate(ctx: &Ctx, w: &mut World, unsure: bool) -> Res {
    ctx.op("consolidate");
    let (mut state, set, h) = match w.snap.take() {
        Some(s) => {
            ctx.probe_if(s.2 < w.height, "snapshot_behind_head");
            s
        }
        None => (w.pool.clone(), w.all.clone(), w.height),
    };
    if h < w.disk_height {
        return Ok(());
    }
    w.pool.remove_persisted_from_memory(&state.diff);
    let mut batch = UtxoWriteBatch::default();
    state.persist_add_to_batch(&mut batch);
    batch.put_raw(STATE_KEY.to_vec(), bincode::serialize(&h).unwrap());
    let db = w.db.clone();
    let r = died(move || UtxoDb::write(&*db, batch))?;
    drop(state);
    for f in w.disk.take_fired() {
        ctx.fault(f);
    }
    match r {
        Some(Ok(())) => {
            w.disk_set = set.clone();
            w.disk_height = h;
            w.synced.push((set, h));
            ev!(ctx, "consolidated height {h}");
        }
        Some(Err(e)) => {
            ev!(ctx, "consolidation failed: {e}");
            if unsure {
                // Nobody knows whether the write happened: the node has to be restarted.
                w.synced.push((set, h));
                ctx.fault("crash");
                w.disk.crash(0);
                w.disk.clear_faults();
                w.restart(ctx)?;
            } else {
                // The database and the index per address must still be those of before; the node goes back to them.
                w.pool.diff = Diff::new();
                w.all = w.disk_set.clone();
                w.height = w.disk_height;
            }
        }
        None => {
            w.synced.push((set, h));
            w.disk.crash(0);
            w.disk.clear_faults();
            w.restart(ctx)?;
        }
    }
    Ok(())
}
