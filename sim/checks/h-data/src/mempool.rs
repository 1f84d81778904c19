//! D02: the pool of pending transactions under gossip, double spends, blocks and loss of synchronization.

use crate::make::{self, op, pkh};
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::DataRequestPool;
use witnet_data_structures::transaction::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Kind {
    Vt,
    Dr,
    St,
    Ut,
}
use Kind::*;

#[derive(Clone)]
struct Entry {
    kind: Kind,
    tx: Transaction,
    prio: f64,
    weight: u64,
    inputs: BTreeSet<OutputPointer>,
}

#[derive(Default)]
struct Model {
    txs: BTreeMap<Hash, Entry>,
    commits: BTreeMap<(Hash, PublicKeyHash), CommitTransaction>,
    reveals: BTreeMap<(Hash, PublicKeyHash), RevealTransaction>,
    unconf: [Vec<Hash>; 2],
    limit: u64,
    factor: f64,
    min_vtt: u64,
    min_coll: u64,
    ratio: u64,
}

impl Model {
    fn weight(&self, k: Option<Kind>) -> u64 {
        self.txs.values().filter(|e| k.is_none_or(|k| k == e.kind)).map(|e| e.weight).sum()
    }
    fn spend(&mut self, inputs: &BTreeSet<OutputPointer>) {
        self.txs.retain(|_, e| e.inputs.is_disjoint(inputs));
    }
}

fn kind(t: &Transaction) -> Kind {
    match t {
        Transaction::ValueTransfer(_) => Vt,
        Transaction::DataRequest(_) => Dr,
        Transaction::Stake(_) => St,
        Transaction::Unstake(_) => Ut,
        _ => unreachable!(),
    }
}

fn weight(t: &Transaction) -> u32 {
    match t {
        Transaction::ValueTransfer(t) => t.weight(),
        Transaction::DataRequest(t) => t.weight(),
        Transaction::Stake(t) => t.weight(),
        Transaction::Unstake(t) => t.weight(),
        _ => 0,
    }
}

fn sig(n: u8) -> KeyedSignature {
    let mut s = KeyedSignature::default();
    s.public_key.bytes = [n; 32];
    s
}

fn inputs(ctx: &Ctx, coins: u64) -> Vec<Input> {
    let mut set = BTreeSet::new();
    for _ in 0..1 + ctx.below(3) {
        set.insert(ctx.below(coins));
    }
    set.into_iter().map(|n| Input::new(op(n, 0))).collect()
}

fn outs(ctx: &Ctx) -> Vec<ValueTransferOutput> {
    (0..ctx.below(5)).map(|_| make::vto(ctx, 4)).collect()
}

fn gen_tx(ctx: &Ctx, coins: u64) -> Transaction {
    match ctx.weighted(&[5, 4, 3, 2]) {
        0 => Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(inputs(ctx, coins), outs(ctx)), vec![sig(1)])),
        1 => {
            let d = DataRequestOutput {
                witness_reward: 1 + ctx.below(3),
                witnesses: 1 + ctx.below(4) as u16,
                commit_and_reveal_fee: ctx.below(5),
                collateral: *ctx.pick(&[0, 1, 40, 41, 100]),
                ..Default::default()
            };
            Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(inputs(ctx, coins), d, outs(ctx)), vec![sig(1)]))
        }
        2 => {
            let mut o = StakeOutput::default();
            o.value = 1 + ctx.below(100);
            let change = ctx.chance(1, 2).then(|| make::vto(ctx, 4));
            Transaction::Stake(StakeTransaction::new(StakeTransactionBody::new(inputs(ctx, coins), o, change), vec![sig(1)]))
        }
        _ => Transaction::Unstake(UnstakeTransaction::new(
            UnstakeTransactionBody::new(pkh(ctx.below(4) as u8), make::vto(ctx, 4), ctx.below(9), ctx.below(9)),
            sig(1),
        )),
    }
}

fn tx_inputs(t: &Transaction) -> BTreeSet<OutputPointer> {
    let i: &[Input] = match t {
        Transaction::ValueTransfer(t) => &t.body.inputs,
        Transaction::DataRequest(t) => &t.body.inputs,
        Transaction::Stake(t) => &t.body.inputs,
        Transaction::Commit(t) => &t.body.collateral,
        _ => &[],
    };
    i.iter().map(|i| *i.output_pointer()).collect()
}

/// The same transaction with another valid-looking signature.
fn malleate(t: &Transaction) -> Transaction {
    let mut t = t.clone();
    match &mut t {
        Transaction::ValueTransfer(t) => t.signatures[0] = sig(2),
        Transaction::DataRequest(t) => t.signatures[0] = sig(2),
        Transaction::Stake(t) => t.signatures[0] = sig(2),
        Transaction::Unstake(t) => t.signature = sig(2),
        _ => {}
    }
    t
}

fn entry(t: &Transaction, fee: u64) -> Entry {
    Entry { kind: kind(t), tx: t.clone(), prio: fee as f64 / f64::from(weight(t)), weight: u64::from(weight(t)), inputs: tx_inputs(t) }
}

/// Accept the transactions that the pool says it dropped to make room.
fn evicted(m: &mut Model, gone: &[Transaction]) -> Res {
    for t in gone {
        let h = t.hash();
        ensure!(m.weight(None) > m.limit, "needless-eviction", "{h} was dropped although everything fits into {}", m.limit);
        let Some(e) = m.txs.get(&h).cloned() else {
            return Err(Fail::new("wrong-eviction", format!("{h} was reported as dropped but was not in the pool")));
        };
        ensure_eq!(*t, e.tx, "wrong-eviction", "the dropped transaction");
        let low = m.txs.values().filter(|x| x.kind == e.kind).map(|x| x.prio).fold(f64::INFINITY, f64::min);
        ensure!(e.prio <= low, "wrong-eviction", "{h} pays {} per unit of weight and was dropped before one of the same kind that pays {low}", e.prio);
        let (vt, dr) = (m.weight(Some(Vt)) as f64, m.weight(Some(Dr)) as f64 * m.factor);
        match e.kind {
            Vt => ensure!(vt >= dr || m.weight(Some(Dr)) == 0, "wrong-share", "a value transfer was dropped although data requests are over their share ({vt} < {dr})"),
            Dr => ensure!(vt <= dr || m.weight(Some(Vt)) == 0, "wrong-share", "a data request was dropped although value transfers are over their share ({vt} > {dr})"),
            _ => {}
        }
        m.txs.remove(&h);
    }
    ensure!(m.weight(None) <= m.limit, "over-limit", "the pool weighs {} and may weigh {}", m.weight(None), m.limit);
    Ok(())
}

fn check(ctx: &Ctx, p: &TransactionsPool, m: &Model, seen: &[Transaction]) -> Res {
    let lists: [(Kind, usize, Vec<Transaction>); 4] = [
        (Vt, p.vt_len(), p.vt_iter().cloned().map(Transaction::ValueTransfer).collect()),
        (Dr, p.dr_len(), p.dr_iter().cloned().map(Transaction::DataRequest).collect()),
        (St, p.st_len(), p.st_iter().cloned().map(Transaction::Stake).collect()),
        (Ut, p.ut_len(), p.ut_iter().cloned().map(Transaction::Unstake).collect()),
    ];
    for (k, len, list) in lists {
        let want: BTreeSet<Hash> = m.txs.iter().filter(|(_, e)| e.kind == k).map(|(h, _)| *h).collect();
        let got: Vec<Hash> = list.iter().map(|t| t.hash()).collect();
        ensure_eq!(got.iter().copied().collect::<BTreeSet<_>>(), want, "wrong-contents", "pending {k:?} transactions");
        ensure_eq!((got.len(), len), (want.len(), want.len()), "wrong-contents", "number of {k:?} transactions, listed and counted");
        let mut last = f64::INFINITY;
        for (h, t) in got.iter().zip(&list) {
            let e = &m.txs[h];
            ensure!(e.prio <= last, "wrong-order", "{h} pays {} per unit of weight and is listed after one that pays {last}", e.prio);
            last = e.prio;
            ensure_eq!(*t, e.tx, "wrong-contents", "the transaction stored under {h}");
        }
    }
    ensure_eq!(p.total_transactions_weight(), m.weight(None), "wrong-weight", "weight of the pool");
    ensure_eq!(p.is_empty(), m.txs.is_empty() && m.commits.is_empty() && m.reveals.is_empty(), "wrong-contents", "is_empty");
    for _ in 0..3.min(seen.len()) {
        let t = ctx.pick(seen);
        let h = t.hash();
        ensure_eq!(p.contains(t).ok(), Some(m.txs.contains_key(&h)), "wrong-contents", "contains {h}");
        ensure_eq!(p.get(&h), m.txs.get(&h).map(|e| e.tx.clone()), "wrong-contents", "get {h}");
        if let Transaction::ValueTransfer(v) = t {
            ensure_eq!(p.vt_get(&h).is_some(), m.txs.contains_key(&h), "wrong-contents", "vt_get {h} ({v:?})");
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let mut p = TransactionsPool::new();
    let mut m = Model { limit: u64::MAX, factor: 1.0, ratio: u64::MAX, ..Default::default() };
    let coins = *ctx.pick(&[4u64, 12, 60]);
    if ctx.chance(2, 3) {
        set_limit(ctx, &mut p, &mut m)?;
    }
    if ctx.chance(1, 3) {
        m.min_vtt = ctx.below(20);
        p.set_minimum_vtt_fee(m.min_vtt);
    }
    if ctx.chance(1, 3) {
        m.ratio = 1 + ctx.below(60);
        p.set_required_reward_collateral_ratio(m.ratio);
        let c = ctx.below(3);
        p.set_collateral_minimum(c);
        m.min_coll = 20 * c;
    }
    let mut seen: Vec<Transaction> = vec![];
    let mut drs = DataRequestPool::new(1);
    let mut dr_hashes: Vec<(Hash, DataRequestOutput)> = vec![];
    let mut n_commit = 0u64;
    while ctx.more(120) {
        match ctx.weighted(&[14, 4, 3, 2, 3, 4, 2, 2, 1, 1]) {
            0 => {
                // A transaction arrives: new, once more, or with another signature.
                let t = match ctx.below(8) {
                    0 if !seen.is_empty() => {
                        ctx.fault("duplicate_delivery");
                        ctx.pick(&seen).clone()
                    }
                    1 if !seen.is_empty() => {
                        ctx.fault("malleated_delivery");
                        malleate(ctx.pick(&seen))
                    }
                    _ => gen_tx(ctx, coins),
                };
                let fee = ctx.skewed(3000);
                // Two peers may deliver the same transaction before either copy was verified.
                ctx.probe_if(m.txs.contains_key(&t.hash()), "inserted_twice");
                insert(ctx, &mut p, &mut m, &t, fee)?;
                seen.push(t);
            }
            1 => {
                // A block is consolidated; its transactions may be known, unknown or in conflict with pending ones.
                ctx.op("block");
                let mut spent = BTreeSet::new();
                for _ in 0..1 + ctx.below(4) {
                    let t = if !seen.is_empty() && ctx.chance(2, 3) { ctx.pick(&seen).clone() } else { gen_tx(ctx, coins) };
                    let ins = tx_inputs(&t);
                    if !spent.is_disjoint(&ins) {
                        continue;
                    }
                    spent.extend(ins.iter().copied());
                    let h = t.hash();
                    let had = m.txs.remove(&h).map(|e| e.tx);
                    let before = m.txs.len();
                    m.spend(&ins);
                    ctx.probe_if(m.txs.len() < before, "double_spend_removed");
                    let got = match &t {
                        Transaction::ValueTransfer(t) => p.vt_remove(t).map(Transaction::ValueTransfer),
                        Transaction::DataRequest(t) => p.dr_remove(t).map(Transaction::DataRequest),
                        Transaction::Stake(t) => p.st_remove(t).map(Transaction::Stake),
                        Transaction::Unstake(t) => p.ut_remove(t).map(Transaction::Unstake),
                        _ => unreachable!(),
                    };
                    ev!(ctx, "block spends {h} ({:?})", kind(&t));
                    ensure_eq!(got, had, "wrong-contents", "what was removed for {h}");
                }
                if ctx.chance(1, 3) {
                    // Collateral of commitments in the block.
                    let ins = inputs(ctx, coins);
                    p.remove_inputs(&ins);
                    m.spend(&ins.iter().map(|i| *i.output_pointer()).collect());
                }
            }
            2 => {
                // A data request gets into the chain, so that commits can follow.
                let d = DataRequestOutput {
                    witnesses: 1 + ctx.below(4) as u16,
                    commit_and_reveal_fee: ctx.below(5),
                    witness_reward: 1,
                    data_request: Default::default(),
                    collateral: 1,
                    min_consensus_percentage: 51,
                };
                let t = DRTransaction::new(DRTransactionBody::new(vec![Input::new(op(1000 + dr_hashes.len() as u64, 0))], d.clone(), vec![]), vec![sig(1)]);
                drs.process_data_request(&t, 0, None).map_err(|e| Fail::new("harness", e.to_string()))?;
                dr_hashes.push((t.hash(), d));
            }
            3 if !dr_hashes.is_empty() => {
                // Commits flow in; some share collateral, some come twice, one witness may send two.
                for _ in 0..ctx.below(6) {
                    let (dp, _) = *ctx.pick(&dr_hashes.iter().map(|x| (x.0, 0)).collect::<Vec<_>>());
                    n_commit += 1;
                    let who = ctx.below(6) as u8;
                    let collateral = if ctx.chance(1, 3) { inputs(ctx, 6) } else { vec![Input::new(op(5000 + n_commit, 0))] };
                    let mut claim = witnet_data_structures::vrf::DataRequestEligibilityClaim::default();
                    claim.proof = vrf_proof(who);
                    let c = CommitTransaction::new(
                        CommitTransactionBody::new(dp, make::hash_of(n_commit), claim, collateral, vec![], None),
                        vec![sig(who)],
                    );
                    let t = Transaction::Commit(c.clone());
                    let key = (dp, sig(who).public_key.pkh());
                    let known = p.contains(&t);
                    match m.commits.get(&key) {
                        None => ensure!(matches!(known, Ok(false)), "wrong-contents", "an unknown commit: {known:?}"),
                        Some(_) => ensure!(known.is_err(), "wrong-contents", "a second commit of the same witness: {known:?}"),
                    }
                    if matches!(known, Ok(false)) {
                        p.insert(t.clone(), 0);
                        m.commits.insert(key, c);
                        ensure!(matches!(p.contains(&t), Ok(true)), "wrong-contents", "the commit just added is not there");
                        ensure_eq!(p.get(&t.hash()), Some(t.clone()), "wrong-contents", "the commit just added");
                    }
                }
            }
            4 if !dr_hashes.is_empty() => take_commits(ctx, &mut p, &mut m, &drs, &dr_hashes)?,
            5 if !dr_hashes.is_empty() => reveals(ctx, &mut p, &mut m, &drs, &dr_hashes)?,
            6 => {
                // The node loses the chain: what is not yet confirmed leaves the pool and is sent in again.
                match ctx.below(3) {
                    0 => {
                        p.update_unconfirmed_transactions();
                        m.unconf.swap(0, 1);
                        m.unconf[0].clear();
                    }
                    1 if !seen.is_empty() => {
                        let h = ctx.pick(&seen).hash();
                        if !m.unconf.iter().any(|v| v.contains(&h)) {
                            p.insert_unconfirmed_transactions(h);
                            m.unconf[0].push(h);
                        }
                    }
                    _ => {
                        ctx.fault("lost_sync");
                        let got = p.remove_unconfirmed_transactions();
                        let hs: BTreeSet<Hash> = m.unconf.iter().flatten().copied().filter(|h| m.txs.contains_key(h)).collect();
                        ev!(ctx, "lost the chain, {} transactions leave", got.len());
                        ensure_eq!(got.iter().map(|t| t.hash()).collect::<BTreeSet<_>>(), hs, "wrong-contents", "unconfirmed transactions that left");
                        ensure_eq!(got.len(), hs.len(), "duplicate", "unconfirmed transactions that left");
                        for h in hs {
                            m.txs.remove(&h);
                        }
                        m.unconf = Default::default();
                        m.commits.clear();
                        m.reveals.clear();
                        check(ctx, &p, &m, &seen)?;
                        for t in got {
                            let fee = ctx.skewed(3000);
                            insert(ctx, &mut p, &mut m, &t, fee)?;
                        }
                    }
                }
            }
            7 => match ctx.below(6) {
                0 => {
                    p.clear_stake_transactions();
                    m.txs.retain(|_, e| e.kind != St);
                    ctx.op("clear_stake");
                }
                1 => {
                    p.clear_unstake_transactions();
                    m.txs.retain(|_, e| e.kind != Ut);
                    ctx.op("clear_unstake");
                }
                2 => {
                    let hs: Vec<Hash> = m.txs.iter().filter(|(_, e)| e.kind == Ut).map(|(h, _)| *h).take(2).collect();
                    p.remove_invalid_unstake_transactions(hs.clone());
                    for h in hs {
                        m.txs.remove(&h);
                    }
                }
                3 => {
                    // A stake that became invalid. Whether the ones that spend the same coins go too is not prescribed.
                    let hs: Vec<Hash> = m.txs.iter().filter(|(_, e)| e.kind == St).map(|(h, _)| *h).take(2).collect();
                    p.remove_invalid_stake_transactions(hs.clone());
                    for h in hs {
                        let e = m.txs.remove(&h);
                        if let Some(e) = e {
                            m.txs.retain(|h, x| x.inputs.is_disjoint(&e.inputs) || p.get(h).is_some());
                        }
                    }
                }
                4 => {
                    let keep = ctx.below(4);
                    p.vt_retain(|t| t.body.outputs.len() as u64 >= keep);
                    m.txs.retain(|_, e| match &e.tx {
                        Transaction::ValueTransfer(t) => t.body.outputs.len() as u64 >= keep,
                        _ => true,
                    });
                }
                _ => {
                    p.clear_commits();
                    m.commits.clear();
                }
            },
            8 => set_limit(ctx, &mut p, &mut m)?,
            _ => {
                if ctx.chance(1, 6) {
                    p.clear();
                    m.txs.clear();
                    m.commits.clear();
                    m.reveals.clear();
                    m.unconf = Default::default();
                }
            }
        }
        check(ctx, &p, &m, &seen)?;
        ctx.state(simkit::rng::fnv(format!("{:?}", m.txs.keys().collect::<Vec<_>>()).as_bytes()));
    }
    Ok(())
}

fn set_limit(ctx: &Ctx, p: &mut TransactionsPool, m: &mut Model) -> Res {
    m.limit = *ctx.pick(&[0, 100, 153, 1000, 3000, 8000, 20_000]);
    m.factor = *ctx.pick(&[0.0, 0.25, 1.0, 4.0]);
    ctx.fault("pool_limit");
    let (limit, factor) = (m.limit, m.factor);
    let gone = simkit::catch(std::panic::AssertUnwindSafe(|| p.set_total_weight_limit(limit, factor)))
        .map_err(|e| Fail::new("panic", format!("set_total_weight_limit({limit}, {factor}) panicked: {e}")))?;
    ev!(ctx, "limit {limit}, factor {factor}: {} dropped", gone.len());
    evicted(m, &gone)
}

fn insert(ctx: &Ctx, p: &mut TransactionsPool, m: &mut Model, t: &Transaction, fee: u64) -> Res {
    ctx.op("insert");
    let h = t.hash();
    let gone = simkit::catch(std::panic::AssertUnwindSafe(|| p.insert(t.clone(), fee)))
        .map_err(|e| Fail::new("panic", format!("inserting {h} panicked: {e}")))?;
    ev!(ctx, "insert {:?} {h} fee {fee} weight {}: {} dropped", kind(t), weight(t), gone.len());
    let refused = match t {
        Transaction::ValueTransfer(_) => fee < m.min_vtt,
        Transaction::DataRequest(d) => {
            let o = &d.body.dr_output;
            let c = if o.collateral == 0 { m.min_coll } else { o.collateral };
            c.div_ceil(o.witness_reward) > m.ratio
        }
        _ => false,
    };
    if refused {
        ctx.op("refused");
        ensure_eq!(gone, vec![t.clone()], "wrong-refusal", "a transaction below the configured minimum");
        return Ok(());
    }
    m.txs.insert(h, entry(t, fee));
    ctx.probe_if(!gone.is_empty(), "evicted");
    evicted(m, &gone)
}

fn take_commits(ctx: &Ctx, p: &mut TransactionsPool, m: &mut Model, drs: &DataRequestPool, known: &[(Hash, DataRequestOutput)]) -> Res {
    ctx.op("take_commits");
    let (got, fee, solved) = p.remove_commits(drs);
    ev!(ctx, "{} commits for {} requests", got.len(), solved.len());
    let mut spent = HashSet::new();
    let mut per: BTreeMap<Hash, BTreeSet<PublicKeyHash>> = BTreeMap::new();
    for c in &got {
        let key = (c.body.dr_pointer, c.body.proof.proof.pkh());
        ensure_eq!(m.commits.get(&key), Some(c), "wrong-commit", "a commit for the block");
        for i in &c.body.collateral {
            ensure!(spent.insert(*i.output_pointer()), "double-spend", "two commits for the same block spend {}", i.output_pointer());
        }
        ensure!(per.entry(key.0).or_default().insert(key.1), "double-commit", "one witness commits twice to {}", key.0);
    }
    ensure_eq!(solved.iter().copied().collect::<BTreeSet<_>>(), per.keys().copied().collect(), "wrong-commit", "requests that got commits");
    let mut want_fee = 0;
    for (dp, o) in known {
        if let Some(w) = per.get(dp) {
            ensure_eq!(w.len(), o.witnesses as usize, "wrong-commit", "number of commits to {dp}");
            want_fee += o.commit_and_reveal_fee * u64::from(o.witnesses);
        }
    }
    ensure_eq!(fee, want_fee, "wrong-fee", "fees of the commits");
    // Nobody can be left out when no collateral is shared.
    let all: Vec<OutputPointer> = m.commits.values().flat_map(|c| c.body.collateral.iter().map(|i| *i.output_pointer())).collect();
    if all.iter().collect::<BTreeSet<_>>().len() == all.len() {
        for (dp, o) in known {
            let n = m.commits.keys().filter(|k| k.0 == *dp).count();
            ensure!(n < o.witnesses as usize || per.contains_key(dp), "starved", "{n} commits are there for {dp}, which needs {}, and none was taken", o.witnesses);
        }
    } else {
        ctx.probe("shared_collateral");
    }
    m.commits.clear();
    Ok(())
}

fn reveals(ctx: &Ctx, p: &mut TransactionsPool, m: &mut Model, drs: &DataRequestPool, known: &[(Hash, DataRequestOutput)]) -> Res {
    let (dp, _) = ctx.pick(known).clone();
    match ctx.below(4) {
        0 | 1 => {
            let who = ctx.below(6) as u8;
            let r = RevealTransaction::new(RevealTransactionBody::new(dp, vec![ctx.below(2) as u8], pkh(who)), vec![sig(who)]);
            let t = Transaction::Reveal(r.clone());
            let known = p.contains(&t);
            match m.reveals.get(&(dp, pkh(who))) {
                None => ensure!(matches!(known, Ok(false)), "wrong-contents", "an unknown reveal: {known:?}"),
                Some(x) if *x == r => ensure!(matches!(known, Ok(true)), "wrong-contents", "a known reveal: {known:?}"),
                Some(_) => ensure!(known.is_err(), "wrong-contents", "a second reveal of the same witness: {known:?}"),
            }
            if matches!(known, Ok(false)) {
                p.insert(t, 0);
                m.reveals.insert((dp, pkh(who)), r);
            }
        }
        2 => {
            let who = pkh(ctx.below(6) as u8);
            let h = match m.reveals.get(&(dp, who)) {
                Some(r) => r.hash(),
                None => make::hash_of(77),
            };
            let got = p.remove_one_reveal(&dp, &who, &h);
            ensure_eq!(got, m.reveals.remove(&(dp, who)), "wrong-reveal", "the reveal of {who} taken out");
        }
        _ => {
            p.clear_reveals_from_finished_dr(&dp);
            m.reveals.retain(|k, _| k.0 != dp);
        }
    }
    let (got, fee) = p.get_reveals(drs);
    let got: BTreeMap<(Hash, PublicKeyHash), RevealTransaction> = got.into_iter().map(|r| ((r.body.dr_pointer, r.body.pkh), r.clone())).collect();
    ensure_eq!(got, m.reveals, "wrong-reveal", "reveals for the block");
    let want: u64 = m.reveals.keys().map(|k| known.iter().find(|x| x.0 == k.0).unwrap().1.commit_and_reveal_fee).sum();
    ensure_eq!(fee, want, "wrong-fee", "fees of the reveals");
    Ok(())
}

/// A proof that names the witness and proves nothing; the pool does not look into it.
fn vrf_proof(who: u8) -> witnet_data_structures::vrf::VrfProof {
    let bytes = bincode::serialize(&(Vec::<u8>::new(), sig(who).public_key)).unwrap();
    bincode::deserialize(&bytes).unwrap()
}
