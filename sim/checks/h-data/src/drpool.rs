//! D03: the life of data requests, block by block, with restarts and replays.

use crate::make::{self, op};
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use witnet_data_structures::chain::tapi::{ActiveWips, current_active_wips};
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::{DataRequestPool, create_tally};
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::radon_error::{ErrorLike, RadonError};
use witnet_data_structures::radon_report::{RadonReport, ReportContext, Stage, TallyMetaData, TypeLike};
use witnet_data_structures::transaction::*;

/// A result of a request that may refuse to be encoded.
#[derive(Clone, Debug, PartialEq)]
struct Out(Option<u8>);

#[derive(Clone, Debug)]
struct OutErr;
impl std::fmt::Display for OutErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("cannot be encoded")
    }
}
impl std::error::Error for OutErr {}
impl ErrorLike for OutErr {
    fn encode_cbor_array(&self) -> Result<Vec<serde_cbor::Value>, anyhow::Error> {
        unreachable!()
    }
    fn decode_cbor_array(_: Vec<serde_cbor::Value>) -> Result<RadonError<Self>, anyhow::Error> {
        unreachable!()
    }
}
impl TypeLike for Out {
    type Error = OutErr;
    fn encode(&self) -> Result<Vec<u8>, OutErr> {
        self.0.map(|x| vec![x]).ok_or(OutErr)
    }
    fn intercept(r: Result<Self, OutErr>) -> Self {
        r.unwrap_or(Out(None))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Commit(u32),
    Reveal(u32),
    Tally,
}

#[derive(Clone, Debug)]
struct Dr {
    out: DataRequestOutput,
    owner: PublicKeyHash,
    epoch: u32,
    st: St,
    age: u32,
    commits: BTreeSet<u8>,
    reveals: BTreeMap<u8, RevealTransaction>,
}

type Model = BTreeMap<Hash, Dr>;

#[derive(Clone)]
enum Act {
    Tally(TallyTransaction),
    Request(DRTransaction),
    Commit(CommitTransaction),
    Reveal(RevealTransaction),
}

#[derive(Clone)]
struct Blk {
    epoch: u32,
    validators: usize,
    acts: Vec<Act>,
}

const MINE: u8 = 0;
const MIN_COLLATERAL: u64 = 100;

fn sig(n: u8) -> KeyedSignature {
    let mut s = KeyedSignature::default();
    s.public_key.bytes = [n; 32];
    s
}
fn who(n: u8) -> PublicKeyHash {
    sig(n).public_key.pkh()
}

fn commit(dp: Hash, n: u8) -> CommitTransaction {
    CommitTransaction::new(CommitTransactionBody::without_collateral(dp, make::hash_of(u64::from(n)), Default::default()), vec![sig(n)])
}
fn reveal(dp: Hash, n: u8, v: u8) -> RevealTransaction {
    RevealTransaction::new(RevealTransactionBody::new(dp, vec![v], who(n)), vec![sig(n)])
}

fn too_many(d: &DataRequestOutput, validators: usize, epoch: u32) -> bool {
    epoch >= crate::V2_0_AT && u64::from(d.witnesses) > validators as u64 / 4
}

fn collateral(d: &DataRequestOutput) -> u64 {
    if d.collateral == 0 { MIN_COLLATERAL } else { d.collateral }
}

/// What a request and its witnesses have put in and did not get back yet.
fn locked(d: &Dr) -> u64 {
    let (c, r) = (d.commits.len() as u64, d.reveals.len() as u64);
    u64::from(d.out.witnesses) * (d.out.witness_reward + 2 * d.out.commit_and_reveal_fee) + c * collateral(&d.out)
        - (c + r) * d.out.commit_and_reveal_fee
}

/// What has to happen to a request between two blocks.
fn advance(d: &mut Dr, extra: u32, too_many: bool) {
    d.age += 1;
    d.st = match d.st {
        St::Commit(_) if !d.commits.is_empty() => St::Reveal(1),
        St::Commit(_) if too_many => St::Tally,
        St::Commit(r) if r <= extra => St::Commit(r + 1),
        St::Commit(_) => St::Tally,
        St::Reveal(r) if d.reveals.len() < d.out.witnesses as usize && r <= extra => St::Reveal(r + 1),
        _ => St::Tally,
    };
}

fn check(p: &DataRequestPool, m: &Model, now: u32, extra: u32, validators: usize, wips: &ActiveWips, probe: &[Hash]) -> Res {
    ensure_eq!(p.data_request_pool.keys().copied().collect::<BTreeSet<_>>(), m.keys().copied().collect(), "lost-request", "open requests");
    for (h, d) in m {
        let s = p.data_request_state(h).unwrap();
        let (want, info) = (d.st, &s.info);
        let got = match s.stage {
            DataRequestStage::COMMIT => St::Commit(u32::from(info.current_commit_round)),
            DataRequestStage::REVEAL => St::Reveal(u32::from(info.current_reveal_round)),
            DataRequestStage::TALLY => St::Tally,
        };
        ensure_eq!(got, want, "wrong-stage", "stage of request {h}");
        ensure_eq!(info.current_stage, Some(s.stage), "wrong-stage", "reported stage of request {h}");
        ensure_eq!(info.commits.keys().copied().collect::<BTreeSet<_>>(), d.commits.iter().map(|n| who(*n)).collect(), "wrong-commits", "commits of {h}");
        ensure_eq!(
            info.reveals.iter().map(|(k, v)| (*k, v.clone())).collect::<BTreeMap<_, _>>(),
            d.reveals.iter().map(|(n, r)| (who(*n), r.clone())).collect(),
            "wrong-reveals",
            "reveals of {h}"
        );
        ensure_eq!((s.pkh, s.epoch, &s.data_request), (d.owner, d.epoch, &d.out), "wrong-request", "request {h}");
        ensure_eq!(p.get_dr_output(h).as_ref(), Some(&d.out), "wrong-request", "output of request {h}");
        // Backup witnesses double with every round without commits.
        let round = if let St::Commit(r) = d.st { r } else { u32::from(info.current_commit_round) };
        let want = (u32::from(d.out.witnesses) << round.saturating_sub(1).min(16)).min(65535) / 2;
        ensure_eq!(u32::from(s.backup_witnesses()), want, "wrong-witnesses", "backup witnesses of {h} in round {round}");
        let bound = 2 * extra + 4;
        ensure!(d.st == St::Tally || d.age <= bound, "stuck", "request {h} is in {:?} after {} blocks", d.st, d.age);
        // Reveals come in one order for every node.
        let list = p.get_reveals(h, wips).unwrap();
        ensure_eq!(list.iter().map(|r| r.body.pkh).collect::<BTreeSet<_>>(), d.reveals.keys().map(|n| who(*n)).collect(), "wrong-reveals", "listed reveals of {h}");
        ensure_eq!(list.len(), d.reveals.len(), "wrong-reveals", "number of listed reveals of {h}");
        let key = |r: &&RevealTransaction| -> Vec<u8> {
            if wips.wip0019() {
                let mut b = r.body.pkh.as_ref().to_vec();
                b.extend_from_slice(h.as_ref());
                witnet_crypto::hash::calculate_sha256(&b).0.to_vec()
            } else {
                r.body.pkh.as_ref().to_vec()
            }
        };
        ensure!(list.windows(2).all(|w| key(&w[0]) < key(&w[1])), "wrong-order", "reveals of {h} are not in the order that every node has to use");
    }
    for limit in [now, now.saturating_sub(1), u32::MAX] {
        let open: BTreeSet<Hash> = m.iter().filter(|(_, d)| matches!(d.st, St::Commit(_)) && d.epoch <= limit).map(|(h, _)| *h).collect();
        let got = p.get_dr_output_pointers_by_epoch(limit);
        ensure_eq!(got.iter().copied().collect::<BTreeSet<_>>(), open, "wrong-open", "requests open for commitments up to epoch {limit}");
        ensure_eq!(got.len(), open.len(), "wrong-open", "requests open for commitments up to epoch {limit}");
    }
    let ready: BTreeSet<Hash> = m.iter().filter(|(_, d)| d.st == St::Tally).map(|(h, _)| *h).collect();
    ensure_eq!(p.get_tally_ready_drs().into_iter().collect::<BTreeSet<_>>(), ready, "wrong-ready", "requests ready for tally");
    let all = p.get_all_reveals(wips, Some(validators), Some(now));
    let want: BTreeMap<Hash, usize> = m
        .iter()
        .filter(|(_, d)| d.st == St::Tally && !(d.epoch == now && too_many(&d.out, validators, now)))
        .map(|(h, d)| (*h, d.reveals.len()))
        .collect();
    ensure_eq!(all.iter().map(|(h, v)| (*h, v.len())).collect::<BTreeMap<_, _>>(), want, "wrong-ready", "reveals of the requests ready for tally");
    for (h, v) in &all {
        ensure_eq!(v.iter().collect::<Vec<_>>(), p.get_reveals(h, wips).unwrap(), "wrong-order", "two listings of the reveals of {h}");
    }
    ensure_eq!(p.locked_wits_by_requests(MIN_COLLATERAL), m.values().map(locked).sum::<u64>(), "wrong-locked", "value locked in open requests");
    for h in probe {
        ensure_eq!(p.data_request_state(h).is_some(), m.contains_key(h), "lost-request", "state of {h}");
    }
    Ok(())
}

struct Node {
    p: DataRequestPool,
    m: Model,
    /// Own reveals that still wait.
    waiting: BTreeMap<Hash, RevealTransaction>,
    done: BTreeSet<Hash>,
}

impl Node {
    /// One block: its transactions, then the stages advance. Returns the own reveals to send.
    fn block(&mut self, ctx: &Ctx, b: &Blk, extra: u32) -> Res {
        let bh = make::hash_of(90_000 + u64::from(b.epoch));
        let v = ProtocolVersion::from_epoch(b.epoch);
        for a in &b.acts {
            match a {
                Act::Tally(t) => {
                    let ok = self.m.get(&t.dr_pointer).is_some_and(|d| d.st == St::Tally);
                    let got = self.p.process_tally(t, &bh);
                    ensure_eq!(got.is_ok(), ok, "wrong-acceptance", "tally of {} (stage {:?})", t.dr_pointer, self.m.get(&t.dr_pointer).map(|d| d.st));
                    if ok {
                        self.m.remove(&t.dr_pointer);
                        self.waiting.remove(&t.dr_pointer);
                        self.done.insert(t.dr_pointer);
                    } else {
                        ctx.fault("untimely_tally");
                    }
                    let fin = self.p.finished_data_requests();
                    ensure_eq!(fin.len(), usize::from(ok), "wrong-finished", "requests finished by the tally of {}", t.dr_pointer);
                    for f in fin {
                        ensure_eq!(
                            (f.tally.as_ref(), f.block_hash_tally_tx, f.current_stage, f.block_hash_dr_tx.is_some()),
                            (Some(t), Some(bh), None, true),
                            "wrong-finished",
                            "what is stored about {}",
                            t.dr_pointer
                        );
                    }
                }
                Act::Request(t) => {
                    let h = t.versioned_hash(v);
                    let r = self.p.process_data_request(t, b.epoch, Some(bh));
                    ensure!(r.is_ok(), "wrong-acceptance", "request {h}: {r:?}");
                    let d = Dr {
                        out: t.body.dr_output.clone(),
                        owner: t.signatures[0].public_key.pkh(),
                        epoch: b.epoch,
                        st: St::Commit(0),
                        age: 0,
                        commits: Default::default(),
                        reveals: Default::default(),
                    };
                    self.m.insert(h, d);
                }
                Act::Commit(t) => {
                    let h = t.body.dr_pointer;
                    let ok = self.m.get(&h).is_some_and(|d| matches!(d.st, St::Commit(_)));
                    let got = self.p.process_commit(t, b.epoch, &bh);
                    ensure_eq!(got.is_ok(), ok, "wrong-acceptance", "commit to {h} (stage {:?})", self.m.get(&h).map(|d| d.st));
                    if ok {
                        self.m.get_mut(&h).unwrap().commits.insert(t.signatures[0].public_key.bytes[0]);
                    } else {
                        ctx.fault("untimely_commit");
                    }
                }
                Act::Reveal(t) => {
                    let h = t.body.dr_pointer;
                    let ok = self.m.get(&h).is_some_and(|d| matches!(d.st, St::Reveal(_)));
                    let got = self.p.process_reveal(t, b.epoch, &bh);
                    ensure_eq!(got.is_ok(), ok, "wrong-acceptance", "reveal for {h} (stage {:?})", self.m.get(&h).map(|d| d.st));
                    if ok {
                        self.m.get_mut(&h).unwrap().reveals.insert(t.signatures[0].public_key.bytes[0], t.clone());
                    } else {
                        ctx.fault("untimely_reveal");
                    }
                }
            }
        }
        let send = self.p.update_data_request_stages(Some(b.validators), Some(b.epoch));
        let mut want = BTreeMap::new();
        for (h, d) in &mut self.m {
            advance(d, extra, too_many(&d.out, b.validators, b.epoch));
            if let St::Reveal(_) = d.st
                && let Some(r) = self.waiting.get(h)
                && d.commits.contains(&MINE)
                && !d.reveals.contains_key(&MINE)
            {
                want.insert(*h, r.clone());
            }
            if d.st == St::Tally {
                self.waiting.remove(h);
            }
        }
        ctx.probe_if(!want.is_empty(), "own_reveal_sent");
        ensure_eq!(send.len(), want.len(), "wrong-own-reveals", "own reveals to send");
        ensure_eq!(send.into_iter().map(|r| (r.body.dr_pointer, r)).collect::<BTreeMap<_, _>>(), want, "wrong-own-reveals", "own reveals to send");
        Ok(())
    }
}

fn tally(ctx: &Ctx, h: Hash, n: &Node, wips: &ActiveWips, v: ProtocolVersion) -> Result<TallyTransaction, Fail> {
    let d = &n.m[&h];
    let reveals = n.p.get_reveals(&h, wips).unwrap();
    let revealers: Vec<PublicKeyHash> = reveals.iter().map(|r| r.body.pkh).collect();
    // The tally function says who lied and who reported an error; here that is a matter of chance.
    let (pl, pe) = (ctx.below(4), ctx.below(4));
    let liars: Vec<bool> = revealers.iter().map(|_| ctx.below(3) < pl).collect();
    let errors: Vec<bool> = revealers.iter().map(|_| ctx.below(3) < pe).collect();
    let meta = TallyMetaData { liars: liars.clone(), errors: errors.clone(), ..Default::default() };
    let result = Out(ctx.chance(7, 8).then_some(9));
    let report = RadonReport::from_result(Ok(result.clone()), &ReportContext::from_stage(Stage::Tally(meta)));
    let committers: HashSet<PublicKeyHash> = d.commits.iter().map(|n| who(*n)).collect();
    let t = simkit::catch(std::panic::AssertUnwindSafe(|| {
        create_tally(h, &d.out, d.owner, &report, revealers.clone(), committers.clone(), MIN_COLLATERAL, vec![0xee], wips, v)
    }))
    .map_err(|e| Fail::new("panic", format!("create_tally of {h} panicked: {e}")))?;
    let (c, r) = (d.commits.len() as u64, d.reveals.len() as u64);
    let honest: Vec<PublicKeyHash> = (0..liars.len()).filter(|i| !liars[*i]).map(|i| revealers[i]).collect();
    let excused: Vec<PublicKeyHash> = (0..liars.len()).filter(|i| liars[*i] && errors[*i]).map(|i| revealers[i]).collect();
    let liars_n = c - honest.len() as u64 - excused.len() as u64;
    ev!(ctx, "tally of {h}: {c} commits, {r} reveals, {} honest, {} excused", honest.len(), excused.len());
    let coll = collateral(&d.out);
    let mut paid: BTreeMap<PublicKeyHash, u64> = BTreeMap::new();
    for o in &t.outputs {
        ensure_eq!(o.time_lock, 0, "wrong-output", "time lock of a tally output");
        *paid.entry(o.pkh).or_default() += o.value;
    }
    let total: u64 = paid.values().sum();
    let change = d.out.witness_reward * (u64::from(d.out.witnesses) - honest.len() as u64)
        + d.out.commit_and_reveal_fee * (2 * u64::from(d.out.witnesses) - c - r);
    let mut want: BTreeMap<PublicKeyHash, u64> = BTreeMap::new();
    if v < ProtocolVersion::V2_0 {
        let bonus = if honest.is_empty() || wips.wip0023() { 0 } else { coll * liars_n / honest.len() as u64 };
        if honest.is_empty() {
            for n in &d.commits {
                *want.entry(who(*n)).or_default() += coll;
            }
        }
        for p in &honest {
            *want.entry(*p).or_default() += d.out.witness_reward + coll + bonus;
        }
        if !honest.is_empty() {
            for p in &excused {
                *want.entry(*p).or_default() += coll;
            }
        }
        // Nothing appears from nowhere, and only what was slashed may disappear.
        let burnt = if honest.is_empty() {
            0
        } else if wips.wip0023() {
            coll * liars_n
        } else {
            (coll * liars_n) % honest.len() as u64
        };
        ensure_eq!(total + burnt, locked(d), "value-not-conserved", "what the tally of {h} pays out, and what was locked");
    }
    *want.entry(d.owner).or_default() += change;
    want.retain(|_, v| *v > 0);
    ensure_eq!(paid, want, "wrong-payment", "payments of the tally of {h}");
    let all: BTreeSet<PublicKeyHash> = committers.iter().copied().collect();
    let ooc: BTreeSet<PublicKeyHash> = all.iter().filter(|p| !honest.contains(p)).copied().collect();
    ensure_eq!(t.out_of_consensus.iter().copied().collect::<BTreeSet<_>>(), ooc, "wrong-blame", "witnesses out of consensus in {h}");
    ensure_eq!(t.out_of_consensus.len(), ooc.len(), "wrong-blame", "witnesses out of consensus in {h}");
    let errs: BTreeSet<PublicKeyHash> =
        if honest.is_empty() { revealers.iter().copied().collect() } else { (0..liars.len()).filter(|i| errors[*i]).map(|i| revealers[i]).collect() };
    ensure_eq!(t.error_committers.iter().copied().collect::<BTreeSet<_>>(), errs, "wrong-blame", "witnesses that reported errors in {h}");
    ensure_eq!(t.error_committers.len(), errs.len(), "wrong-blame", "witnesses that reported errors in {h}");
    ensure_eq!(t.tally, vec![result.0.unwrap_or(0xee)], "wrong-result", "result of {h}");
    ctx.probe_if(honest.is_empty() && c > 0, "nobody_honest");
    ctx.probe_if(liars_n > 0 && !honest.is_empty(), "liars_slashed");
    Ok(t)
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let extra = ctx.below(4) as u32;
    let mut epoch = *ctx.pick(&[5, crate::V1_8_AT - 6, crate::V2_0_AT - 12, crate::V2_0_AT + 7, crate::V2_1_AT - 5]);
    let mut wips = current_active_wips();
    if ctx.chance(1, 2) {
        wips.active_wips.remove("WIP0023");
    }
    if ctx.chance(1, 4) {
        wips.active_wips.remove("WIP0017-0018-0019");
    }
    let mut n = Node { p: DataRequestPool::new(extra as u16), m: Default::default(), waiting: Default::default(), done: Default::default() };
    let mut chain: Vec<Blk> = vec![];
    // What the last superblock wrote to disk: (number of blocks, state, model).
    let mut disk = (0usize, bincode::serialize(&n.p).unwrap(), n.m.clone(), n.waiting.clone(), n.done.clone());
    let mut all: Vec<Hash> = vec![];
    let mut serial = 0u64;
    let lazy = ctx.below(4);
    while ctx.more(60) {
        epoch += 1 + if ctx.chance(1, 6) { ctx.below(4) as u32 } else { 0 };
        let v = ProtocolVersion::from_epoch(epoch);
        let mut b = Blk { epoch, validators: ctx.below(24) as usize, acts: vec![] };
        // The miner tallies what is ready, mostly.
        for h in n.m.keys().copied().collect::<Vec<_>>() {
            if n.m[&h].st == St::Tally && ctx.chance(3, 4) {
                b.acts.push(Act::Tally(tally(ctx, h, &n, &wips, v)?));
            }
        }
        if ctx.chance(1, 12) && !all.is_empty() {
            // A tally for a request that is not ready, unknown or already tallied.
            let h = *ctx.pick(&all);
            b.acts.push(Act::Tally(TallyTransaction::new(h, vec![1], vec![], vec![], vec![])));
        }
        for _ in 0..ctx.below(3) {
            serial += 1;
            let out = DataRequestOutput {
                witness_reward: 1 + ctx.skewed(1 << 30),
                witnesses: if ctx.chance(1, 20) { 1 + ctx.below(65535) as u16 } else { 1 + ctx.below(6) as u16 },
                commit_and_reveal_fee: ctx.skewed(1 << 30),
                collateral: *ctx.pick(&[0, 1, 99, 100, 101, 1 << 30]),
                min_consensus_percentage: 51,
                ..Default::default()
            };
            let t = DRTransaction::new(DRTransactionBody::new(vec![Input::new(op(serial, 0))], out, vec![]), vec![sig(20 + ctx.below(3) as u8)]);
            all.push(t.versioned_hash(v));
            b.acts.push(Act::Request(t));
        }
        let idle = ctx.below(4) < lazy;
        for (h, d) in n.m.iter() {
            let room = d.out.witnesses.min(6) as u8;
            match d.st {
                St::Commit(_) if !idle && ctx.chance(1, 2) => {
                    let mut c: BTreeSet<u8> = (0..1 + ctx.below(u64::from(room))).map(|_| ctx.below(6) as u8).collect();
                    if ctx.chance(1, 2) {
                        c.insert(MINE);
                    }
                    while c.len() > d.out.witnesses as usize {
                        c.pop_last();
                    }
                    b.acts.extend(c.into_iter().map(|w| Act::Commit(commit(*h, w))));
                }
                St::Reveal(_) if !idle => {
                    for w in &d.commits {
                        if !d.reveals.contains_key(w) && ctx.chance(1, 2) {
                            let r = if *w == MINE { n.waiting.get(h).cloned() } else { None };
                            b.acts.push(Act::Reveal(r.unwrap_or_else(|| reveal(*h, *w, ctx.below(3) as u8))));
                        }
                    }
                }
                _ => {}
            }
            // Something in the wrong stage.
            if ctx.chance(1, 16) {
                b.acts.push(if matches!(d.st, St::Reveal(_)) { Act::Commit(commit(*h, 7)) } else { Act::Reveal(reveal(*h, 7, 0)) });
            }
        }
        // The own node offered to witness some of the open requests; its commit may or may not get in.
        for h in n.m.keys().copied().collect::<Vec<_>>() {
            if matches!(n.m[&h].st, St::Commit(_)) && ctx.chance(1, 3) {
                let r = reveal(h, MINE, ctx.below(3) as u8);
                n.p.insert_reveal(h, r.clone());
                n.waiting.insert(h, r);
            }
        }
        ctx.op("block");
        ev!(ctx, "block of epoch {epoch} with {} transactions, {} validators", b.acts.len(), b.validators);
        n.block(ctx, &b, extra)?;
        chain.push(b);
        let last = chain.last().unwrap();
        let probe: Vec<Hash> = (0..2.min(all.len())).map(|_| *ctx.pick(&all)).collect();
        check(&n.p, &n.m, epoch, extra, last.validators, &wips, &probe)?;
        ctx.state(simkit::rng::fnv(format!("{:?}", n.m.values().map(|d| (d.st, d.commits.len(), d.reveals.len())).collect::<Vec<_>>()).as_bytes()));
        if ctx.chance(1, 8) {
            disk = (chain.len(), bincode::serialize(&n.p).unwrap(), n.m.clone(), n.waiting.clone(), n.done.clone());
            ctx.op("persist");
        }
        if ctx.chance(1, 12) {
            // Restart: the state of the last superblock, then the blocks after it once more.
            ctx.fault("crash_restart");
            let before = n.p.clone();
            let p: DataRequestPool = bincode::deserialize(&disk.1).map_err(|e| Fail::new("not-restored", e.to_string()))?;
            n = Node { p, m: disk.2.clone(), waiting: disk.3.clone(), done: disk.4.clone() };
            ev!(ctx, "restart, {} blocks to go through again", chain.len() - disk.0);
            for b in &chain[disk.0..] {
                n.block(ctx, b, extra)?;
            }
            ensure_eq!(n.p.data_request_pool, before.data_request_pool, "not-restored", "open requests after a restart and before");
            ensure_eq!(n.p.data_requests_by_epoch, before.data_requests_by_epoch, "not-restored", "index of open requests after a restart and before");
            check(&n.p, &n.m, epoch, extra, chain.last().unwrap().validators, &wips, &probe)?;
        }
    }
    Ok(())
}
