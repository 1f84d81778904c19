//! D04: superblock voting of several nodes over a lossy network, with forks, traitors, crashes and restores.

use crate::make;
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::collections::{BTreeMap, BTreeSet};
use witnet_data_structures::chain::tapi::in_emergency_period;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::superblock::*;

fn sig(n: u8) -> KeyedSignature {
    let mut s = KeyedSignature::default();
    s.public_key.bytes = [n + 1; 32];
    s
}
fn who(n: u8) -> PublicKeyHash {
    sig(n).public_key.pkh()
}

pub fn fold(leaves: &[Hash]) -> Hash {
    if leaves.is_empty() {
        return Hash::from(witnet_crypto::hash::calculate_sha256(&[]));
    }
    let mut v = leaves.to_vec();
    while v.len() > 1 {
        v = v
            .chunks(2)
            .map(|c| {
                if c.len() == 1 {
                    c[0]
                } else {
                    Hash::from(witnet_crypto::hash::calculate_sha256(&[c[0].as_ref(), c[1].as_ref()].concat()))
                }
            })
            .collect();
    }
    v[0]
}

/// Votes needed: two thirds of the committee, rounded down, and more than half of it.
fn need(n: usize) -> usize {
    (2 * n / 3).max(n / 2 + 1)
}

/// The committee that signs a superblock, as every node of the network has to compute it.
fn committee(ars: &[PublicKeyHash], size: u32, index: u32, prev: Hash, epoch: u32) -> BTreeSet<PublicKeyHash> {
    let n = ars.len();
    let size = size as usize;
    if let Some(v) = in_emergency_period(index, Environment::Mainnet) {
        return v.into_iter().collect();
    }
    if n < size {
        return ars.iter().copied().collect();
    }
    let each = n / size;
    if epoch >= 376_320 {
        let h = witnet_crypto::hash::calculate_sha256(&[prev.as_ref(), &index.to_be_bytes()[..]].concat()).0;
        let first = h.iter().fold(0usize, |a, b| (a * 256 + usize::from(*b)) % n);
        (0..size).map(|i| ars[(first + i * each + usize::from(h[i % 32]) % each) % n]).collect()
    } else {
        let h = witnet_crypto::hash::calculate_sha256(&index.to_be_bytes()).0;
        let first = (usize::from(prev.as_ref()[0]) + usize::from(h[0])) % n;
        (0..size).map(|i| ars[(first + i * each) % n]).collect()
    }
}

/// One superblock's worth of chain.
#[derive(Clone)]
struct Part {
    index: u32,
    headers: Vec<BlockHeader>,
    ars: Vec<PublicKeyHash>,
    size: u32,
    epoch: u32,
    last: Hash,
    sb: SuperBlock,
}

/// What a node has to know after the votes it got.
#[derive(Clone, Default)]
struct View {
    committee: BTreeSet<PublicKeyHash>,
    own: Hash,
    received: Vec<SuperBlockVote>,
    first: BTreeMap<PublicKeyHash, SuperBlockVote>,
    penalised: BTreeSet<PublicKeyHash>,
}

impl View {
    fn insert(&mut self, v: &SuperBlockVote) -> AddSuperBlockVote {
        let k = v.secp256k1_signature.public_key.pkh();
        let double = self.penalised.contains(&k)
            || self
                .first
                .get(&k)
                .is_some_and(|o| o.superblock_index == v.superblock_index && o.superblock_hash != v.superblock_hash);
        if double {
            self.first.remove(&k);
            self.penalised.insert(k);
            return AddSuperBlockVote::DoubleVote;
        }
        self.first.entry(k).or_insert_with(|| v.clone());
        if v.superblock_hash == self.own {
            AddSuperBlockVote::ValidWithSameHash
        } else {
            AddSuperBlockVote::ValidButDifferentHash
        }
    }
    fn add(&mut self, v: &SuperBlockVote, now: u32) -> AddSuperBlockVote {
        if self.received.contains(v) {
            return AddSuperBlockVote::AlreadySeen;
        }
        self.received.push(v.clone());
        if v.superblock_index == now {
            if self.committee.contains(&v.secp256k1_signature.public_key.pkh()) {
                self.insert(v)
            } else {
                AddSuperBlockVote::NotInSigningCommittee
            }
        } else if v.superblock_index == now + 1 {
            AddSuperBlockVote::MaybeValid
        } else {
            AddSuperBlockVote::InvalidIndex
        }
    }
    fn counts(&self) -> BTreeMap<Hash, usize> {
        let mut c = BTreeMap::new();
        for v in self.first.values() {
            *c.entry(v.superblock_hash).or_insert(0) += 1;
        }
        c
    }
    fn consensus(&self) -> Vec<SuperBlockConsensus> {
        use SuperBlockConsensus::*;
        let n = self.committee.len();
        if n == 0 {
            return vec![SameAsLocal];
        }
        let Some((h, top)) = self.counts().into_iter().max_by_key(|x| x.1) else {
            return if self.penalised.is_empty() {
                vec![Unknown]
            } else {
                vec![Unknown, NoConsensus]
            };
        };
        if top >= need(n) {
            return vec![if h == self.own { SameAsLocal } else { Different(h) }];
        }
        let missing = n - self.first.len() - self.penalised.len();
        vec![if top + missing >= need(n) { Unknown } else { NoConsensus }]
    }
}

#[derive(Clone)]
struct Node {
    st: SuperBlockState,
    view: View,
    /// The state at the last superblock with consensus, and how many such superblocks that state has seen.
    disk: (Vec<u8>, usize, View),
    /// The part it built last; no longer there after a restore.
    built: Option<Part>,
    up: bool,
    voted: u32,
    later: Vec<SuperBlockVote>,
}

struct World {
    nodes: Vec<Node>,
    canon: Vec<Part>,
    genesis: Hash,
    keys: AltKeys,
    traitors: BTreeSet<usize>,
    doubles: BTreeSet<PublicKeyHash>,
    /// Votes for superblocks that were not there yet.
    early: BTreeSet<(usize, u32)>,
    queue: BTreeMap<(u64, u64), (usize, SuperBlockVote)>,
    seq: u64,
    loss: u64,
    now: u64,
}

fn vote(who: u8, hash: Hash, index: u32, variant: u8) -> SuperBlockVote {
    let mut v = SuperBlockVote::new_unsigned(hash, index);
    v.set_bn256_signature(Bn256Signature { signature: vec![variant] });
    v.set_secp256k1_signature(sig(who));
    v
}

fn restore(ctx: &Ctx, w: &mut World, i: usize) -> Res {
    let n = &mut w.nodes[i];
    n.st = bincode::deserialize(&n.disk.0).map_err(|e| Fail::new("not-restored", e.to_string()))?;
    n.view = n.disk.2.clone();
    n.built = None;
    ev!(ctx, "node {i} restores the state after {} superblocks", n.disk.1);
    Ok(())
}

/// Go through the superblocks that got consensus while this node had another idea.
fn catch_up(ctx: &Ctx, w: &mut World, i: usize) -> Res {
    while w.nodes[i].disk.1 < w.canon.len() {
        let p = w.canon[w.nodes[i].disk.1].clone();
        ctx.probe("caught_up");
        build(w, i, &p.headers, p.ars.clone(), p.size, p.index, p.epoch, Some(p.sb.clone()))?;
        let n = &mut w.nodes[i];
        n.disk = (bincode::serialize(&n.st).unwrap(), n.disk.1 + 1, n.view.clone());
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn build(w: &mut World, i: usize, headers: &[BlockHeader], ars: Vec<PublicKeyHash>, size: u32, index: u32, epoch: u32, given: Option<SuperBlock>) -> Res {
    let known = w.nodes[i].disk.1;
    // What signs this superblock was fixed by the one before it.
    let (prev_ars, prev_last, prev_hash) = match known.checked_sub(1).map(|k| &w.canon[k]) {
        Some(p) => (p.ars.clone(), p.sb.last_block, p.sb.hash()),
        None => (w.canon_bootstrap(), make::hash_of(1), w.genesis),
    };
    let n = &mut w.nodes[i];
    let asked = given.as_ref().map_or(size, |s| s.signing_committee_length);
    let was = n.view.received.clone();
    let sb = simkit::catch(std::panic::AssertUnwindSafe(|| {
        n.st.build_superblock(headers, ARSIdentities::new(ars.clone()), size, index, prev_last, &w.keys, given.clone(), epoch)
    }))
    .map_err(|e| Fail::new("panic", format!("building superblock {index} panicked: {e}")))?;
    n.st.set_current_superblock(sb.clone());
    let mut want = committee(&prev_ars, asked, index, prev_hash, epoch);
    let fixed = index > 304_896;
    let got: BTreeSet<String> = n.st.signing_committee_pretty().into_iter().collect();
    if fixed {
        ensure_eq!(got.len(), 12, "wrong-committee", "size of the fixed committee of superblock {index}");
        want = got.iter().map(|s| s.parse().unwrap()).collect();
    }
    ensure_eq!(
        got,
        want.iter().map(|p| p.to_string()).collect::<BTreeSet<_>>(),
        "wrong-committee",
        "committee of superblock {index} at node {i}"
    );
    ensure_eq!(
        n.st.get_committee_length() as usize,
        want.len(),
        "wrong-committee",
        "size of the committee of superblock {index}"
    );
    let v = ProtocolVersion::from_epoch(epoch);
    if given.is_none() {
        let keys: Vec<Hash> = ars.iter().filter_map(|p| w.keys.get_bn256(p)).map(|k| k.hash()).collect();
        let exp = SuperBlock::new(
            want.len() as u32,
            fold(&keys),
            if headers.is_empty() {
                Hash::default()
            } else {
                fold(&headers.iter().map(|h| h.merkle_roots.dr_hash_merkle_root).collect::<Vec<_>>())
            },
            index,
            headers.last().map_or(prev_last, |h| h.versioned_hash(v)),
            prev_last,
            if headers.is_empty() {
                Hash::default()
            } else {
                fold(&headers.iter().map(|h| h.merkle_roots.tally_hash_merkle_root).collect::<Vec<_>>())
            },
        );
        ensure_eq!(sb, exp, "wrong-superblock", "superblock {index} at node {i}");
        ensure_eq!(sb.hash(), exp.hash(), "wrong-superblock", "hash of superblock {index} at node {i}");
    } else {
        ensure_eq!(Some(&sb), given.as_ref(), "wrong-superblock", "the superblock taken over");
    }
    ensure_eq!(
        n.st.get_beacon(),
        CheckpointBeacon {
            checkpoint: index,
            hash_prev_block: sb.hash()
        },
        "wrong-beacon",
        "beacon of node {i}"
    );
    ensure_eq!(
        n.st.get_current_superblock().as_ref(),
        Some(&sb),
        "wrong-superblock",
        "current superblock of node {i}"
    );
    // The votes that came early are judged now.
    let mut view = View {
        committee: want,
        own: sb.hash(),
        ..Default::default()
    };
    for s in was
        .iter()
        .filter(|s| s.superblock_index == index && view.committee.contains(&s.secp256k1_signature.public_key.pkh()))
        .collect::<Vec<_>>()
    {
        view.insert(s);
    }
    n.view = view;
    n.built = Some(Part {
        index,
        headers: headers.to_vec(),
        ars,
        size,
        epoch,
        last: prev_last,
        sb,
    });
    check_view(n, i)
}

fn check_view(n: &Node, i: usize) -> Res {
    let votes = n.st.get_current_superblock_votes();
    let got: BTreeSet<_> = votes.iter().map(|v| (v.secp256k1_signature.public_key.pkh(), v.superblock_hash)).collect();
    let want: BTreeSet<_> = n
        .view
        .first
        .values()
        .map(|v| (v.secp256k1_signature.public_key.pkh(), v.superblock_hash))
        .collect();
    ensure_eq!(got, want, "wrong-votes", "votes that count at node {i}");
    ensure_eq!(votes.len(), want.len(), "double-counted", "votes that count at node {i}");
    ensure_eq!(
        n.st.valid_votes_counter(),
        want.len(),
        "double-counted",
        "number of votes that count at node {i}"
    );
    let c = n.view.counts();
    for (h, k) in &c {
        ensure_eq!(n.st.votes_counter_from_superblock(h), *k, "double-counted", "votes for {h} at node {i}");
    }
    ensure_eq!(
        n.st.most_voted_superblock().map(|x| x.1),
        c.values().max().copied(),
        "wrong-votes",
        "votes for the most voted superblock at node {i}"
    );
    Ok(())
}

impl World {
    fn canon_bootstrap(&self) -> Vec<PublicKeyHash> {
        (0..self.nodes.len() as u8).map(who).collect()
    }
    fn send(&mut self, ctx: &Ctx, from: usize, v: &SuperBlockVote, only: Option<&dyn Fn(usize) -> bool>) {
        for to in 0..self.nodes.len() {
            if to == from || only.is_some_and(|f| !f(to)) {
                continue;
            }
            if self.loss > 0 && ctx.chance(self.loss, 8) {
                ctx.fault("vote_lost");
                continue;
            }
            let copies = if ctx.chance(1, 10) { 2 } else { 1 };
            for _ in 0..copies {
                let delay = if self.loss > 0 && ctx.chance(1, 12) {
                    ctx.fault("vote_late");
                    ctx.below(900_000)
                } else {
                    ctx.below(20_000)
                };
                self.seq += 1;
                self.queue.insert((self.now + delay, self.seq), (to, v.clone()));
            }
        }
    }
    fn deliver_until(&mut self, ctx: &Ctx, t: u64, clock: &[u32]) -> Res {
        while let Some(e) = self.queue.first_entry() {
            if e.key().0 > t {
                break;
            }
            self.now = e.key().0;
            let (to, v) = e.remove();
            if !self.nodes[to].up {
                continue;
            }
            if self.nodes[to].built.is_none() {
                // A node that is not synchronized keeps votes for later.
                self.nodes[to].later.push(v);
                continue;
            }
            self.receive(ctx, to, v, clock[to])?;
        }
        self.now = t;
        Ok(())
    }
    fn receive(&mut self, ctx: &Ctx, to: usize, v: SuperBlockVote, now: u32) -> Res {
        let n = &mut self.nodes[to];
        let seen = n.st.contains(&v);
        let got = simkit::catch(std::panic::AssertUnwindSafe(|| n.st.add_vote(&v, now)))
            .map_err(|e| Fail::new("panic", format!("a vote for superblock {} made node {to} panic: {e}", v.superblock_index)))?;
        let want = n.view.add(&v, now);
        ensure_eq!(
            got,
            want,
            "wrong-verdict",
            "verdict of node {to} on a vote for superblock {} at index {now}",
            v.superblock_index
        );
        ensure_eq!(
            seen,
            want == AddSuperBlockVote::AlreadySeen,
            "wrong-verdict",
            "whether node {to} had seen the vote"
        );
        ctx.probe_if(want == AddSuperBlockVote::DoubleVote, "double_vote");
        ctx.probe_if(want == AddSuperBlockVote::MaybeValid, "early_vote");
        check_view(n, to)?;
        // Nodes pass on what may be of use to others.
        let forward = matches!(
            want,
            AddSuperBlockVote::DoubleVote | AddSuperBlockVote::MaybeValid | AddSuperBlockVote::ValidButDifferentHash | AddSuperBlockVote::ValidWithSameHash
        );
        if forward && ctx.chance(1, 2) {
            let peer = ctx.idx(self.nodes.len());
            self.send(ctx, to, &v, Some(&|t| t == peer));
        }
        Ok(())
    }
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let count = 1 + ctx.below(10) as usize;
    let genesis = make::hash_of(ctx.below(1000));
    let mut keys = AltKeys::default();
    for i in 0..count as u8 {
        if ctx.chance(3, 4) {
            let k = Bn256PublicKey::from_secret_key(&Bn256SecretKey::from_slice(&[i + 1; 32]).unwrap()).unwrap();
            keys.insert_bn256(who(i), k);
        }
    }
    let st = SuperBlockState::new(genesis, (0..count as u8).map(who).collect());
    let view = View {
        committee: (0..count as u8).map(who).collect(),
        own: genesis,
        ..Default::default()
    };
    let disk = (bincode::serialize(&st).unwrap(), 0, view.clone());
    let node = Node {
        st,
        view,
        disk,
        built: None,
        up: true,
        voted: 0,
        later: vec![],
    };
    let mut w = World {
        nodes: vec![node; count],
        canon: vec![],
        genesis,
        keys,
        traitors: (0..count).filter(|_| ctx.chance(1, 6)).collect(),
        doubles: Default::default(),
        early: Default::default(),
        queue: Default::default(),
        seq: 0,
        loss: 0,
        now: 0,
    };
    let mut index = *ctx.pick(&[1u32, 10, 745, 1340, 44_160, 144_195, 224_295, 304_890]);
    let base_epoch = *ctx.pick(&[500u32, 376_300, 1_000_000]);
    const PERIOD: u64 = 450_000;
    let rounds = 2 + ctx.below(7);
    for r in 0..rounds {
        let last_round = r + 1 == rounds;
        let t0 = w.now;
        w.loss = if last_round { 0 } else { ctx.below(5) };
        let forks = if last_round || ctx.chance(1, 2) { 1 } else { 2 + ctx.below(2) };
        let epoch = base_epoch + 10 * r as u32;
        if last_round {
            w.queue.clear();
            for n in &mut w.nodes {
                n.up = true;
            }
            w.traitors.clear();
        }
        let size = 1 + ctx.below(count as u64 + 2) as u32;
        let salt = ctx.u64();
        let ars_len = 1 + ctx.idx(count);
        let mut order: Vec<usize> = (0..count).collect();
        for i in (1..count).rev() {
            order.swap(i, ctx.idx(i + 1));
        }
        // Nodes reach the end of the period one by one: they judge the last superblock and make the next one.
        let mut clock = vec![index - 1; count];
        w.doubles.clear();
        let mut skipped = vec![];
        for (k, &i) in order.iter().enumerate() {
            if k > 0 && ctx.chance(1, 2) {
                let t = w.now + ctx.below(3_000);
                w.deliver_until(ctx, t, &clock)?;
            }
            if !w.nodes[i].up {
                w.nodes[i].up = true;
                skipped.push(i);
                continue;
            }
            if w.nodes[i].disk.1 < w.canon.len() || w.nodes[i].built.is_none() && r > 0 {
                skipped.push(i);
                continue;
            }
            make_next(ctx, &mut w, i, index, epoch, size, salt, ars_len, forks, last_round)?;
            clock[i] = index;
        }
        for i in skipped {
            catch_up(ctx, &mut w, i)?;
            make_next(ctx, &mut w, i, index, epoch, size, salt, ars_len, forks, last_round)?;
            clock[i] = index;
            for v in std::mem::take(&mut w.nodes[i].later) {
                w.receive(ctx, i, v, index)?;
            }
        }
        ctx.switch();
        // Within the period.
        let mid = t0 + ctx.below(PERIOD);
        w.deliver_until(ctx, mid, &clock)?;
        if !last_round && ctx.chance(1, 3) {
            let i = ctx.idx(count);
            ctx.fault("crash_restart");
            w.nodes[i].up = false;
            restore(ctx, &mut w, i)?;
            if count > 1 && ctx.chance(1, 2) {
                // Written state is complete: what was read back equals what was written, votes included.
                let j = ctx.idx(count);
                let s: SuperBlockState =
                    bincode::deserialize(&bincode::serialize(&w.nodes[j].st).unwrap()).map_err(|e| Fail::new("not-restored", e.to_string()))?;
                ensure_eq!(s, w.nodes[j].st, "not-restored", "state of node {j} through serialization");
                w.nodes[j].st = s;
            }
        }
        if w.loss == 0 {
            let t = w.now.max(t0 + PERIOD - 1);
            w.deliver_until(ctx, t, &clock)?;
        }
        // The verdicts.
        let mut agreed: Option<(usize, Hash)> = None;
        let n_committee = w
            .nodes
            .iter()
            .filter(|n| n.up && n.built.is_some())
            .map(|n| n.view.committee.len())
            .max()
            .unwrap_or(0);
        let t = w.now;
        w.deliver_until(ctx, t.max(t0 + PERIOD), &clock)?;
        let mut to_restore = vec![];
        for i in 0..count {
            let n = &w.nodes[i];
            if !n.up || n.built.is_none() {
                continue;
            }
            let got =
                simkit::catch(std::panic::AssertUnwindSafe(|| n.st.has_consensus())).map_err(|e| Fail::new("panic", format!("has_consensus panicked: {e}")))?;
            let want = n.view.consensus();
            ensure!(
                want.contains(&got),
                "wrong-consensus",
                "node {i} concludes {got:?} on superblock {index} instead of {want:?}: {:?} of {} votes",
                n.view.counts(),
                n.view.committee.len()
            );
            ev!(ctx, "node {i} on superblock {index}: {got:?}");
            let h = match got {
                SuperBlockConsensus::SameAsLocal => Some(n.view.own),
                SuperBlockConsensus::Different(h) => Some(h),
                _ => None,
            };
            if let Some(h) = h {
                ctx.probe("consensus");
                let traitors = w.doubles.len();
                if let Some((j, g)) = agreed
                    && g != h
                {
                    ensure!(
                        2 * need(n_committee) <= n_committee + traitors,
                        "split",
                        "nodes {j} and {i} see consensus on different superblocks {index} although only {traitors} of {n_committee} members voted twice"
                    );
                    ctx.probe("split_by_traitors");
                    return Ok(());
                }
                agreed = Some((i, h));
            } else {
                ctx.probe("no_consensus");
                ensure!(
                    !last_round || n_committee == 0 || w.early.iter().any(|e| e.1 == index) || w.nodes[i].view.committee.iter().any(|c| !(0..count as u8).any(|x| who(x) == *c)),
                    "stuck",
                    "all members voted alike for superblock {index} and all votes arrived, but node {i} sees no consensus"
                );
            }
            if got != SuperBlockConsensus::SameAsLocal {
                to_restore.push(i);
            }
        }
        if let Some((_, h)) = agreed {
            let found = w.nodes.iter().find_map(|n| n.built.as_ref().filter(|b| b.sb.hash() == h).cloned());
            let Some(part) = found else { return Ok(()) };
            let len = w.canon.len();
            w.canon.push(part);
            for i in 0..count {
                if w.nodes[i].up && !to_restore.contains(&i) && w.nodes[i].built.is_some() {
                    ensure_eq!(w.nodes[i].disk.1, len, "harness", "height of node {i}");
                    let n = &mut w.nodes[i];
                    n.disk = (bincode::serialize(&n.st).unwrap(), len + 1, n.view.clone());
                }
            }
        }
        for i in to_restore {
            restore(ctx, &mut w, i)?;
        }
        ctx.state(simkit::rng::fnv(
            format!(
                "{:?}",
                w.nodes
                    .iter()
                    .map(|n| (n.view.first.len(), n.view.penalised.len(), n.disk.1))
                    .collect::<Vec<_>>()
            )
            .as_bytes(),
        ));
        index += 1 + if ctx.chance(1, 8) { ctx.below(3) as u32 } else { 0 };
        w.now = t0 + PERIOD;
        ctx.advance_ns(PERIOD * 1_000_000);
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn make_next(ctx: &Ctx, w: &mut World, i: usize, index: u32, epoch: u32, size: u32, salt: u64, ars_len: usize, forks: u64, honest: bool) -> Res {
    let count = w.nodes.len();
    let branch = ctx.below(forks);
    let base = w.nodes[i].disk.1 as u64;
    let n_headers = (salt ^ branch) % 5;
    let headers: Vec<BlockHeader> = (0..n_headers)
        .map(|k| {
            let s = simkit::rng::fnv(format!("{salt} {branch} {k} {base}").as_bytes());
            let mut h = BlockHeader {
                beacon: CheckpointBeacon {
                    checkpoint: epoch - 4 + k as u32,
                    hash_prev_block: make::hash_of(s),
                },
                ..Default::default()
            };
            h.merkle_roots.dr_hash_merkle_root = make::hash_of(s ^ 1);
            h.merkle_roots.tally_hash_merkle_root = make::hash_of(s ^ 2);
            h
        })
        .collect();
    // Identities that were active, by reputation; the same on every node of the same branch.
    let shift = (salt >> 8) as usize ^ branch as usize;
    let ars: Vec<PublicKeyHash> = (0..ars_len).map(|k| who(((k + shift) % count) as u8)).collect();
    build(w, i, &headers, ars, size, index, epoch, None)?;
    let own = w.nodes[i].view.own;
    let me = who(i as u8);
    if w.early.contains(&(i, index)) {
        w.doubles.insert(me);
    }
    let in_committee = w.nodes[i].view.committee.contains(&me);
    if w.traitors.contains(&i) && !honest {
        match ctx.below(5) {
            0 => {
                // Votes for two superblocks, each shown to a part of the network.
                let other = make::hash_of(ctx.below(3));
                w.doubles.insert(me);
                ctx.fault("equivocation");
                let cut = ctx.idx(count + 1);
                let (a, b) = (vote(i as u8, own, index, 0), vote(i as u8, other, index, 0));
                w.send(ctx, i, &a, Some(&|t| t < cut));
                w.send(ctx, i, &b, Some(&|t| t >= cut));
            }
            1 => {
                // The same vote under several signatures, then another one.
                ctx.fault("resigned_vote");
                for k in 0..3 {
                    let v = vote(i as u8, own, index, k);
                    w.send(ctx, i, &v, None);
                }
                if ctx.chance(1, 2) {
                    w.doubles.insert(me);
                    let v = vote(i as u8, make::hash_of(7), index, 0);
                    w.send(ctx, i, &v, None);
                }
            }
            2 => {
                ctx.fault("wrong_index");
                let v = vote(i as u8, own, (index + ctx.below(4) as u32).saturating_sub(2), 0);
                if v.superblock_index == index {
                    w.nodes[i].voted = index;
                }
                w.early.insert((i, v.superblock_index));
                w.send(ctx, i, &v, None);
            }
            _ => ctx.fault("silent_member"),
        }
        return Ok(());
    }
    if w.nodes[i].voted == index {
        return Ok(());
    }
    w.nodes[i].voted = index;
    // Members vote, and so do some that are not members.
    if in_committee || ctx.chance(1, 8) {
        let v = vote(i as u8, own, index, 0);
        let n = &mut w.nodes[i];
        let got = n.st.add_vote(&v, index);
        let want = n.view.add(&v, index);
        ensure_eq!(got, want, "wrong-verdict", "verdict of node {i} on its own vote");
        w.send(ctx, i, &v, None);
    }
    Ok(())
}
