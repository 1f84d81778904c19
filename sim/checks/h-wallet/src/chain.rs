//! The block chain that the simulated node serves, and what it means for the wallet.

use simkit::Ctx;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use witnet_data_structures::{
    chain::{
        Block, BlockHeader, BlockTransactions, CheckpointBeacon, DataRequestInfo, DataRequestOutput, Epoch, EpochConstants, Hash,
        Input, KeyedSignature, OutputPointer, PublicKeyHash, StakeOutput, ValueTransferOutput,
    },
    proto::versioning::{ProtocolInfo, ProtocolVersion, VersionedHashable},
    staking::prelude::StakeKey,
    transaction::*,
};
use witnet_data_structures::radon_report::TypeLike;
use witnet_rad::types::{RadonTypes, integer::RadonInteger, string::RadonString};

pub const SEC: i64 = 1_000_000_000;
pub const ZERO: i64 = 1_700_000_000;
pub const WIT: u64 = 1_000_000_000;
/// How many addresses of each key chain the harness knows.
pub const KEYS: u32 = 48;

pub type Keychain = u32;
/// The keys of the wallet under test.
pub struct Keys {
    pub path: HashMap<PublicKeyHash, (Keychain, u32)>,
    pub chains: [Vec<PublicKeyHash>; 2],
}

#[derive(Clone, Debug, PartialEq)]
pub struct Move {
    pub hash: String,
    pub kind: &'static str,
    pub positive: bool,
    pub amount: u64,
    pub fee: Option<u64>,
    pub epoch: Epoch,
    pub block: Hash,
    /// Result of a data request.
    pub tally: Option<String>,
    /// Its reveals: how many, and how many of them in consensus.
    pub reveals: (usize, usize),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Received {
    pub payments: Vec<String>,
    pub amount: u64,
    pub first: u64,
    pub last: u64,
}

/// What the wallet should know after a block.
#[derive(Clone, Default)]
pub struct View {
    pub utxos: BTreeMap<(Hash, u32), ValueTransferOutput>,
    pub stakes: BTreeMap<(PublicKeyHash, PublicKeyHash), u64>,
    pub moves: Vec<Move>,
    pub received: BTreeMap<PublicKeyHash, Received>,
    /// First address after the last one that was paid, for each key chain.
    pub next: [u32; 2],
    /// A wallet that reads the chain from its start finds every address.
    pub within_gap: bool,
    pub timestamp: u64,
}
impl View {
    pub fn balance(&self) -> (u64, u64, u64) {
        let mut b = (0, 0, 0);
        for o in self.utxos.values() {
            if o.time_lock <= self.timestamp {
                b.0 += o.value
            } else {
                b.1 += o.value
            }
        }
        b.2 = self.stakes.values().sum();
        b
    }
}

/// Everything that can be spent, and by whom.
#[derive(Clone, Default)]
pub struct Ledger {
    pub coins: BTreeMap<(Hash, u32), ValueTransferOutput>,
    pub stakes: BTreeMap<(PublicKeyHash, PublicKeyHash), u64>,
    /// Data requests without a tally: (transaction, epoch, creator)
    pub requests: BTreeMap<Hash, (DataRequestOutput, Epoch, PublicKeyHash)>,
    pub done: BTreeSet<Hash>,
}

pub struct Rec {
    pub block: Block,
    pub json: serde_json::Value,
    pub hash: Hash,
    pub epoch: Epoch,
    pub parent: Hash,
    pub view: View,
    pub ledger: Ledger,
}

pub struct Chain {
    pub ctx: Ctx,
    pub keys: Keys,
    pub foreign: Vec<PublicKeyHash>,
    pub protocol: ProtocolInfo,
    pub constants: EpochConstants,
    pub bootstrap: Hash,
    pub gap: u32,
    pub recs: HashMap<Hash, Rc<Rec>>,
    pub main: Vec<Rc<Rec>>,
    /// How many of the main chain are confirmed.
    pub confirmed: usize,
    pub mempool: Vec<Transaction>,
    pub txs: HashMap<String, (Transaction, Hash)>,
    pub reports: HashMap<String, DataRequestInfo>,
    /// The wallet's view starts after this block.
    pub birth: Option<Hash>,
    /// Addresses of the wallet that others can know.
    pub payable: Vec<PublicKeyHash>,
    pub own_spends: bool,
    pub salt: u64,
}

pub fn outptr(h: &Hash, i: u32) -> OutputPointer {
    OutputPointer { transaction_id: *h, output_index: i }
}

impl Chain {
    pub fn ts(&self, e: Epoch) -> i64 {
        self.constants.epoch_timestamp(e).expect("epoch").0
    }
    pub fn version(&self, e: Epoch) -> ProtocolVersion {
        self.protocol.all_versions.version_for_epoch(e)
    }
    pub fn hash(&self, t: &Transaction, e: Epoch) -> Hash {
        t.versioned_hash(self.version(e))
    }
    pub fn tip(&self) -> &Rc<Rec> {
        self.main.last().expect("genesis")
    }
    pub fn view_at(&self, h: &Hash) -> Option<View> {
        if *h == self.bootstrap {
            return Some(View { within_gap: true, ..View::default() });
        }
        self.recs.get(h).map(|r| r.view.clone())
    }

    fn own_payee(&self) -> Option<PublicKeyHash> {
        if self.payable.is_empty() { None } else { Some(*self.ctx.pick(&self.payable)) }
    }
    fn stranger(&self) -> PublicKeyHash {
        *self.ctx.pick(&self.foreign)
    }
    fn lock(&self, e: Epoch) -> u64 {
        let now = self.ts(e) as u64;
        match self.ctx.below(8) {
            0 => now + self.ctx.below(400),
            1 => self.ts(e + self.ctx.below(8) as u32) as u64,
            2 => now - 1,
            _ => 0,
        }
    }

    /// A set of coins to spend.
    fn take(&self, l: &mut Ledger, now: u64, most: u64, f: impl Fn(&PublicKeyHash) -> bool) -> Vec<((Hash, u32), ValueTransferOutput)> {
        let all: Vec<_> = l.coins.iter().filter(|(_, o)| o.time_lock <= now && o.value > 0 && f(&o.pkh)).map(|(k, _)| *k).collect();
        if all.is_empty() {
            return vec![];
        }
        let n = 1 + self.ctx.skewed(most);
        let mut out = vec![];
        for _ in 0..n {
            let k = *self.ctx.pick(&all);
            if let Some(o) = l.coins.remove(&k) {
                out.push((k, o));
            }
        }
        out
    }
    fn inputs(taken: &[((Hash, u32), ValueTransferOutput)]) -> Vec<Input> {
        taken.iter().map(|((h, i), _)| Input::new(outptr(h, *i))).collect()
    }
    fn put(l: &mut Ledger, h: Hash, outs: &[ValueTransferOutput]) {
        for (i, o) in outs.iter().enumerate() {
            l.coins.insert((h, i as u32), o.clone());
        }
    }
    fn outs(&self, e: Epoch, mut total: u64, own: bool) -> Vec<ValueTransferOutput> {
        let mut outs = vec![];
        let n = 1 + self.ctx.below(3);
        for k in 0..n {
            let value = if k == n - 1 { total } else { self.ctx.below(total + 1) };
            total -= value;
            let pkh = if own && self.ctx.chance(1, 2) { self.own_payee() } else { None }.unwrap_or_else(|| self.stranger());
            outs.push(ValueTransferOutput { pkh, value, time_lock: self.lock(e) });
        }
        outs
    }

    /// A block on top of `parent`.
    pub fn forge(&mut self, parent: Option<Rc<Rec>>, e: Epoch, quiet: bool) -> Rc<Rec> {
        let ctx = self.ctx.clone();
        self.salt += 1;
        let v = self.version(e);
        let now = self.ts(e) as u64;
        let mut l = parent.as_ref().map(|p| p.ledger.clone()).unwrap_or_default();
        let mut t = BlockTransactions::default();
        let prev = parent.as_ref().map_or(self.bootstrap, |p| p.hash);
        if parent.is_none() {
            let outs: Vec<_> = self.foreign.clone().into_iter().flat_map(|pkh| (0..3).map(move |k| ValueTransferOutput { pkh, value: (100 + k) * WIT, time_lock: 0 })).collect();
            let mut outs: Vec<_> = outs;
            for _ in 0..ctx.below(3) {
                if let Some(pkh) = self.own_payee() {
                    outs.push(ValueTransferOutput { pkh, value: ctx.range(1, 50) as u64 * WIT, time_lock: self.lock(e) });
                }
            }
            let tx = VTTransaction::new(VTTransactionBody::new(vec![], outs.clone()), vec![]);
            Self::put(&mut l, self.hash(&Transaction::ValueTransfer(tx.clone()), e), &outs);
            t.value_transfer_txns.push(tx);
        } else {
            // What the wallet sent.
            let pool = std::mem::take(&mut self.mempool);
            for tx in pool {
                let (ins, outs) = match &tx {
                    Transaction::ValueTransfer(x) => (x.body.inputs.clone(), x.body.outputs.clone()),
                    Transaction::DataRequest(x) => (x.body.inputs.clone(), x.body.outputs.clone()),
                    _ => continue,
                };
                if ctx.chance(1, 4) {
                    self.mempool.push(tx);
                    continue;
                }
                let keys: Vec<_> = ins.iter().map(|i| (i.output_pointer().transaction_id, i.output_pointer().output_index)).collect();
                if !keys.iter().all(|k| l.coins.get(k).is_some_and(|o| o.time_lock <= now)) {
                    // Invalid on this chain; it may be valid on another one.
                    if ctx.chance(1, 2) {
                        self.mempool.push(tx);
                    }
                    continue;
                }
                let creator = l.coins[&keys[0]].pkh;
                keys.iter().for_each(|k| {
                    l.coins.remove(k);
                });
                let h = self.hash(&tx, e);
                Self::put(&mut l, h, &outs);
                match tx {
                    Transaction::ValueTransfer(x) => t.value_transfer_txns.push(x),
                    Transaction::DataRequest(x) => {
                        l.requests.insert(h, (x.body.dr_output.clone(), e, creator));
                        t.data_request_txns.push(x);
                    }
                    _ => unreachable!(),
                }
                ctx.probe("own_tx_mined");
            }
        }
        let n = if parent.is_none() || quiet { 0 } else { ctx.skewed(5) };
        let known: BTreeSet<PublicKeyHash> = match &parent {
            Some(p) if self.birth != Some(p.hash) => p.view.received.keys().copied().collect(),
            _ => BTreeSet::new(),
        };
        for _ in 0..n {
            self.random_tx(&mut l, &mut t, e, now, &known);
        }
        // Transactions were added in any order; the block lists them by kind, which is the order that counts.
        let reward = ctx.range(1, 50) as u64 * WIT;
        let mut mint = vec![ValueTransferOutput { pkh: self.stranger(), value: reward, time_lock: 0 }];
        if ctx.chance(1, 4)
            && let Some(pkh) = self.own_payee()
        {
            mint.insert(ctx.idx(2), ValueTransferOutput { pkh, value: ctx.range(1, 20) as u64 * WIT, time_lock: 0 });
        }
        t.mint = MintTransaction::new(e, mint.clone());
        Self::put(&mut l, self.hash(&Transaction::Mint(t.mint.clone()), e), &mint);

        let header = BlockHeader {
            signals: self.salt as u32,
            beacon: CheckpointBeacon { checkpoint: e, hash_prev_block: prev },
            ..BlockHeader::default()
        };
        let block = Block::new(header, KeyedSignature::default(), t);
        let hash = block.versioned_hash(v);
        let mut view = match &parent {
            None => View { within_gap: true, ..View::default() },
            Some(p) if self.birth == Some(p.hash) => View { within_gap: true, ..View::default() },
            Some(p) => p.view.clone(),
        };
        self.apply(&mut view, &block, e, hash);
        for tx in self.all(&block) {
            self.txs.insert(self.hash(&tx, e).to_string(), (tx, hash));
        }
        let json = serde_json::to_value(&block).expect("a block in JSON");
        let r = Rc::new(Rec { block, json, hash, epoch: e, parent: prev, view, ledger: l });
        self.recs.insert(hash, r.clone());
        r
    }

    fn random_tx(&mut self, l: &mut Ledger, t: &mut BlockTransactions, e: Epoch, now: u64, known: &BTreeSet<PublicKeyHash>) {
        let ctx = self.ctx.clone();
        let own = |p: &PublicKeyHash| self.keys.path.contains_key(p);
        let not = |p: &PublicKeyHash| !self.keys.path.contains_key(p);
        let any = |_: &PublicKeyHash| true;
        let sum = |c: &[((Hash, u32), ValueTransferOutput)]| c.iter().map(|x| x.1.value).sum::<u64>();
        match ctx.weighted(&[6, if self.own_spends { 3 } else { 0 }, 2, if self.own_spends { 2 } else { 0 }, 2, 2, 2]) {
            0 | 1 => {
                // A value transfer may spend what value transfers of this block created.
                let minted: BTreeSet<Hash> = self.hashes_after_vt(t, e);
                let mut m = l.clone();
                m.coins.retain(|k, _| !minted.contains(&k.0));
                let taken = if ctx.chance(1, 2) && self.own_spends { self.take(&mut m, now, 2, any) } else { self.take(&mut m, now, 2, not) };
                if taken.is_empty() {
                    return;
                }
                let total = sum(&taken);
                let fee = ctx.below(total.min(1000) + 1);
                let outs = self.outs(e, total - fee, true);
                taken.iter().for_each(|(k, _)| {
                    l.coins.remove(k);
                });
                let tx = VTTransaction::new(VTTransactionBody::new(Self::inputs(&taken), outs.clone()), vec![]);
                Self::put(l, self.hash(&Transaction::ValueTransfer(tx.clone()), e), &outs);
                t.value_transfer_txns.push(tx);
            }
            2 => {
                // Somebody's commitment, which returns the change of its collateral.
                let minted = self.hashes_of(t, e);
                let mut m = l.clone();
                m.coins.retain(|k, _| !minted.contains(&k.0));
                let taken = if self.own_spends { self.take(&mut m, now, 1, any) } else { self.take(&mut m, now, 1, not) };
                let Some(first) = taken.first() else { return };
                let total = sum(&taken);
                let back = ctx.below(total + 1);
                let outs = if back == 0 { vec![] } else { vec![ValueTransferOutput { pkh: first.1.pkh, value: back, time_lock: 0 }] };
                taken.iter().for_each(|(k, _)| {
                    l.coins.remove(k);
                });
                let body = CommitTransactionBody::new(Hash::default(), Hash::from(vec![self.salt as u8; 32]), Default::default(), Self::inputs(&taken), outs.clone(), None);
                let tx = CommitTransaction::new(body, vec![]);
                Self::put(l, self.hash(&Transaction::Commit(tx.clone()), e), &outs);
                t.commit_txns.push(tx);
            }
            3 => {
                // Staking what the wallet owns, from another device.
                let minted = self.hashes_of(t, e);
                let mut m = l.clone();
                m.coins.retain(|k, _| !minted.contains(&k.0));
                let taken = self.take(&mut m, now, 1, own);
                let Some(first) = taken.first() else { return };
                let total = sum(&taken);
                let value = 1 + ctx.below(total);
                let change = if value < total && ctx.chance(3, 4) {
                    Some(ValueTransferOutput { pkh: first.1.pkh, value: total - value, time_lock: 0 })
                } else {
                    None
                };
                taken.iter().for_each(|(k, _)| {
                    l.coins.remove(k);
                });
                // Only payments make a wallet look for an address.
                let key = StakeKey { validator: self.foreign[ctx.idx(2)], withdrawer: self.own_payee().filter(|p| known.contains(p)).unwrap_or(first.1.pkh) };
                *l.stakes.entry((key.validator, key.withdrawer)).or_default() += value;
                let tx = StakeTransaction::new(
                    StakeTransactionBody::new(Self::inputs(&taken), StakeOutput { authorization: KeyedSignature::default(), key, value }, change.clone()),
                    vec![],
                );
                let outs: Vec<_> = change.into_iter().collect();
                Self::put(l, self.hash(&Transaction::Stake(tx.clone()), e), &outs);
                t.stake_txns.push(tx);
                ctx.probe("staked");
            }
            4 => {
                let keys: Vec<_> = l.stakes.iter().filter(|x| *x.1 > 1).map(|x| (*x.0, *x.1)).collect();
                if keys.is_empty() || !t.stake_txns.is_empty() {
                    return;
                }
                let ((validator, withdrawer), have) = *ctx.pick(&keys);
                let fee = ctx.below(have.min(3));
                let value = if ctx.chance(1, 2) { have - fee } else { 1 + ctx.below(have - fee) };
                let w = ValueTransferOutput { pkh: withdrawer, value, time_lock: now + ctx.below(300) };
                let body = UnstakeTransactionBody::new(validator, w.clone(), fee, self.salt);
                let tx = UnstakeTransaction::new(body, KeyedSignature::default());
                *l.stakes.get_mut(&(validator, withdrawer)).expect("stake") -= value + fee;
                l.stakes.retain(|_, v| *v > 0);
                Self::put(l, self.hash(&Transaction::Unstake(tx.clone()), e), &[w]);
                t.unstake_txns.push(tx);
                ctx.probe("unstaked");
            }
            5 => {
                // A data request of somebody.
                let minted = self.hashes_of(t, e);
                let mut m = l.clone();
                m.coins.retain(|k, _| !minted.contains(&k.0));
                let taken = if self.own_spends { self.take(&mut m, now, 1, any) } else { self.take(&mut m, now, 1, not) };
                let Some(first) = taken.first() else { return };
                let total = sum(&taken);
                let cost = 1 + ctx.below(total.min(WIT));
                let outs = if cost < total { vec![ValueTransferOutput { pkh: first.1.pkh, value: total - cost, time_lock: 0 }] } else { vec![] };
                taken.iter().for_each(|(k, _)| {
                    l.coins.remove(k);
                });
                let req = DataRequestOutput { witness_reward: cost, witnesses: 1, collateral: self.salt, ..DataRequestOutput::default() };
                let tx = DRTransaction::new(DRTransactionBody::new(Self::inputs(&taken), req.clone(), outs.clone()), vec![]);
                let h = self.hash(&Transaction::DataRequest(tx.clone()), e);
                Self::put(l, h, &outs);
                l.requests.insert(h, (req, e, first.1.pkh));
                t.data_request_txns.push(tx);
            }
            _ => {
                let ready: Vec<_> = l.requests.iter().filter(|x| x.1.1 + 2 <= e).map(|x| *x.0).collect();
                if ready.is_empty() {
                    return;
                }
                let h = *ctx.pick(&ready);
                let (req, _, creator) = l.requests.remove(&h).expect("request");
                l.done.insert(h);
                let value = req.witness_reward.max(1);
                let back = ctx.below(value + 1);
                let mut outs = vec![];
                if back > 0 {
                    outs.push(ValueTransferOutput { pkh: creator, value: back, time_lock: 0 });
                }
                let witness = if ctx.chance(1, 3) { self.own_payee() } else { None }.unwrap_or_else(|| self.stranger());
                if value > back {
                    outs.push(ValueTransferOutput { pkh: witness, value: value - back, time_lock: 0 });
                }
                let result = match ctx.below(3) {
                    0 => RadonTypes::from(RadonInteger::from(ctx.below(1000) as i128)),
                    _ => RadonTypes::from(RadonString::from("sunny".to_string())),
                };
                let bytes = result.encode().expect("a value in CBOR");
                let outliers: Vec<_> = (0..ctx.below(3)).map(|i| self.foreign[i as usize]).collect();
                let tx = TallyTransaction::new(h, bytes.clone(), outs.clone(), outliers, vec![]);
                let mut info = DataRequestInfo::default();
                for i in 0..1 + ctx.below(3) {
                    let pkh = self.foreign[i as usize];
                    let reveal = match ctx.below(6) {
                        0 => vec![0xff, 0x00],
                        1 => vec![],
                        _ => bytes.clone(),
                    };
                    info.reveals.insert(pkh, RevealTransaction::new(RevealTransactionBody::new(h, reveal, pkh), vec![]));
                }
                info.tally = Some(tx.clone());
                info.current_stage = None;
                self.reports.insert(h.to_string(), info);
                Self::put(l, self.hash(&Transaction::Tally(tx.clone()), e), &outs);
                t.tally_txns.push(tx);
                ctx.probe("tally");
            }
        }
    }
    fn hashes_of(&self, t: &BlockTransactions, e: Epoch) -> BTreeSet<Hash> {
        // What a data request, a commitment or a stake must not spend: what later kinds, or others of its kind, create.
        let mut s = self.hashes_after_vt(t, e);
        s.extend(t.value_transfer_txns.iter().map(|x| self.hash(&Transaction::ValueTransfer(x.clone()), e)));
        s
    }
    fn hashes_after_vt(&self, t: &BlockTransactions, e: Epoch) -> BTreeSet<Hash> {
        let v = self.version(e);
        let mut s = BTreeSet::new();
        s.extend(t.data_request_txns.iter().map(|x| x.versioned_hash(v)));
        s.extend(t.commit_txns.iter().map(|x| x.versioned_hash(v)));
        s.extend(t.tally_txns.iter().map(|x| Transaction::Tally(x.clone()).versioned_hash(v)));
        s.extend(t.stake_txns.iter().map(|x| Transaction::Stake(x.clone()).versioned_hash(v)));
        s.extend(t.unstake_txns.iter().map(|x| Transaction::Unstake(x.clone()).versioned_hash(v)));
        s
    }

    /// The transactions of a block, in the order in which they take effect.
    pub fn all(&self, b: &Block) -> Vec<Transaction> {
        let t = &b.txns;
        let mut v: Vec<Transaction> = vec![];
        v.extend(t.value_transfer_txns.iter().cloned().map(Transaction::ValueTransfer));
        v.extend(t.data_request_txns.iter().cloned().map(Transaction::DataRequest));
        v.extend(t.commit_txns.iter().cloned().map(Transaction::Commit));
        v.extend(t.tally_txns.iter().cloned().map(Transaction::Tally));
        v.extend(t.stake_txns.iter().cloned().map(Transaction::Stake));
        v.extend(t.unstake_txns.iter().cloned().map(Transaction::Unstake));
        v.push(Transaction::Mint(t.mint.clone()));
        v
    }

    /// The meaning of a block for the owner of the keys.
    fn apply(&self, w: &mut View, b: &Block, e: Epoch, block: Hash) {
        let ts = self.ts(e) as u64;
        w.timestamp = ts;
        let resolve = |i: &Input, w: &View| {
            let p = i.output_pointer();
            w.utxos.get(&(p.transaction_id, p.output_index)).cloned()
        };
        let here: HashMap<String, Transaction> = self.all(b).into_iter().map(|t| (self.hash(&t, e).to_string(), t)).collect();
        let value_of = |i: &Input| {
            let p = i.output_pointer();
            let id = p.transaction_id.to_string();
            let t = here.get(&id).or_else(|| self.txs.get(&id).map(|x| &x.0));
            t.and_then(|t| outputs(t).get(p.output_index as usize).map(|o| o.value))
        };
        for tx in self.all(b) {
            let h = self.hash(&tx, e);
            let ins = match &tx {
                Transaction::ValueTransfer(x) => x.body.inputs.clone(),
                Transaction::DataRequest(x) => x.body.inputs.clone(),
                Transaction::Commit(x) => x.body.collateral.clone(),
                Transaction::Stake(x) => x.body.inputs.clone(),
                _ => vec![],
            };
            let outs = outputs(&tx);
            if let Transaction::Tally(x) = &tx {
                // The outcome of a request that the wallet knows.
                let id = x.dr_pointer.to_string();
                if let Some(m) = w.moves.iter_mut().find(|m| m.hash == id) {
                    m.tally = Some(RadonTypes::try_from(x.tally.as_slice()).expect("a value").to_string());
                    let info = &self.reports[&id];
                    let strange = x.out_of_consensus.iter().filter(|p| !info.reveals.contains_key(p)).count();
                    let inside = info.reveals.keys().filter(|p| !x.out_of_consensus.contains(p)).count();
                    m.reveals = (info.reveals.len() + strange, inside);
                }
            }
            let mine: Vec<_> = ins.iter().filter_map(|i| resolve(i, w).map(|o| (i, o))).collect();
            let got: Vec<_> = outs.iter().enumerate().filter(|(_, o)| self.keys.path.contains_key(&o.pkh)).collect();
            if mine.is_empty() && got.is_empty() {
                continue;
            }
            let spent: u64 = mine.iter().map(|x| x.1.value).sum();
            let gain: u64 = got.iter().map(|x| x.1.value).sum();
            for (i, _) in &mine {
                let p = i.output_pointer();
                w.utxos.remove(&(p.transaction_id, p.output_index));
            }
            for (i, o) in &got {
                w.utxos.insert((h, *i as u32), (*o).clone());
                let (kc, index) = self.keys.path[&o.pkh];
                let next = &mut w.next[kc as usize];
                if index >= *next + self.gap {
                    w.within_gap = false;
                }
                *next = (*next).max(index + 1);
                if matches!(tx, Transaction::ValueTransfer(_) | Transaction::Mint(_) | Transaction::Stake(_) | Transaction::Unstake(_)) {
                    let r = w.received.entry(o.pkh).or_default();
                    if r.payments.is_empty() {
                        r.first = ts
                    }
                    r.last = ts;
                    r.amount += o.value;
                    r.payments.push(format!("{h}:{i}"));
                }
            }
            let mut paid = None;
            let in_values: Option<Vec<u64>> = ins.iter().map(value_of).collect();
            let total_in: u64 = in_values.unwrap_or_default().iter().sum();
            let total_out: u64 = outs.iter().map(|o| o.value).sum();
            let kind = match &tx {
                Transaction::ValueTransfer(_) => {
                    paid = Some(total_in.saturating_sub(total_out));
                    "value_transfer"
                }
                Transaction::DataRequest(_) => "data_request",
                Transaction::Commit(_) => "commit",
                Transaction::Tally(_) => "tally",
                Transaction::Stake(x) => {
                    paid = Some(total_in - total_out - x.body.output.value);
                    *w.stakes.entry((x.body.output.key.validator, x.body.output.key.withdrawer)).or_default() += x.body.output.value;
                    "stake"
                }
                Transaction::Unstake(x) => {
                    if let Some(s) = w.stakes.get_mut(&(x.body.operator, x.body.withdrawal.pkh)) {
                        *s -= x.body.withdrawal.value + x.body.fee;
                    }
                    w.stakes.retain(|_, v| *v > 0);
                    "unstake"
                }
                Transaction::Mint(_) => "mint",
                Transaction::Reveal(_) => continue,
            };
            w.moves.push(Move {
                hash: h.to_string(),
                kind,
                positive: gain >= spent,
                amount: gain.abs_diff(spent),
                fee: paid,
                epoch: e,
                block,
                tally: None,
                reveals: (0, 0),
            });
        }
    }
}

pub fn outputs(t: &Transaction) -> Vec<ValueTransferOutput> {
    match t {
        Transaction::ValueTransfer(x) => x.body.outputs.clone(),
        Transaction::DataRequest(x) => x.body.outputs.clone(),
        Transaction::Commit(x) => x.body.outputs.clone(),
        Transaction::Tally(x) => x.outputs.clone(),
        Transaction::Stake(x) => x.body.change.clone().into_iter().collect(),
        Transaction::Unstake(x) => vec![x.body.withdrawal.clone()],
        Transaction::Mint(x) => x.outputs.clone(),
        Transaction::Reveal(_) => vec![],
    }
}
