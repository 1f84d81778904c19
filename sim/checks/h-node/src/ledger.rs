//! A reference ledger: replays the blocks of a chain and says what everybody owns afterwards.
//!
//! It knows the documented rules only: coins are spent once, by their owner, not before their time lock; nothing but the
//! block reward is created; whatever a request locks is paid out to its requester, its honest witnesses and the miners;
//! the collateral of liars is lost.

use simkit::{Fail, Res, ensure, ensure_eq};
use std::collections::{BTreeMap, BTreeSet};
use witnet_crypto::signature;
use witnet_data_structures::{
    chain::{Block, DataRequestOutput, Epoch, EpochConstants, Hash, Hashable, Input, KeyedSignature, PublicKeyHash, ValueTransferOutput},
    get_protocol_version,
    proto::versioning::{ProtocolVersion, VersionedHashable},
};

pub type Ptr = (Hash, u32);

#[derive(Clone, Debug)]
pub struct Coin {
    pub pkh: PublicKeyHash,
    pub value: u64,
    pub time_lock: u64,
    /// Number of the block that made it.
    pub height: u32,
}

#[derive(Clone, Debug)]
pub struct Request {
    pub output: DataRequestOutput,
    pub requesters: BTreeSet<PublicKeyHash>,
    pub posted: Epoch,
    /// Under the rules of wit/2.
    pub v2: bool,
    pub commits: BTreeMap<PublicKeyHash, Hash>,
    pub reveals: BTreeMap<PublicKeyHash, Vec<u8>>,
    pub last_commit: Epoch,
    pub locked: u64,
    pub tally: Option<Vec<u8>>,
    pub out_of_consensus: usize,
    /// Numbers of the blocks in which it was posted and resolved.
    pub posted_at: u32,
    pub resolved_at: u32,
}

/// What was revealed, or came out.
#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Int(i128),
    Float(f64),
    Error,
    Other,
}

impl Value {
    /// Numbers and errors in CBOR.
    pub fn of(b: &[u8]) -> Value {
        let Some((&first, rest)) = b.split_first() else { return Value::Other };
        let uint = |n: u8, rest: &[u8]| -> Option<u64> {
            let k = match n {
                0..=23 => return rest.is_empty().then_some(n.into()),
                24 => 1,
                25 => 2,
                26 => 4,
                27 => 8,
                _ => return None,
            };
            (rest.len() == k).then(|| rest.iter().fold(0, |a, b| a << 8 | u64::from(*b)))
        };
        match first >> 5 {
            0 => uint(first & 31, rest).map_or(Value::Other, |n| Value::Int(n.into())),
            1 => uint(first & 31, rest).map_or(Value::Other, |n| Value::Int(-1 - i128::from(n))),
            // tag 39 is what RADON marks errors with
            6 if b.starts_with(&[0xd8, 39]) => Value::Error,
            7 => match uint(first & 31, rest) {
                Some(n) if first & 31 == 27 => Value::Float(f64::from_bits(n)),
                Some(n) if first & 31 == 26 => Value::Float(f32::from_bits(n as u32).into()),
                Some(n) if first & 31 == 25 => {
                    let (sign, exp, frac) = (n >> 15, (n >> 10) & 31, (n & 1023) as f64);
                    let v = match exp {
                        0 => frac * 2f64.powi(-24),
                        31 => f64::NAN,
                        _ => (1.0 + frac / 1024.0) * 2f64.powi(exp as i32 - 15),
                    };
                    Value::Float(if sign == 1 { -v } else { v })
                }
                _ => Value::Other,
            },
            _ => Value::Other,
        }
    }
}

impl Request {
    /// Is this result what the witnesses saw, and are those in consensus who say so?
    fn judge(&self, tally: &[u8], out: &BTreeSet<PublicKeyHash>, errors: &BTreeSet<PublicKeyHash>, what: &str) -> Res {
        let t = &self.output.data_request.tally;
        let mode_filter = match &t.filters[..] {
            [] => false,
            [f] if f.op == 8 => true,
            _ => return Ok(()),
        };
        let said: BTreeMap<PublicKeyHash, Value> = self.reveals.iter().map(|(p, b)| (*p, Value::of(b))).collect();
        if said.values().any(|v| matches!(v, Value::Other | Value::Float(_))) {
            return Ok(());
        }
        let result = Value::of(tally);
        let context = || format!("{what}: {} witnesses, {} committed, {}% needed, said {said:?}, result {result:?}, out {out:?}, errors {errors:?}", self.output.witnesses, self.commits.len(), self.output.min_consensus_percentage);
        ensure!(result != Value::Other, "wrong-result", "{}", context());
        let n = self.commits.len() as u64;
        let needed = u64::from(self.output.min_consensus_percentage) * n;
        let mut numbers: BTreeMap<i128, u64> = BTreeMap::new();
        let mut mistakes = 0;
        for v in said.values() {
            match v {
                Value::Int(i) => *numbers.entry(*i).or_default() += 1,
                _ => mistakes += 1,
            }
        }
        let total: u64 = numbers.values().sum();
        // agreement among all that committed, and more numbers than mistakes
        let good = total > mistakes && total * 100 >= needed;
        let (agreed, top) = numbers.iter().map(|(k, c)| (*c, *k)).max().unwrap_or((0, 0));
        let tied = numbers.values().filter(|c| **c == agreed).count() > 1;
        let counted = if mode_filter { agreed } else { total };
        match &result {
            Value::Error => {
                // agreement beyond doubt
                let sure = good && counted * 100 > needed && (!tied || !(mode_filter || t.reducer == 2));
                ensure!(!sure, "wrong-result", "agreed and yet an error: {}", context());
            }
            Value::Int(_) | Value::Float(_) => {
                ensure!(good && counted * 100 >= needed, "wrong-result", "a result without agreement: {}", context());
                ensure!(!(tied && (mode_filter || t.reducer == 2)), "wrong-result", "a result of a tie: {}", context());
                let mut all: Vec<i128> = said.values().filter_map(|v| if let Value::Int(i) = v { Some(*i) } else { None }).collect();
                all.retain(|i| !mode_filter || *i == top);
                all.sort();
                let k = all.len();
                let right = match (t.reducer, &result) {
                    (2, Value::Int(i)) => *i == top,
                    // of integers, rounded to the nearest
                    (3, Value::Int(i)) => (all.iter().sum::<i128>() - i * k as i128).abs() * 2 <= k as i128,
                    (5, Value::Int(i)) => all[(k - 1) / 2] <= *i && *i <= all[k / 2],
                    _ => false,
                };
                ensure!(right, "wrong-result", "{}", context());
                for p in self.commits.keys() {
                    let honest = match said.get(p) {
                        Some(Value::Int(i)) => !mode_filter || *i == top,
                        _ => false,
                    };
                    ensure!(honest != out.contains(p), "wrong-verdict", "{p} is{} honest: {}", if honest { "" } else { " not" }, context());
                    let mistaken = said.get(p) == Some(&Value::Error);
                    ensure!(mistaken == errors.contains(p), "wrong-verdict", "{p} met{} an error: {}", if mistaken { "" } else { " not" }, context());
                }
            }
            Value::Other => {}
        }
        Ok(())
    }
}

pub struct Rules {
    pub epochs: EpochConstants,
    pub reward: u64,
    pub reward2: u64,
    pub collateral_minimum: u64,
    pub collateral_age: u32,
    pub min_stake: u64,
    pub max_stake: u64,
    pub unstaking_delay: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Ledger {
    pub coins: BTreeMap<Ptr, Coin>,
    /// By validator and withdrawer.
    pub stakes: BTreeMap<(PublicKeyHash, PublicKeyHash), u64>,
    pub nonces: BTreeMap<(PublicKeyHash, PublicKeyHash), u64>,
    pub requests: BTreeMap<Hash, Request>,
    /// Where every transaction of users was included.
    pub included: BTreeMap<Hash, Epoch>,
    pub genesis: u64,
    pub minted: u64,
    pub burned: u64,
    /// Rewards of witnesses that nobody got.
    pub unrewarded: u64,
    /// What was paid out of stakes that did not get smaller.
    pub unapplied: u64,
    /// Collateral that is paid back and was not taken.
    pub unreserved: u64,
    pub blocks: u32,
    pub epoch: Epoch,
    pub tip: Hash,
}

impl Ledger {
    pub fn total_coins(&self) -> u64 {
        self.coins.values().map(|c| c.value).sum()
    }
    pub fn total_staked(&self) -> u64 {
        self.stakes.values().sum()
    }
    pub fn total_locked(&self) -> u64 {
        self.requests.values().map(|r| r.locked).sum()
    }
    pub fn balance(&self, pkh: PublicKeyHash) -> u64 {
        self.coins.values().filter(|c| c.pkh == pkh).map(|c| c.value).sum()
    }

    fn spend(&mut self, inputs: &[Input], sigs: Option<(&[KeyedSignature], Hash)>, now: i64, what: &str) -> Res<Vec<Coin>> {
        let mut out = vec![];
        if let Some((s, _)) = sigs {
            ensure_eq!(s.len(), inputs.len(), "unsigned", "{what}: {} inputs but {} signatures", inputs.len(), s.len());
        }
        for (i, input) in inputs.iter().enumerate() {
            let p = input.output_pointer();
            let ptr = (p.transaction_id, p.output_index);
            let Some(c) = self.coins.remove(&ptr) else {
                return Err(Fail::new("spent-twice", format!("{what} spends {p:?}, which does not exist (any more)")));
            };
            ensure!(c.time_lock as i128 <= now as i128, "spent-early", "{what} spends at {now} a coin locked until {}", c.time_lock);
            if let Some((s, hash)) = sigs {
                let Hash::SHA256(h) = hash;
                let k = &s[i];
                ensure_eq!(k.public_key.pkh(), c.pkh, "stolen", "{what} spends a coin of {} with the key of {}", c.pkh, k.public_key.pkh());
                let ok = k.public_key.clone().try_into().ok().zip(k.signature.clone().try_into().ok()).is_some_and(|(pk, sig)| signature::verify(&pk, &h, &sig).is_ok());
                ensure!(ok, "stolen", "{what}: the signature of input {i} is wrong");
            }
            out.push(c);
        }
        Ok(out)
    }

    /// Coins that go back to the single owner of all the inputs are as old as the youngest input.
    fn make(&mut self, hash: Hash, outputs: &[ValueTransferOutput], inputs: &[Coin], relative_to: Option<(i64, i64)>) -> Res {
        let same = inputs.first().filter(|f| inputs.iter().all(|c| c.pkh == f.pkh)).map(|f| f.pkh);
        let age = inputs.iter().map(|c| c.height).max().unwrap_or(0);
        for (i, o) in outputs.iter().enumerate() {
            let height = if same == Some(o.pkh) { age } else { self.blocks };
            // since wit/2, small time locks are relative to the block
            let time_lock = match relative_to {
                Some((now, zero)) if i128::from(o.time_lock) < i128::from(zero) => o.time_lock + now as u64,
                _ => o.time_lock,
            };
            let c = Coin { pkh: o.pkh, value: o.value, time_lock, height };
            ensure!(self.coins.insert((hash, i as u32), c).is_none(), "coin-replaced", "output {i} of {hash} exists twice");
        }
        Ok(())
    }

    fn fee(coins: &[Coin], spent: u128, what: &str) -> Res<u64> {
        let given: u128 = coins.iter().map(|c| u128::from(c.value)).sum();
        ensure!(given >= spent, "inflation", "{what} takes {given} and makes {spent}");
        Ok((given - spent) as u64)
    }

    /// What remains because there is nobody any more to give it to.
    fn reward(&mut self, validator: PublicKeyHash, value: u64) -> u64 {
        match self.stakes.iter_mut().find(|((val, _), _)| *val == validator) {
            Some((_, v)) => {
                *v += value;
                0
            }
            None => value,
        }
    }

    /// The ledger after one more block.
    pub fn apply(&self, b: &Block, hash: Hash, r: &Rules, genesis: bool) -> Res<Ledger> {
        let mut l = self.clone();
        let epoch = b.block_header.beacon.checkpoint;
        let protocol = get_protocol_version(Some(epoch));
        let v2 = protocol >= ProtocolVersion::V2_0;
        let now = r.epochs.epoch_timestamp(epoch).map(|t| t.0).unwrap_or(0);
        let rel = if v2 { Some((now, r.epochs.checkpoint_zero_timestamp)) } else { None };
        let before = l.total_coins() + l.total_staked() + l.total_locked();
        let mut fees = 0u64;
        let mut burned = 0u64;
        // the validators whose stake this block changes in other ways than staking
        let mut busy = BTreeSet::new();
        let sum = |o: &[ValueTransferOutput]| o.iter().map(|o| u128::from(o.value)).sum::<u128>();

        for t in &b.txns.value_transfer_txns {
            let h = t.versioned_hash(protocol);
            let what = format!("transfer {h} at {epoch}");
            ensure!(l.included.insert(h, epoch).is_none(), "included-twice", "{what} is there for the second time");
            let mut c = vec![];
            if genesis {
                l.genesis += sum(&t.body.outputs) as u64;
            } else {
                c = l.spend(&t.body.inputs, Some((&t.signatures, t.hash())), now, &what)?;
                fees += Self::fee(&c, sum(&t.body.outputs), &what)?;
            }
            ensure!(t.body.outputs.iter().all(|o| o.value > 0), "worthless-coin", "{what} makes an output of value zero");
            l.make(h, &t.body.outputs, &c, rel)?;
        }

        let mut commits: BTreeMap<Hash, u16> = BTreeMap::new();
        let mut unreserved = 0;
        for t in &b.txns.commit_txns {
            let h = t.versioned_hash(protocol);
            let d = t.body.dr_pointer;
            let pkh = t.body.proof.proof.pkh();
            let what = format!("commit {h} of {pkh} for {d} at {epoch}");
            let Some(q) = l.requests.get(&d).cloned() else {
                return Err(Fail::new("commit-for-nothing", format!("{what}: there is no such request")));
            };
            ensure!(q.tally.is_none() && q.posted < epoch, "commit-out-of-turn", "{what}: the request was posted at {} and is {:?}", q.posted, q.tally);
            ensure!(q.commits.is_empty() || q.last_commit == epoch, "commit-out-of-turn", "{what}: others committed at {}", q.last_commit);
            ensure!(!q.commits.contains_key(&pkh), "committed-twice", "{what}");
            let collateral = if q.output.collateral == 0 { r.collateral_minimum } else { q.output.collateral };
            if q.v2 {
                ensure!(t.body.collateral.is_empty(), "collateral", "{what} takes collateral from coins");
                let Some((k, v)) = l.stakes.iter_mut().find(|((val, _), _)| *val == pkh) else {
                    return Err(Fail::new("collateral", format!("{what}: no stake to take it from")));
                };
                ensure!(*v >= q.output.collateral, "collateral", "{what}: {k:?} staked {v}, less than {}", q.output.collateral);
                // KNOWN: nothing is taken if it would leave less than a validator needs, which is possible for all but the
                // first commit of a validator in a block
                if *v > q.output.collateral && *v < q.output.collateral + r.min_stake {
                    unreserved += q.output.collateral;
                } else {
                    *v -= q.output.collateral;
                }
                busy.insert(pkh);
            } else {
                let c = l.spend(&t.body.collateral, None, now, &what)?;
                ensure!(c.iter().all(|c| c.pkh == pkh), "stolen", "{what} puts up the coins of others");
                ensure!(
                    c.iter().all(|c| c.height <= l.blocks.saturating_sub(r.collateral_age)),
                    "young-collateral",
                    "{what} at block {} puts up a coin of block {:?}",
                    l.blocks,
                    c.iter().map(|c| c.height).max()
                );
                let put = Self::fee(&c, sum(&t.body.outputs), &what)?;
                ensure_eq!(put, collateral, "collateral", "{what}: put up {put}");
                l.make(h, &t.body.outputs, &c, rel)?;
            }
            let q = l.requests.get_mut(&d).unwrap();
            q.commits.insert(pkh, t.body.commitment);
            q.last_commit = epoch;
            *commits.entry(d).or_default() += 1;
            ensure!(q.commits.len() <= usize::from(q.output.witnesses), "too-many-commits", "{what}: {} of {}", q.commits.len(), q.output.witnesses);
            q.locked -= q.output.commit_and_reveal_fee;
            q.locked += if q.v2 { q.output.collateral } else { collateral };
            if v2 && !q.v2 {
                burned += q.output.commit_and_reveal_fee;
            } else {
                fees += q.output.commit_and_reveal_fee;
            }
        }
        for (d, n) in &commits {
            let q = &l.requests[d];
            ensure_eq!(*n, q.output.witnesses, "too-few-commits", "{d} at {epoch}");
        }

        for t in &b.txns.reveal_txns {
            let d = t.body.dr_pointer;
            let pkh = t.body.pkh;
            let what = format!("reveal of {pkh} for {d} at {epoch}");
            let Some(q) = l.requests.get_mut(&d) else {
                return Err(Fail::new("reveal-for-nothing", format!("{what}: there is no such request")));
            };
            ensure!(q.tally.is_none() && q.last_commit < epoch, "reveal-out-of-turn", "{what}: committed at {}, tally {:?}", q.last_commit, q.tally);
            let Some(c) = q.commits.get(&pkh) else {
                return Err(Fail::new("reveal-without-commit", what));
            };
            ensure!(!q.reveals.contains_key(&pkh), "revealed-twice", "{what}");
            ensure_eq!(t.signatures.len(), 1, "unsigned", "{what}");
            ensure_eq!(t.signatures[0].public_key.pkh(), pkh, "stolen", "{what}: signed by another");
            ensure_eq!(t.signatures[0].signature.hash(), *c, "reveal-differs", "{what}: the commitment was to another value");
            q.reveals.insert(pkh, t.body.reveal.clone());
            q.locked -= q.output.commit_and_reveal_fee;
            if v2 && !q.v2 {
                burned += q.output.commit_and_reveal_fee;
            } else {
                fees += q.output.commit_and_reveal_fee;
            }
        }

        for t in &b.txns.data_request_txns {
            let h = t.versioned_hash(protocol);
            let what = format!("request {h} at {epoch}");
            ensure!(l.included.insert(h, epoch).is_none(), "included-twice", "{what} is there for the second time");
            let c = l.spend(&t.body.inputs, Some((&t.signatures, t.hash())), now, &what)?;
            let o = &t.body.dr_output;
            let value = u128::from(o.witnesses) * (u128::from(o.witness_reward) + 2 * u128::from(o.commit_and_reveal_fee));
            fees += Self::fee(&c, sum(&t.body.outputs) + value, &what)?;
            l.make(h, &t.body.outputs, &c, rel)?;
            let q = Request {
                output: o.clone(),
                requesters: t.signatures.iter().map(|s| s.public_key.pkh()).collect(),
                posted: epoch,
                v2,
                commits: BTreeMap::new(),
                reveals: BTreeMap::new(),
                last_commit: 0,
                locked: value as u64,
                tally: None,
                out_of_consensus: 0,
                posted_at: l.blocks,
                resolved_at: 0,
            };
            ensure!(l.requests.insert(h, q).is_none(), "included-twice", "{what}");
        }

        for t in &b.txns.tally_txns {
            let h = t.versioned_hash(protocol);
            let d = t.dr_pointer;
            let what = format!("tally of {d} at {epoch}");
            let Some(mut q) = l.requests.get(&d).cloned() else {
                return Err(Fail::new("tally-for-nothing", format!("{what}: there is no such request")));
            };
            ensure!(q.tally.is_none(), "tallied-twice", "{what}");
            let collateral = if q.output.collateral == 0 { r.collateral_minimum } else { q.output.collateral };
            let errors: BTreeSet<_> = t.error_committers.iter().copied().collect();
            let out: BTreeSet<_> = t.out_of_consensus.iter().copied().collect();
            ensure!(
                errors.iter().chain(&out).all(|p| q.commits.contains_key(p)),
                "wrong-tally",
                "{what} punishes who did not commit: {errors:?} {out:?} of {:?}",
                q.commits.keys()
            );
            // who did not reveal is not honest
            for p in q.commits.keys() {
                ensure!(q.reveals.contains_key(p) || out.contains(p), "wrong-tally", "{what}: {p} did not reveal and is not punished");
            }
            // Who agrees with the result is honest. Of the others, those who met an error keep their collateral; and if nobody
            // is honest, nobody lied.
            // For requests of wit/2, all who revealed then count as having met an error.
            let honest: Vec<_> = q.commits.keys().filter(|p| !out.contains(p)).copied().collect();
            let spared: Vec<_> = out.iter().filter(|p| errors.contains(p) || (honest.is_empty() && !q.v2)).copied().collect();
            if honest.is_empty() && q.v2 {
                ensure!(q.reveals.keys().all(|p| errors.contains(p)), "wrong-tally", "{what}: nobody is honest, but of {:?} only {errors:?} are spared", q.reveals.keys());
            }
            let liars = (out.len() - spared.len()) as u64;
            // What is due: reward and collateral to the honest, the collateral to the spared, what was not used to the
            // requester.
            let mut due: BTreeMap<PublicKeyHash, u64> = BTreeMap::new();
            let mut staked: BTreeMap<PublicKeyHash, u64> = BTreeMap::new();
            let mut unrewarded = 0;
            {
                let to = if q.v2 { &mut staked } else { &mut due };
                for p in &honest {
                    // KNOWN: who agrees that the result is an error gets no reward, and the requester does not get it either
                    let earned = if q.v2 && errors.contains(p) { 0 } else { q.output.witness_reward };
                    unrewarded += q.output.witness_reward - earned;
                    *to.entry(*p).or_default() += earned + collateral;
                }
                for p in &spared {
                    *to.entry(*p).or_default() += collateral;
                }
            }
            let lost = liars * collateral + unrewarded;
            l.unrewarded += unrewarded;
            let paid: u64 = due.values().chain(staked.values()).sum();
            let left = q.locked as i128 - i128::from(paid) - i128::from(lost);
            ensure!(left >= 0, "inflation", "{what}: {} locked, but {paid} to be paid and {lost} slashed", q.locked);
            if left > 0 {
                let who = t.outputs.iter().map(|o| o.pkh).find(|p| q.requesters.contains(p));
                ensure!(who.is_some(), "no-refund", "{what}: {left} is left over and the requester gets nothing");
                *due.entry(who.unwrap()).or_default() += left as u64;
            }
            let mut got: BTreeMap<PublicKeyHash, u64> = BTreeMap::new();
            for o in &t.outputs {
                *got.entry(o.pkh).or_default() += o.value;
            }
            ensure_eq!(got, due, "wrong-tally-payment", "{what}: pays {got:?}, due is {due:?}; honest {honest:?} errors {errors:?} out {out:?}");
            for (p, v) in staked {
                busy.insert(p);
                burned += l.reward(p, v);
            }
            burned += lost;
            q.judge(&t.tally, &out, &errors, &what)?;
            q.resolved_at = l.blocks;
            q.locked = 0;
            q.tally = Some(t.tally.clone());
            q.out_of_consensus = out.len();
            l.requests.insert(d, q);
            l.make(h, &t.outputs, &[], rel)?;
        }

        for t in &b.txns.stake_txns {
            let h = t.versioned_hash(protocol);
            let what = format!("stake {h} at {epoch}");
            ensure!(l.included.insert(h, epoch).is_none(), "included-twice", "{what} is there for the second time");
            let c = l.spend(&t.body.inputs, Some((&t.signatures, t.hash())), now, &what)?;
            let change: Vec<_> = t.body.change.iter().cloned().collect();
            fees += Self::fee(&c, sum(&change) + u128::from(t.body.output.value), &what)?;
            l.make(h, &change, &c, rel)?;
            let k = &t.body.output.key;
            let a = &t.body.output.authorization;
            ensure_eq!(a.public_key.pkh(), k.validator, "unauthorized-stake", "{what}: authorized by {}", a.public_key.pkh());
            let word = k.withdrawer.as_secp256k1_msg();
            let ok = a.public_key.clone().try_into().ok().zip(a.signature.clone().try_into().ok()).is_some_and(|(pk, sig)| signature::verify(&pk, &word, &sig).is_ok());
            ensure!(ok, "unauthorized-stake", "{what}: the validator did not sign for this withdrawer");
        }
        for t in &b.txns.unstake_txns {
            fees += t.body.fee;
        }

        // the miner
        let m = &b.txns.mint;
        if v2 {
            ensure!(m.outputs.is_empty() || sum(&m.outputs) == 0, "wrong-mint", "a block of {epoch} mints coins: {m:?}");
            l.minted += r.reward2;
            let miner = b.block_header.proof.proof.pkh();
            busy.insert(miner);
            let lost = l.reward(miner, r.reward2 + fees);
            ensure_eq!(lost, 0, "unfit-miner", "{miner} mines the block of {epoch} without a stake");
        } else if !genesis {
            ensure_eq!(sum(&m.outputs), u128::from(r.reward) + u128::from(fees), "wrong-mint", "block {epoch}, with fees of {fees}");
            l.minted += r.reward;
            l.make(m.versioned_hash(protocol), &m.outputs, &[], rel)?;
        }

        for t in &b.txns.stake_txns {
            let k = &t.body.output.key;
            let what = format!("stake {} at {epoch}", t.versioned_hash(protocol));
            let had = self.stakes.get(&(k.validator, k.withdrawer)).copied().unwrap_or(0);
            ensure!(u128::from(had) + u128::from(t.body.output.value) <= u128::from(r.max_stake), "stake-limit", "{what} adds to {had}");
            let v = l.stakes.entry((k.validator, k.withdrawer)).or_default();
            *v += t.body.output.value;
            ensure!(*v >= r.min_stake, "stake-limit", "{what}: the stake is {v}");
        }

        let mut withdrawals = BTreeSet::new();
        let mut stuck = false;
        let mut unapplied = 0;
        for t in &b.txns.unstake_txns {
            let h = t.versioned_hash(protocol);
            let what = format!("unstake {h} at {epoch}");
            ensure!(l.included.insert(h, epoch).is_none(), "included-twice", "{what} is there for the second time");
            let w = &t.body.withdrawal;
            let k = (t.body.operator, w.pkh);
            ensure!(withdrawals.insert(k), "unstaked-twice", "{what}: the second one of {k:?} in this block");
            let taken = u128::from(w.value) + u128::from(t.body.fee);
            let had = self.stakes.get(&k).copied().unwrap_or(0);
            ensure!(taken <= u128::from(had), "inflation", "{what} takes {taken} of {had}");
            let taken = taken as u64;
            ensure_eq!(t.signature.public_key.pkh(), w.pkh, "stolen", "{what}: signed by {}", t.signature.public_key.pkh());
            let left = had - taken;
            ensure!(left == 0 || left >= r.min_stake, "stake-limit", "{what} leaves {left} of {had}");
            ensure!(w.time_lock >= r.unstaking_delay, "stake-unlocked-early", "{what}: time lock {}", w.time_lock);
            l.make(h, &[w.clone()], &[], rel)?;
            let has = l.stakes.get(&k).copied().unwrap_or(0);
            let possible = has == taken || has >= taken + r.min_stake;
            ensure!(possible || busy.contains(&k.0), "inflation", "{what} takes {taken} of {has}");
            // KNOWN: what the same block did to this stake was not taken into account, so the coins are there but the stake
            // does not get smaller; and so it is for the unstakes after it
            stuck |= !possible;
            if stuck {
                unapplied += taken;
            } else if has == taken {
                l.stakes.remove(&k);
            } else {
                l.stakes.insert(k, has - taken);
            }
        }
        l.unapplied += unapplied;
        l.unreserved += unreserved;
        l.burned += burned;
        l.blocks += 1;
        l.epoch = epoch;
        l.tip = hash;
        let after = l.total_coins() + l.total_staked() + l.total_locked();
        let made = if genesis { l.genesis } else if v2 { r.reward2 } else { r.reward };
        ensure_eq!(after + burned, before + made + unapplied + unreserved, "not-conserved", "block {epoch}: {before} before, {after} after, {made} made, {burned} lost");
        Ok(l)
    }
}
