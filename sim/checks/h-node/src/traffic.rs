//! Users: clients with their own keys, node wallets, data requests and the web they ask.

use crate::{ledger::*, net::*, world::*};
use actix::SystemService;
use simkit::{Ctx, Fail, Res, ensure, ev};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap},
    rc::Rc,
    time::Duration,
};
use witnet_crypto::key::ExtendedSK;
use witnet_data_structures::{
    chain::{
        DataRequestOutput, DataRequestStage, Epoch, Hash, Hashable, Input, KeyedSignature, OutputPointer, PublicKey, PublicKeyHash,
        RADAggregate, RADFilter, RADRequest, RADRetrieve, RADTally, RADType, Signature, StakeOutput, StateMachine, ValueTransferOutput,
    },
    fee::Fee,
    get_protocol_version,
    proto::versioning::VersionedHashable,
    staking::prelude::StakeKey,
    transaction::{
        DRTransaction, DRTransactionBody, StakeTransaction, StakeTransactionBody, Transaction, UnstakeTransaction, UnstakeTransactionBody,
        VTTransaction, VTTransactionBody,
    },
    transaction_factory::NodeBalance,
    utxo_pool::UtxoSelectionStrategy,
};
use witnet_node::actors::{chain_manager::ChainManager, messages::*};

pub struct Client {
    pub sk: ExtendedSK,
    pub pk: PublicKey,
    pub pkh: PublicKeyHash,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Good,
    Rival,
}

pub struct Sent {
    pub tx: Transaction,
    pub hash: Hash,
    pub kind: Kind,
    pub inputs: Vec<Ptr>,
}

/// What a web source says to a node.
#[derive(Clone, Debug)]
pub enum Says {
    Number(i64),
    Garbage,
    Status(u16),
    Nothing,
    Slow(i64),
}

pub struct Source {
    pub truth: i64,
    pub lies: BTreeMap<simrt::NodeId, Says>,
}

#[derive(Default)]
pub struct Web {
    pub sources: Vec<Source>,
    pub asked: u64,
}

pub struct Traffic {
    pub ctx: Ctx,
    pub clients: Vec<Client>,
    pub sent: Vec<Sent>,
    pub ledgers: HashMap<Hash, Rc<Ledger>>,
    pub rules: Rules,
    pub extra_rounds: u32,
    pub web: Rc<RefCell<Web>>,
    /// Coins that something on its way spends.
    pub reserved: BTreeSet<Ptr>,
    pub n: u64,
    /// How many validate at the moment, if stake counts.
    pub validators: usize,
}

pub fn client_keys(i: usize) -> Client {
    let (sk, pk, pkh, _, _) = keys(50 + i as u8);
    Client { sk, pk, pkh }
}

/// What the clients own at the beginning.
pub fn client_coins(ctx: &Ctx, clients: usize) -> Vec<ValueTransferOutput> {
    let mut v = vec![];
    for i in 0..clients {
        let pkh = client_keys(i).pkh;
        for _ in 0..6 {
            let value = match ctx.below(4) {
                0 => ctx.range(1, 100),
                1 => ctx.range(1, 1000) * WIT,
                _ => ctx.range(1, 100_000) * WIT / 7,
            };
            let time_lock = if ctx.chance(1, 4) { ZERO as u64 + ctx.range(0, 20 * 45) } else { 0 };
            v.push(ValueTransferOutput { pkh, value, time_lock });
        }
    }
    v
}

/// Which of our sources a request asks.
pub fn web_ids(o: &DataRequestOutput) -> Vec<usize> {
    o.data_request.retrieve.iter().map(|r| r.url.rsplit('/').next().and_then(|k| k.parse().ok()).expect("one of our sources")).collect()
}

pub fn sign(c: &Client, hash: Hash) -> KeyedSignature {
    let Hash::SHA256(d) = hash;
    let s = witnet_crypto::signature::sign(c.sk.clone().into(), &d).expect("a signature");
    KeyedSignature { signature: Signature::from(s), public_key: c.pk.clone() }
}

impl Traffic {
    pub fn new(ctx: &Ctx, net: &Net, clients: usize) -> Traffic {
        let c = &net.w.nodes[0].config.consensus_constants;
        let web: Rc<RefCell<Web>> = Rc::default();
        let w = web.clone();
        reqwest::set_alarm(Some(|d, waker| simrt::wake_at(simrt::now() + d.as_nanos() as i64, waker)));
        reqwest::set_handler(Some(Box::new(move |r| {
            let mut w = w.borrow_mut();
            w.asked += 1;
            let k: usize = r.url.path()[1..].parse().expect("one of our sources");
            let s = &w.sources[k];
            let who = simrt::current_node().expect("a node");
            let mut delay = Duration::from_millis(30);
            let (status, body) = match s.lies.get(&who).unwrap_or(&Says::Number(s.truth)) {
                Says::Number(n) => (200, Ok(n.to_string().into_bytes())),
                Says::Garbage => (200, Ok(b"<html>".to_vec())),
                Says::Status(s) => (*s, Ok(b"no".to_vec())),
                Says::Nothing => return Err("connection refused".to_string()),
                Says::Slow(ns) => {
                    delay = Duration::from_nanos(*ns as u64);
                    (200, Ok(s.truth.to_string().into_bytes()))
                }
            };
            Ok(reqwest::Answer { status, headers: vec![], body, delay, body_delay: Duration::ZERO })
        })));
        Traffic {
            ctx: ctx.clone(),
            clients: (0..clients).map(client_keys).collect(),
            sent: vec![],
            ledgers: HashMap::new(),
            extra_rounds: c.extra_rounds.into(),
            rules: Rules {
                epochs: net.w.constants,
                reward: c.initial_block_reward,
                reward2: 50 * WIT,
                collateral_minimum: c.collateral_minimum,
                collateral_age: 80,
                min_stake: 10_000 * WIT,
                max_stake: 10_000_000 * WIT,
                unstaking_delay: 3600,
            },
            web,
            reserved: BTreeSet::new(),
            n: 0,
            validators: 0,
        }
    }

    /// The ledger of the chain of a node, as last observed.
    pub fn ledger(&mut self, net: &Net, i: usize) -> Res<Option<Rc<Ledger>>> {
        let chain: Vec<(Epoch, Hash)> = net.view[i].chain.iter().map(|(e, h)| (*e, *h)).collect();
        let known = chain.iter().rposition(|(_, h)| self.ledgers.contains_key(h));
        let mut l = match known {
            Some(k) => self.ledgers[&chain[k].1].clone(),
            None => Rc::new(Ledger::default()),
        };
        for (k, (_, h)) in chain.iter().enumerate().skip(known.map_or(0, |k| k + 1)) {
            let next = l.apply(&net.blocks[h], *h, &self.rules, k == 0)?;
            for (n, m) in [
                (net.blocks[h].txns.value_transfer_txns.len(), "transfers_included"),
                (net.blocks[h].txns.data_request_txns.len(), "requests_included"),
                (net.blocks[h].txns.commit_txns.len(), "commits_included"),
                (net.blocks[h].txns.reveal_txns.len(), "reveals_included"),
                (net.blocks[h].txns.tally_txns.len(), "tallies_included"),
                (net.blocks[h].txns.stake_txns.len(), "stakes_included"),
                (net.blocks[h].txns.unstake_txns.len(), "unstakes_included"),
            ] {
                self.ctx.probe_if(n > 0 && k > 0, m);
            }
            for t in &net.blocks[h].txns.reveal_txns {
                self.check_reveal(net, &next, t.body.dr_pointer, t.body.pkh, &t.body.reveal)?;
            }
            for t in &net.blocks[h].txns.tally_txns {
                self.check_tally(net, &next, t.dr_pointer)?;
            }
            l = Rc::new(next);
            self.ledgers.insert(*h, l.clone());
        }
        self.validators = l.stakes.keys().map(|k| k.0).collect::<BTreeSet<_>>().len();
        Ok(if chain.is_empty() { None } else { Some(l) })
    }

    /// A node reveals what the web told it.
    fn check_reveal(&self, net: &Net, l: &Ledger, d: Hash, pkh: PublicKeyHash, reveal: &[u8]) -> Res {
        let Some(i) = net.w.nodes.iter().position(|n| n.pkh == pkh) else { return Ok(()) };
        let node = net.w.nodes[i].id;
        let web = self.web.borrow();
        let heard: Vec<Says> = web_ids(&l.requests[&d].output)
            .into_iter()
            .map(|k| web.sources[k].lies.get(&node).cloned().unwrap_or(Says::Number(web.sources[k].truth)))
            .collect();
        let truth = web_ids(&l.requests[&d].output).first().map(|k| web.sources[*k].truth);
        let v = Value::of(reveal);
        let numbers: BTreeSet<i64> = heard.iter().filter_map(|s| if let Says::Number(n) = s { Some(*n) } else { None }).collect();
        let slow = heard.iter().any(|s| matches!(s, Says::Slow(_)));
        let all = numbers.len() == 1 && heard.iter().all(|s| matches!(s, Says::Number(_)));
        let fine = match &v {
            Value::Int(n) => i64::try_from(*n).is_ok_and(|n| numbers.contains(&n) || (slow && Some(n) == truth)),
            // a node that stalls or is cut off may get no answer in time
            Value::Error => !all || net.victims.contains(&i),
            _ => false,
        };
        ensure!(fine, "wrong-reveal", "node {i} was told {heard:?} for {d} and reveals {v:?}");
        self.ctx.probe_if(all && matches!(v, Value::Int(_)), "revealed_truth");
        self.ctx.probe_if(v == Value::Error, "revealed_error");
        Ok(())
    }

    /// A request is resolved in time, by all that committed and could reveal.
    fn check_tally(&self, net: &Net, l: &Ledger, d: Hash) -> Res {
        let q = &l.requests[&d];
        let took = q.resolved_at - q.posted_at;
        ensure!(took <= 2 * (self.extra_rounds + 1) + 1, "late-tally", "request {d} of block {} is resolved by block {}", q.posted_at, q.resolved_at);
        self.ctx.probe_if(took > 4, "extra_rounds");
        for p in q.commits.keys() {
            let missing = !q.reveals.contains_key(p);
            self.ctx.probe_if(missing, "not_revealed");
            if let Some(i) = net.w.nodes.iter().position(|n| n.pkh == *p) {
                ensure!(!missing || net.victims.contains(&i), "missing-reveal", "the reveal of node {i} for {d} got lost");
            }
        }
        self.ctx.probe_if(q.out_of_consensus > 0, "out_of_consensus");
        self.ctx.probe_if(q.commits.is_empty(), "nobody_committed");
        if let Some(t) = &q.tally {
            self.ctx.probe_if(matches!(Value::of(t), Value::Int(_)), "result_number");
            self.ctx.probe_if(Value::of(t) == Value::Error, "result_error");
        }
        Ok(())
    }

    /// Everything a synced node says about who owns what is what its chain says.
    pub fn check_state(&mut self, net: &mut Net, i: usize) -> Res {
        net.observe(i)?;
        if net.view[i].state != Some(StateMachine::Synced) {
            return Ok(());
        }
        self.compare(net, i)
    }

    /// The same for the chain it was last seen to have.
    pub fn compare(&mut self, net: &mut Net, i: usize) -> Res {
        let Some(l) = self.ledger(net, i)? else { return Ok(()) };
        let mut want: BTreeMap<PublicKeyHash, u64> = BTreeMap::new();
        for c in l.coins.values() {
            *want.entry(c.pkh).or_default() += c.value;
        }
        let w = &mut net.w;
        let mut bad: Option<Fail> = None;
        macro_rules! same {
            ($a:expr, $b:expr, $class:expr, $($t:tt)*) => {
                if bad.is_none() && $a != $b {
                    bad = Some(Fail::new($class, format!("node {i} at epoch {}, {}: it says {:?}, its chain says {:?}", l.epoch, format!($($t)*), $a, $b)));
                }
            };
        }
        macro_rules! same_map {
            ($a:expr, $b:expr, $class:expr, $($t:tt)*) => {
                let (a, b) = (&$a, &$b);
                let d: Vec<_> = a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).map(|k| (*k, a.get(k), b.get(k))).collect();
                if bad.is_none() && !d.is_empty() {
                    bad = Some(Fail::new($class, format!("node {i} at epoch {}, {}: (what, it says, its chain says) {:?}", l.epoch, format!($($t)*), d)));
                }
            };
        }
        if let Ok(NodeBalance::Many(m)) = w.chain(i, GetBalance { target: GetBalanceTarget::All, simple: true })? {
            let got: BTreeMap<_, _> = m.into_iter().map(|(k, v)| (k, v.get_total().map_or(0, |w| w.nanowits()))).collect();
            same_map!(got, want, "wrong-balance", "all balances");
        }
        let pkhs: BTreeSet<_> = want.keys().copied().chain(w.nodes.iter().map(|n| n.pkh)).collect();
        for p in pkhs {
            let Ok(u) = w.chain(i, GetUtxoInfo { pkh: p })? else { continue };
            let got: BTreeMap<Ptr, u64> =
                u.utxos.iter().map(|m| ((m.output_pointer.transaction_id, m.output_pointer.output_index), m.value)).collect();
            let coins: BTreeMap<Ptr, u64> = l.coins.iter().filter(|(_, c)| c.pkh == p).map(|(k, c)| (*k, c.value)).collect();
            same_map!(got, coins, "wrong-coins", "the coins of {p}");
            if p == w.nodes[i].pkh
                && let Ok(NodeBalance::One { total, .. }) = w.chain(i, GetBalance { target: GetBalanceTarget::Own, simple: true })?
            {
                same!(total, want.get(&p).copied().unwrap_or(0), "wrong-balance", "its own balance");
            }
        }
        if let Ok(s) = w.chain(i, QueryStakes { filter: None, params: None })? {
            let got: BTreeMap<_, _> = s.iter().map(|e| ((e.key.validator, e.key.withdrawer), e.value.coins.nanowits())).collect();
            same_map!(got, l.stakes, "wrong-stakes", "the stakes");
        }
        if let Ok(s) = w.chain(i, GetSupplyInfo2)? {
            same!(s.initial_supply, l.genesis, "wrong-supply", "the initial supply");
            same!(s.blocks_minted_reward, l.minted, "wrong-supply", "what was minted");
            same!(s.blocks_minted, l.blocks - 1, "wrong-supply", "blocks minted");
            same!(s.burnt_supply, l.burned.saturating_sub(l.unapplied + l.unreserved), "wrong-supply", "what was burnt");
            same!(s.requests_in_flight_collateral, l.total_locked(), "wrong-supply", "what requests have locked");
            same!(s.current_staked_supply, l.total_staked(), "wrong-supply", "what is staked");
            same!(
                s.current_locked_supply + s.current_unlocked_supply,
                l.total_coins() + l.total_locked(),
                "wrong-supply",
                "what is not staked"
            );
        }
        for (h, q) in &l.requests {
            let Ok(d) = w.chain(i, GetDataRequestInfo { dr_pointer: *h })? else {
                same!("nothing", "something", "request-forgotten", "request {h}");
                continue;
            };
            let tally = d.tally.as_ref().map(|t| t.tally.clone());
            same!(tally, q.tally, "wrong-request", "the tally of {h}");
            let c: BTreeSet<_> = d.commits.keys().copied().collect();
            let qc: BTreeSet<_> = q.commits.keys().copied().collect();
            same!(c, qc, "wrong-request", "who committed to {h}");
            let c: BTreeMap<_, _> = d.reveals.iter().map(|(k, r)| (*k, r.body.reveal.clone())).collect();
            same_map!(c, q.reveals, "wrong-request", "who revealed what for {h}");
            let stage = if q.tally.is_some() { None } else { d.current_stage };
            same!(d.current_stage, stage, "wrong-request", "the stage of {h}");
            let _ = DataRequestStage::COMMIT;
        }
        // it may have moved on meanwhile
        if let Some(f) = bad {
            let Ok(tip) = net.w.chain(i, GetHighestCheckpointBeacon)? else { return Ok(()) };
            let state = net.w.chain(i, GetState)?.ok();
            if tip == net.view[i].tip && state == net.view[i].state {
                return Err(f);
            }
        } else {
            self.ctx.probe("ledger_compared");
        }
        Ok(())
    }

    fn send(&mut self, net: &mut Net, i: usize, tx: Transaction) -> Res<Result<(), String>> {
        Ok(net.w.chain(i, AddTransaction { transaction: tx, broadcast_flag: true })?.map_err(|e| e.to_string()))
    }

    /// Coins of a client that nothing spends yet.
    fn purse(&self, l: &Ledger, c: usize, now: i64) -> Vec<Ptr> {
        let pkh = self.clients[c].pkh;
        l.coins
            .iter()
            .filter(|(p, o)| o.pkh == pkh && o.time_lock as i64 <= now && !self.reserved.contains(p))
            .map(|(p, _)| *p)
            .collect()
    }

    fn outputs(&self, net: &Net, total: u64) -> Vec<ValueTransferOutput> {
        let ctx = &self.ctx;
        let n = ctx.range(1, 4);
        let mut left = total;
        let mut v = vec![];
        for k in 0..n {
            if left == 0 {
                break;
            }
            let value = if k == n - 1 { left } else { ctx.range(1, left) };
            left -= value;
            let to = ctx.idx(self.clients.len() + net.n());
            let pkh = if to < self.clients.len() { self.clients[to].pkh } else { net.w.nodes[to - self.clients.len()].pkh };
            let time_lock = match ctx.below(8) {
                0 => ((simrt::now() / SEC) + ZERO - 1007) as u64 + ctx.range(0, 300),
                1 => ctx.range(1, 1000),
                _ => 0,
            };
            v.push(ValueTransferOutput { pkh, value, time_lock });
        }
        v
    }

    fn input(p: Ptr) -> Input {
        Input::new(OutputPointer { transaction_id: p.0, output_index: p.1 })
    }

    fn transfer(&self, c: usize, inputs: &[Ptr], outputs: Vec<ValueTransferOutput>) -> VTTransaction {
        let body = VTTransactionBody::new(inputs.iter().map(|p| Self::input(*p)).collect(), outputs);
        let h = body.versioned_hash(get_protocol_version(None));
        let s = sign(&self.clients[c], h);
        VTTransaction::new(body, vec![s; inputs.len()])
    }

    fn ready(&mut self, net: &mut Net) -> Res<Option<(usize, Rc<Ledger>, i64)>> {
        let ok: Vec<usize> = (0..net.n()).filter(|&i| net.thawed(i) && net.view[i].state == Some(StateMachine::Synced)).collect();
        if ok.is_empty() {
            return Ok(None);
        }
        let i = *self.ctx.pick(&ok);
        net.observe(i)?;
        if net.view[i].state != Some(StateMachine::Synced) {
            return Ok(None);
        }
        let Some(l) = self.ledger(net, i)? else { return Ok(None) };
        // the epoch of the node's next block is not before the one we are in
        let Ok(e) = self.epoch_of(net, i) else { return Ok(None) };
        let now = net.w.epoch_start(e);
        Ok(Some((i, l, now)))
    }

    fn epoch_of(&self, net: &mut Net, i: usize) -> Res<Epoch> {
        let r = net.w.ask(i, 60 * SEC, || {
            let a = witnet_node::actors::epoch_manager::EpochManager::from_registry();
            async move { a.send(GetEpoch).await }
        })?;
        match r {
            Some(Ok(Ok(e))) => Ok(e),
            _ => Err(Fail::new("no-answer", "no epoch")),
        }
    }

    /// A transaction that should go through.
    pub fn good(&mut self, net: &mut Net) -> Res {
        let Some((i, l, now)) = self.ready(net)? else { return Ok(()) };
        let ctx = self.ctx.clone();
        let c = ctx.idx(self.clients.len());
        let purse = self.purse(&l, c, now);
        if purse.is_empty() {
            return Ok(());
        }
        let k = (1 + ctx.skewed(3) as usize).min(purse.len());
        let at = ctx.idx(purse.len());
        let inputs: Vec<Ptr> = (0..k).map(|j| purse[(at + j) % purse.len()]).collect();
        let total: u64 = inputs.iter().map(|p| l.coins[p].value).sum();
        let fee = if ctx.chance(1, 3) { 0 } else { ctx.below(total.min(WIT)) };
        let tx: Transaction = if total - fee > 60 * WIT && ctx.chance(1, 3) {
            let o = self.request(net);
            let value = o.checked_total_value().expect("the value of a request");
            if value + fee > total {
                return Ok(());
            }
            let left = total - fee - value;
            let change = if left > 0 { vec![ValueTransferOutput { pkh: self.clients[c].pkh, value: left, time_lock: 0 }] } else { vec![] };
            let body = DRTransactionBody::new(inputs.iter().map(|p| Self::input(*p)).collect(), o, change);
            let h = body.versioned_hash(get_protocol_version(None));
            let s = sign(&self.clients[c], h);
            Transaction::DataRequest(DRTransaction::new(body, vec![s; inputs.len()]))
        } else {
            Transaction::ValueTransfer(self.transfer(c, &inputs, self.outputs(net, total - fee)))
        };
        let hash = tx.hash();
        let tip = net.view[i].tip;
        let r = self.send(net, i, tx.clone())?;
        ev!(ctx, "good {hash} to {i}: {r:?}");
        ctx.op("transaction");
        match r {
            Ok(()) => {
                self.reserved.extend(&inputs);
                self.sent.push(Sent { tx, hash, kind: Kind::Good, inputs });
            }
            Err(e) => {
                net.observe(i)?;
                ensure!(
                    net.view[i].tip != tip || net.view[i].state != Some(StateMachine::Synced),
                    "refused",
                    "node {i} refuses a valid transaction: {e}: {tx:?}"
                );
            }
        }
        Ok(())
    }

    /// Two transactions that spend the same coin.
    pub fn rivals(&mut self, net: &mut Net) -> Res {
        let Some((i, l, now)) = self.ready(net)? else { return Ok(()) };
        let ctx = self.ctx.clone();
        let c = ctx.idx(self.clients.len());
        let purse = self.purse(&l, c, now);
        if purse.is_empty() {
            return Ok(());
        }
        let p = *ctx.pick(&purse);
        let total = l.coins[&p].value;
        let mut to = i;
        for _ in 0..2 {
            let fee = ctx.below(total.min(WIT));
            let tx = Transaction::ValueTransfer(self.transfer(c, &[p], self.outputs(net, total - fee)));
            let hash = tx.hash();
            let r = self.send(net, to, tx.clone())?;
            ev!(ctx, "rival {hash} to {to}: {r:?}");
            self.sent.push(Sent { tx, hash, kind: Kind::Rival, inputs: vec![p] });
            let ups: Vec<usize> = (0..net.n()).filter(|&i| net.thawed(i)).collect();
            to = *ctx.pick(&ups);
        }
        self.reserved.insert(p);
        ctx.op("double spend");
        Ok(())
    }

    /// A transaction that nobody may accept.
    pub fn bad(&mut self, net: &mut Net) -> Res {
        let Some((i, l, now)) = self.ready(net)? else { return Ok(()) };
        let ctx = self.ctx.clone();
        let c = ctx.idx(self.clients.len());
        let pkh = self.clients[c].pkh;
        let mine: Vec<Ptr> = l.coins.iter().filter(|(_, o)| o.pkh == pkh && o.time_lock as i64 <= now).map(|(p, _)| *p).collect();
        if mine.is_empty() {
            return Ok(());
        }
        let p = *ctx.pick(&mine);
        let total = l.coins[&p].value;
        let salt = ctx.range(1, 1 << 40);
        let out = |value: u64| ValueTransferOutput { pkh, value, time_lock: salt };
        let (what, tx) = match ctx.below(9) {
            0 => {
                let other = (c + 1) % self.clients.len();
                ("the key of another", self.transfer(other, &[p], vec![out(total)]))
            }
            1 => {
                let mut t = self.transfer(c, &[p], vec![out(total)]);
                t.signatures = vec![sign(&self.clients[c], Hash::default())];
                ("a signature of something else", t)
            }
            2 => ("more than there is", self.transfer(c, &[p], vec![out(total), out(1 + ctx.below(1000))])),
            3 => {
                let locked: Vec<Ptr> =
                    l.coins.iter().filter(|(_, o)| o.pkh == pkh && o.time_lock as i64 > now + 120).map(|(p, _)| *p).collect();
                if locked.is_empty() {
                    return Ok(());
                }
                let q = *ctx.pick(&locked);
                ("a locked coin", self.transfer(c, &[q], vec![out(l.coins[&q].value)]))
            }
            4 => ("a coin that is not there", self.transfer(c, &[p, (p.0, p.1 + 100)], vec![out(total)])),
            5 => ("a coin twice", self.transfer(c, &[p, p], vec![out(total)])),
            6 => ("an output of zero", self.transfer(c, &[p], vec![out(total), out(0)])),
            7 => {
                let big = u64::MAX - ctx.below(total);
                ("outputs that overflow", self.transfer(c, &[p], vec![out(big), out(total), out(1)]))
            }
            _ => {
                let mut t = self.transfer(c, &[p], vec![out(total)]);
                t.signatures.clear();
                ("no signature", t)
            }
        };
        let h = tx.hash();
        let r = self.send(net, i, Transaction::ValueTransfer(tx.clone()))?;
        ctx.op("bad transaction");
        ev!(ctx, "bad ({what}) {h} to {i}: {r:?}");
        ensure!(r.is_err(), "accepted-invalid", "node {i} accepts a transfer that spends {what}: {tx:?}");
        Ok(())
    }

    /// Something that was sent before comes again.
    pub fn replay(&mut self, net: &mut Net) -> Res {
        if self.sent.is_empty() {
            return Ok(());
        }
        let k = self.ctx.idx(self.sent.len());
        let ups: Vec<usize> = (0..net.n()).filter(|&i| net.thawed(i)).collect();
        if let Some(&i) = (!ups.is_empty()).then(|| self.ctx.pick(&ups)) {
            let tx = self.sent[k].tx.clone();
            let r = self.send(net, i, tx)?;
            ev!(self.ctx, "again {} to {i}: {}", self.sent[k].hash, r.is_ok());
            self.ctx.op("transaction sent again");
        }
        Ok(())
    }

    pub fn request(&mut self, net: &Net) -> DataRequestOutput {
        let ctx = self.ctx.clone();
        let mut web = self.web.borrow_mut();
        let n = ctx.range(1, 3);
        let mut retrieve = vec![];
        let truth = ctx.range(0, 1_000_000) as i64;
        // a source may say different things to different nodes
        for _ in 0..n {
            let mut lies = BTreeMap::new();
            if ctx.chance(1, 3) {
                for node in &net.w.nodes {
                    if ctx.chance(1, 3) {
                        let says = match ctx.below(5) {
                            0 => Says::Garbage,
                            1 => Says::Status(*ctx.pick(&[404, 500, 301, 429])),
                            2 => Says::Nothing,
                            3 => Says::Slow(ctx.range(1, 60) as i64 * SEC),
                            _ => Says::Number(truth + 1 + ctx.below(3) as i64),
                        };
                        lies.insert(node.id, says);
                    }
                }
            }
            retrieve.push(RADRetrieve {
                kind: RADType::HttpGet,
                url: format!("http://source/{}", web.sources.len()),
                script: vec![0x81, 0x18, 0x73],
                body: vec![],
                headers: vec![],
            });
            web.sources.push(Source { truth, lies });
        }
        let filters = if ctx.chance(2, 3) { vec![RADFilter { op: 8, args: vec![] }] } else { vec![] };
        let reducer = *ctx.pick(&[2, 2, 2, 3, 5]);
        let collateral = ctx.range(1, 5) * WIT;
        DataRequestOutput {
            data_request: RADRequest {
                time_lock: 0,
                retrieve,
                aggregate: RADAggregate { filters: vec![], reducer: 2 },
                tally: RADTally { filters, reducer },
            },
            witness_reward: collateral / ctx.range(1, 100),
            witnesses: match self.validators {
                0 => ctx.range(1, net.n() as u64) as u16,
                // as many as are allowed, or more
                v => (v as u64 / 2).max(1).saturating_sub(ctx.below(3)).max(1).saturating_add(ctx.chance(1, 6) as u64) as u16,
            },
            commit_and_reveal_fee: ctx.below(1000),
            min_consensus_percentage: ctx.range(51, 99) as u32,
            collateral,
        }
    }

    /// The wallet of a node makes a transaction.
    pub fn wallet(&mut self, net: &mut Net) -> Res {
        let Some((i, _, _)) = self.ready(net)? else { return Ok(()) };
        let ctx = self.ctx.clone();
        let fee = Fee::absolute_from_nanowits(ctx.below(WIT));
        let strategy = match ctx.below(3) {
            0 => UtxoSelectionStrategy::Random { from: None },
            1 => UtxoSelectionStrategy::SmallFirst { from: None },
            _ => UtxoSelectionStrategy::BigFirst { from: None },
        };
        ctx.op("node wallet");
        if ctx.chance(1, 2) {
            let dro = self.request(net);
            let m = BuildDrt { dro, fee, dry_run: false };
            let r = net.w.ask(i, 60 * SEC, || {
                let a = ChainManager::from_registry();
                async move { a.send(m).await }
            })?;
            ev!(ctx, "request by {i}: {:?}", r.map(|r| r.map(|r| r.map(|t| t.hash()).map_err(|e| e.to_string()))));
        } else {
            let total = ctx.range(1, 1_500_000 * WIT);
            let vto = self.outputs(net, total);
            let m = BuildVtt { vto, fee, utxo_strategy: strategy, dry_run: false };
            let r = net.w.ask(i, 60 * SEC, || {
                let a = ChainManager::from_registry();
                async move { a.send(m).await }
            })?;
            ev!(ctx, "transfer by {i}: {:?}", r.map(|r| r.map(|r| r.map(|t| t.hash()).map_err(|e| e.to_string()))));
        }
        Ok(())
    }

    /// The validator's word that this withdrawer may stake on it.
    fn authorization(v: &ExtendedSK, pk: &PublicKey, withdrawer: PublicKeyHash) -> KeyedSignature {
        let s = witnet_crypto::signature::sign(v.clone().into(), &withdrawer.as_secp256k1_msg()).expect("a signature");
        KeyedSignature { signature: Signature::from(s), public_key: pk.clone() }
    }

    fn nonce(&self, net: &mut Net, i: usize, k: (PublicKeyHash, PublicKeyHash)) -> Res<Option<u64>> {
        let Ok(s) = net.w.chain(i, QueryStakes { filter: None, params: None })? else { return Ok(None) };
        Ok(s.iter().find(|e| (e.key.validator, e.key.withdrawer) == k).map(|e| e.value.nonce))
    }

    /// A node stakes its own coins on itself.
    pub fn stake_own(&mut self, net: &mut Net, i: usize, value: u64) -> Res {
        let n = &net.w.nodes[i];
        let stake_output =
            StakeOutput { authorization: Self::authorization(&n.sk, &n.pk, n.pkh), key: StakeKey { validator: n.pkh, withdrawer: n.pkh }, value };
        let m = BuildStake { stake_output, fee: Fee::absolute_from_nanowits(1), utxo_strategy: UtxoSelectionStrategy::BigFirst { from: None }, dry_run: false };
        let r = net.w.ask(i, 60 * SEC, || {
            let a = ChainManager::from_registry();
            async move { a.send(m).await }
        })?;
        self.ctx.op("stake");
        ev!(self.ctx, "{i} stakes {value}: {:?}", r.map(|r| r.map(|r| r.map(|t| t.hash()).map_err(|e| e.to_string()))));
        Ok(())
    }

    /// Clients stake on nodes, or on themselves.
    pub fn stake_client(&mut self, net: &mut Net) -> Res {
        let Some((i, l, now)) = self.ready(net)? else { return Ok(()) };
        let ctx = self.ctx.clone();
        let c = ctx.idx(self.clients.len());
        let me = self.clients[c].pkh;
        let rich: Vec<Ptr> = self.purse(&l, c, now).into_iter().filter(|p| l.coins[p].value >= 11_000 * WIT).collect();
        if rich.is_empty() {
            return Ok(());
        }
        let p = *ctx.pick(&rich);
        let total = l.coins[&p].value;
        let v = ctx.idx(net.n() + 1);
        let (vsk, vpk, validator) = match net.w.nodes.get(v) {
            Some(n) => (n.sk.clone(), n.pk.clone(), n.pkh),
            None => (self.clients[c].sk.clone(), self.clients[c].pk.clone(), me),
        };
        let mut value = ctx.range(10_000 * WIT, total);
        let mut fee = ctx.below(WIT).min(total - value);
        let mut change_value = total - value - fee;
        let other = l.stakes.keys().any(|(val, w)| *val == validator && *w != me);
        let mut what = if other { Some("on a validator of another") } else { None };
        let mut signer = c;
        match ctx.below(10) {
            0 => {
                value = ctx.range(1, 10_000 * WIT - 1);
                fee = 1;
                change_value = total - value - fee;
                what = Some("too little");
            }
            1 => {
                change_value = (u64::MAX - value).saturating_add(1 + ctx.below(value));
                what = Some("with change that overflows");
            }
            2 => {
                change_value += fee + 1 + ctx.below(10);
                what = Some("more than there is");
            }
            3 => {
                signer = (c + 1) % self.clients.len();
                what = Some("the coins of another");
            }
            _ => {}
        }
        let change = (change_value > 0).then_some(ValueTransferOutput { pkh: me, value: change_value, time_lock: 0 });
        let output = StakeOutput { authorization: Self::authorization(&vsk, &vpk, me), key: StakeKey { validator, withdrawer: me }, value };
        let body = StakeTransactionBody::new(vec![Self::input(p)], output, change);
        let h = body.versioned_hash(get_protocol_version(None));
        let tx = Transaction::Stake(StakeTransaction::new(body, vec![sign(&self.clients[signer], h)]));
        let hash = tx.hash();
        let tip = net.view[i].tip;
        let r = self.send(net, i, tx.clone())?;
        ctx.op("stake");
        ev!(ctx, "stake {hash} {what:?} to {i}: {r:?}");
        match (what, r) {
            (None, Ok(())) => {
                self.reserved.insert(p);
                self.sent.push(Sent { tx, hash, kind: Kind::Rival, inputs: vec![p] });
            }
            (Some(what), Ok(())) => {
                net.observe(i)?;
                ensure!(net.view[i].tip != tip, "accepted-invalid", "node {i} accepts a stake {what}: {tx:?}");
            }
            (None, Err(e)) => {
                net.observe(i)?;
                let late = net.view[i].tip != tip || net.view[i].state != Some(StateMachine::Synced);
                ensure!(late || e.contains("not allowed") || e.contains("NotSynced"), "refused", "node {i} refuses a valid stake: {e}: {tx:?}");
            }
            (Some(_), Err(_)) => {}
        }
        Ok(())
    }

    /// Stake comes back, or somebody tries.
    pub fn unstake(&mut self, net: &mut Net) -> Res {
        let Some((i, l, _)) = self.ready(net)? else { return Ok(()) };
        let ctx = self.ctx.clone();
        let all: Vec<_> = l.stakes.iter().map(|(k, v)| (*k, *v)).collect();
        if all.is_empty() {
            return Ok(());
        }
        let (k, has) = *ctx.pick(&all);
        let Some(nonce) = self.nonce(net, i, k)? else { return Ok(()) };
        let node = net.w.nodes.iter().position(|n| n.pkh == k.1);
        let client = self.clients.iter().position(|c| c.pkh == k.1);
        let owner = match (node, client) {
            (Some(n), _) => Client { sk: net.w.nodes[n].sk.clone(), pk: net.w.nodes[n].pk.clone(), pkh: k.1 },
            (_, Some(c)) => client_keys(c),
            _ => return Ok(()),
        };
        let min = self.rules.min_stake;
        // everything, or so much that enough is left; the validators are not to leave all at once
        let may_leave = client.is_some() || net.w.nodes.iter().filter(|n| l.stakes.contains_key(&(n.pkh, n.pkh))).count() > 3;
        let mut value = match ctx.below(3) {
            0 if may_leave => has,
            // just enough is left
            1 if has > min + 10 * WIT => has - min - ctx.below(10 * WIT),
            _ if has > 2 * min => ctx.range(1, has - min),
            _ => return Ok(()),
        };
        let mut fee = ctx.below(WIT).min(value - 1);
        value -= fee;
        let (mut nonce, mut lock) = (nonce, self.rules.unstaking_delay);
        let mut signer = owner;
        let mut what = None;
        match ctx.below(10) {
            0 => {
                fee = (u64::MAX - value).saturating_add(1 + ctx.below(value));
                what = Some("with a fee that overflows");
            }
            1 => {
                value = has - fee + 1;
                what = Some("more than there is");
            }
            2 => {
                signer = client_keys(self.clients.len());
                what = Some("signed by another");
            }
            3 => {
                lock -= 1 + ctx.below(lock);
                what = Some("available at once");
            }
            4 => {
                nonce = nonce.wrapping_sub(1);
                what = Some("with an old nonce");
            }
            5 if has > min + 2 => {
                value = has - ctx.range(1, min - 1);
                fee = 0;
                what = Some("that leaves too little");
            }
            _ => {}
        }
        let body = UnstakeTransactionBody::new(k.0, ValueTransferOutput { pkh: k.1, value, time_lock: lock }, fee, nonce);
        let h = body.versioned_hash(get_protocol_version(None));
        let tx = Transaction::Unstake(UnstakeTransaction::new(body, sign(&signer, h)));
        let hash = tx.hash();
        let tip = net.view[i].tip;
        let r = self.send(net, i, tx.clone())?;
        ctx.op("unstake");
        ev!(ctx, "unstake {hash} {what:?} to {i}: {r:?}");
        if let Some(what) = what
            && r.is_ok()
        {
            net.observe(i)?;
            ensure!(net.view[i].tip != tip, "accepted-invalid", "node {i} accepts to unstake {what}: {tx:?}");
        }
        Ok(())
    }

    /// A node unstakes all that it has, and tells nobody until it mines.
    pub fn unstake_all(&mut self, net: &mut Net, i: usize) -> Res {
        let k = (net.w.nodes[i].pkh, net.w.nodes[i].pkh);
        let Ok(all) = net.w.chain(i, QueryStakes { filter: None, params: None })? else { return Ok(()) };
        let Some(e) = all.iter().find(|e| (e.key.validator, e.key.withdrawer) == k) else { return Ok(()) };
        let value = e.value.coins.nanowits() - 1;
        let body = UnstakeTransactionBody::new(k.0, ValueTransferOutput { pkh: k.1, value, time_lock: self.rules.unstaking_delay }, 1, e.value.nonce);
        let h = body.versioned_hash(get_protocol_version(None));
        let owner = Client { sk: net.w.nodes[i].sk.clone(), pk: net.w.nodes[i].pk.clone(), pkh: k.1 };
        let transaction = Transaction::Unstake(UnstakeTransaction::new(body, sign(&owner, h)));
        let r = net.w.chain(i, AddTransaction { transaction, broadcast_flag: false })?;
        ev!(self.ctx, "{i} unstakes {value}: {r:?}");
        Ok(())
    }

    /// A request that no source answers.
    pub fn failing_request(&mut self, net: &mut Net) -> Res {
        let Some((i, l, now)) = self.ready(net)? else { return Ok(()) };
        let Some(p) = self.purse(&l, 0, now).first().copied() else { return Ok(()) };
        let mut o = self.request(net);
        o.witnesses = 2;
        for k in web_ids(&o) {
            let lies = net.w.nodes.iter().map(|n| (n.id, Says::Status(404))).collect();
            self.web.borrow_mut().sources[k].lies = lies;
        }
        let left = l.coins[&p].value - o.checked_total_value().expect("a value");
        let body = DRTransactionBody::new(vec![Self::input(p)], o, vec![ValueTransferOutput { pkh: self.clients[0].pkh, value: left, time_lock: 0 }]);
        let h = body.versioned_hash(get_protocol_version(None));
        let s = sign(&self.clients[0], h);
        let r = self.send(net, i, Transaction::DataRequest(DRTransaction::new(body, vec![s])))?;
        ev!(self.ctx, "failing request: {r:?}");
        if r.is_ok() {
            self.reserved.insert(p);
        }
        Ok(())
    }

    /// Two requests at once that ask for most of what the validator with the most has above the minimum.
    pub fn two_requests(&mut self, net: &mut Net) -> Res {
        let Some((i, l, now)) = self.ready(net)? else { return Ok(()) };
        let above = l.stakes.values().map(|v| v.saturating_sub(self.rules.min_stake)).max().unwrap_or(0);
        let big: Vec<_> = self.purse(&l, 0, now).into_iter().filter(|p| l.coins[p].value > 500 * WIT).take(2).collect();
        for p in big {
            let mut o = self.request(net);
            o.witnesses = 1;
            o.collateral = above / 3 * 2;
            o.witness_reward = above / 100;
            o.commit_and_reveal_fee = 1;
            let left = l.coins[&p].value - o.checked_total_value().expect("a value");
            let body = DRTransactionBody::new(vec![Self::input(p)], o, vec![ValueTransferOutput { pkh: self.clients[0].pkh, value: left, time_lock: 0 }]);
            let h = body.versioned_hash(get_protocol_version(None));
            let s = sign(&self.clients[0], h);
            let r = self.send(net, i, Transaction::DataRequest(DRTransaction::new(body, vec![s])))?;
            ev!(self.ctx, "request for {above}: {r:?}");
            if r.is_ok() {
                self.reserved.insert(p);
            }
        }
        Ok(())
    }

    /// A stake on a validator whose authorization somebody else made up.
    pub fn unauthorized_stake(&mut self, net: &mut Net) -> Res {
        let Some((i, l, now)) = self.ready(net)? else { return Ok(()) };
        let Some(p) = self.purse(&l, 0, now).first().copied() else { return Ok(()) };
        let me = self.clients[0].pkh;
        let value = l.coins[&p].value - 1;
        let (c, v) = (client_keys(0), client_keys(1));
        let output = StakeOutput { authorization: Self::authorization(&c.sk, &v.pk, me), key: StakeKey { validator: v.pkh, withdrawer: me }, value };
        let body = StakeTransactionBody::new(vec![Self::input(p)], output, None);
        let h = body.versioned_hash(get_protocol_version(None));
        let r = self.send(net, i, Transaction::Stake(StakeTransaction::new(body, vec![sign(&self.clients[0], h)])))?;
        ev!(self.ctx, "unauthorized stake: {r:?}");
        if r.is_ok() {
            self.reserved.insert(p);
        }
        Ok(())
    }

    /// A data request of a client.
    pub fn ask_oracle(&mut self, net: &mut Net) -> Res {
        let Some((i, l, now)) = self.ready(net)? else { return Ok(()) };
        let ctx = self.ctx.clone();
        let c = ctx.idx(self.clients.len());
        let Some(p) = self.purse(&l, c, now).into_iter().find(|p| l.coins[p].value > 100 * WIT) else { return Ok(()) };
        let total = l.coins[&p].value;
        let o = self.request(net);
        let Some(left) = total.checked_sub(o.checked_total_value().expect("the value of a request")) else { return Ok(()) };
        let fee = ctx.below(WIT).min(left);
        let change = if left > fee { vec![ValueTransferOutput { pkh: self.clients[c].pkh, value: left - fee, time_lock: 0 }] } else { vec![] };
        let body = DRTransactionBody::new(vec![Self::input(p)], o, change);
        let h = body.versioned_hash(get_protocol_version(None));
        let s = sign(&self.clients[c], h);
        let tx = Transaction::DataRequest(DRTransaction::new(body, vec![s]));
        let hash = tx.hash();
        let r = self.send(net, i, tx.clone())?;
        ctx.op("data request");
        ev!(ctx, "request {hash} to {i}: {r:?}");
        if r.is_ok() {
            self.reserved.insert(p);
            self.sent.push(Sent { tx, hash, kind: Kind::Good, inputs: vec![p] });
        }
        Ok(())
    }

    pub fn act2(&mut self, net: &mut Net) -> Res {
        match self.ctx.weighted(&[5, 1, 2]) {
            0 => self.act(net),
            1 => self.stake_client(net),
            _ => self.unstake(net),
        }
    }

    pub fn act(&mut self, net: &mut Net) -> Res {
        match self.ctx.weighted(&[5, 2, 2, 1, 2]) {
            0 => self.good(net),
            1 => self.rivals(net),
            2 => self.bad(net),
            3 => self.replay(net),
            _ => self.wallet(net),
        }
    }

    /// What should have been included by now and is not.
    pub fn pending(&mut self, net: &mut Net) -> Res<Vec<usize>> {
        let Some(l) = self.ledger(net, 0)? else { return Ok(vec![]) };
        Ok((0..self.sent.len())
            .filter(|&k| {
                let s = &self.sent[k];
                s.kind == Kind::Good && !l.included.contains_key(&s.hash) && s.inputs.iter().all(|p| l.coins.contains_key(p))
            })
            .collect())
    }

    /// Sends again what was not included.
    pub fn insist(&mut self, net: &mut Net) -> Res<usize> {
        let p = self.pending(net)?;
        for &k in &p {
            for i in 0..net.n() {
                let tx = self.sent[k].tx.clone();
                let r = self.send(net, i, tx)?;
                ev!(self.ctx, "insist {} to {i}: {r:?}", self.sent[k].hash);
            }
        }
        Ok(p.len())
    }
}
