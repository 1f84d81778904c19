//! W02: what the wallet creates is what its owner asked for, and the chain accepts it.

use crate::chain::*;
use crate::w01;
use crate::world::*;
use serde_json::{Value, json};
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::collections::{BTreeMap, BTreeSet};
use witnet_data_structures::{
    chain::{DataRequestOutput, Hash, PublicKeyHash, RADAggregate, RADFilter, RADRequest, RADRetrieve, RADTally, RADType, ValueTransferOutput, tapi::current_active_wips},
    proto::{ProtobufConvert, versioning::ProtocolVersion},
    transaction::*,
    utxo_pool::{UnspentOutputsPool, UtxoDiff},
};
use witnet_validations::validations::{validate_dr_transaction, validate_vt_transaction, verify_signatures};

const INPUT: u32 = 133;
const OUTPUT: u32 = 36 * 10;

/// What the owner did, as far as it matters to what may be spent next.
#[derive(Default)]
struct Book {
    /// Inputs of what was sent: not to be used again until then.
    used: BTreeMap<(Hash, u32), i64>,
    /// Change addresses given out by what was created.
    change: BTreeSet<PublicKeyHash>,
    /// Created and not sent yet.
    ready: Vec<(Value, Transaction)>,
}

#[derive(Clone, Copy, Debug)]
enum Fee {
    Absolute(u64),
    Relative(f64),
}
impl Fee {
    fn of(&self, weight: u32) -> u64 {
        match self {
            Fee::Absolute(n) => *n,
            Fee::Relative(x) => (x * f64::from(weight)) as u64,
        }
    }
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let v2 = *ctx.pick(&[None, Some(1)]);
    let weight = *ctx.pick(&[20_000u32, 20_000, 3000, 1500]);
    let o = Opts {
        phrase: ctx.idx(PHRASES.len()),
        workers: *ctx.pick(&[1usize, 1, 2]),
        v2,
        superblock: *ctx.pick(&[2u32, 3, 5]),
        history: 12 + ctx.below(16) as u32,
        gap: *ctx.pick(&[5u16, 10]),
        batch: *ctx.pick(&[3u32, 20, 1000]),
        own_spends: true,
        unconfirmed: ctx.chance(1, 2),
        pending_timeout: *ctx.pick(&[60u64, 600, 6000]),
        session_secs: 1_000_000,
        max_weight: Some(weight),
        preempt: *ctx.pick(&[0, 4, 30]),
    };
    let mut w = World::new(ctx, o);
    w.boot()?;
    w01::create(&mut w, false)?;
    w.unlock()?;
    let mut b = Book::default();
    let mut rounds = 0;
    while ctx.more(20) && rounds < 30 {
        rounds += 1;
        match ctx.weighted(&[10, 4, 8, 2, 1, 1]) {
            0 => transfer(&mut w, &mut b)?,
            1 => request(&mut w, &mut b)?,
            2 => send(&mut w, &mut b)?,
            3 => w.run_ns(ctx.range(1, 200) as i64 * SEC)?,
            4 => {
                ctx.fault("crash");
                w.crash(0);
                w.boot()?;
                w.unlock()?;
                b.used.clear();
                b.ready.clear();
            }
            _ => {
                let p = w.with(json!({}));
                w.must("lock_wallet", p)?;
                w.unlock()?;
                b.used.clear();
            }
        }
    }
    ctx.phase();
    w01::settle(&mut w)
}

/// Lets the wallet reach the end of the chain, in the middle of an epoch.
fn ready(w: &mut World) -> Res<bool> {
    for _ in 0..200 {
        let tip = w.server.borrow().chain.tip().hash.to_string();
        let left = w.until_block();
        if left > 5 * SEC && w.said.as_ref().is_some_and(|s| s.1 == tip) {
            return Ok(true);
        }
        w.run_ns(if left > 5 * SEC { 3 * SEC } else { left + 2 * SEC })?;
        if w.said.as_ref().is_none_or(|s| s.1 != tip) {
            w.subscribe()?;
            w.run_ns(SEC / 10)?;
        }
    }
    Ok(false)
}

/// The outputs that the wallet may spend now: those it must be able to, and those it could be.
struct Funds {
    sure: BTreeMap<(Hash, u32), ValueTransferOutput>,
    maybe: BTreeMap<(Hash, u32), ValueTransferOutput>,
}
fn funds(w: &World, b: &Book) -> Funds {
    let s = w.server.borrow();
    let c = &s.chain;
    let now = w.wall();
    let done: BTreeSet<Hash> = c.main[..s.told].iter().flat_map(|r| c.all(&r.block).iter().map(|t| c.hash(t, r.epoch)).collect::<Vec<_>>()).collect();
    let mut f = Funds { sure: BTreeMap::new(), maybe: BTreeMap::new() };
    for (k, o) in &c.tip().view.utxos {
        if o.time_lock > now as u64 || b.used.get(k).is_some_and(|t| *t > now) {
            continue;
        }
        let confirmed = done.contains(&k.0);
        if confirmed || w.o.unconfirmed {
            f.maybe.insert(*k, o.clone());
            f.sure.insert(*k, o.clone());
        }
    }
    // What is used in one block more or less is not for this check to decide.
    f.sure.retain(|_, o| o.time_lock + 2 <= now as u64);
    f
}

fn fee(ctx: &Ctx) -> (Fee, Value, Value) {
    let n = if ctx.chance(1, 3) { ctx.skewed(2_000_000_000) } else { ctx.skewed(100_000) };
    let x = *ctx.pick(&[0.0, 0.5, 1.0, 2.25, 100.0, 1234.567, 12345.678, 1e6]);
    match ctx.below(8) {
        0 => (Fee::Absolute(n), json!({"absolute": n}), Value::Null),
        1 => (Fee::Absolute(n), json!({"absolute": n.to_string()}), Value::Null),
        2 => (Fee::Absolute(n), json!(n), Value::Null),
        3 => (Fee::Absolute(n), json!(n.to_string()), json!("absolute")),
        4 => (Fee::Relative((n % 5000) as f64), json!(n % 5000), json!("weighted")),
        5 => (Fee::Relative(x), json!({"relative": x.to_string()}), Value::Null),
        _ => (Fee::Relative(x), json!({"relative": x}), json!("weighted")),
    }
}

fn transfer(w: &mut World, b: &mut Book) -> Res {
    if !ready(w)? {
        return Ok(());
    }
    let ctx = w.ctx.clone();
    let f = funds(w, b);
    let total: u64 = f.sure.values().map(|o| o.value).sum();
    let n = 1 + if ctx.chance(1, 6) { ctx.skewed(6) } else { ctx.below(2) } as usize;
    let (own, foreign) = {
        let s = w.server.borrow();
        (s.chain.keys.chains[0][0], s.chain.foreign.clone())
    };
    let mut outs = vec![];
    for _ in 0..n {
        let value = match ctx.weighted(&[20, 15, 10, 2, 1]) {
            0 => 1 + ctx.below(total / n as u64 + 1),
            1 => 1 + ctx.below(total / 20 + 1),
            2 => 1 + ctx.skewed(1000),
            3 => total + 1 - ctx.below(total.min(3) + 1),
            _ => u64::MAX - ctx.skewed(3),
        };
        let lock = if ctx.chance(1, 5) { (w.wall() + ctx.range(0, 1000) as i64 - 300) as u64 } else { 0 };
        let pkh = if ctx.chance(1, 10) { own } else { *ctx.pick(&foreign) };
        outs.push(ValueTransferOutput { pkh, value, time_lock: lock });
    }
    let (fee, fee_json, fee_type) = fee(&ctx);
    let all: Vec<(Hash, u32)> = w.server.borrow().chain.tip().view.utxos.keys().copied().collect();
    let selected: BTreeSet<(Hash, u32)> = if ctx.chance(1, 3) { all.iter().filter(|_| ctx.chance(1, 2)).copied().collect() } else { BTreeSet::new() };
    // Everything there is, to the last coin.
    if ctx.chance(1, 8) {
        let mine: u64 = f.sure.iter().filter(|(k, _)| selected.is_empty() || selected.contains(k)).map(|x| x.1.value).sum();
        let cost = fee.of(f.sure.len() as u32 * INPUT + 2 * OUTPUT);
        if mine > cost + 1 {
            outs.truncate(1);
            outs[0].value = mine - cost - ctx.below(2);
        }
    }
    let preview = ctx.chance(1, 4);
    let from = f.maybe.values().next().map(|o| o.pkh);
    let (strategy, from) = match ctx.below(7) {
        0 => (json!("random"), None),
        1 => (json!("big_first"), None),
        2 => (json!("small_first"), None),
        3 if from.is_some() => (json!({"strategy": "big_first", "from": from.map(|p| p.to_string())}), from),
        4 if from.is_some() => (json!({"strategy": "random", "from": from.map(|p| p.to_string())}), from),
        _ => (Value::Null, None),
    };
    let list: Vec<Value> = outs
        .iter()
        .map(|o| json!({"address": o.pkh.to_string(), "amount": if ctx.chance(1, 2) { json!(o.value) } else { json!(o.value.to_string()) }, "time_lock": o.time_lock}))
        .collect();
    let mut p = w.with(json!({"fee": fee_json, "outputs": list, "preview": preview}));
    if !fee_type.is_null() {
        p["fee_type"] = fee_type;
    }
    if !selected.is_empty() {
        p["selected_utxos"] = selected.iter().map(|(h, i)| json!(format!("{h}:{i}"))).collect();
    }
    let order = match strategy.as_str().or(strategy["strategy"].as_str()) {
        Some("big_first") => 1,
        Some("small_first") => -1,
        _ => 0,
    };
    if !strategy.is_null() {
        p["utxo_strategy"] = strategy;
    }
    let r = w.call("create_vtt", p)?;
    ctx.op("create_vtt");
    let sum = outs.iter().try_fold(0u64, |a, o| a.checked_add(o.value));
    let filter = |k: &(Hash, u32), o: &ValueTransferOutput| (selected.is_empty() || selected.contains(k)) && from.is_none_or(|p| p == o.pkh);
    let max = w.o.max_weight.unwrap_or(20_000);
    let v = match r {
        Err(e) => {
            let have: Vec<u64> = f.sure.iter().filter(|(k, o)| filter(k, o)).map(|(_, o)| o.value).collect();
            let most = have.len() as u32 * INPUT + (outs.len() as u32 + 1) * OUTPUT;
            let need = sum.and_then(|s| s.checked_add(fee.of(most)));
            let can = need.is_some_and(|n| n > 0 && have.iter().sum::<u64>() >= n) && most <= max;
            ensure!(!can, "refused", "{} coins in {} outputs are enough for {:?} with a fee of {fee:?}, but: {e:?}", have.iter().sum::<u64>(), have.len(), sum);
            ctx.probe("refused");
            ev!(ctx, "refused: {} {:?}", e.message, e.data);
            return Ok(());
        }
        Ok(v) => v,
    };
    let t = decode(&v)?;
    let Transaction::ValueTransfer(vt) = &t else {
        return Err(Fail::new("wrong-transaction", format!("a value transfer was asked for: {t:?}")));
    };
    let body = &vt.body;
    ev!(ctx, "transfer of {} inputs and {} outputs, fee {fee:?}{}", body.inputs.len(), body.outputs.len(), if preview { ", a preview" } else { "" });
    ensure!(body.outputs.len() >= outs.len() && body.outputs[..outs.len()] == outs[..], "wrong-outputs", "asked for {outs:?}, created {:?}", body.outputs);
    ensure!(body.outputs.len() <= outs.len() + 1, "wrong-outputs", "more than a change was added: {:?}", body.outputs);
    let paid = inputs(w, &f, body.inputs.iter().map(|i| i.output_pointer()), filter, &v["metadata"]["inputs"])?;
    let spent: u64 = paid.iter().map(|o| o.value).sum();
    let given: u64 = body.outputs.iter().map(|o| o.value).sum();
    let taken: BTreeSet<(Hash, u32)> = body.inputs.iter().map(|i| (i.output_pointer().transaction_id, i.output_pointer().output_index)).collect();
    let left = f.sure.iter().filter(|(k, o)| filter(k, o) && !taken.contains(k)).map(|(_, o)| o.value);
    if order > 0 {
        let min = paid.iter().map(|o| o.value).min().unwrap_or(0);
        ensure!(left.clone().all(|v| v <= min), "wrong-order", "the biggest outputs go first, but one of {min} is spent before those of {:?}", left.collect::<Vec<_>>());
    } else if order < 0 {
        let max = paid.iter().map(|o| o.value).max().unwrap_or(0);
        ensure!(left.clone().all(|v| v >= max), "wrong-order", "the smallest outputs go first, but one of {max} is spent before those of {:?}", left.collect::<Vec<_>>());
    }
    let weight = body.inputs.len() as u32 * INPUT + (outs.len() as u32 + 1) * OUTPUT;
    let want = fee.of(weight);
    ensure_eq!(spent - given.min(spent), want, "wrong-fee", "what the inputs hold beyond the outputs, against the fee: {spent} - {given}");
    ensure_eq!(num(&v["metadata"]["fee"]), want, "wrong-fee", "the fee that is shown");
    let real = body.inputs.len() as u32 * INPUT + body.outputs.len() as u32 * OUTPUT;
    ensure_eq!(num(&v["metadata"]["weight"]) as u32, real, "wrong-weight", "the weight that is shown");
    ensure!(real <= max, "too-heavy", "a transaction of weight {real} can not be included, the limit is {max}");
    if let Some(c) = body.outputs.get(outs.len()) {
        ctx.probe("change");
        fresh(w, b, c.pkh, preview)?;
    } else {
        ctx.probe("no_change");
    }
    valid(w, &t, max)?;
    if from.is_some() {
        ctx.probe("from");
    }
    if !selected.is_empty() {
        ctx.probe("selected");
    }
    if preview {
        ctx.probe("preview");
    } else {
        b.ready.push((v["transaction"].clone(), t));
    }
    Ok(())
}

fn request(w: &mut World, b: &mut Book) -> Res {
    if !ready(w)? {
        return Ok(());
    }
    let ctx = w.ctx.clone();
    let f = funds(w, b);
    let least = World::config().consensus_constants.collateral_minimum;
    let reward = if ctx.chance(1, 4) { 1 + ctx.skewed(WIT) } else { least.div_ceil(125) + ctx.below(least / 50) };
    let collateral = match ctx.below(4) {
        0 => 0,
        1 => least,
        2 => least + ctx.below(least),
        _ => (reward * 125).max(least),
    };
    let dr = DataRequestOutput {
        data_request: RADRequest {
            time_lock: if ctx.chance(1, 3) { w.wall() as u64 + 100 } else { 0 },
            retrieve: (0..ctx.range(1, 3))
                .map(|i| RADRetrieve {
                    kind: RADType::HttpGet,
                    url: format!("https://source.{i}/"),
                    script: vec![0x81, 0x18, 0x77],
                    ..RADRetrieve::default()
                })
                .collect(),
            aggregate: RADAggregate { filters: vec![], reducer: 2 },
            tally: RADTally { filters: if ctx.chance(1, 2) { vec![RADFilter { op: 8, args: vec![] }] } else { vec![] }, reducer: 2 },
        },
        witness_reward: reward,
        witnesses: 1 + ctx.skewed(20) as u16,
        commit_and_reveal_fee: ctx.skewed(1000),
        min_consensus_percentage: ctx.range(51, 99) as u32,
        collateral,
    };
    let (fee, fee_json, fee_type) = fee(&ctx);
    let preview = ctx.chance(1, 4);
    let mut p = w.with(json!({"fee": fee_json, "request": serde_json::to_value(&dr).expect("json"), "preview": preview}));
    if !fee_type.is_null() {
        p["fee_type"] = fee_type;
    }
    let r = w.call("create_data_request", p)?;
    ctx.op("create_data_request");
    let max = 2 * w.o.max_weight.unwrap_or(40_000);
    let cost = (dr.witness_reward + 2 * dr.commit_and_reveal_fee) * u64::from(dr.witnesses);
    let weigh = |i: usize, o: usize| DRTransactionBody::new(vec![Default::default(); i], dr.clone(), vec![ValueTransferOutput::default(); o]).weight();
    let ratio = collateral.max(least).div_ceil(reward);
    let v = match r {
        Err(e) => {
            let have: Vec<u64> = f.sure.values().map(|o| o.value).collect();
            let most = weigh(have.len(), 1);
            let can = have.iter().sum::<u64>() >= cost + fee.of(most) && most <= max && ratio <= 125;
            ensure!(!can, "refused", "{} coins in {} outputs are enough for {cost} with a fee of {fee:?}, but: {e:?}", have.iter().sum::<u64>(), have.len());
            ctx.probe("refused");
            ev!(ctx, "refused: {} {:?}", e.message, e.data);
            return Ok(());
        }
        Ok(v) => v,
    };
    let t = decode(&v)?;
    let Transaction::DataRequest(d) = &t else {
        return Err(Fail::new("wrong-transaction", format!("a data request was asked for: {t:?}")));
    };
    let body = &d.body;
    ev!(ctx, "data request of {} inputs and {} outputs, fee {fee:?}", body.inputs.len(), body.outputs.len());
    ensure_eq!(&body.dr_output, &dr, "wrong-request", "the data request");
    let paid = inputs(w, &f, body.inputs.iter().map(|i| i.output_pointer()), |_, _| true, &v["inputs"])?;
    let spent: u64 = paid.iter().map(|o| o.value).sum();
    let given: u64 = body.outputs.iter().map(|o| o.value).sum::<u64>() + cost;
    let want = fee.of(weigh(body.inputs.len(), 1));
    ensure_eq!(spent - given.min(spent), want, "wrong-fee", "what the inputs hold beyond the request, against the fee");
    ensure_eq!(num(&v["fee"]), want, "wrong-fee", "the fee that is shown");
    let real = weigh(body.inputs.len(), body.outputs.len());
    ensure_eq!(num(&v["weight"]) as u32, real, "wrong-weight", "the weight that is shown");
    ensure!(real <= max, "too-heavy", "a transaction of weight {real} can not be included, the limit is {max}");
    valid(w, &t, max)?;
    ctx.probe("request");
    if !preview {
        b.ready.push((v["transaction"].clone(), t));
    }
    Ok(())
}

/// What is shown to the owner and what is to be sent are one transaction.
fn decode(v: &Value) -> Res<Transaction> {
    let bytes = hex::decode(v["bytes"].as_str().unwrap_or_default()).unwrap_or_default();
    Transaction::from_pb_bytes(&bytes).map_err(|e| Fail::new("wrong-transaction", format!("the bytes are not a transaction: {e}")))
}

fn inputs<'a>(
    w: &World,
    f: &Funds,
    list: impl Iterator<Item = &'a witnet_data_structures::chain::OutputPointer>,
    filter: impl Fn(&(Hash, u32), &ValueTransferOutput) -> bool,
    shown: &Value,
) -> Res<Vec<ValueTransferOutput>> {
    let mut seen = BTreeSet::new();
    let mut paid = vec![];
    for p in list {
        let k = (p.transaction_id, p.output_index);
        ensure!(seen.insert(k), "wrong-inputs", "{p} is spent twice");
        let Some(o) = f.maybe.get(&k) else {
            let s = w.server.borrow();
            let o = s.chain.tip().view.utxos.get(&k).cloned();
            let l = s.chain.tip().ledger.coins.get(&k).cloned();
            return Err(Fail::new("wrong-inputs", format!("{p} can not be spent now; own: {o:?}, on the chain: {l:?}, confirmed blocks: {}", s.told)));
        };
        ensure!(filter(&k, o), "wrong-inputs", "{p} was not selected");
        paid.push(o.clone());
    }
    let shown: Vec<(Option<&str>, u64)> = shown.as_array().into_iter().flatten().map(|x| (x["address"].as_str(), num(&x["amount"]))).collect();
    let want: Vec<String> = paid.iter().map(|o| o.pkh.to_string()).collect();
    let want: Vec<(Option<&str>, u64)> = want.iter().zip(&paid).map(|(a, o)| (Some(a.as_str()), o.value)).collect();
    ensure_eq!(shown, want, "wrong-inputs", "the inputs that are shown");
    Ok(paid)
}

/// Change goes where only the owner can get it, and to an address that no one has seen.
fn fresh(w: &mut World, b: &mut Book, pkh: PublicKeyHash, preview: bool) -> Res {
    let s = w.server.borrow();
    let Some((kc, i)) = s.chain.keys.path.get(&pkh) else {
        return Err(Fail::new("wrong-change", format!("the change goes to {pkh}, which is not of this wallet")));
    };
    ensure!(*kc == 1, "wrong-change", "the change goes to the external address {i}");
    ensure!(!s.chain.tip().view.received.contains_key(&pkh), "wrong-change", "the change goes to address {i}, which was paid before");
    ensure!(!b.change.contains(&pkh), "wrong-change", "the change goes to address {i}, as that of another transaction");
    if !preview {
        b.change.insert(pkh);
    }
    Ok(())
}

/// The chain would accept it.
fn valid(w: &World, t: &Transaction, max: u32) -> Res {
    let s = w.server.borrow();
    let c = &s.chain;
    let e = w.epoch + 1;
    let v: ProtocolVersion = c.version(e);
    let mut pool = UnspentOutputsPool::default();
    for (k, o) in &c.tip().ledger.coins {
        pool.insert(outptr(&k.0, k.1), o.clone(), 0);
    }
    let diff = UtxoDiff::new(&pool, 0);
    let mut sig = vec![];
    let r = match t {
        Transaction::ValueTransfer(x) => validate_vt_transaction(x, &diff, e, c.constants, &mut sig, max, Some(v)).map(|_| ()),
        Transaction::DataRequest(x) => {
            let least = World::config().consensus_constants.collateral_minimum;
            validate_dr_transaction(x, &diff, e, c.constants, &mut sig, least, max, 125, &current_active_wips(), Some(v)).map(|_| ())
        }
        _ => Ok(()),
    };
    let r = r.and_then(|()| verify_signatures(sig, &mut witnet_crypto_vrf()).map(|_| ()));
    if let Err(x) = r {
        return Err(Fail::new("invalid", format!("in epoch {e} ({v:?}) the chain does not accept it: {x}")));
    }
    Ok(())
}
fn witnet_crypto_vrf() -> witnet_data_structures::vrf::VrfCtx {
    witnet_data_structures::vrf::VrfCtx::secp256k1().expect("context")
}

fn send(w: &mut World, b: &mut Book) -> Res {
    if b.ready.is_empty() || !ready(w)? {
        return Ok(());
    }
    let ctx = w.ctx.clone();
    let (v, t) = b.ready.swap_remove(ctx.idx(b.ready.len()));
    let list: Vec<(Hash, u32)> = match &t {
        Transaction::ValueTransfer(x) => &x.body.inputs,
        Transaction::DataRequest(x) => &x.body.inputs,
        _ => return Ok(()),
    }
    .iter()
    .map(|i| (i.output_pointer().transaction_id, i.output_pointer().output_index))
    .collect();
    // It may be too late for it.
    let now = w.wall();
    let free = {
        let s = w.server.borrow();
        list.iter().all(|k| s.chain.tip().view.utxos.contains_key(k) && b.used.get(k).is_none_or(|t| *t <= now))
    };
    if !free {
        return Ok(());
    }
    let before = w.server.borrow().sent.len();
    let p = w.with(json!({"transaction": v}));
    w.must("send_transaction", p)?;
    w.spent = true;
    ev!(ctx, "sent");
    ctx.probe("sent");
    let s = w.server.borrow();
    ensure_eq!(s.sent.len(), before + 1, "not-sent", "transactions that reached the node");
    ensure!(s.sent[before] == t, "wrong-transaction", "what was created: {t:?}; what reached the node: {:?}", s.sent[before]);
    for k in list {
        b.used.insert(k, now + w.o.pending_timeout as i64);
    }
    Ok(())
}
