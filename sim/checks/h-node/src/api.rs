//! What a node tells its users over JSON-RPC: the truth, whatever they ask.

use crate::{ledger::*, net::*, traffic::*, world::*};
use crate::twist::twist;
use serde_json::{Value, json};
use simkit::{Ctx, Fail, Res, ensure, ev};
use std::{
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};
use witnet_crypto::hash::calculate_sha256;
use witnet_data_structures::{
    chain::{Block, Epoch, Hash, Hashable, PublicKeyHash, StateMachine, ValueTransferOutput},
    proto::ProtobufConvert,
    transaction::Transaction,
};
use witnet_node::actors::messages::*;

type Check = Box<dyn FnOnce(&Value) -> Result<(), String>>;

fn same<T: PartialEq + std::fmt::Debug>(a: T, b: T, what: &str) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!("{what}: it says {a:?}, its chain says {b:?}")) }
}

fn as_is<T: serde::de::DeserializeOwned>(v: &Value, what: &str) -> Result<T, String> {
    serde_json::from_value(v.clone()).map_err(|e| format!("{what} cannot be read: {e}: {v}"))
}

/// A transaction, and the epoch and hash of the block it is in.
fn placed(net: &Net, i: usize) -> Vec<(Transaction, Hash, Epoch, Hash)> {
    let mut out = vec![];
    for (e, h) in net.view[i].chain.iter().skip(1) {
        let t = &net.blocks[h].txns;
        let mut all: Vec<Transaction> = vec![];
        all.extend(t.value_transfer_txns.iter().cloned().map(Transaction::ValueTransfer));
        all.extend(t.data_request_txns.iter().cloned().map(Transaction::DataRequest));
        all.extend(t.commit_txns.iter().cloned().map(Transaction::Commit));
        all.extend(t.reveal_txns.iter().cloned().map(Transaction::Reveal));
        all.extend(t.tally_txns.iter().cloned().map(Transaction::Tally));
        all.extend(t.stake_txns.iter().cloned().map(Transaction::Stake));
        all.extend(t.unstake_txns.iter().cloned().map(Transaction::Unstake));
        all.push(Transaction::Mint(t.mint.clone()));
        out.extend(all.into_iter().map(|t| (t.clone(), t.hash(), *e, *h)));
    }
    out
}

fn paged<T: Clone>(v: &[T], offset: Option<u64>, limit: Option<u64>) -> Vec<T> {
    v.iter().skip(offset.unwrap_or(0) as usize).take(limit.unwrap_or(65535) as usize).cloned().collect()
}

fn page(ctx: &Ctx) -> (Option<u64>, Option<u64>) {
    (ctx.chance(1, 3).then(|| ctx.below(4)), ctx.chance(1, 3).then(|| ctx.below(5)))
}

struct Asked {
    method: &'static str,
    params: Value,
    check: Check,
}

/// A question with only one right answer.
fn question(ctx: &Ctx, net: &mut Net, i: usize, l: &Rc<Ledger>) -> Res<Asked> {
    let txs = placed(net, i);
    let view = net.view[i].clone();
    let epoch = net.epoch();
    let now = (simrt::now() / SEC - 1007 + ZERO) as u64;
    let unsettled = move |c: &Coin| c.time_lock.abs_diff(now) <= 120;
    let holders: Vec<PublicKeyHash> =
        l.coins.values().map(|c| c.pkh).chain(l.stakes.keys().map(|k| k.1)).collect::<BTreeSet<_>>().into_iter().collect();
    let sure = |e: Epoch| e < view.confirmed;
    let l = l.clone();
    Ok(match ctx.below(14) {
        0 => {
            let all: Vec<Hash> = view.chain.values().copied().collect();
            let h = *ctx.pick(&all);
            let b = net.blocks[&h].clone();
            let params = match ctx.below(3) {
                0 => json!([h.to_string()]),
                1 => json!([h.to_string(), true]),
                _ => json!([h.to_string(), false]),
            };
            let with = params[1] != json!(false);
            let confirmed = sure(b.block_header.beacon.checkpoint);
            Asked {
                method: "getBlock",
                params,
                check: Box::new(move |v| {
                    same(as_is::<Block>(v, "the block")?, b.clone(), "the block")?;
                    if confirmed {
                        same(&v["confirmed"], &json!(true), "whether it is confirmed")?;
                    }
                    same(v.get("txns_hashes").is_some(), with, "whether there are hashes")?;
                    if with {
                        let h = &v["txns_hashes"];
                        let hashes = |x: Vec<Hash>| serde_json::to_value(x).unwrap();
                        let t = &b.txns;
                        same(&h["value_transfer"], &hashes(t.value_transfer_txns.iter().map(|t| t.hash()).collect()), "transfers")?;
                        same(&h["data_request"], &hashes(t.data_request_txns.iter().map(|t| t.hash()).collect()), "requests")?;
                        same(&h["commit"], &hashes(t.commit_txns.iter().map(|t| t.hash()).collect()), "commits")?;
                        same(&h["reveal"], &hashes(t.reveal_txns.iter().map(|t| t.hash()).collect()), "reveals")?;
                        same(&h["tally"], &hashes(t.tally_txns.iter().map(|t| t.hash()).collect()), "tallies")?;
                        if !t.stake_txns.is_empty() {
                            same(&h["stake"], &hashes(t.stake_txns.iter().map(|t| t.hash()).collect()), "stakes")?;
                        }
                        if !t.unstake_txns.is_empty() {
                            same(&h["unstake"], &hashes(t.unstake_txns.iter().map(|t| t.hash()).collect()), "unstakes")?;
                        }
                    }
                    Ok(())
                }),
            }
        }
        1 => {
            let from = match ctx.below(3) {
                0 => 0,
                1 => ctx.below(u64::from(epoch) + 3) as i64,
                _ => -(ctx.below(u64::from(epoch) + 3) as i64),
            };
            let limit = if ctx.chance(1, 3) { 0 } else { ctx.below(12) as i64 - 6 };
            let chain: Vec<(Epoch, String)> = view.chain.iter().map(|(e, h)| (*e, h.to_string())).collect();
            let params = if ctx.chance(1, 2) { json!({"epoch": from, "limit": limit}) } else { json!([from, limit]) };
            Asked {
                method: "getBlockChain",
                params,
                check: Box::new(move |v| {
                    let got: Vec<(Epoch, String)> = as_is(v, "the chain")?;
                    // relative to the current epoch, which may just have ended
                    let want = |now: Epoch| {
                        let start = if from < 0 { i64::from(now).saturating_add(from).max(0) as u32 } else { from as u32 };
                        let mut c: Vec<_> = chain.iter().filter(|(e, _)| *e >= start).cloned().collect();
                        if limit > 0 {
                            c.truncate(limit as usize);
                        } else if limit < 0 {
                            c.drain(..c.len().saturating_sub(limit.unsigned_abs() as usize));
                        }
                        c
                    };
                    if got == want(epoch.saturating_sub(1)) || got == want(epoch + 1) { Ok(()) } else { same(got, want(epoch), "the chain") }
                }),
            }
        }
        2 if !txs.is_empty() => {
            let (t, h, e, b) = ctx.pick(&txs).clone();
            if matches!(t, Transaction::Mint(_)) {
                return question(ctx, net, i, &l);
            }
            let stamp = net.w.epoch_start(e);
            let confirmed = sure(e);
            Asked {
                method: "getTransaction",
                params: json!([h.to_string()]),
                check: Box::new(move |v| {
                    same(as_is::<Transaction>(&v["transaction"], "the transaction")?, t.clone(), "the transaction")?;
                    same(&v["blockHash"], &json!(b.to_string()), "its block")?;
                    same(&v["blockEpoch"], &json!(e), "its epoch")?;
                    same(&v["blockTimestamp"], &json!(stamp), "when")?;
                    same(&v["weight"], &json!(t.weight()), "its weight")?;
                    if confirmed {
                        same(&v["confirmed"], &json!(true), "whether it is confirmed")?;
                    }
                    let n = v["confirmations"].as_u64().unwrap_or(u64::MAX);
                    if n.abs_diff(u64::from(epoch.saturating_sub(e))) > 1 {
                        return Err(format!("{n} confirmations of epoch {e} at epoch {epoch}"));
                    }
                    Ok(())
                }),
            }
        }
        3 | 4 => {
            let vts: Vec<_> = txs.iter().filter(|t| matches!(t.0, Transaction::ValueTransfer(_))).cloned().collect();
            if vts.is_empty() {
                return question(ctx, net, i, &l);
            }
            let (t, h, e, _) = ctx.pick(&vts).clone();
            let Transaction::ValueTransfer(vt) = t else { unreachable!() };
            let mode = *ctx.pick(&["", "full", "simple", "ethereal"]);
            let mut params = json!({"hash": h.to_string()});
            if !mode.is_empty() {
                params["mode"] = json!(mode);
            }
            if ctx.chance(1, 4) {
                params["force"] = json!(true);
            }
            let confirmed = sure(e);
            let first = vt.body.outputs.first().map(|o| o.pkh);
            // What is spent, if it was made by transfers.
            let mut spent = Some(0u64);
            for p in vt.body.inputs.iter().map(|x| *x.output_pointer()) {
                let o: Option<&ValueTransferOutput> = txs.iter().filter(|t| t.1 == p.transaction_id).find_map(|t| match &t.0 {
                    Transaction::ValueTransfer(v) => v.body.outputs.get(p.output_index as usize),
                    Transaction::DataRequest(v) => v.body.outputs.get(p.output_index as usize),
                    Transaction::Stake(v) => v.body.change.as_ref(),
                    _ => None,
                });
                spent = spent.zip(o).map(|(a, o)| a + o.value);
            }
            let stamp = net.w.epoch_start(e);
            Asked {
                method: "getValueTransfer",
                params,
                check: Box::new(move |v| {
                    let value: u64 = vt.body.outputs.iter().filter(|o| Some(o.pkh) == first).map(|o| o.value).sum();
                    let out: u64 = vt.body.outputs.iter().map(|o| o.value).sum();
                    if mode == "full" || mode.is_empty() {
                        same(as_is(&v["transaction"], "the transfer")?, vt.clone(), "the transfer")?;
                    } else {
                        same(&v["recipient"], &json!(first.map(|p| p.to_string()).unwrap_or_default()), "the recipient")?;
                        same(&v["sender"], &json!(vt.signatures[0].public_key.pkh().to_string()), "the sender")?;
                        same(&v["value"], &json!(value), "the value")?;
                        same(&v["timestamp"], &json!(stamp), "when")?;
                    }
                    if mode == "simple"
                        && let Some(s) = spent
                    {
                        same(&v["fee"], &json!(s - out), "the fee")?;
                    }
                    let done = match mode {
                        "ethereal" => v["finalized"] == json!(1),
                        _ => v["status"].get("final").is_some(),
                    };
                    if confirmed && !done {
                        return Err(format!("confirmed, but {v}"));
                    }
                    Ok(())
                }),
            }
        }
        5 | 6 => {
            let all: Vec<Hash> = l.requests.keys().copied().collect();
            if all.is_empty() {
                return question(ctx, net, i, &l);
            }
            let h = *ctx.pick(&all);
            let q = l.requests[&h].clone();
            let ethereal = ctx.chance(1, 2);
            let rounds = txs
                .iter()
                .filter_map(|t| match &t.0 {
                    Transaction::Commit(c) if c.body.dr_pointer == h => Some(t.2),
                    _ => None,
                })
                .collect::<BTreeSet<_>>()
                .len();
            let _ = rounds;
            let mut params = json!({"hash": h.to_string()});
            if ethereal {
                params["mode"] = json!("ethereal");
            }
            Asked {
                method: "getDataRequest",
                params,
                check: Box::new(move |v| {
                    let s = v["status"].as_str().unwrap_or("");
                    same(s == "solved", q.tally.is_some(), "whether it is solved")?;
                    if q.tally.is_none() && q.commits.is_empty() && s != "committing" && s != "revealing" {
                        return Err(format!("nobody committed yet, but it is {s}"));
                    }
                    if ethereal {
                        same(&v["block_epoch"], &json!(q.posted), "when it was posted")?;
                        let o = &q.output;
                        let code = o.data_request.to_pb_bytes().unwrap();
                        same(&v["query"]["rad_bytecode"], &json!(hex::encode(&code)), "what it asks")?;
                        same(&v["query"]["rad_hash"], &serde_json::to_value(Hash::from(calculate_sha256(&code))).unwrap(), "what it asks")?;
                        same(&v["query"]["dro_hash"], &serde_json::to_value(o.hash()).unwrap(), "its terms")?;
                        same(&v["query"]["witnesses"], &json!(o.witnesses), "its witnesses")?;
                        same(&v["query"]["unitary_reward"], &json!(o.witness_reward), "the reward")?;
                        if let Some(t) = &q.tally {
                            same(&v["result"]["cbor_bytes"], &json!(hex::encode(t)), "the result")?;
                        }
                    } else if let Some(t) = &q.tally {
                        same(&v["report"]["tally"]["tally"], &json!(t), "the result")?;
                    }
                    Ok(())
                }),
            }
        }
        7 => {
            let p = *ctx.pick(&holders);
            let simple = ctx.chance(1, 2);
            let params = if ctx.chance(1, 2) { json!([p.to_string(), simple]) } else { json!({"pkh": p, "simple": simple}) };
            let want = l.balance(p);
            Asked { method: "getBalance", params, check: Box::new(move |v| same(&v["total"], &json!(want), "the balance")) }
        }
        8 | 9 => {
            // Coins about to be unlocked do not count.
            if l.coins.values().any(unsettled) {
                return question(ctx, net, i, &l);
            }
            let of = {
                let l = l.clone();
                move |p: PublicKeyHash| {
                    let sum = |locked: bool| -> u64 { l.coins.values().filter(|c| c.pkh == p && (c.time_lock > now) == locked).map(|c| c.value).sum() };
                    let staked: u64 = l.stakes.iter().filter(|(k, _)| k.1 == p).map(|(_, v)| v).sum();
                    (sum(true), staked, sum(false))
                }
            };
            let shape = |(l, s, u): (u64, u64, u64)| json!({"locked": l, "staked": s, "unlocked": u});
            match ctx.below(4) {
                0 => {
                    let p = *ctx.pick(&holders);
                    Asked {
                        method: "getBalance2",
                        params: json!({*ctx.pick(&["pkh", "address", "addresses", "pkhs"]): p.to_string()}),
                        check: Box::new(move |v| same(v, &shape(of(p)), "the balance")),
                    }
                }
                1 => {
                    let n = ctx.range(2, 5) as usize;
                    let ps: Vec<PublicKeyHash> = (0..n).map(|_| *ctx.pick(&holders)).collect();
                    Asked {
                        method: "getBalance2",
                        params: json!({"pkhs": ps.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(";")}),
                        check: Box::new(move |v| {
                            let t = ps.iter().map(|p| of(*p)).fold((0, 0, 0), |a, b| (a.0 + b.0, a.1 + b.1, a.2 + b.2));
                            same(v, &shape(t), "the balance")
                        }),
                    }
                }
                _ => {
                    let all: BTreeMap<PublicKeyHash, (u64, u64, u64)> = holders.iter().map(|p| (*p, of(*p))).collect();
                    let totals: Vec<u64> = all.values().map(|v| v.0 + v.1 + v.2).collect();
                    let min = if ctx.chance(1, 2) { 0 } else { *ctx.pick(&totals) };
                    let max = ctx.chance(1, 2).then(|| *ctx.pick(&totals));
                    Asked {
                        method: "getBalance2",
                        params: json!({"all": {"minBalance": min, "maxBalance": max}}),
                        check: Box::new(move |v| {
                            let want: serde_json::Map<String, Value> = all
                                .into_iter()
                                .filter(|(_, v)| (min..=max.unwrap_or(u64::MAX)).contains(&(v.0 + v.1 + v.2)))
                                .map(|(k, v)| (k.to_string(), shape(v)))
                                .collect();
                            same(v, &Value::Object(want), "all balances")
                        }),
                    }
                }
            }
        }
        10 => {
            let p = *ctx.pick(&holders);
            let values: Vec<u64> = l.coins.values().map(|c| c.value).collect();
            let min = ctx.chance(1, 2).then(|| *ctx.pick(&values) + ctx.below(2));
            let signer = (min.is_some() && ctx.chance(1, 2)).then(|| *ctx.pick(&holders));
            let mut params = json!([p.to_string()]);
            if let Some(m) = min {
                let m = if ctx.chance(1, 2) { json!(m) } else { json!(m.to_string()) };
                params.as_array_mut().unwrap().push(match signer {
                    Some(s) => json!({"minValue": m, "fromSigner": s}),
                    None => json!({"minValue": m}),
                });
            }
            let from: BTreeSet<Hash> = txs
                .iter()
                .filter(|t| signer.is_none_or(|s| t.0.signatures().iter().any(|k| k.public_key.pkh() == s)))
                .map(|t| t.1)
                .collect();
            let want: BTreeMap<String, u64> = l
                .coins
                .iter()
                .filter(|(k, c)| c.pkh == p && c.value >= min.unwrap_or(0) && (signer.is_none() || from.contains(&k.0)))
                .map(|(k, c)| (format!("{}:{}", k.0, k.1), c.value))
                .collect();
            Asked {
                method: "getUtxoInfo",
                params,
                check: Box::new(move |v| {
                    let mut got = BTreeMap::new();
                    for u in v["utxos"].as_array().ok_or("no list")? {
                        if got.insert(u["output_pointer"].as_str().unwrap_or("").to_string(), u["value"].as_u64().unwrap_or(0)).is_some() {
                            return Err(format!("{u} is there twice"));
                        }
                    }
                    same(got, want, "the coins")
                }),
            }
        }
        11 => {
            let (offset, limit) = page(ctx);
            let by = *ctx.pick(&["coins", "nonce", "mining", "witnessing"]);
            let reverse = ctx.chance(1, 2);
            let distinct = ctx.chance(1, 3);
            let keys: Vec<_> = l.stakes.keys().copied().collect();
            if keys.is_empty() {
                return question(ctx, net, i, &l);
            }
            let k = *ctx.pick(&keys);
            let (mut v, mut w) = (ctx.chance(1, 3).then_some(k.0), ctx.chance(1, 3).then_some(k.1));
            if ctx.chance(1, 20) {
                v = Some(PublicKeyHash::from_bytes(&ctx.bytes(20)).unwrap());
                w = None;
            }
            let filter = match (v, w) {
                (None, None) => Value::Null,
                _ => json!({"validator": v.map(|p| p.to_string()), "withdrawer": w.map(|p| p.to_string())}),
            };
            let params = json!({"filter": filter, "params": {"distinct": distinct, "limit": limit, "offset": offset, "order": {"by": by, "reverse": reverse}}});
            let matching: BTreeMap<(PublicKeyHash, PublicKeyHash), u64> =
                l.stakes.iter().filter(|(k, _)| v.is_none_or(|v| v == k.0) && w.is_none_or(|w| w == k.1)).map(|(k, v)| (*k, *v)).collect();
            if matching.is_empty() {
                return Ok(Asked { method: "", params: Value::Null, check: Box::new(|_| Ok(())) });
            }
            Asked {
                method: "queryStakes",
                params,
                check: Box::new(move |v| {
                    let list = v.as_array().ok_or("no list")?;
                    let mut last: Option<u64> = None;
                    let mut seen = BTreeSet::new();
                    let mut validators = BTreeSet::new();
                    for s in list {
                        let k: (PublicKeyHash, PublicKeyHash) = (as_is(&s["key"]["validator"], "key")?, as_is(&s["key"]["withdrawer"], "key")?);
                        let coins = s["value"]["coins"].as_u64().ok_or_else(|| format!("coins {s}"))?;
                        same(Some(&coins), matching.get(&k), "a stake")?;
                        if !seen.insert(k) {
                            return Err(format!("{k:?} is there twice"));
                        }
                        if !validators.insert(k.0) && distinct {
                            return Err(format!("{} is there twice", k.0));
                        }
                        let x = match by {
                            "coins" => coins,
                            "nonce" => s["value"]["nonce"].as_u64().ok_or("nonce")?,
                            _ => s["value"]["epochs"][by].as_u64().ok_or("epoch")?,
                        };
                        if last.is_some_and(|l| if reverse { l < x } else { l > x }) {
                            return Err(format!("not in order: {v}"));
                        }
                        last = Some(x);
                    }
                    let all: Vec<()> = if distinct { vec![(); matching.keys().map(|k| k.0).collect::<BTreeSet<_>>().len()] } else { vec![(); matching.len()] };
                    same(list.len(), paged(&all, offset, limit).len(), "how many")
                }),
            }
        }
        12 => {
            let reqs: Vec<(Epoch, Hash, Hash)> = txs
                .iter()
                .filter_map(|t| match &t.0 {
                    Transaction::DataRequest(d) => Some((t.2, t.1, Hash::from(calculate_sha256(&d.body.dr_output.data_request.to_pb_bytes().unwrap())))),
                    _ => None,
                })
                .collect();
            if reqs.is_empty() {
                return question(ctx, net, i, &l);
            }
            let rad = if ctx.chance(1, 8) { Hash::SHA256(ctx.bytes(32).try_into().unwrap()) } else { ctx.pick(&reqs).2 };
            let (offset, limit) = page(ctx);
            let reverse = ctx.chance(1, 2);
            let since = match ctx.below(3) {
                0 => None,
                1 => Some(ctx.below(u64::from(epoch) + 2) as i64),
                _ => Some(-(ctx.below(u64::from(epoch) + 200) as i64) - 1),
            };
            Asked {
                method: "searchDataRequests",
                params: json!({"radHash": rad.to_string(), "limit": limit, "offset": offset, "reverse": reverse, "since": since}),
                check: Box::new(move |v| {
                    let got: Vec<(Epoch, Hash)> = as_is(v, "the list")?;
                    let want = |now: Epoch| {
                        let start = match since {
                            None => i64::from(now) - 4320,
                            Some(s) if s < 0 => i64::from(now) + s,
                            Some(s) => s,
                        };
                        let mut w: Vec<_> = reqs.iter().filter(|r| r.2 == rad && i64::from(r.0) >= start).map(|r| r.0).collect();
                        w.sort_unstable();
                        if reverse {
                            w.reverse();
                        }
                        paged(&w, offset, limit)
                    };
                    for g in &got {
                        if !reqs.iter().any(|r| (r.0, r.1, r.2) == (g.0, g.1, rad)) {
                            return Err(format!("{g:?} is not such a request"));
                        }
                    }
                    let epochs: Vec<Epoch> = got.iter().map(|g| g.0).collect();
                    if epochs == want(epoch.saturating_sub(1)) || epochs == want(epoch + 1) { Ok(()) } else { same(epochs, want(epoch), "epochs of requests") }
                }),
            }
        }
        _ => {
            let by = *ctx.pick(&["mining", "witnessing"]);
            let (offset, limit) = page(ctx);
            let distinct = ctx.chance(1, 3);
            Asked {
                method: "queryPowers",
                params: json!({"orderBy": by, "distinct": distinct, "offset": offset, "limit": limit}),
                check: Box::new(move |v| {
                    let list = v.as_array().ok_or("no list")?;
                    let mut last = u64::MAX;
                    let mut who = BTreeSet::new();
                    for s in list {
                        let k: (PublicKeyHash, PublicKeyHash) = (as_is(&s["validator"], "key")?, as_is(&s["withdrawer"], "key")?);
                        if !l.stakes.contains_key(&k) {
                            return Err(format!("nobody staked as {k:?}"));
                        }
                        if !who.insert(if distinct { (k.0, k.0) } else { k }) {
                            return Err(format!("{k:?} is there twice"));
                        }
                        let p = s["power"].as_u64().ok_or("no power")?;
                        if p > last {
                            return Err(format!("not in order: {v}"));
                        }
                        last = p;
                    }
                    let n = if distinct { l.stakes.keys().map(|k| k.0).collect::<BTreeSet<_>>().len() } else { l.stakes.len() };
                    same(list.len(), paged(&vec![(); n], offset, limit).len(), "how many")
                }),
            }
        }
    })
}

/// Asks a node something and compares the answer with its chain.
pub fn ask_truth(ctx: &Ctx, net: &mut Net, t: &mut Traffic, i: usize) -> Res {
    net.observe(i)?;
    if net.view[i].state != Some(StateMachine::Synced) {
        return Ok(());
    }
    let Some(l) = t.ledger(net, i)? else { return Ok(()) };
    let a = question(ctx, net, i, &l)?;
    if a.method.is_empty() {
        return Ok(());
    }
    let r = net.w.rpc(i, a.method, a.params.clone())?;
    ctx.op(a.method);
    ctx.nontrivial();
    let said = match r.get("result") {
        Some(v) => (a.check)(v),
        None => Err(format!("{}", r["error"])),
    };
    let Err(e) = said else {
        ctx.probe("answer_compared");
        return Ok(());
    };
    // it may have moved on meanwhile
    let Ok(tip) = net.w.chain(i, GetHighestCheckpointBeacon)? else { return Ok(()) };
    let state = net.w.chain(i, GetState)?.ok();
    if tip == net.view[i].tip && state == Some(StateMachine::Synced) {
        let mut text = r.to_string();
        text.truncate(600);
        return Err(Fail::new("wrong-answer", format!("node {i} at epoch {}: {} {}: {e}; {text}", l.epoch, a.method, a.params)));
    }
    Ok(())
}

/// Requests as a user would send them, and what only the owner may ask.
fn usual(ctx: &Ctx, net: &Net, t: &mut Traffic, i: usize) -> (String, Value, bool) {
    let hash = |ctx: &Ctx| {
        let txs = placed(net, i);
        if txs.is_empty() || ctx.chance(1, 4) { "12".repeat(32) } else { ctx.pick(&txs).1.to_string() }
    };
    let pkh = net.w.nodes[i].pkh.to_string();
    let (m, p, owner): (&str, Value, bool) = match ctx.below(44) {
        0 => ("inventory", json!({"transaction": {"ValueTransfer": {"body": {"inputs": [], "outputs": []}, "signatures": []}}}), false),
        1 => {
            let h = *net.view[i].chain.values().next_back().unwrap_or(&net.w.genesis);
            ("inventory", net.blocks.get(&h).map(|b| json!({"block": b})).unwrap_or(json!({"error": null})), false)
        }
        2 => {
            let txs = placed(net, i);
            ("inventory", if txs.is_empty() { json!({"error": null}) } else { json!({"transaction": ctx.pick(&txs).0}) }, false)
        }
        3 => ("getBlockChain", json!([0, 5]), false),
        4 => ("getBlock", json!([net.w.genesis.to_string(), true]), false),
        5 => ("getDataRequest", json!({"hash": hash(ctx), "mode": "ethereal", "force": true}), false),
        6 => ("getTransaction", json!([hash(ctx)]), false),
        7 => ("getValueTransfer", json!({"hash": hash(ctx), "mode": "simple", "force": true}), false),
        8 => ("syncStatus", Value::Null, false),
        9 => ("dataRequestReport", json!([hash(ctx)]), false),
        10 => ("getBalance", json!([pkh, true]), false),
        11 => ("getBalance2", json!({"pkhs": pkh}), false),
        12 => ("getBalance2", json!({"all": {"minBalance": 0}}), false),
        13 => ("getReputation", json!([pkh]), false),
        14 => ("getReputationAll", Value::Null, false),
        15 => ("getSupplyInfo", Value::Null, false),
        16 => ("peers", Value::Null, false),
        17 => ("knownPeers", Value::Null, false),
        18 => ("nodeStats", Value::Null, false),
        19 => ("getMempool", Value::Null, false),
        20 => ("getConsensusConstants", Value::Null, false),
        21 => ("getSuperblock", json!({"block_epoch": 3}), false),
        22 => ("getSuperblock", json!({"superblock_index": 1}), false),
        23 => ("signalingInfo", Value::Null, false),
        24 => ("priority", Value::Null, false),
        25 => ("protocol", Value::Null, false),
        26 => ("queryStakes", json!({"filter": {"validator": pkh, "withdrawer": pkh}, "params": {"limit": 3, "offset": 1, "order": {"by": "nonce", "reverse": true}, "since": -3}}), false),
        27 => ("queryPowers", json!({"orderBy": "mining", "distinct": true, "limit": 2, "offset": 0}), false),
        28 => ("getUtxoInfo", json!([pkh, {"minValue": "5", "fromSigner": pkh}]), false),
        29 => ("searchDataRequests", json!({"radHash": hash(ctx), "limit": 5, "since": -5, "offset": 0, "reverse": true}), false),
        30 => ("getSupplyInfo2", Value::Null, true),
        31 => {
            let d = t.request(net);
            ("sendRequest", json!({"dro": d, "fee": {"absolute": 1000}, "dry_run": true}), true)
        }
        32 => {
            // it would stop the whole node to wait for its sources
            let mut d = t.request(net);
            d.data_request.retrieve.clear();
            ("tryRequest", serde_json::to_value(d).unwrap(), true)
        }
        33 => (
            "sendValue",
            json!({"vto": [{"pkh": pkh, "value": 1000, "time_lock": 0}], "fee": {"absolute": 1000}, "utxo_strategy": {"random": {"from": null}}, "dry_run": true}),
            true,
        ),
        34 => ("getPublicKey", Value::Null, true),
        35 => ("getPkh", Value::Null, true),
        36 => ("sign", json!(vec![7u8; 32]), true),
        37 => ("createVRF", json!([1, 2, 3]), true),
        38 => ("masterKeyExport", Value::Null, true),
        39 => ("addPeers", json!(["203.0.113.77:21337"]), true),
        40 => (
            "stake",
            json!({"authorization": "ab".repeat(85), "value": 1_000_000_000_000u64, "withdrawer": pkh, "fee": {"absolute": 1000}, "utxo_strategy": {"random": {"from": null}}, "dry_run": true}),
            true,
        ),
        41 => ("authorizeStake", json!({"withdrawer": pkh}), true),
        42 => ("unstake", json!({"operator": pkh, "value": 1_000_000u64, "fee": 1000, "dry_run": true}), true),
        _ => ("getBlockChain", json!({"epoch": -3, "limit": -2}), false),
    };
    (m.to_string(), p, owner)
}

fn well_formed(v: &Value, id: &Value) -> Result<(), String> {
    let o = v.as_object().ok_or("not an object")?;
    if o.get("jsonrpc") != Some(&json!("2.0")) || (o.get("id") != Some(id) && o.get("id") != Some(&Value::Null)) {
        return Err("not an answer to this".into());
    }
    match (o.get("result"), o.get("error")) {
        (Some(_), None) => Ok(()),
        (None, Some(e)) if e["code"].is_i64() && e["message"].is_string() => Ok(()),
        _ => Err("neither a result nor an error".into()),
    }
}

/// Asks a node something it does not expect.
pub fn ask_anything(ctx: &Ctx, net: &mut Net, t: &mut Traffic, i: usize, sensitive: bool) -> Res {
    let (method, mut params, owner) = usual(ctx, net, t, i);
    let asis = ctx.chance(1, 5);
    if !asis {
        for _ in 0..1 + ctx.skewed(3) {
            twist(ctx, &mut params);
        }
        // It is not about what the owner of a node can do to it.
        if params.get("dry_run") == Some(&json!(false)) || (params.get("dry_run").is_none() && matches!(&*method, "sendRequest" | "sendValue" | "stake" | "unstake")) {
            return Ok(());
        }
    }
    let id = json!(ctx.below(1000));
    let mut q = json!({"jsonrpc": "2.0", "id": id, "method": method});
    if !params.is_null() {
        q["params"] = params.clone();
    }
    let mut text = q.to_string();
    let broken = ctx.chance(1, 20);
    if broken {
        let mut c: Vec<char> = text.chars().collect();
        match ctx.below(3) {
            0 => c.truncate(ctx.idx(c.len())),
            1 => {
                let k = ctx.idx(c.len());
                c[k] = *ctx.pick(&['{', ']', '"', '\u{0}', '9']);
            }
            _ => c = "[".repeat(1 + ctx.skewed(300) as usize).chars().collect(),
        }
        text = c.into_iter().collect();
        ctx.fault("broken text");
    } else if !asis {
        ctx.fault("changed parameters");
    }
    ev!(ctx, "to {i}: {}", text.chars().take(200).collect::<String>());
    let asked = text.clone();
    let r = net.w.ask(i, 120 * SEC, || witty_jsonrpc::call(asked, witty_jsonrpc::Session::mock()))?.flatten();
    ctx.op(if owner { "owner's request" } else { "request" });
    let Some(r) = r else {
        ensure!(broken, "no-answer", "node {i} does not answer {text}");
        return Ok(());
    };
    let v: Value = serde_json::from_str(&r).map_err(|e| Fail::new("bad-answer", format!("{text}: {r}: {e}")))?;
    if broken {
        return Ok(());
    }
    if let Err(e) = well_formed(&v, &id) {
        return Err(Fail::new("bad-answer", format!("{text}: {v}: {e}")));
    }
    if owner && !sensitive && method != "getSupplyInfo2" {
        ensure!(v.get("error").is_some(), "not-refused", "node {i} is not to do {text}: {v}");
        ctx.probe("refused");
    }
    ctx.probe_if(v.get("result").is_some(), "answered");
    Ok(())
}

/// The node says what is so, to anyone, whatever they ask.
pub fn v08(ctx: &Ctx) -> Res {
    let nodes = ctx.range(2, 3) as usize;
    let coins = client_coins(ctx, 3);
    let v2 = ctx.chance(1, 2);
    let sensitive = ctx.chance(1, 2);
    let (mut net, mut t) = {
        let tweak = Box::new(move |_: usize, c: &mut witnet_config::config::Config| {
            c.jsonrpc.enable_sensitive_methods = sensitive;
            c.storage.rad_hashes_index = true;
        });
        let opts = Opts { nodes, extra_alloc: coins, tweak, ..Opts::default() };
        if v2 {
            crate::staking(ctx, opts)?
        } else {
            let mut net = Net::new(ctx, opts)?;
            let t = Traffic::new(ctx, &net, 3);
            net.run(7 * SEC + 20 * SEC)?;
            (net, t)
        }
    };
    ctx.probe_if(v2, "proof_of_stake");
    let period = if v2 { 20 } else { 45 };
    for _ in 0..ctx.range(6, 16) {
        ctx.phase();
        let end = simrt::now() + (period - 6) * SEC;
        while simrt::now() < end {
            let i = ctx.idx(nodes);
            match ctx.below(8) {
                0 | 1 => {
                    if v2 { t.act2(&mut net)? } else { t.act(&mut net)? }
                }
                2..=4 => {
                    for _ in 0..1 + ctx.below(4) {
                        ask_truth(ctx, &mut net, &mut t, i)?;
                    }
                }
                _ => {
                    for _ in 0..1 + ctx.below(4) {
                        ask_anything(ctx, &mut net, &mut t, i, sensitive)?;
                    }
                }
            }
            net.run(ctx.below(6) as i64 * SEC)?;
        }
        for i in 0..nodes {
            t.check_state(&mut net, i)?;
        }
        net.next_epoch(5 * SEC)?;
        net.observe_all()?;
    }
    Ok(())
}
