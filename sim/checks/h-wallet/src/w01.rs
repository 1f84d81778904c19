//! W01: the wallet tells its owner what the chain says.

use crate::chain::*;
use crate::world::*;
use serde_json::{Value, json};
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::collections::BTreeMap;

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let v2 = match ctx.below(3) {
        0 => None,
        1 => Some(1),
        _ => Some(1 + ctx.below(10) as u32),
    };
    let gap = *ctx.pick(&[3u16, 5, 10]);
    let fresh = ctx.chance(1, 4);
    let o = Opts {
        phrase: ctx.idx(PHRASES.len()),
        workers: *ctx.pick(&[1usize, 1, 2, 3]),
        v2,
        superblock: *ctx.pick(&[2u32, 3, 5]),
        history: if v2.is_some() { 12 } else { 0 } + ctx.below(20) as u32,
        gap,
        batch: *ctx.pick(&[1u32, 2, 3, 7, 20, 1000]),
        own_spends: !fresh,
        unconfirmed: ctx.chance(2, 3),
        pending_timeout: 600,
        session_secs: 1_000_000,
        max_weight: None,
        preempt: *ctx.pick(&[0, 4, 30]),
    };
    let faults = ctx.chance(4, 5);
    let mut w = World::new(ctx, o);
    w.boot()?;
    create(&mut w, fresh)?;
    w.server.borrow_mut().faults = faults;
    w.unlock()?;
    w.server.borrow_mut().chain.own_spends = true;
    let mut rounds = 0;
    while ctx.more(25) && rounds < 40 {
        rounds += 1;
        if !w.up {
            restart(&mut w)?;
            continue;
        }
        match ctx.weighted(&[10, 3, 2, 1, 1, 1, 1, 1, 2]) {
            0 => w.run_ns(ctx.range(1, 100) as i64 * SEC)?,
            1 => address(&mut w)?,
            2 => pay(&mut w)?,
            3 => {
                if w.session.is_some() && ctx.chance(1, 2) {
                    let p = w.with(json!({}));
                    let r = w.call("lock_wallet", p)?;
                    ev!(ctx, "locked: {}", r.is_ok());
                    if ctx.chance(1, 2) {
                        w.run_ns(ctx.range(0, 200) as i64 * SEC)?;
                    }
                }
                if w.up {
                    w.unlock()?;
                }
            }
            4 if faults => {
                let lost = 0;
                ctx.fault("crash");
                w.crash(lost);
                if ctx.chance(1, 2) {
                    w.run_ns(ctx.range(1, 200) as i64 * SEC)?;
                }
            }
            5 if faults => {
                ctx.fault("node down");
                {
                    let mut s = w.server.borrow_mut();
                    s.up = false;
                    s.break_all();
                }
                w.run_ns(ctx.range(1, 120) as i64 * SEC)?;
                w.server.borrow_mut().up = true;
            }
            6 if faults => {
                ctx.fault("node behind");
                {
                    let mut s = w.server.borrow_mut();
                    let n = s.chain.main.len();
                    s.visible = 1 + ctx.idx(n);
                    s.synced = false;
                }
                w.run_ns(ctx.range(1, 120) as i64 * SEC)?;
                w.server.borrow_mut().synced = true;
            }
            7 => resync(&mut w)?,
            _ => {
                w.run_ns(ctx.range(1, 40) as i64 * SEC / 10)?;
            }
        }
    }
    // The finale: no more faults.
    ctx.phase();
    {
        let mut s = w.server.borrow_mut();
        s.faults = false;
        s.up = true;
        s.synced = true;
    }
    if !w.up {
        restart(&mut w)?;
    }
    if w.session.is_none() {
        w.unlock()?;
    }
    settle(&mut w)
}

/// Without faults the wallet catches up with the node.
pub fn settle(w: &mut World) -> Res {
    let sp = i64::from(w.o.superblock);
    let per = if w.o.v2.is_some() { 20 } else { 45 };
    w.run_ns((4 * sp * per + 60) * SEC)?;
    // In the middle of an epoch.
    let mut calm = false;
    for _ in 0..3 {
        let e = w.epoch;
        let mut k = 0;
        while w.epoch == e && k < 100 {
            w.run_ns(SEC)?;
            k += 1;
        }
        w.run_ns(8 * SEC)?;
        let tip = w.server.borrow().chain.tip().hash.to_string();
        w.subscribe()?;
        w.run_ns(SEC / 2)?;
        if w.said.as_ref().is_some_and(|s| s.1 == tip) {
            calm = true;
            break;
        }
    }
    let tip = w.server.borrow().chain.tip().clone();
    ensure!(
        calm,
        "not-synchronized",
        "without faults for {} epochs, the wallet is at {:?} and not at block {} of epoch {}",
        4 * sp,
        w.said,
        &tip.hash.to_string()[..8],
        tip.epoch
    );
    let e = w.epoch;
    compare(w, &tip)?;
    ensure!(w.epoch == e, "slow", "the calls at the end take more than an epoch");
    w.ctx.probe("synchronized");
    if !tip.view.moves.is_empty() {
        w.ctx.nontrivial();
    }
    Ok(())
}

/// Everything that the wallet shows is what the chain up to that block says.
pub fn compare(w: &mut World, at: &Rec) -> Res {
    let ctx = w.ctx.clone();
    let v = &at.view;
    // Unspent outputs.
    let p = w.with(json!({}));
    let u = w.must("get_utxo_info", p.clone())?;
    let mut got: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    for (k, o) in u.as_object().into_iter().flatten() {
        got.insert(k.clone(), (num(&o["amount"]), num(&o["time_lock"])));
    }
    let want: BTreeMap<String, (u64, u64)> = v.utxos.iter().map(|(k, o)| (format!("{}:{}", k.0, k.1), (o.value, o.time_lock))).collect();
    for (k, x) in &want {
        ensure_eq!(got.get(k), Some(x), "wrong-outputs", "unspent output {k} (amount, lock) at epoch {}", at.epoch);
    }
    for k in got.keys() {
        ensure!(want.contains_key(k), "wrong-outputs", "the wallet lists the output {k}, which it does not own");
    }
    // Balances.
    let b = w.must("get_balance", p.clone())?;
    ensure_eq!(balance_of(&b["unconfirmed"]), v.balance(), "wrong-balance", "balance (available, locked, staked) at epoch {}", at.epoch);
    let main = w.server.borrow().chain.main.clone();
    let confirmed = w.server.borrow().chain.confirmed;
    // Movements.
    let total: u64;
    let mut all: Vec<Value> = vec![];
    let page = *ctx.pick(&[1u32, 2, 3, 7, 1000]);
    loop {
        let mut q = p.clone();
        q["offset"] = json!(all.len());
        q["limit"] = json!(page);
        let r = w.must("get_transactions", q)?;
        let list = r["transactions"].as_array().cloned().unwrap_or_default();
        let n = list.len();
        all.extend(list);
        if n < page as usize {
            total = num(&r["total"]);
            break;
        }
        ensure!(all.len() < 5000, "wrong-movements", "the list of movements has no end");
    }
    ensure_eq!(total, all.len() as u64, "wrong-movements", "how many movements there are, against how many are listed");
    let local: Vec<&Value> = all.iter().filter(|m| m["transaction"]["block"]["epoch"] == json!("0") && num(&m["transaction"]["block"]["epoch"]) == 0 && is_local(m)).collect();
    let listed: Vec<&Value> = all.iter().filter(|m| !is_local(m)).collect();
    ensure_eq!(num(&b["local"]) == 0, local.iter().all(|m| num(&m["amount"]) == 0), "wrong-balance", "whether nothing waits; there are {} local movements and local is {}", local.len(), b["local"]);
    let mut left: BTreeMap<String, &Move> = v.moves.iter().map(|m| (m.hash.clone(), m)).collect();
    let mut last = None;
    for m in &listed {
        let t = &m["transaction"];
        let id = t["hash"].as_str().unwrap_or_default().to_string();
        let Some(x) = left.remove(&id) else {
            let twice = v.moves.iter().any(|x| x.hash == id);
            return Err(Fail::new("wrong-movements", format!("movement {id} {}", if twice { "is listed twice" } else { "is not of this chain" })));
        };
        let what = format!("{} {} of epoch {}", x.kind, &id[..8], x.epoch);
        let kind = t["data"].as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
        ensure_eq!(kind.as_str(), x.kind, "wrong-movements", "kind of {what}");
        ensure_eq!(num(&m["amount"]), x.amount, "wrong-movements", "amount of {what}");
        ensure_eq!(m["type"].as_str(), Some(if x.positive { "POSITIVE" } else { "NEGATIVE" }), "wrong-movements", "direction of {what}");
        ensure_eq!(num(&t["block"]["epoch"]), u64::from(x.epoch), "wrong-movements", "epoch of {what}");
        ensure_eq!(t["block"]["block_hash"].clone(), serde_json::to_value(x.block).unwrap(), "wrong-movements", "block of {what}");
        if let Some(f) = x.fee {
            ensure_eq!(num(&t["miner_fee"]), f, "wrong-movements", "fee of {what}");
        }
        let ts = w.server.borrow().chain.ts(x.epoch) as u64;
        ensure_eq!(num(&t["timestamp"]), ts, "wrong-movements", "date of {what}");
        let sure = main[..confirmed].iter().any(|r| r.hash == x.block);
        let says = t["confirmed"].as_bool();
        // It learns of a superblock a moment later than the node.
        ensure!(says == Some(sure) || (says == Some(true) && x.epoch == 0), "wrong-movements", "{what} is confirmed: {sure}, and the wallet says {says:?}");
        if x.kind == "data_request" {
            let d = &t["data"]["data_request"]["tally"];
            ensure_eq!(d["result"].as_str().map(String::from), x.tally, "wrong-movements", "result of {what}");
            if x.tally.is_some() {
                let r = d["reveals"].as_array().cloned().unwrap_or_default();
                let inside = r.iter().filter(|r| r["in_consensus"] == json!(true)).count();
                ensure_eq!((r.len(), inside), x.reveals, "wrong-movements", "reveals of {what}, and how many in consensus");
            }
        }
        if says == Some(true) {
            ensure!(last.is_none_or(|l| l >= x.epoch), "wrong-movements", "{what} is listed after an older one");
            last = Some(x.epoch);
        }
    }
    ensure!(left.is_empty(), "wrong-movements", "the wallet does not list {} of {} movements: {:?}", left.len(), v.moves.len(), left.values().next());
    // Addresses.
    for (kc, external) in [(0usize, true), (1, false)] {
        let mut q = p.clone();
        q["offset"] = json!(0);
        q["limit"] = json!(1000);
        q["external"] = json!(external);
        let r = w.must("get_addresses", q)?;
        let list = r["addresses"].as_array().cloned().unwrap_or_default();
        ensure_eq!(num(&r["total"]) as usize, list.len(), "wrong-addresses", "how many addresses there are, against how many are listed");
        let chain_keys = w.server.borrow().chain.keys.chains[kc].clone();
        let mut seen = vec![false; chain_keys.len()];
        for a in &list {
            let i = num(&a["index"]) as usize;
            ensure!(i < seen.len() && !seen[i], "wrong-addresses", "address {i} is listed twice, or is unexpected");
            seen[i] = true;
            let pkh = chain_keys[i];
            ensure_eq!(a["address"].as_str(), Some(pkh.to_string().as_str()), "wrong-addresses", "address {kc}/{i}");
            let none = Received::default();
            let want = v.received.get(&pkh).unwrap_or(&none);
            let info = &a["info"];
            let got = Received {
                payments: info["received_payments"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect(),
                amount: num(&info["received_amount"]),
                first: info["first_payment_date"].as_u64().unwrap_or(0),
                last: info["last_payment_date"].as_u64().unwrap_or(0),
            };
            // A resync may have forgotten that the address was given out; what it received before it is given
            // out again is then missing.
            if w.forgot && !external && got.payments.len() < want.payments.len() {
                ctx.probe("address_given_out_twice");
                continue;
            }
            ensure_eq!(&got, want, "wrong-addresses", "what address {kc}/{i} received");
        }
        for (i, pkh) in chain_keys.iter().enumerate() {
            ensure!(!v.received.contains_key(pkh) || seen[i] || (w.forgot && !external), "wrong-addresses", "address {kc}/{i} was paid and is not listed");
        }
    }
    let b = v.balance();
    ctx.state(simkit::rng::mix("w", &[b.0, b.1, b.2, v.moves.len() as u64, u64::from(v.next[0]), u64::from(v.next[1])]));
    Ok(())
}
fn is_local(m: &Value) -> bool {
    let h = serde_json::to_value(witnet_data_structures::chain::Hash::default()).unwrap();
    m["transaction"]["block"]["block_hash"] == h
}

pub fn create(w: &mut World, fresh: bool) -> Res {
    let ctx = w.ctx.clone();
    let birth = if fresh {
        match ctx.below(3) {
            0 => json!("current"),
            1 => json!({"imported": ctx.below(u64::from(w.epoch) + 1)}),
            _ => Value::Null,
        }
    } else {
        Value::Null
    };
    // A birth date needs a block that stays.
    let confirmed = w.server.borrow().chain.confirmed;
    let birth = if confirmed == 0 { Value::Null } else { birth };
    ev!(ctx, "birth date {birth}");
    w.create(birth)
}

/// A new address, which others may pay from then on.
fn address(w: &mut World) -> Res {
    if w.session.is_none() {
        return Ok(());
    }
    // Addresses that were never paid must stay within the gap.
    let used = w.server.borrow().chain.tip().view.next[0];
    let p = w.with(json!({"external": true, "label": null}));
    let n = w.server.borrow().chain.payable.len() as u32;
    if n > used + u32::from(w.o.gap) || n + 2 > KEYS {
        return Ok(());
    }
    if let Ok(a) = w.call("generate_address", p)? {
        let s = a["address"].as_str().unwrap_or_default().to_string();
        ev!(w.ctx, "address {s}");
        let mut sv = w.server.borrow_mut();
        let all = sv.chain.keys.chains.clone();
        let Some(i) = all[0].iter().position(|p| p.to_string() == s) else {
            return Err(Fail::new("wrong-addresses", format!("the new address {s} is not of this wallet")));
        };
        let next = sv.chain.tip().view.next[0];
        if (i as u32) < next + u32::from(w.o.gap) {
            sv.chain.payable.push(all[0][i]);
        }
    }
    Ok(())
}

/// A payment of the owner.
fn pay(w: &mut World) -> Res {
    if w.session.is_none() {
        return Ok(());
    }
    let ctx = w.ctx.clone();
    let to = w.server.borrow().chain.foreign[ctx.idx(5)].to_string();
    let amount = 1 + ctx.below(20) * WIT / 2;
    let p = w.with(json!({"fee": {"absolute": 1 + ctx.below(100)}, "outputs": [{"address": to, "amount": amount, "time_lock": 0}], "preview": false}));
    let r = w.call("create_vtt", p)?;
    let Ok(v) = r else {
        ev!(ctx, "no payment: {:?}", r.err().map(|e| e.data));
        return Ok(());
    };
    ctx.op("payment");
    if ctx.chance(4, 5) && w.up {
        let p = w.with(json!({"transaction": v["transaction"]}));
        let r = w.call("send_transaction", p)?;
        ev!(ctx, "sent: {}", r.is_ok());
        w.spent = true;
    }
    Ok(())
}

fn resync(w: &mut World) -> Res {
    let view = w.server.borrow().chain.tip().view.within_gap;
    if w.session.is_none() || !view {
        return Ok(());
    }
    {
        // An address that was never paid is forgotten.
        let mut s = w.server.borrow_mut();
        let c = &mut s.chain;
        let next = if c.confirmed == 0 { [0, 0] } else { c.main[c.confirmed - 1].view.next };
        let path = c.keys.path.clone();
        c.payable.retain(|p| path[p].1 < next[path[p].0 as usize]);
    }
    w.forgot |= w.spent;
    let p = w.with(json!({}));
    let r = w.call("resync_wallet", p)?;
    ev!(w.ctx, "resync: {r:?}");
    w.ctx.probe("resynced");
    Ok(())
}

/// The process starts again. What it kept must be the truth about the last block that it kept.
fn restart(w: &mut World) -> Res {
    let ctx = w.ctx.clone();
    let quiet = ctx.chance(1, 2);
    let (up, faults) = {
        let mut s = w.server.borrow_mut();
        let f = (s.up, s.faults);
        s.up = true;
        s.faults = s.faults && !quiet;
        if quiet {
            s.synced = false;
            s.visible = s.chain.main.len();
        }
        f
    };
    w.boot()?;
    if quiet {
        w.unlock()?;
        w.run_ns(SEC)?;
        let said = w.said.clone();
        let at = said.as_ref().and_then(|s| s.1.parse().ok()).and_then(|h| w.server.borrow().chain.recs.get(&h).cloned());
        ev!(ctx, "restarted at {said:?}");
        if let Some(at) = at {
            ctx.probe("restart_checked");
            compare(w, &at)?;
        }
    }
    {
        let mut s = w.server.borrow_mut();
        s.synced = true;
        s.up = up || !faults;
        s.faults = faults;
    }
    if !quiet && w.up {
        w.unlock()?;
    }
    Ok(())
}
