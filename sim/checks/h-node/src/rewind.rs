//! A node that goes back in its chain and comes again.

use crate::{net::*, traffic::*, world::*};
use simkit::{Ctx, Fail, Res, ensure, ev};
use std::collections::BTreeMap;
use witnet_data_structures::chain::{Epoch, Hash, StateMachine};
use witnet_node::actors::messages::{GetReputation, Rewind};

/// What the nodes say of those who witness and stake.
fn standing(net: &mut Net, i: usize) -> Res<BTreeMap<String, String>> {
    let mut m = BTreeMap::new();
    if let Ok(r) = net.w.chain(i, GetReputation { pkh: net.w.nodes[0].pkh, all: true })? {
        for (p, s) in &r.stats {
            m.insert(format!("reputation of {p}"), format!("{} {} {}", s.reputation.0, s.eligibility, s.is_active));
        }
        m.insert("reputation".into(), format!("{}", r.total_reputation));
    }
    for method in ["signalingInfo", "queryPowers"] {
        let params = if method == "queryPowers" { serde_json::json!({}) } else { serde_json::json!([]) };
        let v = net.w.rpc(i, method, params)?;
        m.insert(method.into(), plain(&v["result"]));
    }
    Ok(m)
}

/// In an order that does not depend on anything.
fn plain(v: &serde_json::Value) -> String {
    match v {
        serde_json::Value::Object(o) => format!("{:?}", o.iter().map(|(k, v)| (k, plain(v))).collect::<BTreeMap<_, _>>()),
        serde_json::Value::Array(a) => {
            let mut a: Vec<String> = a.iter().map(plain).collect();
            a.sort();
            format!("{a:?}")
        }
        v => v.to_string(),
    }
}

pub fn v09(ctx: &Ctx) -> Res {
    let nodes = ctx.range(4, 5) as usize;
    let v2 = ctx.chance(1, 3);
    let (mut net, mut t) = if v2 {
        crate::staking_net(ctx, nodes, client_coins(ctx, 3))?
    } else {
        let mut net = Net::new(ctx, Opts { nodes, extra_alloc: client_coins(ctx, 3), ..Opts::default() })?;
        let t = Traffic::new(ctx, &net, 3);
        net.run(7 * SEC + 20 * SEC)?;
        (net, t)
    };
    ctx.probe_if(v2, "proof_of_stake");
    let period = if v2 { 20 } else { EPOCH / SEC };
    let i = ctx.idx(nodes);
    net.victims = vec![i];
    // What everybody said at each block.
    let mut said: BTreeMap<Hash, BTreeMap<String, String>> = BTreeMap::new();
    let mut due = ctx.range(3, 14);
    for _ in 0..ctx.range(12, 30) {
        ctx.phase();
        net.observe_all()?;
        let mut left = period - 6;
        for _ in 0..ctx.below(5) {
            if v2 { t.act2(&mut net)? } else { t.act(&mut net)? }
            let d = ctx.below(left as u64) as i64;
            net.run(d * SEC)?;
            left -= d;
            if left <= 1 {
                break;
            }
        }
        for j in 0..nodes {
            if net.thawed(j) {
                witness(ctx, &mut net, j, &mut said)?;
            }
        }
        due = due.saturating_sub(1);
        if due == 0 && net.w.nodes[i].up {
            due = ctx.range(1, 12);
            if ctx.chance(1, 5) {
                // Its disk is gone; it has got a copy of its keys.
                ctx.fault("lost disk");
                net.crash(i, false, ctx.range(1, 60) as i64 * SEC);
                net.w.nodes[i].disk.cut(net.w.nodes[i].birth);
                continue;
            }
            rewind(ctx, &mut net, &mut t, i, &mut said)?;
        }
        net.next_epoch(if ctx.chance(1, 2) { 5 } else { ctx.range(1, 15) as i64 } * SEC)?;
    }
    net.calm()?;
    let mut last = vec![];
    for k in 0..100 {
        net.next_epoch(5 * SEC)?;
        net.observe_all()?;
        if !net.settled() {
            continue;
        }
        let n = t.insist(&mut net)?;
        let l = t.ledger(&net, 0)?.expect("a ledger");
        let open = l.requests.values().filter(|r| r.tally.is_none()).count();
        last = vec![n, open];
        if n == 0 && open == 0 && k > 3 {
            for j in 0..nodes {
                t.check_state(&mut net, j)?;
                witness(ctx, &mut net, j, &mut said)?;
            }
            ctx.nontrivial();
            return Ok(());
        }
    }
    Err(Fail::new("no-progress", format!("100 epochs after the last fault: {last:?} {}", net.summary())))
}

/// Everybody says the same at the same block.
fn witness(ctx: &Ctx, net: &mut Net, j: usize, said: &mut BTreeMap<Hash, BTreeMap<String, String>>) -> Res {
    net.observe(j)?;
    let tip = net.view[j].tip;
    let s = standing(net, j)?;
    net.observe(j)?;
    if net.view[j].tip != tip || s.len() < 3 {
        return Ok(());
    }
    match said.get(&tip.hash_prev_block) {
        None => {
            said.insert(tip.hash_prev_block, s);
        }
        Some(o) => {
            ctx.probe("compared_standing");
            for (k, v) in o {
                ensure!(
                    s.get(k) == Some(v),
                    "other-standing",
                    "node {j} at {} ({:?}): {k}: it says {:?}, at the same block was said {v}",
                    tip.checkpoint,
                    net.view[j].state,
                    s.get(k)
                );
            }
        }
    }
    Ok(())
}

fn rewind(ctx: &Ctx, net: &mut Net, t: &mut Traffic, i: usize, said: &mut BTreeMap<Hash, BTreeMap<String, String>>) -> Res {
    net.observe(i)?;
    let old: BTreeMap<Epoch, Hash> = net.view[i].chain.clone();
    let tip = net.view[i].tip.checkpoint;
    let confirmed = net.view[i].confirmed;
    let epoch = match ctx.below(6) {
        0 => 0,
        1 => tip,
        2 => (tip + ctx.below(3) as u32).saturating_sub(1),
        3 => (confirmed + ctx.below(3) as u32).saturating_sub(2),
        _ => ctx.below(u64::from(tip) + 2) as u32,
    };
    ctx.op("rewind");
    ev!(ctx, "rewind {i} to {epoch}, from {tip}, confirmed {confirmed}");
    let want: BTreeMap<Epoch, Hash> = old.iter().filter(|(e, _)| **e <= epoch).map(|(e, h)| (*e, *h)).collect();
    ctx.probe_if(epoch < confirmed, "below_confirmed");
    let r = net.w.chain(i, Rewind { epoch })?;
    ensure!(matches!(r, Ok(true)), "rewind-refused", "rewinding node {i} to {epoch} answers {r:?}");
    if ctx.chance(1, 5) {
        let ns = ctx.below(400) as i64 * 1_000_000;
        net.run(ns)?;
        ctx.probe("crash_during_rewind");
        net.crash(i, false, ctx.range(1, 60) as i64 * SEC);
        return Ok(());
    }
    let mut last = String::new();
    for _ in 0..100 {
        net.observe(i)?;
        let v = net.view[i].clone();
        last = format!("{:?} {:?}", v.state, v.chain.keys());
        // It may have heard from others already.
        let there = want.iter().all(|(e, h)| v.chain.get(e) == Some(h));
        let others = v.chain.iter().any(|(e, h)| *e <= epoch && want.get(e) != Some(h));
        ensure!(!others, "wrong-rewind", "node {i} rewound to {epoch} has {:?} instead of {want:?}", v.chain);
        if there {
            ctx.probe_if(v.chain.len() == want.len(), "rewound");
            t.compare(net, i)?;
            witness(ctx, net, i, said)?;
            if ctx.chance(1, 6) {
                ctx.probe("crash_after_rewind");
                net.crash(i, false, ctx.range(1, 60) as i64 * SEC);
            } else {
                ctx.probe_if(v.state == Some(StateMachine::Synced), "synced_at_once");
            }
            return Ok(());
        }
        net.run(SEC / 5)?;
    }
    Err(Fail::new("no-rewind", format!("20 s after node {i} was rewound to {epoch} it has {last}")))
}
