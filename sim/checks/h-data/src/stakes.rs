//! D05: the stakes tracker against a map of entries, with restarts.

use crate::make::pkh;
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::collections::BTreeMap;
use witnet_data_structures::capabilities::Capability;
use witnet_data_structures::chain::*;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::wit::Wit;

const W: u64 = 1_000_000_000;

#[derive(Clone, Debug, PartialEq)]
struct E {
    coins: u64,
    ep: [u32; 2],
    nonce: u64,
}

type Model = BTreeMap<(PublicKeyHash, PublicKeyHash), E>;

fn cap(i: usize) -> Capability {
    [Capability::Mining, Capability::Witnessing][i]
}

fn power(e: &E, c: usize, at: u32) -> u64 {
    (e.coins / W) * u64::from(at.saturating_sub(e.ep[c]))
}

/// Adds coins to an entry: epochs become the average weighted by whole wits.
fn add(e: &mut E, coins: u64, epoch: u32) {
    let after = e.coins + coins;
    for c in 0..2 {
        e.ep[c] = (((e.coins / W) * u64::from(e.ep[c]) + (coins / W) * u64::from(epoch)) / (after / W)) as u32;
    }
    e.coins = after;
}

fn rank(m: &Model, c: usize, at: u32) -> Vec<((PublicKeyHash, PublicKeyHash), u64)> {
    let mut v: Vec<_> = m.iter().map(|(k, e)| (*k, power(e, c, at))).collect();
    v.sort_by(|a, b| b.1.cmp(&a.1).then(b.0.cmp(&a.0)));
    v
}

fn key(k: (PublicKeyHash, PublicKeyHash)) -> StakeKey<PublicKeyHash> {
    StakeKey { validator: k.0, withdrawer: k.1 }
}

fn unpack(e: &StakeEntry<9, PublicKeyHash, Wit, u32, u64, u64>) -> ((PublicKeyHash, PublicKeyHash), E) {
    (
        (e.key.validator, e.key.withdrawer),
        E { coins: e.value.coins.into(), ep: [e.value.epochs.mining, e.value.epochs.witnessing], nonce: e.value.nonce },
    )
}

fn check(ctx: &Ctx, t: &mut StakesTracker, m: &Model, now: u32, ids: u8, when: &str) -> Res {
    let model: Vec<_> = m.iter().map(|(k, e)| (*k, e.clone())).collect();
    let all: Vec<_> = t.query_stakes(QueryStakesKey::All).map_err(|e| Fail::new("query", format!("{when}: {e:?}")))?.iter().map(unpack).collect();
    ensure_eq!(all, model, "entries", "{when}: stake entries");
    ensure_eq!(t.stakes_count(), m.len(), "count", "{when}: stakes count");
    ensure_eq!(t.total_staked().nanowits(), m.values().map(|e| e.coins).sum::<u64>(), "total", "{when}: total staked");
    let vals: std::collections::BTreeSet<_> = m.keys().map(|k| k.0).collect();
    ensure_eq!(t.validator_count(), vals.len(), "validators", "{when}: number of validators");
    for i in 0..ids {
        let a = pkh(i);
        let mine: Vec<_> = model.iter().filter(|(k, _)| k.0 == a).cloned().collect();
        match t.query_stakes(QueryStakesKey::Validator(a)) {
            Ok(v) => ensure_eq!(v.iter().map(unpack).collect::<Vec<_>>(), mine, "by-validator", "{when}: entries of validator {i}"),
            Err(_) => ensure!(mine.is_empty(), "by-validator", "{when}: validator {i} has entries {mine:?} but a query finds none"),
        }
        match t.query_total_stake(QueryStakesKey::Validator(a)) {
            Ok(c) => ensure_eq!(c.nanowits(), mine.iter().map(|x| x.1.coins).sum::<u64>(), "total-stake", "{when}: total stake of validator {i}"),
            Err(_) => ensure!(mine.is_empty(), "total-stake", "{when}: validator {i}"),
        }
        let out: Vec<_> = model.iter().filter(|(k, _)| k.1 == a).cloned().collect();
        match t.query_stakes(QueryStakesKey::Withdrawer(a)) {
            Ok(v) => ensure_eq!(v.iter().map(unpack).collect::<Vec<_>>(), out, "by-withdrawer", "{when}: entries of withdrawer {i}"),
            Err(_) => ensure!(out.is_empty(), "by-withdrawer", "{when}: withdrawer {i} has entries {out:?} but a query finds none"),
        }
        for c in 0..2 {
            match t.query_power(a, cap(c), now) {
                Ok(p) => ensure_eq!(p, mine.iter().map(|x| power(&x.1, c, now)).max().unwrap_or(0), "power", "{when}: power of validator {i} at {now}"),
                Err(_) => ensure!(mine.is_empty(), "power", "{when}: validator {i}"),
            }
        }
        for j in 0..ids {
            let k = (a, pkh(j));
            ensure_eq!(t.check_validator_withdrawer(k.0, k.1).is_ok(), mine.is_empty() || m.contains_key(&k), "withdrawer-check", "{when}: may {j} withdraw from validator {i}");
            match t.query_stakes(QueryStakesKey::Key(key(k))) {
                Ok(v) => ensure_eq!(v.iter().map(unpack).collect::<Vec<_>>(), m.get(&k).map(|e| (k, e.clone())).into_iter().collect::<Vec<_>>(), "by-key", "{when}: entry {i}/{j}"),
                Err(_) => ensure!(!m.contains_key(&k), "by-key", "{when}: entry {i}/{j} missing"),
            }
            match t.query_nonce(key(k)) {
                Ok(n) => ensure_eq!(Some(n), m.get(&k).map(|e| e.nonce), "nonce", "{when}: nonce of {i}/{j}"),
                Err(_) => ensure!(!m.contains_key(&k), "nonce", "{when}: nonce of {i}/{j}"),
            }
        }
    }
    let at = now.saturating_add(ctx.skewed(2000) as u32);
    for c in 0..2 {
        let want = rank(m, c, at);
        let got: Vec<_> = t.by_rank(cap(c), at).map(|(k, p)| ((k.validator, k.withdrawer), p)).collect();
        ensure_eq!(got, want, "rank", "{when}: rank for capability {c} at {at}");
        let keys: Vec<_> = want.iter().map(|x| x.0).collect();
        let n = 1 + ctx.idx(keys.len() + 2);
        let (strat, want) = match ctx.below(3) {
            0 => (CensusStrategy::All, keys.clone()),
            1 => (CensusStrategy::StepBy(n), keys.iter().step_by(n).cloned().collect()),
            _ => (CensusStrategy::Take(n), keys.iter().take(n).cloned().collect()),
        };
        let got: Vec<_> = t.census(cap(c), at, strat).map(|k| (k.validator, k.withdrawer)).collect();
        ensure_eq!(got, want, "census", "{when}: census {strat:?} for capability {c}");
    }
    Ok(())
}

fn stake_tx(k: (PublicKeyHash, PublicKeyHash), value: u64) -> StakeTransaction {
    let mut t = StakeTransaction::default();
    t.body.output.key = key(k);
    t.body.output.value = value;
    t
}

fn unstake_tx(k: (PublicKeyHash, PublicKeyHash), value: u64, fee: u64) -> UnstakeTransaction {
    let mut t = UnstakeTransaction::default();
    t.body.operator = k.0;
    t.body.withdrawal = ValueTransferOutput { pkh: k.1, value, time_lock: 0 };
    t.body.fee = fee;
    t
}

pub fn d05(ctx: &Ctx) -> Res {
    let ids = *ctx.pick(&[2u8, 3, 5]);
    let min = *ctx.pick(&[1u64, 3, 10_000]) * W;
    let mut t = StakesTracker::default();
    let mut m: Model = BTreeMap::new();
    let mut now = ctx.pick(&[0u32, 1, 1000, 2_500_000]) + ctx.skewed(50) as u32;
    let amount = |ctx: &Ctx| match ctx.below(6) {
        0 => min,
        1 => min + ctx.skewed(W),
        2 => W * ctx.range(1, 1 + ctx.skewed(10_000_000)),
        3 => ctx.skewed(min - 1),
        4 => min - 1,
        _ => min + ctx.skewed(1 << 50),
    };
    let key_of = |ctx: &Ctx, m: &Model| {
        if !m.is_empty() && ctx.chance(2, 3) {
            *m.keys().nth(ctx.idx(m.len())).unwrap()
        } else {
            let v = ctx.below(ids.into()) as u8;
            // Most validators have one withdrawer, as the protocol wants today.
            (pkh(v), pkh(if ctx.chance(2, 3) { (v + 1) % ids } else { ctx.below(ids.into()) as u8 }))
        }
    };
    while ctx.more(60) {
        if ctx.chance(1, 2) {
            now += match ctx.below(4) {
                0 => 0,
                1 => 1,
                2 => ctx.skewed(30) as u32,
                _ => ctx.skewed(5000) as u32,
            };
        }
        let when;
        let what = ctx.weighted(&[5, 4, 3, 3, 3, 2, 2, 1]);
        ctx.op(["stake", "unstake", "reward", "reserve", "mine", "reset_age", "restart", "clone"][what]);
        match what {
            0 => {
                let (k, coins) = (key_of(ctx, &m), amount(ctx));
                let set = ctx.chance(3, 4);
                let tx = set && ctx.chance(1, 2);
                when = format!("adding {coins} to {:?}/{:?} at {now}", k.0.as_ref()[0], k.1.as_ref()[0]);
                ev!(ctx, "{when} set_nonce={set} tx={tx}");
                let r = if tx {
                    process_stake_transaction(&mut t, &stake_tx(k, coins), now, min).map(|_| ()).map_err(|e| format!("{e:?}"))
                } else {
                    t.add_stake(key(k), coins.into(), now, set, min.into()).map(|_| ()).map_err(|e| format!("{e:?}"))
                };
                if coins < min {
                    ensure!(r.is_err(), "below-minimum", "{when}: below the minimum of {min} but accepted");
                    ctx.probe("refused_add");
                } else {
                    ensure!(r.is_ok(), "add-refused", "{when}: {r:?}");
                    ctx.probe_if(m.keys().any(|x| x.0 == k.0 && x.1 != k.1), "second_withdrawer");
                    let fresh = !m.contains_key(&k);
                    let e = m.entry(k).or_insert(E { coins: 0, ep: [0, 0], nonce: u64::from(now) });
                    add(e, coins, now);
                    if set || fresh {
                        e.nonce = u64::from(now);
                    }
                }
            }
            1 => {
                let k = key_of(ctx, &m);
                let have = m.get(&k).map_or(0, |e| e.coins);
                let coins = match ctx.below(6) {
                    0 | 1 => have,
                    2 => have.saturating_sub(min),
                    3 => have.saturating_sub(min - 1),
                    4 => have + 1 + ctx.skewed(1 << 40),
                    _ => ctx.range(0, have.saturating_sub(min)),
                };
                let set = ctx.chance(3, 4);
                let tx = set && ctx.chance(1, 2);
                when = format!("removing {coins} of {have} from {:?}/{:?} at {now}", k.0.as_ref()[0], k.1.as_ref()[0]);
                ev!(ctx, "{when} set_nonce={set} tx={tx}");
                let fee = if tx { ctx.skewed(coins) } else { 0 };
                let (t2, m2) = (&mut t, &m);
                let r = simkit::catch(move || {
                    if tx {
                        process_unstake_transaction(t2, &unstake_tx(k, coins - fee, fee), now, min).map(|_| m2.get(&k).map_or(0, |e| e.coins.wrapping_sub(coins))).map_err(|e| format!("{e:?}"))
                    } else {
                        t2.remove_stake(key(k), coins.into(), now, set, min.into()).map(|c| c.nanowits()).map_err(|e| format!("{e:?}"))
                    }
                })
                .map_err(|p| Fail::new("remove-panic", format!("{when}: panics: {p}")))?;
                match m.get_mut(&k) {
                    None => ensure!(r.is_err(), "remove-missing", "{when}: accepted without an entry"),
                    Some(e) => {
                        if coins > e.coins {
                            ensure!(r.is_err(), "remove-too-much", "{when}: more than what is staked was removed: {r:?}");
                            ctx.probe("refused_overdraft");
                        } else if e.coins - coins > 0 && e.coins - coins < min {
                            ensure!(r.is_err(), "remainder-below-minimum", "{when}: leaves less than {min} but accepted");
                            ctx.probe("refused_remainder");
                        } else {
                            ensure_eq!(r, Ok(e.coins - coins), "remove", "{when}");
                            e.coins -= coins;
                            if set {
                                e.nonce = u64::from(now);
                            }
                            if e.coins == 0 {
                                m.remove(&k);
                                ctx.probe("entry_removed");
                            }
                        }
                    }
                }
            }
            2 => {
                let k = key_of(ctx, &m);
                let coins = if ctx.chance(1, 3) { ctx.skewed(W) } else { ctx.skewed(1000 * W) };
                when = format!("rewarding {:?} with {coins} at {now}", k.0.as_ref()[0]);
                ev!(ctx, "{when}");
                let r = t.add_reward(k.0, coins.into(), now);
                match m.iter_mut().find(|x| x.0.0 == k.0) {
                    None => ensure!(r.is_err(), "reward-missing", "{when}: accepted without an entry"),
                    Some((_, e)) => {
                        ensure!(r.is_ok(), "reward", "{when}: {r:?}");
                        add(e, coins, now);
                    }
                }
            }
            3 => {
                let k = key_of(ctx, &m);
                let first = m.iter().find(|x| x.0.0 == k.0).map(|x| x.1.coins);
                let have = first.unwrap_or(0);
                let coins = match ctx.below(4) {
                    0 => have.saturating_sub(min),
                    1 => have.saturating_sub(min - 1),
                    2 => have + 1 + ctx.skewed(1 << 40),
                    _ => ctx.range(0, have.saturating_sub(min)),
                };
                if first == Some(coins) {
                    continue; // validation always leaves the minimum
                }
                when = format!("reserving {coins} of {have} from {:?} at {now}", k.0.as_ref()[0]);
                ev!(ctx, "{when}");
                let t2 = &mut t;
                let r = simkit::catch(move || t2.reserve_collateral(k.0, coins.into(), min.into()).is_ok()).map_err(|p| Fail::new("reserve-panic", format!("{when}: panics: {p}")))?;
                match m.iter_mut().find(|x| x.0.0 == k.0) {
                    None => ensure!(!r, "reserve-missing", "{when}: accepted without an entry"),
                    Some((_, e)) => {
                        if coins <= e.coins && e.coins - coins >= min {
                            ensure!(r, "reserve", "{when}: refused");
                            e.coins -= coins;
                            ctx.probe("reserved");
                        } // otherwise nothing changes
                    }
                }
            }
            4 => {
                let k = key_of(ctx, &m);
                when = format!("{:?} mines at {now}", k.0.as_ref()[0]);
                ev!(ctx, "{when}");
                t.reset_mining_age(k.0, now).map_err(|e| Fail::new("mine", format!("{when}: {e:?}")))?;
                let r = rank(&m, 0, now);
                if let Some(w) = r.iter().position(|x| x.0.0 == k.0) {
                    ctx.probe_if(w > 0, "lower_rank_mines");
                    for (i, (k, _)) in r.iter().take(w + 1).enumerate() {
                        m.get_mut(k).unwrap().ep[0] = now + (1 + w - i) as u32;
                    }
                }
            }
            5 => {
                let k = key_of(ctx, &m);
                let c = ctx.idx(2);
                let factor = *ctx.pick(&[1u32, 1, 2, 3]);
                let mut at = now + ctx.pick(&[0, 1, 10]);
                if let Some(x) = m.iter().filter(|x| x.0.0 == k.0).map(|x| x.1.ep[c]).max() {
                    at = at.max(x);
                }
                when = format!("resetting the age of {:?} for capability {c} to {at} by {factor}", k.0.as_ref()[0]);
                ev!(ctx, "{when}");
                let r = t.reset_age(k.0, cap(c), at, factor);
                ensure_eq!(r.is_ok(), m.keys().any(|x| x.0 == k.0), "reset", "{when}");
                for (_, e) in m.iter_mut().filter(|x| x.0.0 == k.0) {
                    e.ep[c] += (at - e.ep[c]) / factor;
                }
            }
            6 => {
                when = "after a restart".to_string();
                ev!(ctx, "restart");
                ctx.fault("restart");
                let b = bincode::serialize(&t).map_err(|e| Fail::new("serialize", e.to_string()))?;
                t = bincode::deserialize(&b).map_err(|e| Fail::new("deserialize", e.to_string()))?;
                ctx.probe_if(m.keys().any(|x| m.keys().any(|y| x.0 == y.0 && x.1 != y.1)), "restart_with_two_withdrawers");
            }
            _ => {
                when = "in a clone".to_string();
                ev!(ctx, "clone");
                let old = std::mem::replace(&mut t, StakesTracker::default());
                t = old.clone();
                ensure!(t == old, "clone", "a clone differs from the original");
                // The original must not follow the clone.
                if let Some(k) = m.keys().next() {
                    let mut o = old;
                    let _ = o.add_reward(k.0, W.into(), now);
                }
            }
        }
        check(ctx, &mut t, &m, now, ids, &when)?;
        ctx.state(simkit::rng::fnv(format!("{m:?}").as_bytes()));
        ctx.probe_if(m.len() > 2, "several_entries");
    }
    if m.len() > 1 {
        ctx.nontrivial();
    }
    Ok(())
}
