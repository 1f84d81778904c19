//! Whole nodes in one process.
mod api;
mod hostile;
mod ledger;
mod net;
mod oracle;
mod peers;
mod radon;
mod rewind;
mod traffic;
mod twist;
mod world;

use net::*;
use simkit::*;
use witnet_data_structures::chain::ValueTransferOutput;
use traffic::*;
use world::*;

struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target() == "witnet_data_structures" {
            return;
        }
        eprintln!("{:?} [{}] {} {}: {}", simrt::current_node(), (simrt::now() / 1_000_000 - 1_007_000), r.level(), r.target().rsplit("::").next().unwrap_or(""), r.args());
    }
    fn flush(&self) {}
}

const REAL: &[&str] = &[
    "every actor of the node crate, compiled from /repo",
    "data structures, storage, p2p sessions and codec, validations, cryptography, mining and superblock voting",
];
const STUB: &[&str] = &[
    "actix runtime, tokio timers and sockets (deterministic scheduler and network)",
    "RocksDB (in-memory disk with crashes and lost writes)",
    "system clock, NTP and entropy",
    "HTTP client of the oracle workers",
];
const ASSUMPTIONS: &[&str] = &[
    "faults hit one node at a time: the consensus assumes a synchronous honest majority",
    "links that are not disturbed deliver within the epoch",
];

/// Agreement on what is confirmed.
fn v01(ctx: &Ctx) -> Res {
    let nodes = ctx.range(4, 6) as usize;
    let mut net = Net::new(ctx, Opts { nodes, ..Opts::default() })?;
    net.run(7 * SEC + 20 * SEC)?;
    net.victims = vec![ctx.idx(nodes)];
    let mut f = Faults::ALL;
    f.disk = false;
    let epochs = ctx.range(15, 50);
    for _ in 0..epochs {
        ctx.phase();
        net.observe_all()?;
        if ctx.chance(1, 3) {
            net.disturb(f)?;
        }
        let t = ctx.range(1, 44) as i64 * SEC;
        net.run(t)?;
        net.run(EPOCH - t)?;
    }
    net.calm()?;
    let confirmed = net.final_.keys().next_back().copied().unwrap_or(0);
    let mut quiet = 0;
    for k in 0..80 {
        net.run(EPOCH)?;
        net.observe_all()?;
        if net.settled() {
            quiet += 1;
            let now = net.final_.keys().next_back().copied().unwrap_or(0);
            if quiet >= 3 && now > confirmed {
                ctx.nontrivial();
                ctx.probe_if(k > 30, "slow_recovery");
                return Ok(());
            }
        } else {
            quiet = 0;
        }
    }
    Err(Fail::new("no-recovery", format!("80 epochs after the last fault: {}", net.summary())))
}

/// Who owns what.
fn v02(ctx: &Ctx) -> Res {
    let nodes = ctx.range(4, 6) as usize;
    let extra_alloc = client_coins(ctx, 3);
    let mut net = Net::new(ctx, Opts { nodes, extra_alloc, ..Opts::default() })?;
    let mut t = Traffic::new(ctx, &net, 3);
    net.run(7 * SEC + 20 * SEC)?;
    net.victims = vec![ctx.idx(nodes)];
    let mut f = Faults::ALL;
    f.disk = false;
    let epochs = ctx.range(12, 35);
    for _ in 0..epochs {
        ctx.phase();
        net.observe_all()?;
        if ctx.chance(1, 4) {
            net.disturb(f)?;
        }
        let mut left = EPOCH;
        for _ in 0..ctx.below(5) {
            t.act(&mut net)?;
            let d = ctx.below((left / SEC) as u64) as i64 * SEC;
            net.run(d)?;
            left -= d;
        }
        for i in 0..nodes {
            if net.thawed(i) && ctx.chance(1, 2) {
                t.check_state(&mut net, i)?;
            }
        }
        net.run(left)?;
    }
    net.calm()?;
    let mut last = vec![];
    for k in 0..100 {
        net.run(EPOCH)?;
        net.observe_all()?;
        if !net.settled() {
            continue;
        }
        let n = t.insist(&mut net)?;
        let l = t.ledger(&net, 0)?.expect("a ledger");
        let open = l.requests.values().filter(|r| r.tally.is_none()).count();
        last = vec![n, open];
        if n == 0 && open == 0 && k > 3 {
            for i in 0..nodes {
                t.check_state(&mut net, i)?;
            }
            ctx.nontrivial();
            return Ok(());
        }
    }
    Err(Fail::new("no-progress", format!("100 epochs after the last fault: {last:?} {}", net.summary())))
}

/// Staking, and the switch to it.
fn v06(ctx: &Ctx) -> Res {
    let nodes = ctx.range(4, 6) as usize;
    let extra_alloc = client_coins(ctx, 3);
    let v1_8 = ctx.range(2, 5) as u32;
    let v2_0 = v1_8 + ctx.range(6, 12) as u32;
    let mut net = Net::new(ctx, Opts { nodes, extra_alloc, v1_8: Some(v1_8), v2_0: Some(v2_0), ..Opts::default() })?;
    let mut t = Traffic::new(ctx, &net, 3);
    net.run(7 * SEC + 5 * SEC)?;
    net.victims = vec![ctx.idx(nodes)];
    let mut f = Faults::ALL;
    f.disk = false;
    let last = v2_0 + ctx.range(8, 40) as u32;
    let mut stakes: Vec<u64> = (0..nodes).map(|_| ctx.range(100_000, 999_000) * WIT).collect();
    loop {
        let e = net.epoch();
        if e > last {
            break;
        }
        ctx.phase();
        net.observe_all()?;
        if e < v2_0 {
            let l = t.ledger(&net, 0)?;
            for i in 0..nodes {
                let pkh = net.w.nodes[i].pkh;
                if e > v1_8 && stakes[i] > 0 && net.thawed(i) && l.as_ref().is_some_and(|l| !l.stakes.contains_key(&(pkh, pkh))) && (e + i as u32) % 2 == 0 {
                    t.stake_own(&mut net, i, stakes[i])?;
                }
            }
        } else {
            ctx.probe("proof_of_stake");
            stakes.clear();
            if ctx.chance(1, 4) {
                net.disturb(f)?;
            }
        }
        let period = if e < v2_0 { 45 } else { 20 };
        let mut left = period - 6;
        for _ in 0..ctx.below(4) {
            if e > v1_8 { t.act2(&mut net)? } else { t.act(&mut net)? }
            let d = ctx.below(left as u64) as i64;
            net.run(d * SEC)?;
            left -= d;
            if left <= 1 {
                break;
            }
        }
        for i in 0..nodes {
            if net.thawed(i) && ctx.chance(1, 2) {
                t.check_state(&mut net, i)?;
            }
        }
        net.next_epoch(5 * SEC)?;
    }
    net.calm()?;
    let mut last = vec![];
    for k in 0..150 {
        net.next_epoch(5 * SEC)?;
        net.observe_all()?;
        if !net.settled() {
            continue;
        }
        let n = t.insist(&mut net)?;
        let l = t.ledger(&net, 0)?.expect("a ledger");
        let open = l.requests.values().filter(|r| r.tally.is_none()).count();
        last = vec![n, open];
        if n == 0 && open == 0 && k > 3 {
            for i in 0..nodes {
                t.check_state(&mut net, i)?;
            }
            ctx.nontrivial();
            return Ok(());
        }
    }
    Err(Fail::new("no-progress", format!("150 epochs after the last fault: {last:?} {}", net.summary())))
}

/// What the oracle says is what its witnesses saw.
fn v04(ctx: &Ctx) -> Res {
    let nodes = ctx.range(4, 7) as usize;
    let coins = (0..3)
        .flat_map(|c| (0..12).map(move |_| ValueTransferOutput { pkh: client_keys(c).pkh, value: 1000 * WIT, time_lock: 0 }))
        .collect();
    let v2 = ctx.chance(1, 3);
    let (mut net, mut t) = if v2 { staking_net(ctx, nodes, coins)? } else {
        let mut net = Net::new(ctx, Opts { nodes, extra_alloc: coins, ..Opts::default() })?;
        let t = Traffic::new(ctx, &net, 3);
        net.run(7 * SEC + 20 * SEC)?;
        (net, t)
    };
    ctx.probe_if(v2, "proof_of_stake");
    let period = if v2 { 20 } else { 45 };
    net.victims = vec![ctx.idx(nodes)];
    let mut f = Faults::ALL;
    f.disk = false;
    for _ in 0..ctx.range(10, 25) {
        ctx.phase();
        net.observe_all()?;
        t.ledger(&net, 0)?;
        if ctx.chance(1, 4) {
            net.disturb(f)?;
        }
        let mut left = period - 6;
        for _ in 0..ctx.below(5) {
            t.ask_oracle(&mut net)?;
            let d = ctx.below(left as u64) as i64;
            net.run(d * SEC)?;
            left -= d;
            if left <= 1 {
                break;
            }
        }
        net.next_epoch(5 * SEC)?;
    }
    net.calm()?;
    let mut last = vec![];
    for k in 0..100 {
        net.next_epoch(5 * SEC)?;
        net.observe_all()?;
        if !net.settled() {
            continue;
        }
        let n = t.insist(&mut net)?;
        let l = t.ledger(&net, 0)?.expect("a ledger");
        let open = l.requests.values().filter(|r| r.tally.is_none()).count();
        last = vec![n, open];
        if n == 0 && open == 0 && k > 3 {
            for i in 0..nodes {
                t.check_state(&mut net, i)?;
            }
            ctx.nontrivial();
            return Ok(());
        }
    }
    Err(Fail::new("no-progress", format!("100 epochs after the last fault: {last:?} {}", net.summary())))
}

/// Nodes that stake and get to the epoch at which stake counts.
fn staking_net(ctx: &Ctx, nodes: usize, extra_alloc: Vec<ValueTransferOutput>) -> Result<(Net, Traffic), Fail> {
    staking(ctx, Opts { nodes, extra_alloc, ..Opts::default() })
}

fn staking(ctx: &Ctx, opts: Opts) -> Result<(Net, Traffic), Fail> {
    staking_of(ctx, opts, 500_000 * WIT)
}

fn staking_of(ctx: &Ctx, opts: Opts, stake: u64) -> Result<(Net, Traffic), Fail> {
    let nodes = opts.nodes;
    let mut net = Net::new(ctx, Opts { v1_8: Some(2), v2_0: Some(9), ..opts })?;
    let mut t = Traffic::new(ctx, &net, 3);
    net.run(7 * SEC + 5 * SEC)?;
    let mut sent = vec![false; nodes];
    while net.epoch() <= 10 {
        net.observe_all()?;
        for i in 0..nodes {
            if net.epoch() > 2 && net.epoch() as usize % 4 == i % 4 && !sent[i] {
                sent[i] = true;
                t.stake_own(&mut net, i, stake)?;
            }
        }
        net.next_epoch(5 * SEC)?;
    }
    Ok((net, t))
}

/// A validator that mines a block unstakes in it.
fn known_unstake(ctx: &Ctx) -> Res {
    let (mut net, mut t) = staking_net(ctx, 4, vec![])?;
    for _ in 0..40 {
        t.unstake_all(&mut net, 0)?;
        net.next_epoch(5 * SEC)?;
        net.observe_all()?;
        if let Some(l) = t.ledger(&net, 0)?
            && l.unapplied > 0
        {
            return Err(Fail::new("not-conserved", format!("{} were paid out and stay staked", l.unapplied)).with_sig("unstake-not-applied"));
        }
    }
    Ok(())
}

/// A validator that has hardly more than it needs commits to two requests in one block.
fn known_collateral(ctx: &Ctx) -> Res {
    let pkh = client_keys(0).pkh;
    let extra_alloc = (0..40).map(|_| ValueTransferOutput { pkh, value: 1000 * WIT, time_lock: 0 }).collect();
    let (mut net, mut t) = staking_of(ctx, Opts { nodes: 3, extra_alloc, ..Opts::default() }, 10_006 * WIT)?;
    for _ in 0..40 {
        t.two_requests(&mut net)?;
        net.next_epoch(5 * SEC)?;
        net.observe_all()?;
        if let Some(l) = t.ledger(&net, 0)?
            && l.unreserved > 0
        {
            let e = format!("{} of collateral will be paid back though it was not taken", l.unreserved);
            return Err(Fail::new("not-conserved", e).with_sig("second-collateral"));
        }
    }
    Ok(())
}

/// All witnesses of a request agree that its source does not work.
fn known_error_reward(ctx: &Ctx) -> Res {
    let pkh = client_keys(0).pkh;
    let coins = (0..20).map(|_| ValueTransferOutput { pkh, value: 1000 * WIT, time_lock: 0 }).collect();
    let (mut net, mut t) = staking_net(ctx, 4, coins)?;
    for _ in 0..40 {
        t.failing_request(&mut net)?;
        net.next_epoch(5 * SEC)?;
        net.observe_all()?;
        if let Some(l) = t.ledger(&net, 0)?
            && l.unrewarded > 0
        {
            let e = format!("{} promised to witnesses in consensus are burned", l.unrewarded);
            return Err(Fail::new("not-conserved", e).with_sig("error-consensus-not-rewarded"));
        }
    }
    Ok(())
}

/// Somebody stakes on a validator that never authorized it.
fn known_authorization(ctx: &Ctx) -> Res {
    let pkh = client_keys(0).pkh;
    let coins = (0..20).map(|_| ValueTransferOutput { pkh, value: 20_000 * WIT, time_lock: 0 }).collect();
    let (mut net, mut t) = staking_net(ctx, 4, coins)?;
    // a node that is not a validator yet, so that nobody else stakes on it
    let k = (client_keys(1).pkh, pkh);
    for _ in 0..20 {
        t.unauthorized_stake(&mut net)?;
        net.next_epoch(5 * SEC)?;
        net.observe_all()?;
        if let Some(l) = t.ledger(&net, 0)?
            && l.stakes.contains_key(&k)
        {
            let e = format!("{} is a validator with the stake of {} and never authorized it", k.0, k.1);
            return Err(Fail::new("unauthorized-stake", e).with_sig("stake-authorization-unchecked"));
        }
    }
    Ok(())
}

fn main() {
    // Statics that are made at their first use would make the first run of a process differ from the others.
    witnet_data_structures::clear_protocol_info();
    if let Ok(l) = std::env::var("H_NODE_LOG") {
        let _ = log::set_logger(&Log);
        log::set_max_level(l.parse().unwrap_or(log::LevelFilter::Off));
    }
    simkit::main(&[PropertyDef {
        id: "V07",
        run: hostile::v07,
        quick_runs: 110,
        thorough_runs: 4000,
        rule: "3 or 4 whole nodes and their clients, a third of the time with proof of stake; one or two other machines keep up to \
               six connections each to some of them and send noise, frames with the wrong length or in pieces, real messages with \
               bits flipped or fields removed, repeated, swapped or set to extremes, well-formed lies (beacons, announcements, \
               requests, votes, superblocks), replays, and blocks that break the rules but are signed by whoever may make one; \
               no node may panic or stop, ledgers are compared as the messages come in, and after they leave everything pending \
               has to be included and confirmed",
        state_measure: "node, its state machine's state and how many blocks it has confirmed",
        real: REAL,
        stub: STUB,
        assumptions: &["the hostile machines are inbound peers only: nobody has their addresses"],
        expect: &["heard", "forged_block", "proof_of_stake", "transfers_included"],
        known: &[],
    }, PropertyDef {
        id: "N01",
        run: peers::n01,
        quick_runs: 5000,
        thorough_runs: 60000,
        rule: "one whole node among 6 to 14 peers and one friend, with random limits, ranges, ice and storage periods; peers call it, \
               several at once and from the same range, or are called, and greet well, late, with a wrong network, clock or \
               chain, half or not at all, hang up, send nonsense or addresses nobody asked for, lie about or flood it with \
               addresses; links are slow and cut messages anywhere; its owner adds addresses and it is restarted; after each \
               second its sessions and addresses are compared with what the peers did",
        state_measure: "inbound and outbound sessions",
        real: REAL,
        stub: STUB,
        assumptions: &["peers that greet well have the same chain as the node", "timeouts of seconds are not shorter than the delays of undisturbed links"],
        expect: &["iced", "connected", "melted", "remembered", "asked", "told_others", "inbound_full", "outbound_full", "flood", "let_in"],
        known: &[],
    }, PropertyDef {
        id: "V09",
        run: rewind::v09,
        quick_runs: 320,
        thorough_runs: 4000,
        rule: "4 or 5 whole nodes and their traffic, a third of them with proof of stake; one node is rewound to an epoch, at times \
               below what is confirmed, killed at any moment of the rewinding or after it, or left with an older disk; it \
               replays its own blocks and catches up; its chain is a prefix of the old one, everything it says at a block \
               (coins, balances, supply, stakes, requests, reputation, upgrades, powers) equals what that block's history \
               implies and what others said there, and once calm all nodes agree and go on",
        state_measure: "node, its state machine's state and how many blocks it has confirmed",
        real: REAL,
        stub: STUB,
        assumptions: ASSUMPTIONS,
        expect: &["rewound", "below_confirmed", "crash_during_rewind", "crash_after_rewind", "compared_standing", "ledger_compared", "proof_of_stake"],
        known: &[],
    }, PropertyDef {
        id: "V08",
        run: api::v08,
        quick_runs: 400,
        thorough_runs: 4000,
        rule: "2 or 3 whole nodes and their clients, half of the time with proof of stake; users ask them over JSON-RPC about \
               blocks, transactions, requests, balances, coins, stakes and the chain, with all kinds of filters, orders and \
               pages, and every answer is compared with one computed from the blocks of the node's chain; others send \
               requests with fields removed, repeated, renamed or set to extremes and text that is no request; each gets a \
               well-formed answer, no node panics or stops, and what only the owner may do is refused where it is not allowed",
        state_measure: "node, its state machine's state and how many blocks it has confirmed",
        real: REAL,
        stub: STUB,
        assumptions: ASSUMPTIONS,
        expect: &["answer_compared", "answered", "refused", "proof_of_stake"],
        known: &[],
    }, PropertyDef {
        id: "V04",
        run: v04,
        quick_runs: 90,
        thorough_runs: 4000,
        rule: "4 to 7 whole nodes, a third of the time with proof of stake; clients send data requests (one to three sources, \
               six kinds of tally) whose sources tell some nodes another number, an error, nothing, or answer late; one node \
               is cut off, stalled, crashed, powered off or has its clock set wrong; every reveal is compared with what \
               its node was told, every result and verdict with a reference of the tally rules",
        state_measure: "node, its state machine's state and how many blocks it has confirmed",
        real: REAL,
        stub: STUB,
        assumptions: ASSUMPTIONS,
        expect: &["requests_included", "revealed_truth", "revealed_error", "result_number", "result_error", "out_of_consensus", "not_revealed", "proof_of_stake", "extra_rounds"],
        known: &[],
    }, PropertyDef {
        id: "O02",
        run: radon::o02,
        quick_runs: 25_000,
        thorough_runs: 1_000_000,
        rule: "requests with typed random scripts over random JSON, text and bytes (one to seven sources that mostly say alike), \
               random filters and reducers, resolved by one to three witnesses with one to three transports each while sources are \
               slow, broken off, refuse or answer something else, are compared with a reference interpreter; then up to 600 random \
               reveals (ties, thresholds, errors, mixed types) are tallied and result, liars and errors compared with a reference; \
               non-trivial: a value was computed",
        state_measure: "distinct results",
        real: &["rad/src/*", "node/src/actors/rad_manager/*", "validations/src/validations.rs (run_tally)", "net/src/client/http", "data_structures/src/radon_report.rs, radon_error.rs"],
        stub: &["HTTP client", "actix runtime and timers", "serde_cbor, cbor-codec (re-implemented)"],
        assumptions: &[],
        expect: &["value", "error", "paranoid", "tally_value", "tally_agrees_on_an_error", "tally_tie", "tally_no_consensus", "tally_script_fails", "tally_nothing"],
        known: &[],
    }, PropertyDef {
        id: "O01",
        run: oracle::o01,
        quick_runs: 40_000,
        thorough_runs: 1_000_000,
        rule: "one to four witnesses resolve up to eight requests with random scripts over random answers, some of which are late, broken \
               off, other than what the others get, or no answer; then the reveals, some of them replaced by what a bad witness could \
               reveal, are tallied by the miner and by the validators; non-trivial: a fault hit an answer",
        state_measure: "distinct results",
        real: &["rad/src/*", "node/src/actors/rad_manager/*", "validations/src/validations.rs (run_tally)", "net/src/client/http", "data_structures/src/radon_report.rs, radon_error.rs"],
        stub: &["HTTP client", "actix runtime and timers", "serde_cbor, cbor-codec, minidom, jsonpath (re-implemented)"],
        assumptions: &[],
        expect: &["witnesses_agree", "result_error", "result_value"],
        known: &[],
    }, PropertyDef {
        id: "V06",
        run: v06,
        quick_runs: 160,
        thorough_runs: 4000,
        rule: "4 to 6 whole nodes start with proof of eligibility, stake, and switch to proof of stake (20 second epochs) at a \
               random epoch; clients and node wallets send transfers, data requests, stakes and unstakes, valid ones and \
               forged ones; one node at a time is cut off, slowed down, stalled, crashed or has its clock set wrong; at \
               random moments a node's coins, balances, stakes, supply and requests are compared with a ledger rebuilt \
               from its blocks alone; at last everything is put right and all that is pending has to be included",
        state_measure: "node, its state machine's state and how many blocks it has confirmed",
        real: REAL,
        stub: STUB,
        assumptions: ASSUMPTIONS,
        expect: &["ledger_compared", "transfers_included", "requests_included", "commits_included", "reveals_included", "tallies_included", "stakes_included", "unstakes_included", "proof_of_stake"],
        known: &[
            Known { sig: "unstake-not-applied", run: known_unstake },
            Known { sig: "error-consensus-not-rewarded", run: known_error_reward },
            Known { sig: "stake-authorization-unchecked", run: known_authorization },
            Known { sig: "second-collateral", run: known_collateral },
        ],
    }, PropertyDef {
        id: "V02",
        run: v02,
        quick_runs: 140,
        thorough_runs: 4000,
        rule: "4 to 6 whole nodes, three clients and the web sources that data requests ask; clients and node wallets send \
               transfers and data requests, double spends to different nodes, replays and nine kinds of forged \
               transfers for 12 to 35 epochs, while one node is cut off, slowed down, stalled, crashed, powered off or has \
               its clock set wrong; at random moments a node's coins, balances, supply and requests are compared with a \
               ledger rebuilt from its blocks alone; at last everything is put right and all that is pending has to be \
               included",
        state_measure: "node, its state machine's state and how many blocks it has confirmed",
        real: REAL,
        stub: STUB,
        assumptions: ASSUMPTIONS,
        expect: &["ledger_compared", "transfers_included", "requests_included", "commits_included", "reveals_included", "tallies_included"],
        known: &[],
    }, PropertyDef {
        id: "V01",
        run: v01,
        quick_runs: 300,
        thorough_runs: 6000,
        rule: "4 to 6 whole nodes (all their actors, storage and sessions) run a chain of 45 second epochs over a simulated \
               network for 15 to 50 epochs; one of them is cut off, partitioned, reset, slowed down, stalled, crashed, \
               powered off or has its clock set wrong at random moments; then everything is put right and the network \
               runs on for up to 80 epochs",
        state_measure: "node, its state machine's state and how many blocks it has confirmed",
        real: REAL,
        stub: STUB,
        assumptions: ASSUMPTIONS,
        expect: &["reorganised", "rejoined_after_crash"],
        known: &[],
    }]);
}
