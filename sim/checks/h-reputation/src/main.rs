//! The reputation sets under histories with failures, restarts, replicas and a lossy network.

mod ars;
mod cluster;
mod trs;

use simkit::PropertyDef;

fn main() {
    simkit::main(&[
        PropertyDef {
            id: "R01",
            run: trs::run,
            quick_runs: 60_000,
            thorough_runs: 4_000_000,
            rule: "a run is a history of gains, expirations and penalizations on 1 to 3 replicas with different hash seeds; penalty \
                   functions ask for too much or die half way, inputs arrive out of order, replicas restart from their snapshot; \
                   non-trivial: at least one of those faults fired",
            state_measure: "distinct packet queues reached",
            real: &["reputation/src/trs.rs", "serde + bincode snapshots", "std HashMap (hash seeds from the simulated entropy source)"],
            stub: &["the disk that keeps the snapshots"],
            assumptions: &["amounts stay below the overflow of the value type"],
            expect: &["penalty_fn_error", "penalty_fn_panic", "stale_gain", "restart", "duplicate_identity", "partial_packet", "packet_exhausted", "many_packets"],
            known: &[],
        },
        PropertyDef {
            id: "R02",
            run: ars::run,
            quick_runs: 60_000,
            thorough_runs: 4_000_000,
            rule: "a run is a history of block epochs with gaps, duplicates and stale ones, delivered to 1 to 3 replicas with different \
                   hash seeds that restart from their snapshot; non-trivial: a stale delivery, gap or restart happened",
            state_measure: "distinct (active identities, last epoch) pairs",
            real: &["reputation/src/ars.rs", "serde + bincode snapshots", "std HashMap/HashSet"],
            stub: &["the disk that keeps the snapshots"],
            assumptions: &[],
            expect: &["stale_update", "gap", "gap_over_window", "restart", "same_identity_many_epochs", "window_full"],
            known: &[],
        },
        PropertyDef {
            id: "R03",
            run: cluster::run,
            quick_runs: 30_000,
            thorough_runs: 2_000_000,
            rule: "a run is 2 to 4 nodes that keep both reputation sets and receive the updates of a chain over a network that loses, \
                   duplicates, delays and reorders, while they crash and restart from their last snapshot; non-trivial: at least \
                   one network fault or crash fired",
            state_measure: "distinct (node, chain height, state) digests",
            real: &["reputation/src/trs.rs", "reputation/src/ars.rs", "serde + bincode snapshots"],
            stub: &["network, disk and clock", "the chain (a scripted sequence of reputation updates, applied as the node's chain manager does)"],
            assumptions: &["the update of a block is applied as in node/src/actors/chain_manager: expire, penalize, gain, then activity"],
            expect: &["msg_lost", "msg_duplicated", "msg_delayed", "crash", "restart_from_old_snapshot", "partition"],
            known: &[],
        },
    ]);
}
