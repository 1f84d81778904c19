//! The data structures of the chain under blocks, messages, failures and restarts.

mod drpool;
mod make;
mod mempool;
mod stakes;
mod superblock;
mod utxo;

use simkit::PropertyDef;
use witnet_data_structures::{proto::versioning::ProtocolVersion, register_protocol_version};

/// First epochs of the protocol versions. They are global to the process, so every run has the same ones.
pub const V1_8_AT: u32 = 1000;
pub const V2_0_AT: u32 = 2000;
pub const V2_1_AT: u32 = 3000;

fn main() {
    register_protocol_version(ProtocolVersion::V1_7, 0, 45);
    register_protocol_version(ProtocolVersion::V1_8, V1_8_AT, 45);
    register_protocol_version(ProtocolVersion::V2_0, V2_0_AT, 20);
    register_protocol_version(ProtocolVersion::V2_1, V2_1_AT, 20);
    simkit::main(&[
        PropertyDef {
            id: "D01",
            run: utxo::run,
            quick_runs: 12_000,
            thorough_runs: 300_000,
            rule: "a run is a history of blocks, snapshots, consolidations, rollbacks and restarts of one node on a disk that fails, \
                   fills up and loses power; non-trivial: at least one disk fault or crash happened",
            state_measure: "distinct (stored outputs, outputs in memory) pairs",
            real: &["data_structures/src/utxo_pool.rs", "data_structures/src/utxo_pool/utxo_db.rs", "storage/src/backends/rocks.rs"],
            stub: &["RocksDB (an append-only log of atomic batches with injected errors)", "the chain manager that calls (its sequence of calls is scripted)"],
            assumptions: &["every output pointer is created once, as transaction hashes guarantee", "after an error that leaves it unknown whether the write happened, the node is restarted"],
            expect: &["power_loss", "spent_in_same_block", "spent_confirmed", "snapshot_behind_head"],
            known: &[],
        },
        PropertyDef {
            id: "D02",
            run: mempool::run,
            quick_runs: 12_000,
            thorough_runs: 1_000_000,
            rule: "a run is a history of one node's pool: transactions that arrive once, twice, with another signature or in conflict, \
                   blocks that spend their coins, a size limit that changes, commits and reveals, loss of synchronization; \
                   non-trivial: at least one of duplicate delivery, limit or loss of synchronization happened",
            state_measure: "distinct sets of pending transactions",
            real: &["data_structures/src/chain/mod.rs (TransactionsPool)", "data_structures/src/transaction.rs", "data_structures/src/data_request.rs"],
            stub: &["the actors that deliver (the sequence of calls is scripted)", "signatures are not real"],
            assumptions: &["commits and reveals are inserted only after `contains` said no, as the chain manager does"],
            expect: &["duplicate_delivery", "malleated_delivery", "inserted_twice", "double_spend_removed", "lost_sync", "pool_limit", "evicted", "shared_collateral"],
            known: &[],
        },
        PropertyDef {
            id: "D03",
            run: drpool::run,
            quick_runs: 12_000,
            thorough_runs: 1_000_000,
            rule: "a run is a chain of blocks with requests, commits, reveals and tallies, some of them missing, some of them in the wrong stage, \
                   around the epochs where the protocol changes, with restarts from the last state on disk; \
                   non-trivial: at least one restart or untimely transaction happened",
            state_measure: "distinct (stage, commits, reveals) lists of the open requests",
            real: &["data_structures/src/data_request.rs", "data_structures/src/chain/mod.rs (DataRequestState)"],
            stub: &["the tally function (who lied is drawn at random)", "the chain manager that calls (its sequence of calls is scripted)"],
            assumptions: &["at most as many commits as witnesses, and reveals only of those who committed, as block validation demands"],
            expect: &["crash_restart", "untimely_tally", "untimely_commit", "untimely_reveal", "own_reveal_sent", "nobody_honest", "liars_slashed"],
            known: &[],
        },
        PropertyDef {
            id: "D04",
            run: superblock::run,
            quick_runs: 14_000,
            thorough_runs: 1_500_000,
            rule: "a run is a network of up to ten nodes that make and vote on superblocks for up to eight periods, with forks, lost, late and \
                   duplicated votes, members that vote twice, crashes and restores, and one period without faults at the end; \
                   non-trivial: at least one fault happened",
            state_measure: "distinct (votes, penalties, superblocks with consensus) per node",
            real: &["data_structures/src/superblock.rs", "data_structures/src/chain/mod.rs (SuperBlock, SuperBlockVote, AltKeys)", "crypto/src/merkle.rs"],
            stub: &["signatures are not real", "the chain manager (judging, persisting, restoring and catching up are scripted)", "the network"],
            assumptions: &["the caller has checked the signatures of votes"],
            expect: &["vote_lost", "vote_late", "crash_restart", "equivocation", "resigned_vote", "wrong_index", "double_vote", "early_vote", "consensus", "no_consensus", "caught_up"],
            known: &[],
        },
        PropertyDef {
            id: "D05",
            run: stakes::d05,
            quick_runs: 150_000,
            thorough_runs: 1_000_000,
            rule: "a run is a history of stakes, unstakes, rewards, collaterals, mined blocks and age resets among a few validators, with restarts \
                   from the serialized tracker; non-trivial: at least two entries at the end",
            state_measure: "distinct (entries, coins, epochs, nonces)",
            real: &["data_structures/src/staking/*", "data_structures/src/capabilities.rs", "data_structures/src/wit.rs"],
            stub: &["the chain manager that calls (its sequence of calls is scripted)"],
            assumptions: &["the minimum stake is at least one wit", "a collateral never empties an entry, as commit validation demands", "the age of a validator is never reset to before its epoch"],
            expect: &["restart", "restart_with_two_withdrawers", "refused_add", "refused_overdraft", "refused_remainder", "entry_removed", "second_withdrawer", "reserved", "lower_rank_mines"],
            known: &[],
        },
    ]);
}
