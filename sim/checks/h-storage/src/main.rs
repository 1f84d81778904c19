//! Storage backends under concurrent clients, failing disks and crashes.

mod conc;
mod rocks;

use simkit::{Known, PropertyDef};

fn main() {
    simkit::main(&[
        PropertyDef {
            id: "S01",
            run: conc::run,
            quick_runs: 60_000,
            thorough_runs: 4_000_000,
            rule: "a run is 1 to 4 simulated client threads on one in-memory backend, with a seeded interleaving of their lock \
                   acquisitions and iterator steps; non-trivial: at least one context switch or injected reader death",
            state_measure: "distinct (final contents, history shape) pairs",
            real: &["storage/src/storage.rs", "storage/src/backends/hashmap.rs", "std HashMap (hash seeds from the simulated entropy source)"],
            stub: &["std::sync::RwLock (simulated: same exclusion and poisoning, scheduling points at acquire and release)"],
            assumptions: &["the standard RwLock provides mutual exclusion as documented"],
            expect: &["scan_during_write", "batch_vs_read", "reader_died", "deep_history"],
            known: &[],
        },
        PropertyDef {
            id: "S02",
            run: rocks::run,
            quick_runs: 60_000,
            thorough_runs: 4_000_000,
            rule: "a run is a history of puts, deletes, batches, reads and scans on the RocksDB adapter, on a simulated disk that fails \
                   calls, fills up, and on which the process dies or the machine loses power at any log record; non-trivial: a fault \
                   fired or threads switched",
            state_measure: "distinct database contents reached",
            real: &["storage/src/storage.rs", "storage/src/backends/rocks.rs", "storage/src/backends/nobackend.rs"],
            stub: &["rocksdb (simulated: one atomic log record per write call, prefix of the unsynced records survives power loss)"],
            assumptions: &["RocksDB applies one write call atomically and keeps its log order"],
            expect: &["write_error", "write_error_after", "crash_before_write", "crash_after_write", "disk_full", "read_error", "power_loss", "torn_batch_candidate"],
            known: &[Known { sig: "rocks-scan-truncated-on-io-error", run: rocks::known_scan }],
        },
    ]);
}
