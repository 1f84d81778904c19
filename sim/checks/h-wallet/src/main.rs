//! The wallet as a process of its own, before a node that lies and fails.
mod chain;
mod w01;
mod w02;
mod w03;
#[path = "../../h-node/src/twist.rs"]
mod twist;
mod world;

use simkit::runner::{Known, PropertyDef};

const ASSUMPTIONS: &[&str] = &[
    "the node may fail, lag, be cut off or reorganize the chain, but does not forge blocks",
    "no address is paid that lies further from the last paid one than the wallet's address gap",
    "what a crash leaves in the database is a prefix of the writes",
];

struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        eprintln!("[{}] {} {}: {}", simrt::now() / 1_000_000, r.level(), r.target().rsplit("::").next().unwrap_or(""), r.args());
    }
    fn flush(&self) {}
}

fn main() {
    if let Ok(l) = std::env::var("H_WALLET_LOG") {
        let _ = log::set_logger(&Log);
        log::set_max_level(l.parse().unwrap_or(log::LevelFilter::Info));
    }
    world::keyring();
    world::World::config();
    w03::seeds();
    let props = [PropertyDef {
        id: "W01",
        run: w01::run,
        quick_runs: 2400,
        thorough_runs: 30_000,
        rule: "a run is a wallet that follows a node through blocks, reorganizations, superblocks and faults; non-trivial: it synchronized and its owner has movements",
        state_measure: "distinct (balance, number of movements, addresses) of a synchronized wallet",
        real: &["wallet", "net client", "data_structures", "crypto", "storage encryption"],
        stub: &["node", "websockets server", "RocksDB", "actix", "threads", "clock"],
        assumptions: ASSUMPTIONS,
        expect: &["resynced", "reorganized", "staked", "unstaked", "tally", "own_tx_mined", "restart_checked"],
        known: &[],
    }, PropertyDef {
        id: "W02",
        run: w02::run,
        quick_runs: 2400,
        thorough_runs: 30_000,
        rule: "a run is a wallet whose owner creates and sends transactions; non-trivial: it synchronized and its owner has movements",
        state_measure: "distinct (balance, number of movements, addresses) of a synchronized wallet",
        real: &["wallet", "net client", "data_structures", "validations", "crypto", "storage encryption"],
        stub: &["node", "websockets server", "RocksDB", "actix", "threads", "clock"],
        assumptions: ASSUMPTIONS,
        expect: &["refused", "change", "no_change", "from", "selected", "preview", "request", "sent"],
        known: &[],
    }, PropertyDef {
        id: "W03",
        run: w03::run,
        quick_runs: 2400,
        thorough_runs: 30_000,
        rule: "a run is a wallet process whose users create, import, unlock, lock, use, export and delete wallets, one call at a \
               time or up to three at once, with the right or wrong password, session, wallet or seed, while sessions expire, \
               writes fail and the process dies, also in the middle of a write, and somebody sends calls with changed parameters; the answers of calls at once must be those of \
               some order of them; non-trivial: a wallet was unlocked",
        state_measure: "distinct (keys, number of stored values, addresses) of the wallets there are",
        real: &["wallet", "net client", "crypto", "storage encryption"],
        stub: &["node", "websockets server", "RocksDB", "actix", "threads", "clock"],
        assumptions: &["what a crash leaves in the database is a prefix of the writes", "a wallet's addresses are asked for in its last session only"],
        expect: &["at_once", "exported", "imported", "overwritten", "not_created", "not_unlocked", "deleted", "refused", "refreshed", "expired", "audited"],
        known: &[Known { sig: "old-name-listed", run: w03::known_name }],
    }];
    simkit::main_warm(&props, 2);
}
