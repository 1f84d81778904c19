//! Keys, secrets, proofs and futures under failing entropy, corrupted storage, hostile networks and crashes.

mod entropy;
mod fut;
mod keys;
mod memory;
mod merkle;
mod persist;
mod sign;
mod vault;

use simkit::PropertyDef;

#[global_allocator]
static ALLOC: memory::Watch = memory::Watch;

fn main() {
    // The randomness crate asks the kernel once per process what it supports: not part of any run.
    let _ = witnet_crypto::cipher::generate_random(1);
    simkit::main(&[
        PropertyDef {
            id: "C01",
            run: merkle::run,
            quick_runs: 12_000,
            thorough_runs: 600_000,
            rule: "a run is a prover that builds trees from interleaved leaf streams and light clients that get its proofs over a \
                   network that corrupts, truncates, extends, mixes and replays them; non-trivial: a message was tampered with",
            state_measure: "distinct (leaf count, proof index, lemma length, tampering) tuples",
            real: &["crypto/src/merkle.rs", "crypto/src/hash.rs"],
            stub: &["network between prover and clients"],
            assumptions: &["SHA-256 has no collisions among the values of a run"],
            expect: &["bit_flip", "node_lost", "node_duplicated", "nodes_swapped", "mixed_up", "oversized_proof", "stale_root", "index_changed", "duplicate_leaves", "promoted_leaf", "node_inserted", "truncated"],
            known: &[],
        },
        PropertyDef {
            id: "C02",
            run: entropy::run,
            quick_runs: 12_000,
            thorough_runs: 600_000,
            rule: "a run requests random bytes and mnemonics while the operating system's entropy source delivers short reads, is \
                   interrupted or fails at scripted calls; non-trivial: such a fault fired",
            state_measure: "distinct (request, fault plan, outcome) tuples",
            real: &["crypto/src/cipher.rs (generate_random)", "crypto/src/mnemonic.rs", "rand, getrandom"],
            stub: &["getrandom(2) and the getrandom symbol of libc"],
            assumptions: &["rand's generator expands the seed it gets without losing it"],
            expect: &["short_read", "eintr", "entropy_failure", "failure_in_the_middle", "mnemonic_without_entropy"],
            known: &[],
        },
        PropertyDef {
            id: "C03",
            run: keys::run,
            quick_runs: 6_000,
            thorough_runs: 300_000,
            rule: "a run is a wallet that walks down a derivation path, exports its key to a disk at some steps, crashes and resumes from \
                   what the disk gives back: intact, corrupted, torn, stale or crafted; non-trivial: a crash or a corruption happened",
            state_measure: "distinct derivation paths exported",
            real: &["crypto/src/key.rs", "secp256k1, bech32"],
            stub: &["disk with exported keys"],
            assumptions: &["secp256k1 arithmetic is right (shared with the reference derivation)", "bech32 detects the injected corruption, or the result is the original"],
            expect: &["crash", "disk_corruption", "torn_export", "stale_export", "crafted_import", "deep_path", "hardened", "bad_seed_length", "step_too_large"],
            known: &[],
        },
        PropertyDef {
            id: "C04",
            run: sign::run,
            quick_runs: 4_000,
            thorough_runs: 300_000,
            rule: "a run is several signers whose signed messages travel over a network that corrupts, truncates and mixes up messages, \
                   signatures and senders; non-trivial: a message was tampered with",
            state_measure: "distinct (tampering, outcome) per message",
            real: &["crypto/src/signature.rs", "crypto/src/key.rs", "secp256k1"],
            stub: &["network"],
            assumptions: &["ECDSA signatures cannot be forged by random corruption"],
            expect: &["msg_corrupted", "sig_corrupted", "wrong_sender", "truncated", "mixed_up"],
            known: &[],
        },
        PropertyDef {
            id: "C05",
            run: vault::run,
            quick_runs: 12_000,
            thorough_runs: 600_000,
            rule: "a run is a vault (password, salt, iterations, encrypted seed) written to a disk, with crashes, password changes, wrong \
                   passwords and corrupted, torn or stale files in between; non-trivial: such a fault fired",
            state_measure: "distinct (secret length, fault, outcome) tuples",
            real: &["crypto/src/cipher.rs", "crypto/src/pbkdf2.rs", "crypto/src/mnemonic.rs", "crypto/src/hash.rs", "block-modes, ring"],
            stub: &["disk with the vault file", "getrandom"],
            assumptions: &["the AES block function is right (shared with the reference CBC)"],
            expect: &["wrong_password", "vault_corrupted", "vault_truncated", "crash", "stale_iv", "bad_key_length"],
            known: &[],
        },
        PropertyDef {
            id: "P01",
            run: memory::run,
            quick_runs: 20_000,
            thorough_runs: 1_000_000,
            rule: "a run creates, copies, moves, converts and mutates protected values and keys across threads and futures, ended by drop, \
                   unwinding, cancellation or the death of a thread at any scheduling point; every block given back to the allocator \
                   is searched for the secrets; non-trivial: an abnormal end or a context switch happened",
            state_measure: "distinct sequences of (constructor, way out)",
            real: &["protected/src/lib.rs", "protected/src/serde.rs", "crypto/src/key.rs", "crypto/src/pbkdf2.rs", "memzero"],
            stub: &["allocator (the system's, searching freed blocks; growing a block always moves it)", "thread scheduler"],
            assumptions: &["only heap memory is searched", "buffers that the caller owns are the caller's to wipe"],
            expect: &["unwind", "thread_killed", "future_cancelled", "moved_out", "replaced", "mutated", "serde", "key_export", "key_import", "key_concat"],
            known: &[],
        },
        PropertyDef {
            id: "P02",
            run: persist::run,
            quick_runs: 20_000,
            thorough_runs: 1_000_000,
            rule: "a run stores protected values and keys in the formats the node and wallet use, on a disk that tears, truncates and \
                   corrupts, and restarts from it; non-trivial: a restart or a corruption happened",
            state_measure: "distinct (kind, format, fault, outcome) tuples",
            real: &["protected/src/serde.rs", "crypto/src/key.rs (serde)", "crypto/src/mnemonic.rs (serde)", "bincode, serde_json"],
            stub: &["disk"],
            assumptions: &[],
            expect: &["restart", "torn_write", "corruption", "empty_value", "non_ascii"],
            known: &[],
        },
        PropertyDef {
            id: "F01",
            run: fut::run,
            quick_runs: 60_000,
            thorough_runs: 4_000_000,
            rule: "a run polls flattened futures in a seeded order with spurious and missing wake-ups and cancellations; non-trivial: at \
                   least one pending poll or cancellation",
            state_measure: "distinct (nesting, outcome, polls) tuples",
            real: &["futures_utils/src/lib.rs", "futures::future::Map"],
            stub: &["executor and the inner futures"],
            assumptions: &[],
            expect: &["cancelled", "spurious_poll", "pending", "outer_error", "inner_error", "nested"],
            known: &[],
        },
    ]);
}
