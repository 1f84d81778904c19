PROPS = []
def P(**k): PROPS.append(k)

P(id="S01", title="The in-memory store is linearizable, with atomic batches and snapshot scans",
  statement="Every concurrent history of get, put, delete, batch write and prefix scan on the in-memory storage backend is equivalent to some sequential history of a map from keys to values, in an order consistent with real time. A batch takes effect all at once, a prefix scan returns exactly the entries with that prefix at one instant, and a client that dies holding a scan does not corrupt or block the others.",
  over=["schedules", "histories", "fault_sequences"],
  quant="all interleavings of the operations of any number of threads on one backend, all key and value bytes, all instants at which a reader panics",
  tests="the existing tests call the backend from one thread with a handful of keys; no interleaving, no batch under concurrent readers, no scan under writers",
  files=["storage/src/backends/hashmap.rs", "storage/src/storage.rs"],
  mech=[("read-write lock around the map, batches under one write guard, scans holding the read guard", "storage/src/backends/hashmap.rs")],
  observe=["witnet_storage::storage::Storage"],
  note="Seeded search over interleavings of the real backend code at lock granularity, histories checked for linearizability against a sequential map. Assumes the standard RwLock excludes as documented (it is replaced by a simulated one).")

P(id="S02", title="The persistent store keeps acknowledged writes and never invents data",
  statement="On the persistent backend a write that was acknowledged is read back, byte for byte, until a later write to the same key replaces it, across process crashes, and a batch is stored completely or not at all. A call during which the disk failed reports the failure and leaves the old or the new value, never another one; reads and prefix scans return exactly what is stored. The backend that stores nothing refuses every operation without effect.",
  over=["histories", "crash_points", "fault_sequences", "inputs"],
  quant="all histories of operations, all points at which the process or machine dies, all sequences of disk errors, all key and value bytes",
  tests="the tests use a mocked database with two keys and no failure at all",
  files=["storage/src/backends/rocks.rs", "storage/src/backends/nobackend.rs", "storage/src/storage.rs"],
  mech=[("one RocksDB write call per operation, WriteBatch for batches, errors mapped to Error::Db", "storage/src/backends/rocks.rs"), ("prefix filter over an ordered iterator", "storage/src/backends/rocks.rs")],
  observe=["witnet_storage::storage::Storage"],
  note="Seeded search over histories, disk errors, crashes and power loss on the real adapter, against a reference map with the set of allowed values per key. RocksDB itself is a stub whose write call is one atomic log record.")

P(id="R01", title="Reputation is conserved packet by packet",
  statement="The reputation of an identity equals the sum of its unexpired, unspent packets, the total equals the sum over identities, and an identity with nothing left is not listed. Gains are refused when they would expire before an earlier gain, expiry removes exactly the packets whose time has come, a penalty takes from the packets that expire last and never more than the owner has, and a rejected or failing operation changes nothing it does not report. All replicas that apply the same history, through restarts from a snapshot included, hold equal state.",
  over=["histories", "inputs", "fault_sequences", "crash_points"],
  quant="all histories of gains, expirations and penalties, with failing penalty functions, at all amounts and times, with any hash seeds",
  tests="the tests run a dozen fixed histories of two or three identities; none fails half way, restarts or compares replicas",
  files=["reputation/src/trs.rs"],
  mech=[("queue of packets ordered by expiry, cache of per-identity totals updated together with it", "reputation/src/trs.rs")],
  observe=["witnet_reputation::TotalReputationSet"],
  note="Seeded search over histories against a reference ledger, on several replicas with different hash seeds; found and fixed a defect. Amounts stay below overflow.")

P(id="R02", title="The active set is exactly the identities seen in the sliding window",
  statement="After any history of accepted and refused updates an identity is active exactly if it was reported in one of the epochs of the window that ends at the last update; the count of active identities and the listing agree with this. An update that is not newer than the last one is refused and changes nothing (epoch zero is accepted and changes nothing), a gap in the epochs ages the set as if empty updates had come, and replicas with the same history agree, through restarts included.",
  over=["histories", "inputs", "fault_sequences", "crash_points"],
  quant="all sequences of epochs (gaps, duplicates, stale ones), all identity lists, all window lengths, all hash seeds",
  tests="the tests push a few vectors into one set with a fixed window; no stale delivery, no restart, no gap longer than the window",
  files=["reputation/src/ars.rs"],
  mech=[("queue of the identities per epoch and reference counts per identity", "reputation/src/ars.rs")],
  observe=["witnet_reputation::ActiveReputationSet"],
  note="Seeded search over delivery histories against a reference that recomputes the window, on several replicas.")

P(id="R03", title="Nodes that applied the same blocks agree on every reputation figure",
  statement="Nodes that applied the same sequence of reputation updates report the same totals, activity and per-identity reputation, however the updates were lost, delayed, duplicated, reordered or re-sent on the way and wherever the nodes crashed and resumed from an older snapshot. Once the network heals and messages flow, every node reaches the head of the chain with that same state.",
  over=["schedules", "fault_sequences", "crash_points", "histories"],
  quant="all network behaviours, crash points and snapshot ages over all chains of updates",
  tests="no test runs two instances side by side or restores one from a snapshot in the middle of a history",
  files=["reputation/src/trs.rs", "reputation/src/ars.rs"],
  mech=[("updates are a function of the ordered history only; snapshots carry the complete state", "reputation/src/trs.rs, reputation/src/ars.rs")],
  observe=["witnet_reputation::TotalReputationSet", "witnet_reputation::ActiveReputationSet"],
  note="Seeded search over network faults, partitions, crashes and snapshot restores on simulated time, with bounded liveness after the last fault. The chain is scripted; the update order mimics the node's chain manager.")

P(id="C01", title="A Merkle proof convinces exactly of the leaves that are in the tree",
  statement="The root computed for a list of leaves is the same whether computed at once or leaf by leaf, and depends on every leaf and its position. The inclusion proof of each leaf verifies against that root, and a proof that was corrupted, truncated, extended, taken from another leaf, or presented against another root or position does not verify; no proof, however long or hostile, makes the verifier crash.",
  over=["inputs", "fault_sequences", "schedules"],
  quant="all leaf lists and lengths, all interleavings of incremental builders, all ways a network can damage, mix or replay proofs, all indices and lemma lengths",
  tests="the tests compare a few fixed trees up to 13 leaves with themselves; no corrupted proof, no proof longer than the tree is deep",
  files=["crypto/src/merkle.rs", "crypto/src/hash.rs"],
  mech=[("pairwise layer folding with promotion of an odd node; proof index walked bit by bit", "crypto/src/merkle.rs")],
  observe=["crypto::merkle::{merkle_tree_root, ProgressiveMerkleTree, InclusionProof}"],
  note="Seeded search over leaf streams and damaged proofs in transit against an independent reference tree; found and fixed a crash. Assumes no SHA-256 collisions.")

P(id="C02", title="No secret is made without entropy",
  statement="Random bytes and mnemonics come, in full length, from the operating system's entropy source, and a result is only returned when the source delivered. When the source fails the caller gets an error or a panic, never predictable or partly filled bytes; short reads and interruptions are retried. Two requests never share their output.",
  over=["fault_sequences", "inputs", "schedules"],
  quant="all sequences of short reads, interruptions and failures of the entropy source, all request lengths and mnemonic sizes",
  tests="the tests ask once, on a machine where the source works, and check the length",
  files=["crypto/src/cipher.rs", "crypto/src/mnemonic.rs"],
  mech=[("try_fill_bytes with error propagation", "crypto/src/cipher.rs"), ("mnemonic entropy drawn through generate_random", "crypto/src/mnemonic.rs")],
  observe=["crypto::cipher::generate_random", "crypto::mnemonic::MnemonicGen"],
  note="Seeded search over scripted failures of getrandom(2) under the real code and the real rand crate.")

P(id="C03", title="An exported wallet key comes back unchanged or is refused",
  statement="A key derived along any path equals the one the BIP-32 standard prescribes, whether derived at once or step by step with exports, crashes and imports between the steps. Every key that can be derived can be exported and imported again with its path; an export that was corrupted, torn or crafted is refused with an error or imports as what it says, and never crashes. Seeds of unsupported length are refused.",
  over=["inputs", "crash_points", "fault_sequences", "histories"],
  quant="all seeds, derivation paths (hardened or not, of any depth), export points, corruptions of the exported text",
  tests="the tests compare a few published vectors; no deep path, no corrupted or crafted import, no interleaving of export and derivation",
  files=["crypto/src/key.rs"],
  mech=[("HMAC-SHA512 child derivation", "crypto/src/key.rs"), ("SLIP-32 encoding with bech32 checksum", "crypto/src/key.rs")],
  observe=["crypto::key::{MasterKeyGen, ExtendedSK, ExtendedPK, KeyPath}"],
  note="Seeded search over paths, crash points and damaged exports against an independent BIP-32 derivation; found and fixed two defects. The curve arithmetic is shared with the reference.")

P(id="C04", title="A signature vouches for one message by one key",
  statement="A signature made with a secret key over a message verifies with the matching public key. It does not verify for a message, key or signature that was changed in transit or swapped with another one; signing and verifying always end in a result. Signing the same message with the same key gives the same signature on every node.",
  over=["inputs", "fault_sequences", "schedules"],
  quant="all keys and messages, all corruptions and mix-ups in transit, all interleavings of signers",
  tests="one test signs one fixed message and verifies it; nothing is tampered with",
  files=["crypto/src/signature.rs", "crypto/src/key.rs"],
  mech=[("secp256k1 sign and verify with errors returned", "crypto/src/signature.rs")],
  observe=["crypto::signature::{sign, verify}"],
  note="Seeded search over keys, messages and tampering in transit. ECDSA unforgeability is assumed.")

P(id="C05", title="What was locked with a password opens with it, and only intact",
  statement="Data encrypted under a password-derived key is decrypted to exactly the original bytes with the same password, salt, iterations and vector, through crashes, password changes and re-encryption. With a wrong password, or from a damaged or truncated file, the result is an error or different bytes, never the original as if nothing had happened and never a crash; files that are not whole blocks and keys or vectors of wrong length are refused. Mnemonics give back the same words and the same seed, and the derivation matches the PBKDF2 and AES-CBC standards.",
  over=["inputs", "fault_sequences", "crash_points", "histories"],
  quant="all secrets, passwords, salts, iteration counts, file damages and crash points",
  tests="the tests encrypt one text and decrypt it; two fixed PBKDF2 vectors",
  files=["crypto/src/cipher.rs", "crypto/src/pbkdf2.rs", "crypto/src/mnemonic.rs", "crypto/src/hash.rs"],
  mech=[("AES-256-CBC with PKCS#7", "crypto/src/cipher.rs"), ("PBKDF2-HMAC-SHA256", "crypto/src/pbkdf2.rs"), ("BIP-39 through the bip39 crate", "crypto/src/mnemonic.rs")],
  observe=["crypto::cipher::{encrypt_aes_cbc, decrypt_aes_cbc}", "crypto::pbkdf2::pbkdf2_sha256", "crypto::mnemonic::Mnemonic"],
  note="Seeded search over vault histories with crashes and damaged files against reference CBC, PBKDF2 and BIP-39 seed derivations; the AES block function is shared.")

P(id="P01", title="A secret is gone from memory when its owner is",
  statement="Once a protected value or an extended secret key is dropped, replaced or consumed, and on whatever way that happens (end of scope, unwinding, a cancelled future, a dying thread), no block of heap memory that was given back contains its bytes. This covers the copies made inside the library while converting, cloning, deriving, exporting or importing. Printing a protected value does not reveal it.",
  over=["programs", "schedules", "fault_sequences", "inputs"],
  quant="all programs over the constructors and conversions of protected values and keys, all ways and instants of ending them",
  tests="no test looks at memory after a drop; reading freed memory is not possible from a unit test without its own allocator",
  files=["protected/src/lib.rs", "protected/src/serde.rs", "crypto/src/key.rs", "crypto/src/pbkdf2.rs"],
  mech=[("buffers wiped on drop by memzero", "protected/src/lib.rs"), ("protected intermediate buffers in key derivation, export and import", "crypto/src/key.rs")],
  observe=["witnet_protected::{Protected, ProtectedString}", "crypto::key::ExtendedSK"],
  note="Every heap block freed while a simulated program runs is searched for the secrets by the harness's allocator; found and fixed two leaks. Stack memory and registers are not searched.")

P(id="P02", title="Protected values and keys survive storage unchanged, or not at all",
  statement="A protected value, protected text, key, path or mnemonic that was serialized can be deserialized to an equal value in every format the system stores it in. From a torn, truncated or corrupted record the result is an error or a well-formed value of the same type, never a crash.",
  over=["inputs", "crash_points", "fault_sequences"],
  quant="all values (empty, non-ASCII, long), all formats, all torn or damaged records",
  tests="one test serializes one value; nothing is read back from a damaged record, text values never",
  files=["protected/src/serde.rs", "crypto/src/key.rs", "crypto/src/mnemonic.rs"],
  mech=[("hand-written Serialize and Deserialize implementations", "protected/src/serde.rs")],
  observe=["serde implementations of witnet_protected and crypto::key"],
  note="Seeded search over stored values and damaged records through restarts; found and fixed a defect.")

P(id="F01", title="Flattening a future preserves its outcome, progress and cancellation",
  statement="A flattened future resolves exactly when the future under it resolves, to its inner value or to its inner or outer error converted into the common type. It polls that future once per poll and never after completion, forwards every wake-up, and dropping it at any point drops that future.",
  over=["schedules", "inputs", "fault_sequences"],
  quant="all poll schedules, spurious wake-ups and cancellation points, all outcomes, nested flattening included",
  tests="no test exists for it",
  files=["futures_utils/src/lib.rs"],
  mech=[("TryFutureExt2::flatten_err over Map", "futures_utils/src/lib.rs")],
  observe=["futures_utils::TryFutureExt2"],
  note="Seeded search over executor schedules with spurious polls and cancellations against the expected outcome and poll log.")

P(id="M01", title="A derived partial struct mirrors its original field by field",
  statement="For every annotated struct the generated partial struct has the same fields with the same names, each of the original type wrapped in an option unless it is skipped or given another type.",
  over=["programs", "inputs"],
  quant="all annotated struct definitions",
  tests="the tests cover a handful of annotated structs",
  files=["partial_struct/src/lib.rs"],
  mech=[("derive macro", "partial_struct/src/lib.rs")],
  na="the macro is a pure function from source text to source text, run by the compiler: no schedule, clock, I/O, fault or second party for the property to depend on")

P(id="D01", title="The unspent outputs on disk and in memory are exactly those of the chain",
  statement="After any history of blocks an output is unspent exactly if a block up to the asked state created it and none spent it, whether it is asked of the confirmed state, of the state with pending blocks, by pointer, by owner or through the iterator, and each owner's outputs and balances add up to the same set. Confirmed changes are on disk before they are reported as stored; after a failed write, a crash or a power loss the node restarts from a state the chain had, never from a mixture, and rolling back pending blocks restores the confirmed state exactly.",
  over=["histories", "crash_points", "fault_sequences"],
  quant="all histories of blocks, confirmations, rollbacks and restarts, all failing or torn disk writes, all points of power loss",
  tests="the tests insert and remove a few outputs in one pool without any disk error, crash or restart",
  files=["data_structures/src/utxo_pool.rs", "data_structures/src/utxo_pool/utxo_db.rs"],
  mech=[("diff of pending changes over the stored set, persisted by one write batch", "data_structures/src/utxo_pool.rs"), ("cache of outputs by owner, updated together with the database", "data_structures/src/utxo_pool/utxo_db.rs")],
  observe=["witnet_data_structures::utxo_pool::UnspentOutputsPool"],
  note="Seeded search over block histories on a simulated disk against a reference set of outputs; found and fixed a defect. RocksDB is a stub, generated protobuf code is a shim.")

P(id="D02", title="The transaction pool holds what came in and is still possible, within its limit",
  statement="A pending transaction is in the pool once, under its hash, from the moment it is accepted until a block includes it, a block spends one of its coins, it is removed, or it is dropped to make room; nothing else leaves and nothing of it remains behind. The weight of the pool is the sum over its transactions and never exceeds the configured limit; room is made by dropping transactions with the lowest fee per weight of their kind, of the kind that is over its share, and only as far as needed; a transaction below a configured minimum is refused and reported. Listings are in order of fee per weight. The commits picked for a block are as many per request as it has witnesses, one per witness, without two that spend the same coin; when the chain is lost the unconfirmed transactions come out exactly once.",
  over=["histories", "inputs", "fault_sequences"],
  quant="all histories of arrivals (repeated, malleated, conflicting), blocks, limits, commits, reveals and losses of synchronization",
  tests="the tests insert a few transactions of one or two kinds; none inserts a transaction twice, mixes stakes with a limit or clears part of the pool and looks at the rest",
  files=["data_structures/src/chain/mod.rs"],
  mech=[("maps by kind with sorted indices, a map from coin to spenders, running totals of weight", "data_structures/src/chain/mod.rs (TransactionsPool)")],
  observe=["witnet_data_structures::chain::TransactionsPool"],
  note="Seeded search over histories of one pool against a reference pool; found and fixed five defects. Signatures are not real.")

P(id="D03", title="Every data request runs through its stages once and its value is accounted for",
  statement="A data request accepts commitments from the block that includes it until a block with commitments or the end of its extra rounds, then reveals until all witnesses revealed or the extra rounds end, then only its tally; transactions in another stage, or for an unknown request, are refused and change nothing, and every request becomes ready for tally within its rounds. The requests offered to witnesses are exactly those that accept commitments. The own reveal is sent again after every block from the inclusion of the own commitment until its own inclusion, and never before or after. The tally pays, refunds and blames every witness according to its honesty: what it pays is what was locked, minus what was slashed and is to disappear. A restarted node that goes through the same blocks again holds the same state.",
  over=["histories", "crash_points", "fault_sequences", "inputs"],
  quant="all histories of requests, commitments, reveals and tallies (missing, late, early, repeated), all numbers of witnesses and rounds, all verdicts, before and after the protocol changes, all restart points",
  tests="the tests drive one request along the expected path and check a handful of tallies with fixed numbers",
  files=["data_structures/src/data_request.rs", "data_structures/src/chain/mod.rs"],
  mech=[("stage machine per request, index of open requests by epoch, reveals waiting to be sent", "data_structures/src/data_request.rs"), ("create_tally, calculate_witness_reward, calculate_tally_change", "data_structures/src/data_request.rs")],
  observe=["witnet_data_structures::data_request::{DataRequestPool, create_tally}"],
  note="Seeded search over block histories with untimely transactions and restarts against a reference stage machine and ledger; found and fixed a defect. The verdict of the tally function is drawn at random here.")

P(id="D04", title="Nodes never see consensus on different superblocks, and see it when it is due",
  statement="Every node computes the same committee for a superblock from the same history: members of the active set fixed by the previous superblock, as many as asked for or all of them, or the committee prescribed for that period. A vote counts exactly once per committee member and only for the current superblock; votes for the next one are kept and judged when it is made, others are refused, and a member that votes for two superblocks is left out on every node that saw both. With fewer traitors than the threshold allows no two nodes see consensus on different superblocks of the same index; when enough members voted alike and the votes arrived, every node sees it; otherwise the node reports a contrary majority, a missing majority or missing votes truthfully. No sequence of votes makes a node fail. A superblock attests exactly the blocks, data requests, tallies and keys it was made from, and the state survives a restart unchanged.",
  over=["schedules", "histories", "fault_sequences", "crash_points"],
  quant="all networks, forks, orders, losses and duplicates of votes, all double and re-signed votes, all committee sizes up to ten, all restart points",
  tests="the tests feed one state object with a few votes in one order; no second node, no fork, no member that signs the same vote twice",
  files=["data_structures/src/superblock.rs", "data_structures/src/chain/mod.rs"],
  mech=[("mempool of votes by identity and by superblock, penalties for double votes", "data_structures/src/superblock.rs (SuperBlockVotesMempool)"), ("committee selection and two thirds threshold", "data_structures/src/superblock.rs")],
  observe=["witnet_data_structures::superblock::SuperBlockState"],
  note="Seeded search over networks of up to ten nodes against a reference of votes and committees; found and fixed two defects. Signatures are not real and the chain manager is scripted.")

P(id="D05", title="Stake is neither made nor lost and every query tells the same story",
  statement="The staked coins of each validator and withdrawer pair are what was staked and rewarded minus what was unstaked and reserved; a refused operation changes nothing. Total, counts, queries by validator, withdrawer or pair, power, rank and census all describe the same entries; an entry is gone once it is emptied and no operation affects another entry. Coin age is averaged when stake is added, and reset for the validator that mines and those ranked above it, further into the future the better their rank. A tracker that was cloned or stored and loaded behaves from then on as the one it was copied from.",
  over=["histories", "crash_points", "inputs"],
  quant="all histories of stakes, unstakes, rewards, collaterals and age resets among validators with several withdrawers, all amounts, all restart points",
  tests="the tests run a few operations on fresh trackers; none continues on a restarted tracker, refuses an operation on an unknown key or removes more than there is",
  files=["data_structures/src/staking/stakes.rs", "data_structures/src/staking/stake.rs"],
  mech=[("entries by key shared with indices by validator and withdrawer, rebuilt from storage", "data_structures/src/staking/stakes.rs"), ("weighted average of coin age", "data_structures/src/staking/stake.rs")],
  observe=["witnet_data_structures::staking::stakes::Stakes"],
  note="Seeded search over histories of one tracker and its restarts against a map of entries; found and fixed four defects.")
P(id="V01", title="Nodes never disagree on a confirmed block and a disturbed node catches up",
  statement="What any node reports as confirmed is final: no node ever reports another block as confirmed for that epoch, confirms past it without having it, or replaces it, whatever happens to one node of an otherwise healthy network (crashes and power losses at any point, even in the middle of a write, cuts, resets, slow links, stalls, a wrong clock). The chain of every node is at all times linked, ends at the tip the node announces, and all its blocks can be served. No node panics or gives up, and when the disturbance is over all nodes are synchronized on one chain that grows and gets confirmed.",
  over=["histories", "schedules", "crash_points"],
  quant="all schedules of 4 to 6 nodes, all sequences of faults that hit one of them, all points of their storage writes at which it may crash",
  tests="the tests call single functions; none runs two nodes, restarts one, or lets messages be late or lost",
  files=["node/src/actors/chain_manager", "node/src/actors/session", "node/src/actors/sessions_manager", "node/src/actors/connections_manager", "node/src/actors/inventory_manager", "node/src/actors/epoch_manager", "p2p/src/sessions"],
  mech=[("state machine of the synchronization and its restarts from storage", "node/src/actors/chain_manager/handlers.rs"), ("superblock voting and consolidation", "node/src/actors/chain_manager/mod.rs"), ("persistence of chain state and blocks", "node/src/actors/chain_manager/actor.rs"), ("sessions and their registration", "node/src/actors/session/actor.rs")],
  observe=["JSON-RPC and actor messages: node status, blocks by epoch range, highest beacon, block confirmation, blocks by hash"],
  note="Seeded search over schedules and faults of whole nodes in one process (every actor real; runtime, sockets, disk and clock simulated). Found and fixed three defects: a node that could not rejoin because a duplicate session unregistered a live one, and two panics of a node that caught up past a superblock. Faults that hit several nodes at once are outside the property: the consensus assumes a synchronous honest majority.")
P(id="V02", title="Coins are conserved, spent once and only by their owner on every node",
  statement="Whatever clients and node wallets send (valid transfers and data requests, double spends to different nodes, replays, forged signatures, missing, locked or repeated coins, overflowing or excessive outputs) and whatever happens to one node (crashes, power losses, cuts, stalls, a wrong clock), every block of every node's chain only spends coins that exist, are unlocked and are signed for, no transaction or double spend is included twice, and coins in circulation plus coins locked by open data requests plus coins burned equal the genesis coins plus one reward per block. What a synchronized node says about coins, balances, supply and data requests is what the blocks of its chain imply. No valid transaction is refused by a synchronized node, no forged one is accepted, and once faults stop every valid transaction is included and every data request gets a result.",
  over=["histories", "schedules", "crash_points", "inputs"],
  quant="all histories of transactions, all schedules of 4 to 6 nodes, all sequences of faults that hit one of them",
  tests="the tests validate single transactions against hand-made states; none follows coins through blocks, reorganisations and restarts",
  files=["validations/src/validations.rs", "node/src/actors/chain_manager", "data_structures/src/utxo_pool.rs", "data_structures/src/data_request.rs", "data_structures/src/transaction_factory.rs", "data_structures/src/chain/mod.rs"],
  mech=[("validation of blocks and transactions", "validations/src/validations.rs"), ("block building", "node/src/actors/chain_manager/mining.rs"), ("applying blocks to the state", "node/src/actors/chain_manager/mod.rs"), ("pool of pending transactions", "data_structures/src/chain/mod.rs"), ("wallet of the node", "data_structures/src/transaction_factory.rs")],
  observe=["actor messages behind the JSON-RPC: balances, coins, supply, data request reports, transactions accepted or refused"],
  note="Seeded search over histories, schedules and faults of whole nodes against a ledger written from the protocol documents that is rebuilt from blocks alone and compared with what nodes report. Found and fixed four defects.")
P(id="V04", title="What the oracle reports is what its witnesses saw",
  statement="For every data request that a network of nodes includes, each witness commits to and reveals the result of the request's scripts over the answers that this very node got from the sources (its error when they failed it or came too late), whatever the other nodes were told. The result in the tally, and who is found out of consensus, is what the tally rules say of the revealed values and the number of commitments, on every node alike: a majority of the required size decides, minorities that lie are marked and never change the result. Each request gets exactly one result, also when witnesses crash between commitment and reveal.",
  over=["histories", "schedules", "fault_sequences", "inputs"],
  quant="all mixes of data requests, all divergent, wrong, late and failing answers of sources per node, all schedules of 4 to 7 nodes and faults that hit one of them, before and after proof of stake",
  tests="the tests tally hand-made reveals in one function; none runs a request from source to tally across nodes that were told different things",
  files=["node/src/actors/chain_manager/mining.rs", "node/src/actors/rad_manager", "validations/src/validations.rs", "rad/src", "data_structures/src/data_request.rs"],
  mech=[("commit and reveal of what this node retrieved", "node/src/actors/chain_manager/mining.rs"), ("preconditions, filters and reducer of the tally", "rad/src/conditions.rs"), ("creation and validation of tallies", "validations/src/validations.rs")],
  observe=["JSON-RPC data request reports", "blocks: reveals and tallies", "answers given to each node's HTTP client"],
  note="Seeded search over requests, answers per node, schedules and faults of whole nodes; every reveal is compared with what its node was told and every result and verdict with a reference of the tally rules.")

P(id="V09", title="What a node knows follows from its chain alone",
  statement="However a node came to its chain — block after block, by synchronization, by rewinding to an earlier epoch and replaying the stored blocks, after a crash at any moment of that, or from an older copy of its disk — at a given block it says the same as any other node at that block: the same coins, balances, supply, stakes, data requests, reputations, active upgrades and powers, all of which follow from the blocks. A rewound node keeps exactly the blocks up to the epoch it was asked for, never panics on its own valid blocks, and gets back into consensus with the others.",
  over=["inputs", "histories", "schedules", "fault_sequences", "crash_points"],
  quant="all chains of 4 or 5 nodes with their traffic before and after the protocol upgrades, all target epochs, moments of crashes during and after the rewinding, lost unsynced writes, older disks, and message delays",
  tests="no test rewinds a node or compares the states that different histories lead to",
  files=["node/src/actors/chain_manager/handlers.rs", "node/src/actors/chain_manager/mod.rs", "data_structures/src/chain/mod.rs", "data_structures/src/utxo_pool.rs", "data_structures/src/staking/stakes.rs", "reputation/src", "node/src/storage_mngr.rs"],
  mech=[("rewinding and replaying stored blocks", "node/src/actors/chain_manager/mod.rs"), ("recognizing the genesis block", "data_structures/src/chain/mod.rs"), ("persisting chain state and coins together", "node/src/storage_mngr.rs"), ("synchronization in batches of superblocks", "node/src/actors/chain_manager/handlers.rs")],
  observe=["block chain, coins, balances, supply, stakes and requests by the ChainManager's messages", "getReputation, signalingInfo and queryPowers", "what other nodes said at the same block"],
  note="Seeded search over whole nodes in one simulated network. Found and fixed two defects. Disk errors are left to S01 and S02; a node stays behind until the superblock after the epoch it was rewound to.")

P(id="O01", title="Every data request has a result, and all who compute it agree",
  statement="Whatever the scripts of a data request and whatever its sources answer (any bytes, any status, late, broken off), a witness always ends with a value or an error within its time limit and can encode it; it never panics or hangs. Two witnesses given the same answers reach the same result. Whatever bytes witnesses reveal, miner and validators decode them alike and compute the same tally, and what was encoded decodes to the same value.",
  over=["inputs", "fault_sequences", "schedules"],
  quant="all scripts, valid and malformed, all answers of sources and their delays, all revealed bytes, under every protocol version and set of active improvement proposals",
  tests="the tests run each operator on a few hand-written inputs; none runs random scripts or hostile answers and reveals",
  files=["rad/src", "node/src/actors/rad_manager", "validations/src/validations.rs", "data_structures/src/radon_report.rs", "data_structures/src/radon_error.rs"],
  mech=[("scripts decoded and run with errors as values", "rad/src/script.rs"), ("retrieval with time limits, aggregation, tally", "rad/src/lib.rs"), ("results encoded and decoded", "rad/src/types/mod.rs")],
  observe=["RadManager's answer to ResolveRA", "validations::run_tally"],
  note="Seeded search over scripts, answers, faults of sources and hostile reveals with the real interpreter and oracle manager. Found and fixed five defects.")

P(id="O02", title="The result of a data request is what its scripts say",
  statement="The result a witness reports is the one the request's scripts define: each source's script applied call by call to the body that the source returned, the values of the most frequent type filtered and reduced by the aggregation script, an error when retrieval, a call, or agreement fails; a witness that retrieves through several transports only reports values on which they agree. The tally of revealed values is the reduction of the majority type after filtering; who revealed an error, who is out of consensus and the error that is reported when no majority of the required size exists follow from the reveals, the number of commitments and the required percentage alone.",
  over=["inputs", "fault_sequences", "histories"],
  quant="all documents, operators, arguments, filters, reducers, numbers of sources, transports and reveals, all percentages, all faults of sources",
  tests="the tests check each operator on a few constants and a few tallies of five reveals; no independent interpreter, no composition of operators, no large tally",
  files=["rad/src/operators", "rad/src/reducers", "rad/src/filters", "rad/src/conditions.rs", "rad/src/script.rs", "rad/src/lib.rs", "node/src/actors/rad_manager"],
  mech=[("operators", "rad/src/operators"), ("reducers and filters", "rad/src/reducers"), ("conditions on majorities", "rad/src/conditions.rs"), ("comparison of transports", "rad/src/lib.rs")],
  observe=["RadManager's answer to ResolveRA", "validations::run_tally: result, liars, errors"],
  note="Seeded search over typed random scripts, documents, faults and reveals, compared with an independent reference interpreter and tally. Cases whose result is unspecified (formatting of huge floats and the like) are skipped. Found and fixed two defects.")

P(id="V06", title="Staking moves coins as the chain says, across the switch to proof of stake",
  statement="From proof of eligibility through the staking phase to proof of stake, whatever mix of transfers, data requests, stakes and unstakes is sent (valid, forged, too small, overflowing, early, replayed) and whatever happens to one node: stakes only change as the blocks say (stakes, unstakes, block and witnessing rewards, collateral, penalties), never below the minimum or above the maximum, unstaked coins are only paid to the withdrawer, locked for the delay and never more than was staked; coins in circulation, staked, locked by requests and burned add up to genesis plus rewards; what a synchronized node says about stakes, supply, coins and requests is what its blocks imply; all nodes switch at the same epoch, keep producing blocks when validators come and go, and once faults stop every valid transaction is included and every data request gets a result.",
  over=["histories", "schedules", "crash_points", "inputs"],
  quant="all histories of transactions, all epochs at which the protocol changes, all schedules of 4 to 6 nodes, all sequences of faults that hit one of them",
  tests="the tests call the stake tracker and validations with hand-made states; none runs nodes across the switch of protocol",
  files=["data_structures/src/staking", "validations/src/validations.rs", "node/src/actors/chain_manager", "data_structures/src/data_request.rs", "data_structures/src/lib.rs"],
  mech=[("effect of a block on the stakes", "node/src/actors/chain_manager/mod.rs"), ("validation of stakes and unstakes", "validations/src/validations.rs"), ("eligibility to mine and witness", "data_structures/src/staking/stakes.rs"), ("protocol versions by epoch", "data_structures/src/proto/versioning.rs")],
  observe=["actor messages behind the JSON-RPC: stakes, balances, coins, supply, data request reports, transactions accepted or refused"],
  note="Seeded search over histories, schedules and faults of whole nodes that switch to proof of stake, against a ledger rebuilt from blocks alone. Found and fixed two defects and recorded three that need a coordinated upgrade as known findings, each shown by a directed run.")

P(id="V07", title="No peer can stop or mislead a node",
  statement="Whatever bytes a peer sends in whatever pieces and order (noise, wrong lengths, changed or incomplete messages, well-formed lies about chain tips, blocks, votes and superblocks, validly signed blocks that break any rule, replays), no node panics, stops or accepts what the rules forbid: its balances, coins and stakes stay those that follow from a chain of valid blocks, other nodes keep agreeing with it, and the transactions and requests of users still get included and confirmed once the hostile peers are gone.",
  over=["inputs", "schedules", "peers"],
  quant="all messages of hostile inbound peers, at any time of an epoch, in any number of connections",
  tests="unit tests decode a handful of well-formed messages; none feeds a running node malformed or dishonest ones, let alone checks that it survives and stays in consensus",
  files=["data_structures/src/proto/versioning.rs", "node/src/actors/session/handlers.rs", "node/src/actors/chain_manager/mod.rs", "node/src/actors/chain_manager/handlers.rs", "node/src/actors/codec.rs", "validations/src/validations.rs"],
  mech=[("frame codec and limits", "node/src/actors/codec.rs"), ("decoding of versioned messages", "data_structures/src/proto/versioning.rs"), ("handlers of messages of peers", "node/src/actors/session/handlers.rs"), ("validation of candidates and votes", "node/src/actors/chain_manager/mod.rs")],
  observe=["whether nodes panic or exit", "balances, coins, stakes and blocks over JSON-RPC messages", "inclusion and confirmation of what users sent"],
  note="Seeded search over what up to two hostile machines send to whole nodes; they sign with keys of eligible miners when they have them. They are inbound only. Found and fixed two defects with which one message stopped any node.")

P(id="V08", title="A node's API tells the truth and survives any request",
  statement="Every answer of a synchronized node over JSON-RPC about blocks, transactions, transfers, data requests, the chain, balances, coins, stakes and powers is what follows from the blocks of its chain, for all filters, orders, offsets and limits as documented; every request, also malformed, incomplete or extreme ones, gets one well-formed answer with its identifier and never makes the node panic or stop; and methods that use the owner's keys or money are refused when they are not enabled.",
  over=["inputs", "histories", "schedules"],
  quant="all requests and parameters, at all points of all chains",
  tests="the tests of the API parse and print fixed samples and list the methods; none compares an answer with a chain, and none sends a request no client of the project would send",
  files=["node/src/actors/json_rpc/api.rs", "node/src/actors/chain_manager/handlers.rs", "node/src/actors/inventory_manager/handlers.rs", "node/src/utils.rs"],
  mech=[("JSON-RPC methods", "node/src/actors/json_rpc/api.rs"), ("authorization of sensitive methods", "node/src/actors/json_rpc/api.rs"), ("queries of the chain state", "node/src/actors/chain_manager/handlers.rs")],
  observe=["JSON-RPC answers", "whether the node panics or exits"],
  note="Seeded search over questions to whole nodes that make blocks meanwhile; the oracle computes the answers from the node's own blocks. tryRequest is only asked without sources: the handler blocks its thread while it waits for them. Found and fixed one defect.")

P(id="N01", title="Only well-behaved peers stay, and only they are remembered",
  statement="Among any peers a node has no more sessions than its limits, one inbound session per address range where that is asked for, and sessions only with peers that greeted it as the protocol demands (network, clock, chain) and since then have neither hung up nor misbehaved; the others are cut off within seconds. It knows only addresses it was told about, never its own; only peers it has called and agreed with count as tried, and only those are told to others, once per question. A peer found useless leaves the tried ones and is not learnt again for the ice period, and may come back afterwards, also after a restart; tried peers survive restarts. Once there are enough well-behaved peers the node calls on as many as it is meant to.",
  over=["inputs", "histories", "schedules", "fault_sequences", "crash_points"],
  quant="all behaviours of peers (thirteen kinds, changing over time), orders of arrival, delays and cuts of messages, limits, ranges and periods, and restarts",
  tests="the tests call the buckets and the session lists as data structures; no node meets a peer that greets badly, misbehaves, races another or comes back after a restart",
  files=["p2p/src/peers/mod.rs", "p2p/src/sessions/mod.rs", "node/src/actors/session", "node/src/actors/sessions_manager", "node/src/actors/peers_manager", "node/src/actors/connections_manager"],
  mech=[("buckets of new, tried and iced addresses", "p2p/src/peers/mod.rs"), ("lists of sessions and ranges of inbound ones", "p2p/src/sessions/mod.rs"), ("handshake and its timeout", "node/src/actors/session/handlers.rs"), ("admission of sessions", "node/src/actors/sessions_manager/handlers.rs"), ("feelers, melting, persistence", "node/src/actors/peers_manager/mod.rs")],
  observe=["JSON-RPC peers and knownPeers", "connections as the peers see them", "the peers' answers to GetPeers"],
  note="Seeded search with one whole node over a simulated network among scripted peers. Found and fixed three defects. Outside the claim: an address already among the new ones stays there while it is iced; an address whose feeler times out is lost; peers that send no beacon in an epoch are iced.")

P(id="W01", title="The wallet tells its owner what the chain says",
  statement="Whatever blocks, reorganizations and superblocks a node serves, and however it lags, fails to answer, breaks connections or loses notifications, and whenever the wallet's process dies, is locked, unlocked or resynchronized: every balance the wallet tells is that of some block it has processed, and once the faults stop the wallet reaches the end of the chain within a few superblocks. Then its balances (available, locked, staked; confirmed and not), unspent outputs, movements (amounts, fees, kinds, epochs, inputs, outputs, results of data requests), addresses and what they received are exactly what the chain says about the owner's keys. After a restart what it shows is the truth about the last block it had kept.",
  over=["histories", "schedules", "crash_points", "fault_sequences"],
  quant="all chains of transactions of every kind, all reorganizations above the last superblock, all faults of the node and its connections, all points at which the process dies, all calls of the owner",
  tests="the tests index a few hand-made blocks into an empty wallet with a mocked node; no synchronization, reorganization, restart or fault",
  files=["wallet/src/repository/wallet", "wallet/src/actors/worker", "wallet/src/actors/app", "wallet/src/model.rs", "net/src/client/tcp/actors/jsonrpc.rs"],
  mech=[("what a block changes: outputs, stakes, addresses, movements", "wallet/src/repository/wallet/mod.rs"), ("pending blocks kept aside until a superblock confirms them", "wallet/src/repository/wallet/state.rs"), ("synchronization from the last kept block, by batches", "wallet/src/actors/worker/methods.rs"), ("reconnection and subscription to a node", "net/src/client/tcp/actors/jsonrpc.rs")],
  observe=["the wallet's JSON-RPC: notifications, get_balance, get_utxo_info, get_transactions, get_addresses"],
  note="Seeded search over chains, schedules, faults and crashes with the whole wallet process before a simulated node, against a ledger rebuilt from the blocks alone. Found and fixed fourteen defects. Change addresses of own payments that a resynchronization forgot are outside the claim.")

P(id="W02", title="What the wallet creates is what its owner asked for, and the chain accepts it",
  statement="A value transfer or data request created by the wallet has the requested outputs or request, in order, and nothing else but the change, which goes to an address of the owner that was never used (for a data request, to that of the first input). Its inputs are the owner's, unspent, unlocked, confirmed unless configured otherwise, among the selected ones and in the order of the chosen strategy; none is an input of a transaction sent before within the time it is held. The fee is the one asked for, absolute or by weight; the weight stays below the limit; signatures and all else pass the chain's own validation. What is shown (fee, weight, inputs, bytes) is what is sent. A preview changes nothing. Creation fails only when the eligible outputs can not pay for it.",
  over=["inputs", "histories", "crash_points"],
  quant="all amounts, numbers of outputs, fees, strategies, selections and requests, in all states of wallet and chain",
  tests="the tests create a few transactions from one or two outputs with a fixed fee and compare fields; nothing is validated as a node would, and no sequence of creations and blocks is run",
  files=["wallet/src/repository/wallet/mod.rs", "data_structures/src/transaction_factory.rs", "data_structures/src/fee.rs", "wallet/src/actors/app/handlers"],
  mech=[("selection of outputs and fee by weight", "data_structures/src/transaction_factory.rs"), ("eligible outputs, change, signatures", "wallet/src/repository/wallet/mod.rs"), ("outputs in use held until a timeout", "wallet/src/repository/wallet/mod.rs")],
  observe=["the wallet's JSON-RPC: create_vtt, create_data_request, send_transaction", "validations::validate_vt_transaction, validate_dr_transaction, verify_signatures"],
  note="Seeded search over requests and histories with the whole wallet process; the oracle is the chain's own validation plus a model of what was asked for. Found and fixed two defects.")


P(id="W03", title="A wallet opens only to its password and sessions, and keeps what it is told",
  statement="A wallet is created only from a valid seed with a long enough password, never over an existing one unless told to; the same seed is always the same wallet, also when imported from an encrypted backup. Unlocking needs the password of its last creation. A call is done only within a session that was opened, has not been closed, locked or deleted and has not expired, and only for that session's wallet. What is stored, labelled, derived, exported or signed is returned exactly, in this session, later ones, after a crash and after export and import. Calls made at once have the outcome of some order of them; a call that was answered with success survives a crash; a failed one changes nothing or all. Passwords, seeds, keys and stored values never reach the disk in the clear. Any other request, however malformed, is refused and harms nobody.",
  over=["inputs", "histories", "schedules", "crash_points"],
  quant="all sequences of calls, up to three at once on one to three worker threads that are preempted anywhere, with crashes and write errors at any write and all malformed parameters",
  tests="the tests create a wallet and unlock it with a mocked database; sessions, concurrent calls, crashes, write errors, imports and hostile parameters are not run",
  files=["wallet/src/actors/app/methods.rs", "wallet/src/actors/app/state.rs", "wallet/src/actors/worker/methods.rs", "wallet/src/repository/wallets/mod.rs", "wallet/src/db/encrypted/mod.rs", "wallet/src/crypto.rs"],
  mech=[("sessions and their expiration", "wallet/src/actors/app/state.rs"), ("encryption by a key from password, salt and iv", "wallet/src/db/encrypted/mod.rs"), ("creation under a lock", "wallet/src/actors/worker/methods.rs"), ("validation of backups", "wallet/src/actors/app/methods.rs")],
  observe=["the wallet's JSON-RPC: create_wallet, validate_mnemonics, unlock_wallet, lock_wallet, refresh_session, close_session, get, set, generate_address, get_addresses, sign_data, export_master_key, update_wallet, delete_wallet, get_wallet_infos", "contents of the database"],
  note="Linearizability of concurrent calls against an executable model with crash ambiguity, by seeded search. Found and fixed two defects; one is a known finding.")