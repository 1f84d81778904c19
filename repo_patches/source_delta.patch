From 1b375a23e0bff2a91e7930e10dbd5cd9b02af87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 01/61] fix: penalize_many keeps the reputation cache and the
 packet queue consistent

A penalization function that fails left the cache of the identities before it
decremented, and an identity listed twice lost its reputation twice in the cache
but once in the queue: a later expiration panicked.
---
 reputation/src/trs.rs | 60 +++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/reputation/src/trs.rs b/reputation/src/trs.rs
index 81ec8d5..ac94bf8 100644
--- a/reputation/src/trs.rs
+++ b/reputation/src/trs.rs
@@ -205,35 +205,39 @@ where
         K: 'a,
     {
         let mut total_subtracted = V::default();
-        let mut to_subtract = ids_fs
-            .into_iter()
-            .filter_map(|(id, mut next_v)| {
-                let mut old_v = self.get(id);
-                // next_v returns the new value of v
-                let new_v = next_v(self.get(id));
-                match new_v.cmp(&old_v) {
-                    Ordering::Greater => {
-                        // Overflow: return error
-                        Some(Err(RepError {
-                            old_rep: old_v,
-                            new_rep: new_v,
-                        }))
-                    }
-                    Ordering::Equal => {
-                        // When there is no reputation to subtract, we can skip this identity
-                        None
-                    }
-                    Ordering::Less => {
-                        old_v -= new_v;
-                        let ts = old_v;
-                        total_subtracted += ts.clone();
-                        // Update cache. Cannot fail because we just checked for overflow
-                        decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
-                        Some(Ok((id.clone(), ts)))
-                    }
+        let mut to_subtract: HashMap<K, V, S> = HashMap::default();
+        for (id, mut next_v) in ids_fs {
+            // An identity that appears more than once loses reputation every time
+            let mut old_v = self.get(id);
+            if let Some(ts) = to_subtract.get(id) {
+                old_v -= ts.clone();
+            }
+            // next_v returns the new value of v
+            let new_v = next_v(old_v.clone());
+            match new_v.cmp(&old_v) {
+                Ordering::Greater => {
+                    // Overflow: return error, nothing has been modified yet
+                    return Err(RepError {
+                        old_rep: old_v,
+                        new_rep: new_v,
+                    });
                 }
-            })
-            .collect::<Result<HashMap<K, V, S>, _>>()?;
+                Ordering::Equal => {
+                    // When there is no reputation to subtract, we can skip this identity
+                }
+                Ordering::Less => {
+                    old_v -= new_v;
+                    let ts = old_v;
+                    total_subtracted += ts.clone();
+                    *to_subtract.entry(id.clone()).or_default() += ts;
+                }
+            }
+        }
+
+        for (id, ts) in &to_subtract {
+            // Update cache. Cannot fail because we just checked for overflow
+            decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
+        }
 
         // Iterate back to front
         for (_, rep_diff) in self.queue.iter_mut().rev() {
-- 
2.43.0


From c646026797631d405cea60de0ef6cb0b5f5b9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 02/61] fix: export extended keys whose path is deeper than 47
 levels

The size of the SLIP32 payload was computed in 8 bits.
---
 crypto/src/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 9ee256b..e032b00 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -214,11 +214,11 @@ impl ExtendedSK {
         })?;
 
         let capacity = 1     // 1 byte for depth
-            + 4 * depth      // 4 * depth bytes for path
+            + 4 * usize::from(depth) // 4 * depth bytes for path
             + 32             // 32 bytes for chain code
             + 33             // 33 bytes for 0x00 || private key
             ;
-        let mut bytes = Protected::new(vec![0; usize::from(capacity)]);
+        let mut bytes = Protected::new(vec![0; capacity]);
         let mut slice = bytes.as_mut();
 
         slice.write_all(&[depth])?;
-- 
2.43.0


From 4c70ea36f3c75cec4871a63c32873ff5efc1b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 03/61] fix: reject SLIP32 keys with an invalid private key
 prefix

They aborted a debug build and were accepted by a release build.
---
 crypto/src/key.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index e032b00..7450965 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -193,7 +193,11 @@ impl ExtendedSK {
         cursor.read_exact(chain_code.as_mut())?;
 
         let secret_prefix = cursor.read_u8()?;
-        debug_assert!(secret_prefix == 0);
+        if secret_prefix != 0 {
+            return Err(KeyError::Deserialization(format!(
+                "invalid private key prefix: {secret_prefix}",
+            )));
+        }
 
         let mut secret = Protected::new(vec![0; 32]);
         cursor.read_exact(secret.as_mut())?;
-- 
2.43.0


From 529714a98ba02ac37699f9b177d1bbe2ce33d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 04/61] fix: do not leave secret keys behind in freed memory

Importing a SLIP32 key and concatenating a key with its chain code released
buffers that held the secret key without zeroing them.
---
 crypto/src/key.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 7450965..16f905a 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -172,8 +172,9 @@ impl ExtendedSK {
             return Err(KeyError::Deserialization("prefix is not \"xprv\"".into()));
         }
 
-        let bytes: Vec<u8> = FromBase32::from_base32(&data)
-            .map_err(|err: bech32::Error| KeyError::Deserialization(err.to_string()))?;
+        let bytes: Protected = Vec::<u8>::from_base32(&data)
+            .map_err(|err: bech32::Error| KeyError::Deserialization(err.to_string()))?
+            .into();
         let actual_len = bytes.len();
         let mut cursor = io::Cursor::new(bytes);
         let depth = cursor.read_u8()? as usize;
@@ -241,7 +242,9 @@ impl ExtendedSK {
 
     /// Get the secret and chain code concatenated
     pub fn concat(&self) -> Protected {
-        let mut bytes = Vec::from(&self.secret_key[..]);
+        // Do not let the vector grow: that leaves a copy of the secret key in the old allocation
+        let mut bytes = Vec::with_capacity(self.secret_key[..].len() + self.chain_code.len());
+        bytes.extend_from_slice(&self.secret_key[..]);
         bytes.extend_from_slice(&self.chain_code);
 
         Protected::from(bytes)
-- 
2.43.0


From eee0aa83828e9b5b7924a7991a6f9207d1c699e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 05/61] fix: merkle proofs longer than 64 nodes overflow the
 shift of the index

---
 crypto/src/merkle.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypto/src/merkle.rs b/crypto/src/merkle.rs
index 4c51de6..4bb05dc 100644
--- a/crypto/src/merkle.rs
+++ b/crypto/src/merkle.rs
@@ -309,7 +309,9 @@ impl<T: Copy + PartialEq> InclusionProof<T> {
         let mut elem = element;
         let hash_concat = self.hash_concat;
         for (level, h) in self.lemma.iter().enumerate() {
-            let h_on_the_left = ((self.index >> level) & 1) == 1;
+            // There are no bits in the index for the levels beyond its width: those nodes go on the right
+            let index = self.index.checked_shr(level as u32).unwrap_or(0);
+            let h_on_the_left = (index & 1) == 1;
             elem = if h_on_the_left {
                 hash_concat(*h, elem)
             } else {
-- 
2.43.0


From 4a0afefa96abe29cacbbc58fa2c15d8354d7a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 06/61] fix: a serialized ProtectedString can be deserialized
 again

It was written as bytes and read as a string, which formats that tell them apart
reject.
---
 protected/src/serde.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protected/src/serde.rs b/protected/src/serde.rs
index 358b7ef..a048ee1 100644
--- a/protected/src/serde.rs
+++ b/protected/src/serde.rs
@@ -34,6 +34,7 @@ impl Serialize for ProtectedString {
     where
         S: Serializer,
     {
-        serializer.serialize_bytes(self.as_ref())
+        // As a string, because that is what it is deserialized from
+        serializer.serialize_str(self.as_ref())
     }
 }
-- 
2.43.0


From 78ee19305975081923649bdbce049bbf2b22a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 07/61] fix: a failed write does not desynchronize the cache of
 UTXOs by address

---
 data_structures/src/utxo_pool/utxo_db.rs | 35 ++++++++++++++++--------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/data_structures/src/utxo_pool/utxo_db.rs b/data_structures/src/utxo_pool/utxo_db.rs
index 67c1e69..bd0f15b 100644
--- a/data_structures/src/utxo_pool/utxo_db.rs
+++ b/data_structures/src/utxo_pool/utxo_db.rs
@@ -211,7 +211,7 @@ impl<S: Storage> Storage for CacheUtxosByPkh<S> {
 }
 
 // The UtxoDb implementation forwards to the inner UtxoDb, except for the utxo_iterator_by_pkh
-// method, which uses the cache, and the write method which updates the cache before forwarding the
+// method, which uses the cache, and the write method which updates the cache after forwarding the
 // call.
 impl<S: UtxoDb> UtxoDb for CacheUtxosByPkh<S> {
     fn get_utxo(&self, k: &OutputPointer) -> Result<Option<(ValueTransferOutput, u32)>, Error> {
@@ -246,27 +246,38 @@ impl<S: UtxoDb> UtxoDb for CacheUtxosByPkh<S> {
     }
 
     fn write(&self, batch: UtxoWriteBatch) -> Result<(), Error> {
-        // Update self.cache taking into account batch
+        // Take the lock before writing, so that no reader sees the new database with the old cache.
         let mut cache = self.cache.write().unwrap();
 
+        // Collect the changes to self.cache, but do not apply them until the batch has been
+        // written: if the write fails, the cache must still match the database.
+        let mut added = vec![];
+        let mut removed = vec![];
         for item in &batch.v {
             match item {
-                UtxoWriteBatchItem::Put(k, v) => {
-                    cache.entry(v.0.pkh).or_default().insert(*k);
-                }
+                UtxoWriteBatchItem::Put(k, v) => added.push((v.0.pkh, *k)),
                 UtxoWriteBatchItem::Delete(k) => {
                     let vto = self.db.get_utxo(k)?.unwrap();
-                    let hs = cache.get_mut(&vto.0.pkh).unwrap();
-                    hs.remove(k);
-                    // Remove entry from cache if hashset is empty
-                    if hs.is_empty() {
-                        cache.remove(&vto.0.pkh);
-                    }
+                    removed.push((vto.0.pkh, *k));
                 }
                 UtxoWriteBatchItem::Raw(_) => {}
             }
         }
 
-        self.db.write(batch)
+        self.db.write(batch)?;
+
+        for (pkh, k) in added {
+            cache.entry(pkh).or_default().insert(k);
+        }
+        for (pkh, k) in removed {
+            let hs = cache.get_mut(&pkh).unwrap();
+            hs.remove(&k);
+            // Remove entry from cache if hashset is empty
+            if hs.is_empty() {
+                cache.remove(&pkh);
+            }
+        }
+
+        Ok(())
     }
 }
-- 
2.43.0


From 9cac8ebb4415d36a2e0ed883a73b8a5b36c33f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 08/61] fix: the transactions pool checks the collateral of the
 request against its reward

---
 data_structures/src/chain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 883f4a6..f7a8be0 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3368,8 +3368,8 @@ impl TransactionsPool {
             }
             Transaction::DataRequest(dr_tx) => {
                 let dr_tx_reward_collateral_ratio = calculate_reward_collateral_ratio(
-                    self.collateral_minimum,
                     dr_tx.body.dr_output.collateral,
+                    self.collateral_minimum,
                     dr_tx.body.dr_output.witness_reward,
                 );
                 if dr_tx_reward_collateral_ratio > self.required_reward_collateral_ratio {
-- 
2.43.0


From 8c6e7a202ab5e5e46306b4ab71ba143e6644f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 09/61] fix: inserting a transaction twice does not count its
 weight and inputs twice

---
 data_structures/src/chain/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index f7a8be0..f443e0e 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3353,6 +3353,8 @@ impl TransactionsPool {
                 if fee < self.minimum_vtt_fee {
                     return vec![Transaction::ValueTransfer(vt_tx)];
                 } else {
+                    // Replace the old transaction if it is already in the pool
+                    self.vt_remove_inner(&key, false);
                     self.total_vt_weight += u64::from(vt_tx.weight());
 
                     for input in &vt_tx.body.inputs {
@@ -3378,6 +3380,8 @@ impl TransactionsPool {
                     let weight = f64::from(dr_tx.weight());
                     let priority = OrderedFloat(fee as f64 / weight);
 
+                    // Replace the old transaction if it is already in the pool
+                    self.dr_remove_inner(&key, false);
                     self.total_dr_weight += u64::from(dr_tx.weight());
 
                     for input in &dr_tx.body.inputs {
@@ -3420,6 +3424,8 @@ impl TransactionsPool {
                 if fee < self.minimum_st_fee {
                     return vec![Transaction::Stake(st_tx)];
                 } else {
+                    // Replace the old transaction if it is already in the pool
+                    self.st_remove_inner(&key, false);
                     self.total_st_weight += u64::from(st_tx.weight());
 
                     for input in &st_tx.body.inputs {
@@ -3440,6 +3446,8 @@ impl TransactionsPool {
                 if fee < self.minimum_ut_fee {
                     return vec![Transaction::Unstake(ut_tx)];
                 } else {
+                    // Replace the old transaction if it is already in the pool
+                    self.ut_remove_inner(&key);
                     self.total_ut_weight += u64::from(ut_tx.weight());
 
                     self.ut_transactions.insert(key, (priority, ut_tx));
-- 
2.43.0


From a0412dad3f5e01ad1713e981eef0736a0c59125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 10/61] fix: clearing stake and unstake transactions releases
 their weight and inputs

---
 data_structures/src/chain/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index f443e0e..d4d5836 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -2725,14 +2725,17 @@ impl TransactionsPool {
 
     /// Clear stake transactions in TransactionsPool
     pub fn clear_stake_transactions(&mut self) {
-        self.st_transactions.clear();
-        self.sorted_st_index.clear();
+        let hashes: Vec<Hash> = self.st_transactions.keys().copied().collect();
+        for hash in hashes {
+            self.st_remove_inner(&hash, false);
+        }
     }
 
     /// Clear unstake transactions in TransactionsPool
     pub fn clear_unstake_transactions(&mut self) {
         self.ut_transactions.clear();
         self.sorted_ut_index.clear();
+        self.total_ut_weight = 0;
     }
 
     /// Returns `Ok(true)` if the pool already contains this transaction.
-- 
2.43.0


From 8b7ab2b18fd81cf0956702e8fd7d50024addfe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 11/61] fix: vt_retain releases the weight and the inputs of
 the removed transactions

---
 data_structures/src/chain/mod.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index d4d5836..145189c 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3577,22 +3577,16 @@ impl TransactionsPool {
     where
         F: FnMut(&VTTransaction) -> bool,
     {
-        let TransactionsPool {
-            ref mut vt_transactions,
-            sorted_vt_index: ref mut sorted_index,
-            ref mut total_vt_weight,
-            ..
-        } = *self;
-
-        vt_transactions.retain(|hash, (weight, vt_transaction)| {
-            let retain = f(vt_transaction);
-            if !retain {
-                *total_vt_weight -= 1;
-                sorted_index.remove(&(*weight, *hash));
-            }
+        let not_retained: Vec<Hash> = self
+            .vt_transactions
+            .iter()
+            .filter(|(_, (_, vt_transaction))| !f(vt_transaction))
+            .map(|(hash, _)| *hash)
+            .collect();
 
-            retain
-        });
+        for hash in not_retained {
+            self.vt_remove_inner(&hash, false);
+        }
     }
 
     /// Get transaction by hash
-- 
2.43.0


From 546a7f6a3b844e47cac79403efab1a6cd3aef259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 12/61] fix: the size limit of the transactions pool holds with
 stake and unstake transactions

---
 data_structures/src/chain/mod.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 145189c..5663aca 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3297,14 +3297,28 @@ impl TransactionsPool {
             #[allow(clippy::cast_precision_loss)]
             let more_vtts_than_drs =
                 self.total_vt_weight as f64 >= self.total_dr_weight as f64 * self.vt_to_dr_factor;
-            if more_vtts_than_drs {
+            if self.sorted_vt_index.is_empty() && self.sorted_dr_index.is_empty() {
+                // Only stake and unstake transactions are left, remove the one with the lowest
+                // fee/weight of the kind that takes more room
+                if self.total_st_weight >= self.total_ut_weight {
+                    let tx_hash = self.sorted_st_index.first().map(|(_, h)| *h).unwrap();
+                    let tx = self.st_remove_inner(&tx_hash, false).unwrap();
+                    removed_transactions.push(Transaction::Stake(tx));
+                } else {
+                    let tx_hash = self.sorted_ut_index.first().map(|(_, h)| *h).unwrap();
+                    let tx = self.ut_remove_inner(&tx_hash).unwrap();
+                    removed_transactions.push(Transaction::Unstake(tx));
+                }
+            } else if !self.sorted_vt_index.is_empty()
+                && (more_vtts_than_drs || self.sorted_dr_index.is_empty())
+            {
                 // Remove the value transfer transaction with the lowest fee/weight
                 let tx_hash = self
                     .sorted_vt_index
                     .iter()
                     .map(|(_fee_weight, tx_hash)| *tx_hash)
                     .next()
-                    // There must be at least one transaction because the total weight is not zero
+                    // There must be at least one transaction because the index is not empty
                     .unwrap();
                 let tx = self.vt_remove_inner(&tx_hash, false).unwrap();
                 removed_transactions.push(Transaction::ValueTransfer(tx));
@@ -3315,7 +3329,7 @@ impl TransactionsPool {
                     .iter()
                     .map(|(_fee_weight, tx_hash)| *tx_hash)
                     .next()
-                    // There must be at least one transaction because the total weight is not zero
+                    // There must be at least one transaction because the index is not empty
                     .unwrap();
                 let tx = self.dr_remove_inner(&tx_hash, false).unwrap();
                 removed_transactions.push(Transaction::DataRequest(tx));
@@ -3664,7 +3678,7 @@ impl TransactionsPool {
     }
 
     pub fn total_transactions_weight(&self) -> u64 {
-        self.total_vt_weight + self.total_dr_weight + self.total_st_weight
+        self.total_vt_weight + self.total_dr_weight + self.total_st_weight + self.total_ut_weight
     }
 }
 
-- 
2.43.0


From e232dc2065d92a06fc581e1940af27022ba3b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 13/61] fix: a data request that is not ready for its tally
 stays in the pool

---
 data_structures/src/data_request.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/data_structures/src/data_request.rs b/data_structures/src/data_request.rs
index f2cf5bb..5bd2c0b 100644
--- a/data_structures/src/data_request.rs
+++ b/data_structures/src/data_request.rs
@@ -248,16 +248,22 @@ impl DataRequestPool {
     ) -> Result<DataRequestInfo, anyhow::Error> {
         let dr_pointer = tally_tx.dr_pointer;
 
-        let dr_state: Result<DataRequestState, anyhow::Error> =
-            data_request_pool.remove(&dr_pointer).ok_or_else(|| {
-                DataRequestError::AddTallyFail {
+        // A request that is not ready for its tally must stay in the pool
+        match data_request_pool.get(&dr_pointer) {
+            Some(dr_state) if dr_state.stage == DataRequestStage::TALLY => {}
+            Some(_) => return Err(DataRequestError::NotTallyStage.into()),
+            None => {
+                return Err(DataRequestError::AddTallyFail {
                     block_hash: *block_hash,
                     tx_hash: tally_tx.hash(),
                     dr_pointer,
                 }
-                .into()
-            });
-        let dr_state = dr_state?;
+                .into());
+            }
+        }
+
+        // The unwrap is safe because the data request was found above
+        let dr_state = data_request_pool.remove(&dr_pointer).unwrap();
 
         dr_state.add_tally(tally_tx, block_hash)
     }
-- 
2.43.0


From 4a3bf653c1f3ad85f52dee07bb65b414c01edd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 14/61] fix: two superblocks cannot both achieve consensus in
 committees of two and four members

---
 data_structures/src/superblock.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index 59cb0bf..83f79c1 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -732,10 +732,13 @@ where
 /// Returns true if the number of votes is enough to achieve 2/3 consensus.
 ///
 /// The number of votes needed must be greater than 2/3 of the number of identities.
+///
+/// It must also be greater than 1/2, which 2/3 rounded down is not for some small committees, so
+/// that two different superblocks can never achieve consensus at the same time.
 pub fn two_thirds_consensus(votes: usize, identities: usize) -> bool {
     let required_votes = identities * 2 / 3;
 
-    votes >= required_votes
+    votes >= required_votes && votes * 2 > identities
 }
 
 /// Produces a `SuperBlock` that includes the blocks in `block_headers` if there is at least one of them.
-- 
2.43.0


From bbc3c935fae02e4b70884f3a30ced47645542943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 15/61] fix: superblock votes signed more than once make the
 double vote check panic

---
 data_structures/src/superblock.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index 83f79c1..05283b4 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{HashMap, HashSet, hash_map::Entry},
     convert::{TryFrom, TryInto},
 };
 
@@ -168,12 +168,10 @@ impl SuperBlockVotesMempool {
 
     fn insert_vote(&mut self, sbv: SuperBlockVote) {
         let pkh = sbv.secp256k1_signature.public_key.pkh();
-        if self
-            .votes_of_each_identity
-            .insert(pkh, sbv.clone())
-            .is_none()
-        {
-            // Only insert votes from a PublicKeyHash the first time
+        // Only insert votes from a PublicKeyHash the first time. Both maps must contain the same
+        // vote, as needed by `override_vote`
+        if let Entry::Vacant(entry) = self.votes_of_each_identity.entry(pkh) {
+            entry.insert(sbv.clone());
             self.votes_on_each_superblock
                 .entry(sbv.superblock_hash)
                 .or_default()
-- 
2.43.0


From c4cc3e496043794a03c70f67c2182ce2f6cf89a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 16/61] fix: removing more stake than there is underflows

Stake::remove_stake subtracted without checking: a build with overflow checks panics,
any other leaves an entry with a wrapped, enormous amount of coins.
---
 data_structures/src/staking/stake.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data_structures/src/staking/stake.rs b/data_structures/src/staking/stake.rs
index ab5b96a..ca7af72 100644
--- a/data_structures/src/staking/stake.rs
+++ b/data_structures/src/staking/stake.rs
@@ -155,6 +155,14 @@ where
         nonce_policy: NoncePolicy<Epoch>,
         minimum_stakeable: Coins,
     ) -> StakesResult<Coins, Address, Coins, Epoch> {
+        // Make sure that there is enough stake to remove
+        if coins > self.coins {
+            Err(StakesError::AmountIsBelowMinimum {
+                amount: self.coins,
+                minimum: coins,
+            })?;
+        }
+
         let coins_after = self.coins.sub(coins);
 
         if coins_after > Coins::zero() && coins_after < minimum_stakeable {
-- 
2.43.0


From dc2a114f5e051becd27fef86c539b1c9a831fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 17/61] fix: a refused stake addition leaves an empty entry
 behind

Stakes::add_stake inserted the entry before checking the minimum, so a refusal left an
entry without coins in by_key (but in no index): it was counted, ranked and serialized,
and it got indexed after a restart.
---
 data_structures/src/staking/stakes.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index cf7a301..bc1ad0d 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -249,10 +249,19 @@ where
         };
 
         // Actually increase the number of coins
-        stake
+        let added = stake
             .value
             .write()?
-            .add_stake(coins, epoch, nonce_policy, minimum_stakeable)?;
+            .add_stake(coins, epoch, nonce_policy, minimum_stakeable);
+
+        if let Err(error) = added {
+            // A refused addition must not leave behind an empty entry that was created for it
+            if !stake_found {
+                self.by_key.remove(&key);
+            }
+
+            return Err(error);
+        }
 
         // Update all indexes if needed (only when the stake entry didn't exist before)
         if !stake_found {
-- 
2.43.0


From 2fe7c12973a59bbe71e22223b1714a80db982a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 18/61] fix: emptying a stake entry may drop another one from
 the indexes

Stakes::remove_stake looked for the first indexed entry without coins instead of the
entry that has just been emptied; collateral can leave other entries with zero coins.
---
 data_structures/src/staking/stakes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index bc1ad0d..19f1241 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -418,7 +418,7 @@ where
                     stakes.remove(
                         stakes
                             .iter()
-                            .position(|stake| stake.read_value().coins == 0.into())
+                            .position(|stake| stake.read_key() == key)
                             .unwrap(),
                     );
                     if stakes.is_empty() {
@@ -429,7 +429,7 @@ where
                     stakes.remove(
                         stakes
                             .iter()
-                            .position(|stake| stake.read_value().coins == 0.into())
+                            .position(|stake| stake.read_key() == key)
                             .unwrap(),
                     );
                     if stakes.is_empty() {
-- 
2.43.0


From c8aea957815d4ef81312b5ae0440b6303e5fc9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 19/61] fix: order of indexed stake entries depends on history

The indexes kept entries in insertion order while a node running, in key order once
rebuilt from storage or a clone. add_reward and reserve_collateral act on the first entry
of a validator, so a restarted node could diverge from the others.
---
 data_structures/src/staking/stakes.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index 19f1241..2e6cb03 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -764,19 +764,18 @@ pub fn index_addresses<const UNIT: u8, Address, Coins, Epoch, Nonce, Power>(
     Nonce: Clone + Default,
     Power: Clone + Default,
 {
-    let validator_key = key.validator;
-    if let Some(validator) = by_validator.get_mut(&validator_key) {
-        validator.push(stake.clone());
-    } else {
-        by_validator.insert(validator_key, vec![stake.clone()]);
-    }
+    // Keep the entries of every index in the order of their keys, regardless of the order in which
+    // they were added: the indexes are rebuilt from `by_key` after a restart, and some operations
+    // pick the first entry of a validator.
+    let by_key_order = |entries: &[SyncStakeEntry<UNIT, Address, Coins, Epoch, Nonce, Power>]| {
+        entries.partition_point(|entry| *entry.key.read().unwrap() < key)
+    };
 
-    let withdrawer_key = key.withdrawer;
-    if let Some(withdrawer) = by_withdrawer.get_mut(&withdrawer_key) {
-        withdrawer.push(stake);
-    } else {
-        by_withdrawer.insert(withdrawer_key, vec![stake]);
-    }
+    let by_this_validator = by_validator.entry(key.validator.clone()).or_default();
+    by_this_validator.insert(by_key_order(by_this_validator), stake.clone());
+
+    let by_this_withdrawer = by_withdrawer.entry(key.withdrawer.clone()).or_default();
+    by_this_withdrawer.insert(by_key_order(by_this_withdrawer), stake);
 }
 
 /// Adds stake, based on the data from a stake transaction.
-- 
2.43.0


From 56477ff616061e283de76ff5e743de4aad768376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 20/61] fix: restart from storage when the local chain is past
 a superblock to be built

---
 node/src/actors/chain_manager/handlers.rs | 24 +++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/node/src/actors/chain_manager/handlers.rs b/node/src/actors/chain_manager/handlers.rs
index 63f31e1..14ef6e4 100644
--- a/node/src/actors/chain_manager/handlers.rs
+++ b/node/src/actors/chain_manager/handlers.rs
@@ -497,6 +497,30 @@ impl Handler<AddBlocks> for ChainManager {
 
                     let superblock_period = u32::from(consensus_constants.superblock_period);
 
+                    // If the local chain already goes past the blocks of a superblock that still has
+                    // to be built, the chain state for that superblock cannot be derived from the
+                    // current one. Restart from the last consolidated chain state.
+                    let chain_tip_epoch = act.get_chain_beacon().checkpoint;
+                    if act
+                        .superblock_consolidation_is_needed(&sync_target, superblock_period)
+                        .into_iter()
+                        .chain(act.superblock_candidate_is_needed(
+                            act.current_epoch.unwrap() / superblock_period,
+                            superblock_period,
+                        ))
+                        .any(|superblock_epoch| chain_tip_epoch >= superblock_epoch)
+                    {
+                        log::warn!(
+                            "The local chain tip #{chain_tip_epoch} is past a superblock that is not built yet"
+                        );
+                        act.update_state_machine(StateMachine::WaitingConsensus, ctx);
+                        act.initialize_from_storage(ctx);
+                        log::info!("Restored chain state from storage");
+                        act.sync_waiting_for_add_blocks_since = None;
+
+                        return Box::pin(actix::fut::err(()));
+                    }
+
                     // Split received blocks into batches according to 3 different cases:
                     // 1. TargetNotReached: superblock target not reachable with the received block batch.
                     // 2. SyncWithoutCandidate: target superblock needs to be consolidated, but no
-- 
2.43.0


From dee5cff658dd16cf177055c37a98e711c8d630b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 21/61] fix: keep the session of a peer registered when a
 duplicate of it fails to register

---
 node/src/actors/session/actor.rs     | 22 +++++++++++++---------
 node/src/actors/session/mod.rs       |  4 ++++
 p2p/src/sessions/bounded_sessions.rs | 20 ++++++++++++++------
 p2p/src/sessions/mod.rs              |  5 +++++
 4 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/node/src/actors/session/actor.rs b/node/src/actors/session/actor.rs
index c8d74a4..71bccbe 100644
--- a/node/src/actors/session/actor.rs
+++ b/node/src/actors/session/actor.rs
@@ -73,6 +73,7 @@ impl Actor for Session {
                             "Successfully registered session {:?} into SessionManager",
                             act.remote_addr
                         );
+                        act.registered = true;
 
                         actix::fut::ok(())
                     }
@@ -106,15 +107,18 @@ impl Actor for Session {
 
     /// Method to be executed when the actor is stopping
     fn stopping(&mut self, _: &mut Self::Context) -> Running {
-        // Get session manager address
-        let session_manager_addr = SessionsManager::from_registry();
-
-        // Unregister session from SessionsManager
-        session_manager_addr.do_send(Unregister {
-            address: self.remote_addr,
-            session_type: self.session_type,
-            status: self.status,
-        });
+        // Unregister session from SessionsManager. If this session could not be registered because
+        // there was another one with the same address, that other session must stay registered.
+        if self.registered {
+            // Get session manager address
+            let session_manager_addr = SessionsManager::from_registry();
+
+            session_manager_addr.do_send(Unregister {
+                address: self.remote_addr,
+                session_type: self.session_type,
+                status: self.status,
+            });
+        }
 
         // When session unregisters, notify ChainManager to stop waiting for new blocks
         if self.blocks_timestamp != 0 {
diff --git a/node/src/actors/session/mod.rs b/node/src/actors/session/mod.rs
index 6902333..3646cd0 100644
--- a/node/src/actors/session/mod.rs
+++ b/node/src/actors/session/mod.rs
@@ -63,6 +63,9 @@ pub struct Session {
     /// Session status
     status: SessionStatus,
 
+    /// Whether this session has been registered into the SessionsManager
+    registered: bool,
+
     /// HandshakeFlags
     handshake_flags: HandshakeFlags,
 
@@ -127,6 +130,7 @@ impl Session {
             session_type,
             framed,
             status: SessionStatus::Unconsolidated,
+            registered: false,
             handshake_flags: HandshakeFlags::default(),
             remote_sender_addr: None,
             magic_number,
diff --git a/p2p/src/sessions/bounded_sessions.rs b/p2p/src/sessions/bounded_sessions.rs
index 32ab400..d45d20c 100644
--- a/p2p/src/sessions/bounded_sessions.rs
+++ b/p2p/src/sessions/bounded_sessions.rs
@@ -34,12 +34,8 @@ impl<T> BoundedSessions<T> {
     pub fn set_limit(&mut self, limit: u16) {
         self.limit = Some(limit);
     }
-    /// Method to insert a new session
-    pub fn register_session(
-        &mut self,
-        address: SocketAddr,
-        reference: T,
-    ) -> Result<(), SessionsError> {
+    /// Method to check whether a new session can be inserted
+    pub fn can_register_session(&self, address: SocketAddr) -> Result<(), SessionsError> {
         // Check num peers
         if self
             .limit
@@ -52,6 +48,18 @@ impl<T> BoundedSessions<T> {
         if self.collection.contains_key(&address) {
             return Err(SessionsError::AddressAlreadyRegistered);
         }
+
+        // Return success
+        Ok(())
+    }
+    /// Method to insert a new session
+    pub fn register_session(
+        &mut self,
+        address: SocketAddr,
+        reference: T,
+    ) -> Result<(), SessionsError> {
+        // Check num peers and if address is already in sessions collection
+        self.can_register_session(address)?;
         // Insert session into the right collection
         self.collection.insert(address, SessionInfo { reference });
 
diff --git a/p2p/src/sessions/mod.rs b/p2p/src/sessions/mod.rs
index 69448a8..e3709cc 100644
--- a/p2p/src/sessions/mod.rs
+++ b/p2p/src/sessions/mod.rs
@@ -282,6 +282,11 @@ where
         session_type: SessionType,
         address: SocketAddr,
     ) -> Result<(), SessionsError> {
+        // If there is no room for the session in the consolidated collection, leave it in the
+        // unconsolidated one, which is where it will be unregistered from when it is closed
+        self.get_sessions(session_type, SessionStatus::Consolidated)?
+            .can_register_session(address)?;
+
         // Get map to remove session from
         let uncons_sessions = self.get_sessions(session_type, SessionStatus::Unconsolidated)?;
 
-- 
2.43.0


From 525346fec59deb7b6d02182665515bcfdd28ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 22/61] fix: reject stake and unstake transactions whose values
 overflow

---
 validations/src/validations.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index d52a01a..0d4b48d 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -122,10 +122,14 @@ pub fn st_transaction_fee(
         None => 0,
     };
 
-    if out_value + change_value > in_value {
+    let spent_value = out_value
+        .checked_add(change_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
+
+    if spent_value > in_value {
         Err(TransactionError::NegativeFee.into())
     } else {
-        Ok(in_value - out_value - change_value)
+        Ok(in_value - spent_value)
     }
 }
 
@@ -141,7 +145,11 @@ pub fn ut_transaction_fee(
     let out_value = ut_tx.body.value();
     let fee_value = ut_tx.body.fee;
 
-    if out_value + fee_value > staked_amount {
+    let spent_value = out_value
+        .checked_add(fee_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
+
+    if spent_value > staked_amount {
         Err(TransactionError::NegativeFee.into())
     } else {
         Ok(fee_value)
@@ -1413,10 +1421,11 @@ pub fn validate_stake_transaction<'a>(
                 .map(|stake| stake.value.coins)
                 .unwrap()
                 .into();
-            if staked_amount + st_tx.body.output.value > max_stake_nanowits {
+            let total_stake = staked_amount.saturating_add(st_tx.body.output.value);
+            if total_stake > max_stake_nanowits {
                 Err(TransactionError::StakeAboveMaximum {
                     max_stake: max_stake_nanowits,
-                    stake: staked_amount + st_tx.body.output.value,
+                    stake: total_stake,
                 })?;
             }
         }
@@ -1472,7 +1481,11 @@ pub fn validate_unstake_transaction<'a>(
     }
 
     // Check if is unstaking more than the total stake
-    let mut amount_to_unstake = ut_tx.body.value() + ut_tx.body.fee;
+    let mut amount_to_unstake = ut_tx
+        .body
+        .value()
+        .checked_add(ut_tx.body.fee)
+        .ok_or(TransactionError::OutputValueOverflow)?;
 
     let validator = ut_tx.body.operator;
     let withdrawer = ut_tx.signature.public_key.pkh();
-- 
2.43.0


From aeddd9a60605d1e31278f249ea0228d6bfb3ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 23/61] fix: store finished data requests before the chain
 state that forgets them

put_batch only queued its write when the returned future was first polled,
so that the chain state, requested later, could reach the storage first. A
crash in between lost the reports of the data requests for good.
---
 node/src/storage_mngr.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/node/src/storage_mngr.rs b/node/src/storage_mngr.rs
index 1832854..a2dba25 100644
--- a/node/src/storage_mngr.rs
+++ b/node/src/storage_mngr.rs
@@ -141,11 +141,21 @@ where
         .map(|(k, v)| Ok((serialize(k)?, serialize(v)?)))
         .collect();
 
+    // Queue the write right away instead of when the returned future is first polled. Otherwise, it
+    // could be overtaken by writes that were requested later, e.g. that of a chain state which takes
+    // for granted that these values are already stored.
+    let request = kv_bytes.map(|kv_bytes| {
+        if kv_bytes.is_empty() {
+            None
+        } else {
+            Some(addr.send(PutBatch(kv_bytes)))
+        }
+    });
+
     async move {
-        match kv_bytes {
-            Ok(kv_bytes) if kv_bytes.is_empty() => Ok(()),
-            Ok(kv_bytes) => addr.send(PutBatch(kv_bytes)).await?,
-            Err(e) => Err(e),
+        match request? {
+            Some(request) => request.await?,
+            None => Ok(()),
         }
     }
 }
-- 
2.43.0


From dc538ed04a810df59e7604622ea240537e6dc032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 24/61] fix: count minted blocks from the chain itself in the
 supply info

The genesis block was counted as if it had minted a block reward, and what
was counted was never revised after the chain was reorganized or reloaded.
---
 node/src/actors/chain_manager/handlers.rs | 84 +++--------------------
 node/src/actors/chain_manager/mod.rs      | 27 ++++++--
 2 files changed, 29 insertions(+), 82 deletions(-)

diff --git a/node/src/actors/chain_manager/handlers.rs b/node/src/actors/chain_manager/handlers.rs
index 14ef6e4..771c761 100644
--- a/node/src/actors/chain_manager/handlers.rs
+++ b/node/src/actors/chain_manager/handlers.rs
@@ -12,12 +12,12 @@ use futures::future::Either;
 use itertools::Itertools;
 use witnet_data_structures::{
     chain::{
-        Block, ChainState, CheckpointBeacon, ConsensusConstantsWit2, DataRequestInfo, Epoch, Hash,
-        Hashable, NodeStats, PublicKeyHash, SuperBlockVote, SupplyInfo, SupplyInfo2,
-        ValueTransferOutput, tapi::ActiveWips,
+        Block, ChainState, CheckpointBeacon, DataRequestInfo, Epoch, Hash, Hashable, NodeStats,
+        PublicKeyHash, SuperBlockVote, SupplyInfo, SupplyInfo2, ValueTransferOutput,
+        tapi::ActiveWips,
     },
     error::{ChainInfoError, TransactionError::DataRequestNotFound},
-    get_protocol_info, get_protocol_version, get_protocol_version_activation_epoch,
+    get_protocol_info, get_protocol_version,
     proto::versioning::ProtocolVersion,
     refresh_protocol_version,
     staking::{
@@ -2023,42 +2023,8 @@ impl Handler<GetSupplyInfo> for ChainManager {
         let current_time = u64::try_from(get_timestamp()).unwrap();
         let current_staked_supply = self.chain_state.stakes.total_staked().nanowits();
 
-        let wit1_block_reward = chain_info.consensus_constants.initial_block_reward;
-        let wit2_activation_epoch = get_protocol_version_activation_epoch(ProtocolVersion::V2_0);
-        let wit2_block_reward =
-            ConsensusConstantsWit2::default().get_validator_block_reward(current_epoch);
-
-        let (mut blocks_minted, mut blocks_minted_reward) =
-            (self.last_blocks_minted, self.last_blocks_minted_reward);
-
-        if self.last_supply_info_epoch < wit2_activation_epoch {
-            for epoch in self.last_supply_info_epoch..wit2_activation_epoch {
-                // If the blockchain contains an epoch, a block was minted in that epoch, add the reward to blocks_minted_reward
-                if self.chain_state.block_chain.contains_key(&epoch) {
-                    blocks_minted += 1;
-                    blocks_minted_reward += wit1_block_reward;
-                }
-            }
-            for epoch in wit2_activation_epoch..current_epoch {
-                // If the blockchain contains an epoch, a block was minted in that epoch, add the reward to blocks_minted_reward
-                if self.chain_state.block_chain.contains_key(&epoch) {
-                    blocks_minted += 1;
-                    blocks_minted_reward += wit2_block_reward;
-                }
-            }
-        } else {
-            for epoch in self.last_supply_info_epoch..current_epoch {
-                // If the blockchain contains an epoch, a block was minted in that epoch, add the reward to blocks_minted_reward
-                if self.chain_state.block_chain.contains_key(&epoch) {
-                    blocks_minted += 1;
-                    blocks_minted_reward += wit2_block_reward;
-                }
-            }
-        }
-
-        self.last_supply_info_epoch = current_epoch;
-        self.last_blocks_minted = blocks_minted;
-        self.last_blocks_minted_reward = blocks_minted_reward;
+        let (blocks_minted, blocks_minted_reward) =
+            self.minted_supply(chain_info.consensus_constants.initial_block_reward);
 
         Ok(SupplyInfo {
             epoch: current_epoch,
@@ -2087,11 +2053,6 @@ impl Handler<GetSupplyInfo2> for ChainManager {
         let current_time = u64::try_from(get_timestamp()).unwrap();
         let current_staked_supply = self.chain_state.stakes.total_staked().nanowits();
 
-        let wit1_block_reward = chain_info.consensus_constants.initial_block_reward;
-        let wit2_activation_epoch = get_protocol_version_activation_epoch(ProtocolVersion::V2_0);
-        let wit2_block_reward =
-            ConsensusConstantsWit2::default().get_validator_block_reward(current_epoch);
-
         let collateral_minimum = chain_info.consensus_constants.collateral_minimum;
 
         let requests_in_flight_collateral = self
@@ -2110,37 +2071,8 @@ impl Handler<GetSupplyInfo2> for ChainManager {
             }
         }
 
-        let (mut blocks_minted, mut blocks_minted_reward) =
-            (self.last_blocks_minted, self.last_blocks_minted_reward);
-
-        if self.last_supply_info_epoch < wit2_activation_epoch {
-            for epoch in self.last_supply_info_epoch..wit2_activation_epoch {
-                // If the blockchain contains an epoch, a block was minted in that epoch, add the reward to blocks_minted_reward
-                if self.chain_state.block_chain.contains_key(&epoch) {
-                    blocks_minted += 1;
-                    blocks_minted_reward += wit1_block_reward;
-                }
-            }
-            for epoch in wit2_activation_epoch..current_epoch {
-                // If the blockchain contains an epoch, a block was minted in that epoch, add the reward to blocks_minted_reward
-                if self.chain_state.block_chain.contains_key(&epoch) {
-                    blocks_minted += 1;
-                    blocks_minted_reward += wit2_block_reward;
-                }
-            }
-        } else {
-            for epoch in self.last_supply_info_epoch..current_epoch {
-                // If the blockchain contains an epoch, a block was minted in that epoch, add the reward to blocks_minted_reward
-                if self.chain_state.block_chain.contains_key(&epoch) {
-                    blocks_minted += 1;
-                    blocks_minted_reward += wit2_block_reward;
-                }
-            }
-        }
-
-        self.last_supply_info_epoch = current_epoch;
-        self.last_blocks_minted = blocks_minted;
-        self.last_blocks_minted_reward = blocks_minted_reward;
+        let (blocks_minted, blocks_minted_reward) =
+            self.minted_supply(chain_info.consensus_constants.initial_block_reward);
 
         let burnt_supply = self
             .initial_supply
diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index 0f18bc5..18c4622 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -262,15 +262,30 @@ pub struct ChainManager {
     initial_supply: u64,
     /// Populate RAD hashes index
     rad_hashes_index: bool,
-    /// Epoch when getSupplyInfo2 was last resolved.
-    last_supply_info_epoch: u32,
-    /// Count of minted blocks the last time getSupplyInfo2 was resolved.
-    last_blocks_minted: u32,
-    /// Counf of minted rewards the last time getSupplyInfo2 was resolved.
-    last_blocks_minted_reward: u64,
 }
 
 impl ChainManager {
+    /// Number of blocks in the local chain that minted a block reward, and the sum of those rewards.
+    ///
+    /// The genesis block does not count: its value transfers are the initial supply.
+    fn minted_supply(&self, wit1_block_reward: u64) -> (u32, u64) {
+        let wit2_activation_epoch =
+            get_protocol_version_activation_epoch(ProtocolVersion::V2_0).max(1);
+        let wit2_block_reward = self
+            .consensus_constants_wit2
+            .get_validator_block_reward(wit2_activation_epoch);
+
+        let block_chain = &self.chain_state.block_chain;
+        let wit1_blocks = block_chain.range(1..wit2_activation_epoch).count();
+        let wit2_blocks = block_chain.range(wit2_activation_epoch..).count();
+
+        let blocks_minted = u32::try_from(wit1_blocks + wit2_blocks).unwrap_or(u32::MAX);
+        let blocks_minted_reward =
+            wit1_blocks as u64 * wit1_block_reward + wit2_blocks as u64 * wit2_block_reward;
+
+        (blocks_minted, blocks_minted_reward)
+    }
+
     /// Drop the value of the `import` field.
     fn drop_import(&mut self) {
         self.import = Force::None;
-- 
2.43.0


From f28fbca9c4d1dbb4d2ae3def7e6b1b033204490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 25/61] fix: do not leave data requests of candidate blocks in
 the data request pool

Data requests with too many witnesses were inserted into the data request
pool when building or validating a block, and stayed there even if the block
never became part of the chain.
---
 data_structures/src/data_request.rs     | 12 ++++++
 node/src/actors/chain_manager/mining.rs |  4 ++
 node/src/actors/chain_manager/mod.rs    | 55 ++++++++++++++++++++++---
 validations/src/validations.rs          | 48 ++++++++++++++++++++-
 4 files changed, 113 insertions(+), 6 deletions(-)

diff --git a/data_structures/src/data_request.rs b/data_structures/src/data_request.rs
index 5bd2c0b..35645c6 100644
--- a/data_structures/src/data_request.rs
+++ b/data_structures/src/data_request.rs
@@ -171,6 +171,18 @@ impl DataRequestPool {
         Ok(())
     }
 
+    /// Take a data request that was added for a given epoch out of the data request pool, as if it
+    /// had never been added
+    pub fn remove_data_request(&mut self, epoch: Epoch, dr_pointer: &Hash) {
+        self.data_request_pool.remove(dr_pointer);
+        if let Some(hs) = self.data_requests_by_epoch.get_mut(&epoch) {
+            hs.remove(dr_pointer);
+            if hs.is_empty() {
+                self.data_requests_by_epoch.remove(&epoch);
+            }
+        }
+    }
+
     /// Add a commit to the corresponding data request
     fn add_commit(
         &mut self,
diff --git a/node/src/actors/chain_manager/mining.rs b/node/src/actors/chain_manager/mining.rs
index 48d0b3f..cab518c 100644
--- a/node/src/actors/chain_manager/mining.rs
+++ b/node/src/actors/chain_manager/mining.rs
@@ -1153,6 +1153,10 @@ pub fn build_block(
                     active_wips,
                     get_protocol_version(Some(epoch)),
                 ));
+
+                // Only if this block ever becomes part of the chain will the data request be
+                // inserted into the data request pool for good
+                dr_pool.remove_data_request(epoch, &dr_tx.hash());
             }
 
             data_request_txns.push(dr_tx.clone());
diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index 18c4622..0cb3b99 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -1050,6 +1050,11 @@ impl ChainManager {
                     }
                 }
 
+                insert_data_requests_with_too_many_witnesses(
+                    &block,
+                    &mut self.chain_state.data_request_pool,
+                );
+
                 process_wit2_stakes_changes(
                     &block,
                     &self.consensus_constants_wit2,
@@ -3026,6 +3031,49 @@ impl ReputationInfo {
     }
 }
 
+/// Whether a tally resolves its data request as one that asks for too many witnesses.
+fn is_too_many_witnesses_tally(ta_tx: &TallyTransaction) -> bool {
+    RadonTypes::try_from(ta_tx.tally.as_slice())
+        == Ok(RadonTypes::RadonError(
+            RadonError::try_from(TooManyWitnesses).unwrap(),
+        ))
+}
+
+/// Data requests with too many witnesses are resolved by the same block that contains them. Insert
+/// them into the data request pool, ready to be resolved by their tallies.
+fn insert_data_requests_with_too_many_witnesses(
+    block: &Block,
+    data_request_pool: &mut DataRequestPool,
+) {
+    let epoch = block.block_header.beacon.checkpoint;
+    let protocol = ProtocolVersion::from_epoch(epoch);
+
+    for ta_tx in &block.txns.tally_txns {
+        if data_request_pool
+            .data_request_state(&ta_tx.dr_pointer)
+            .is_some()
+            || !is_too_many_witnesses_tally(ta_tx)
+        {
+            continue;
+        }
+
+        let dr_tx = block
+            .txns
+            .data_request_txns
+            .iter()
+            .find(|dr_tx| dr_tx.versioned_hash(protocol) == ta_tx.dr_pointer);
+        if let Some(dr_tx) = dr_tx {
+            if let Err(e) = data_request_pool.process_data_request(
+                dr_tx,
+                epoch,
+                Some(block.versioned_hash(protocol)),
+            ) {
+                log::error!("Error processing data request transaction:\n{e}");
+            }
+        }
+    }
+}
+
 fn process_wit2_stakes_changes(
     block: &Block,
     consensus_constants_wit2: &ConsensusConstantsWit2,
@@ -3270,11 +3318,7 @@ fn update_pools(
     let mut data_requests_with_too_many_witnesses = HashSet::<Hash>::new();
     for ta_tx in &block.txns.tally_txns {
         // Track data requests which were already processed with a TooManyWitnesses error
-        if RadonTypes::try_from(ta_tx.tally.as_slice())
-            == Ok(RadonTypes::RadonError(
-                RadonError::try_from(TooManyWitnesses).unwrap(),
-            ))
-        {
+        if is_too_many_witnesses_tally(ta_tx) {
             data_requests_with_too_many_witnesses.insert(ta_tx.dr_pointer);
 
             if let Some(dr_state) = data_request_pool.data_request_state_mutable(&ta_tx.dr_pointer)
@@ -3308,6 +3352,7 @@ fn update_pools(
                 "Skipping data request {dr_hash} as it was already processed with a TooManyWitnesses error"
             );
             transactions_pool.dr_remove(dr_tx);
+            data_request_pool.remove_data_request(epoch, &dr_hash);
             continue;
         }
         if let Err(e) = data_request_pool.process_data_request(
diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 0d4b48d..a680895 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -1944,6 +1944,51 @@ pub fn validate_block_transactions(
     consensus_constants: &ConsensusConstants,
     consensus_constants_wit2: &ConsensusConstantsWit2,
     active_wips: &ActiveWips,
+    visitor: Option<&mut dyn Visitor<Visitable = (Transaction, u64, u32)>>,
+    stakes: &StakesTracker,
+) -> Result<Diff, anyhow::Error> {
+    let epoch = block.block_header.beacon.checkpoint;
+    let mut temporary_data_requests = HashSet::<Hash>::new();
+    let res = validate_block_transactions_inner(
+        utxo_set,
+        dr_pool,
+        &mut temporary_data_requests,
+        block,
+        vrf_input,
+        signatures_to_verify,
+        rep_eng,
+        epoch_constants,
+        block_number,
+        consensus_constants,
+        consensus_constants_wit2,
+        active_wips,
+        visitor,
+        stakes,
+    );
+
+    // Validating a block must not leave anything behind in the data request pool, because the block
+    // may be invalid, or it may not become part of the chain
+    for dr_pointer in &temporary_data_requests {
+        dr_pool.remove_data_request(epoch, dr_pointer);
+    }
+
+    res
+}
+
+#[allow(clippy::too_many_arguments)]
+fn validate_block_transactions_inner(
+    utxo_set: &UnspentOutputsPool,
+    dr_pool: &mut DataRequestPool,
+    temporary_data_requests: &mut HashSet<Hash>,
+    block: &Block,
+    vrf_input: CheckpointVRF,
+    signatures_to_verify: &mut Vec<SignaturesToVerify>,
+    rep_eng: &ReputationEngine,
+    epoch_constants: EpochConstants,
+    block_number: u32,
+    consensus_constants: &ConsensusConstants,
+    consensus_constants_wit2: &ConsensusConstantsWit2,
+    active_wips: &ActiveWips,
     mut visitor: Option<&mut dyn Visitor<Visitable = (Transaction, u64, u32)>>,
     stakes: &StakesTracker,
 ) -> Result<Diff, anyhow::Error> {
@@ -2237,12 +2282,13 @@ pub fn validate_block_transactions(
                 "Temporarily adding data request {} to data request pool for validation purposes",
                 transaction.versioned_hash(block_protocol_version)
             );
+            let dr_tx_hash = transaction.versioned_hash(block_protocol_version);
+            temporary_data_requests.insert(dr_tx_hash);
             dr_pool.process_data_request(
                 transaction,
                 epoch,
                 Some(block.versioned_hash(block_protocol_version)),
             )?;
-            let dr_tx_hash = transaction.versioned_hash(block_protocol_version);
             if let Some(dr_state) = dr_pool.data_request_state_mutable(&dr_tx_hash) {
                 if dr_state.stage != DataRequestStage::TALLY {
                     dr_state.update_stage(0, true);
-- 
2.43.0


From 4064ff3a572faccc114c5afacdb1202590e99c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 26/61] fix: resolve open data requests after validators have
 left

A data request that was acceptable when it was included could need more
witnesses than there are validators allowed for by the time it reaches
its tally stage. Miners skipped the tally while validators demanded it,
so that no further block was acceptable and the chain halted.
---
 data_structures/src/data_request.rs     |  8 +++---
 node/src/actors/chain_manager/mining.rs |  8 +++---
 validations/src/validations.rs          | 35 ++++++-------------------
 3 files changed, 15 insertions(+), 36 deletions(-)

diff --git a/data_structures/src/data_request.rs b/data_structures/src/data_request.rs
index 35645c6..f0a7fad 100644
--- a/data_structures/src/data_request.rs
+++ b/data_structures/src/data_request.rs
@@ -14,7 +14,7 @@ use crate::{
         Hash, Hashable, PublicKeyHash, ValueTransferOutput, tapi::ActiveWips,
     },
     error::{DataRequestError, TransactionError},
-    get_environment, get_protocol_version_activation_epoch,
+    get_environment,
     proto::versioning::{ProtocolVersion, VersionedHashable},
     radon_report::{RadonReport, Stage, TypeLike},
     transaction::{CommitTransaction, DRTransaction, RevealTransaction, TallyTransaction},
@@ -101,9 +101,9 @@ impl DataRequestPool {
                 if let DataRequestStage::TALLY = dr_state.stage {
                     // Do not resolve data requests requiring too many witnesses using the normal
                     // tally creation path, but resolve them when building a block.
-                    let wit2_activation_epoch =
-                        get_protocol_version_activation_epoch(ProtocolVersion::V2_0);
-                    if dr_state.epoch >= wit2_activation_epoch
+                    // Data requests of earlier blocks were acceptable at the time, no matter how
+                    // many validators there are by now.
+                    if epoch == Some(dr_state.epoch)
                         && data_request_has_too_many_witnesses(
                             &dr_state.data_request,
                             validator_count,
diff --git a/node/src/actors/chain_manager/mining.rs b/node/src/actors/chain_manager/mining.rs
index cab518c..ce5863f 100644
--- a/node/src/actors/chain_manager/mining.rs
+++ b/node/src/actors/chain_manager/mining.rs
@@ -843,11 +843,9 @@ impl ChainManager {
 
                         let rad_manager_addr = RadManager::from_registry();
 
-                        let too_many_witnesses = data_request_has_too_many_witnesses(
-                            &dr_state.data_request,
-                            validator_count,
-                            Some(dr_state.epoch),
-                        );
+                        // Data requests with too many witnesses are resolved when building the block
+                        // that contains them.
+                        let too_many_witnesses = false;
 
                         // The result of `RunTally` will be published as tally
                         let tally_result = rad_manager_addr
diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index a680895..3978f04 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -27,7 +27,7 @@ use witnet_data_structures::{
         data_request_has_too_many_witnesses,
     },
     error::{BlockError, DataRequestError, TransactionError},
-    get_protocol_version, get_protocol_version_activation_epoch,
+    get_protocol_version,
     proto::versioning::{ProtocolVersion, VersionedHashable},
     radon_report::{RadonReport, ReportContext},
     staking::prelude::{Power, QueryStakesKey, StakeKey, StakesTracker},
@@ -1052,39 +1052,20 @@ pub fn validate_tally_transaction<'a>(
     consensus_constants: &ConsensusConstants,
     active_wips: &ActiveWips,
     data_requests_with_too_many_witnesses: &HashSet<Hash>,
-    validator_count: Option<usize>,
+    _validator_count: Option<usize>,
     protocol_version: ProtocolVersion,
 ) -> Result<(Vec<&'a ValueTransferOutput>, u64), anyhow::Error> {
-    let validator_count =
-        validator_count.unwrap_or(witnet_data_structures::DEFAULT_VALIDATOR_COUNT_FOR_TESTS);
-    let too_many_witnesses;
-    if let Some(dr_state) = dr_pool.data_request_state_mutable(&ta_tx.dr_pointer) {
-        too_many_witnesses = data_request_has_too_many_witnesses(
-            &dr_state.data_request,
-            validator_count,
-            Some(dr_state.epoch),
-        );
-
-        if too_many_witnesses {
-            let wit2_activation_epoch =
-                get_protocol_version_activation_epoch(ProtocolVersion::V2_0);
-
-            // Check that for a TooManyWitnesses tally, the data request was also included in the block
-            if dr_state.epoch > wit2_activation_epoch
-                && !data_requests_with_too_many_witnesses.contains(&ta_tx.dr_pointer)
-            {
-                return Err(TransactionError::TooManyWitnessesDataRequestNotFound {
-                    hash: ta_tx.dr_pointer,
-                }
-                .into());
-            }
-        }
-    } else {
+    if dr_pool.data_request_state(&ta_tx.dr_pointer).is_none() {
         return Err(TransactionError::DataRequestNotFound {
             hash: ta_tx.dr_pointer,
         }
         .into());
     }
+
+    // Data requests with too many witnesses are resolved by the same block that contains them. A data
+    // request from an earlier block was acceptable at the time, and so it needs to be resolved in the
+    // regular way, no matter how many validators have left in the meantime.
+    let too_many_witnesses = data_requests_with_too_many_witnesses.contains(&ta_tx.dr_pointer);
     let (expected_ta_tx, dr_state) = create_expected_tally_transaction(
         ta_tx,
         dr_pool,
-- 
2.43.0


From 543c28190cb641b2a61adaf1413e45b42469a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 27/61] fix: do not crash when a validator left before its data
 request is resolved

---
 node/src/actors/chain_manager/mod.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index 0cb3b99..6c86844 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -3189,9 +3189,12 @@ fn process_wit2_stakes_changes(
                     collateral + reward,
                     ta_tx.dr_pointer
                 );
-                stakes
-                    .add_reward(honest_pkh, Wit::from(collateral + reward), block_epoch)
-                    .unwrap();
+                // The validator may have withdrawn all of its stake in the meantime
+                if let Err(e) =
+                    stakes.add_reward(honest_pkh, Wit::from(collateral + reward), block_epoch)
+                {
+                    log::warn!("Reward of data request {} is lost: {e}", ta_tx.dr_pointer);
+                }
             }
 
             // Refund errored validators
@@ -3202,9 +3205,10 @@ fn process_wit2_stakes_changes(
                     collateral,
                     ta_tx.dr_pointer
                 );
-                stakes
-                    .add_reward(*error_pkh, Wit::from(collateral), block_epoch)
-                    .unwrap();
+                // The validator may have withdrawn all of its stake in the meantime
+                if let Err(e) = stakes.add_reward(*error_pkh, Wit::from(collateral), block_epoch) {
+                    log::warn!("Reward of data request {} is lost: {e}", ta_tx.dr_pointer);
+                }
             }
         }
 
@@ -3289,9 +3293,12 @@ fn process_wit2_stakes_changes(
                     liar_pkh,
                     ta_tx.dr_pointer,
                 );
-                stakes
-                    .reset_age(*liar_pkh, Capability::Witnessing, block_epoch + 10, 1)
-                    .unwrap();
+                // The validator may have withdrawn all of its stake in the meantime
+                if let Err(e) =
+                    stakes.reset_age(*liar_pkh, Capability::Witnessing, block_epoch + 10, 1)
+                {
+                    log::warn!("Cannot reset the age of {liar_pkh}: {e}");
+                }
             }
         }
     }
-- 
2.43.0


From 05d3bfe4979784f5f1424edb912133a139f94560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 28/61] fix: count items that appear more than 127 times when
 computing the mode

The counter was an i8: it overflowed in tallies with many witnesses and in
long arrays, so that the most frequent item was not the one that won.
---
 rad/src/reducers/mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad/src/reducers/mode.rs b/rad/src/reducers/mode.rs
index 483b690..dcd263a 100644
--- a/rad/src/reducers/mode.rs
+++ b/rad/src/reducers/mode.rs
@@ -7,7 +7,7 @@ use std::{collections::HashMap, convert::TryFrom};
 pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     let value = input.value();
 
-    let mut counter: HashMap<RadonTypes, i8> = HashMap::new();
+    let mut counter: HashMap<RadonTypes, u32> = HashMap::new();
 
     // Count how many times does each different item appear in the input array
     for item in value {
@@ -30,7 +30,7 @@ pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     if mode_vector.len() > 1 {
         Err(RadError::ModeTie {
             values: input.clone(),
-            max_count: u16::try_from(*max_count).unwrap(),
+            max_count: u16::try_from(*max_count).unwrap_or(u16::MAX),
         })
     } else {
         Ok(mode_vector.into_iter().next().unwrap())
-- 
2.43.0


From 8a0011ce0d851dc36b14af8482b84d64528e2462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 29/61] fix: slicing a string in the middle of a character
 panics

---
 rad/src/operators/string.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rad/src/operators/string.rs b/rad/src/operators/string.rs
index 17af7d4..302fc43 100644
--- a/rad/src/operators/string.rs
+++ b/rad/src/operators/string.rs
@@ -501,12 +501,11 @@ pub fn string_slice(input: &RadonString, args: &[Value]) -> Result<RadonString,
 
     // Only perform real slicing if the sliced range is not empty
     let sliced_string = if output_length > 0 {
+        // Fails if the range starts or ends in the middle of a multi-byte character
         input
             .value()
-            .split_at(start as usize)
-            .1
-            .split_at(output_length)
-            .0
+            .get(start as usize..end as usize)
+            .ok_or_else(wrong_args)?
             .to_owned()
     } else {
         String::new()
-- 
2.43.0


From 044225134dad63f19def60918a66d908bd5c19b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 30/61] fix: getting a number out of an array or map without
 arguments panics

---
 rad/src/operators/array.rs | 3 ++-
 rad/src/operators/map.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index 475d5d5..a97ec47 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -99,7 +99,8 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonArray, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
+    let item = get::<RadonString, _>(input, args.get(..1).unwrap_or(args))?.value();
+    // There is at least one argument, as otherwise the line above would have failed
     let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
 
     Ok(RadonString::from(string::replace_separators(
diff --git a/rad/src/operators/map.rs b/rad/src/operators/map.rs
index 6047d14..ef9904a 100644
--- a/rad/src/operators/map.rs
+++ b/rad/src/operators/map.rs
@@ -57,7 +57,8 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonMap, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
+    let item = get::<RadonString, _>(input, args.get(..1).unwrap_or(args))?.value();
+    // There is at least one argument, as otherwise the line above would have failed
     let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
 
     Ok(RadonString::from(string::replace_separators(
-- 
2.43.0


From ce5ef013ea75ae88a47897016a5047fa6c5de8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 31/61] fix: sorting an array by keys of different types panics

---
 rad/src/operators/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index a97ec47..e859885 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -268,7 +268,7 @@ pub fn sort(
         return Ok(input.clone().into());
     }
     // Sort not applicable if not homogeneous
-    if !input.is_homogeneous() {
+    if !input.is_homogeneous() || !mapped_array.is_homogeneous() {
         return Err(RadError::UnsupportedOpNonHomogeneous {
             operator: "ArraySort".to_string(),
         });
-- 
2.43.0


From d16019dedd2b9b2af5edf79a939dad06701974ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 32/61] fix: encoding arrays and maps that contain errors
 panics

Reveals can contain errors inside of arrays and maps.
---
 rad/src/types/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 9b4d4b7..8148e41 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -351,9 +351,12 @@ impl TryFrom<RadonTypes> for Value {
             RadonTypes::Array(radon_array) => radon_array.try_into(),
             RadonTypes::Boolean(radon_boolean) => radon_boolean.try_into(),
             RadonTypes::Bytes(radon_bytes) => radon_bytes.try_into(),
-            RadonTypes::RadonError(error) => panic!(
-                "Should never try to build a `serde_cbor::Value` from `RadonTypes::RadonError`. Error was: {error:?}"
-            ),
+            // Errors can be found inside of arrays and maps that were decoded from reveals, but
+            // they cannot be encoded in there.
+            RadonTypes::RadonError(_) => Err(RadError::Encode {
+                from: "RadonTypes::RadonError",
+                to: "serde_cbor::Value",
+            }),
             RadonTypes::Float(radon_float) => radon_float.try_into(),
             RadonTypes::Integer(radon_integer) => radon_integer.try_into(),
             RadonTypes::Map(radon_map) => radon_map.try_into(),
-- 
2.43.0


From a02ca9cfceac6674f866c8454cf998bfefe1d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 33/61] fix: negative integers below the range of 64 bits are
 decoded as positive ones

---
 rad/src/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 8148e41..e3a800e 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -444,7 +444,7 @@ impl TryFrom<CborValue> for RadonTypes {
             CborValue::I32(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
             CborValue::I64(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
             CborValue::Int(Int::Neg(x)) => {
-                Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x))))
+                Ok(RadonTypes::Integer(RadonInteger::from(-1 - i128::from(x))))
             }
             CborValue::Int(Int::Pos(x)) => {
                 Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x))))
-- 
2.43.0


From 585ec7d32459e086338e658cd9360302905537aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:05 +0000
Subject: [PATCH 34/61] fix: apply the active WIPs when data sources are
 retrieved through several transports

---
 rad/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rad/src/lib.rs b/rad/src/lib.rs
index b0f4701..6d1193c 100644
--- a/rad/src/lib.rs
+++ b/rad/src/lib.rs
@@ -676,6 +676,12 @@ fn evaluate_paranoid_retrieval(
     // debugging data sources through `witnet_toolkit`), we can refactor `AggregateMetaData` and
     // avoid these tricks here.
     let mut context = ReportContext::from_stage(Stage::Tally(TallyMetaData::default()));
+    // The values must be aggregated under the same rules under which they were retrieved, or the
+    // reducers that need an active WIP would always fail.
+    if let Some(report) = reports.first() {
+        context.active_wips = report.context.active_wips.clone();
+        context.protocol_version = report.context.protocol_version;
+    }
     let consensus = RADTally::from(aggregate);
     let tally = run_tally_with_context_report(values, &consensus, &mut context, settings)
         // Case 3
-- 
2.43.0


From 1c0161878dcf8de6cff2a6f16284431e8175d752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:05 +0000
Subject: [PATCH 35/61] fix: add up the stakes on the same validator in the
 wallet

A second stake with the same validator and withdrawer was subtracted from
the first one, and failed if it was the greater of both.
---
 wallet/src/repository/wallet/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index eff07e7..b5abed0 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1495,7 +1495,7 @@ where
             let amount = if let Some(output) = output {
                 output
                     .value
-                    .checked_sub(stake_output_insert.amount)
+                    .checked_add(stake_output_insert.amount)
                     .ok_or(Error::TransactionValueOverflow)?
             } else {
                 stake_output_insert.amount
-- 
2.43.0


From c68a01e237c84f130b80939294558db10b5aec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:05 +0000
Subject: [PATCH 36/61] fix: take the fee of an unstake from the stake in the
 wallet

The chain removes from the stake what is withdrawn and the fee.
---
 wallet/src/repository/wallet/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index b5abed0..0810cd2 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1852,7 +1852,11 @@ where
                     withdrawer: unstake.body.withdrawal.pkh,
                     validator: unstake.body.operator,
                 },
-                amount: unstake.body.withdrawal.value,
+                amount: unstake
+                    .body
+                    .withdrawal
+                    .value
+                    .saturating_add(unstake.body.fee),
             };
             stake_output_removals.push(stake_output_info);
         }
-- 
2.43.0


From 431a8edcb414fa44eb0ffe9f0fce36a02e0eb56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:05 +0000
Subject: [PATCH 37/61] fix: forget all pending state of a wallet when blocks
 are discarded

The stakes and data requests of the discarded blocks, and the balance of
the forgotten local movements, survived.
---
 wallet/src/repository/wallet/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 0810cd2..e09d326 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -278,12 +278,17 @@ where
         state.pending_addresses_by_block.clear();
         state.local_movements.clear();
         state.db_movements_to_update.clear();
+        state.pending_dr_movements.clear();
 
         // Restore state from database
         state.transaction_next_id = self
             .db
             .get_or_default(&keys::transaction_next_id(account))?;
         state.utxo_set = self.db.get_or_default(&keys::account_utxo_set(account))?;
+        state.stake_output_set = self
+            .db
+            .get_or_default(&keys::account_stake_output_set(account))?;
+        state.balance.local = 0;
         state.used_outputs = model::clean_used_outputs(&state.used_outputs, &state.utxo_set);
         state.balance.confirmed = self.db.get_or_default(&keys::account_balance(account))?;
         state.balance.unconfirmed = state.balance.confirmed;
-- 
2.43.0


From 8cc64dc64455bf8438a5e473c67893a3ae2a558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:05 +0000
Subject: [PATCH 38/61] fix: a time lock of the wallet ends when it ends on the
 chain

An output can be spent in the block whose time is its time lock.
---
 wallet/src/repository/wallet/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index e09d326..5375150 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -962,7 +962,7 @@ where
             .fold(
                 model::BalanceInfo::default(),
                 |mut acc, (amount, time_lock)| {
-                    if timestamp > time_lock {
+                    if timestamp >= time_lock {
                         acc.available =
                             acc.available.checked_add(amount).expect("balance overflow");
                     } else {
-- 
2.43.0


From 05d1b377457c462787e73462a685c9ed4c824868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 39/61] fix: keep the outputs of the wallet that are in use,
 not those that were

When blocks were discarded, the outputs of transactions that still waited
became available to other transactions, and the others did not.
---
 wallet/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/model.rs b/wallet/src/model.rs
index b48e491..918f90b 100644
--- a/wallet/src/model.rs
+++ b/wallet/src/model.rs
@@ -420,7 +420,7 @@ pub fn clean_used_outputs(used_outputs: &UsedOutputs, utxo_set: &UtxoSet) -> Use
     let mut new_hm = UsedOutputs::default();
     let now = get_timestamp() as u64;
     for (o, &ts) in used_outputs.iter() {
-        if utxo_set.contains_key(o) && ts < now {
+        if utxo_set.contains_key(o) && ts > now {
             new_hm.insert(o.clone(), ts);
         }
     }
-- 
2.43.0


From 4ad409b65681504f0534f08980c9b3b93d6bd186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 40/61] fix: clear all chain data of a wallet before it is
 synchronized anew

Unspent outputs, stakes, balances and what the addresses had received
stayed in the database: after a resync the payments were counted twice,
and a wallet closed in the middle of it opened with the old outputs.
---
 wallet/src/repository/wallet/mod.rs   | 28 ++++++++++++++++++++++++++-
 wallet/src/repository/wallet/state.rs |  2 ++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 5375150..f335fe2 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2122,12 +2122,38 @@ where
     /// Resets synchronization status in database:
     /// - Last synchronization status set to the genesis block
     /// - Transaction index set to zero
+    /// - Balances, unspent outputs, stakes and what the addresses received cleared
     /// - External and internal address indices set to zero
     pub fn clear_chain_data(&self) -> Result<()> {
         let mut state = self.state.write()?;
-        state.clear_chain_data();
 
         let mut batch = self.db.batch();
+        // What the known addresses received is to be counted anew
+        for (keychain, next_index) in [
+            (constants::EXTERNAL_KEYCHAIN, state.next_external_index),
+            (constants::INTERNAL_KEYCHAIN, state.next_internal_index),
+        ] {
+            for index in 0..next_index {
+                batch.put(
+                    &keys::address_info(0, keychain, index),
+                    &model::AddressInfo {
+                        label: None,
+                        received_payments: vec![],
+                        received_amount: 0,
+                        first_payment_date: None,
+                        last_payment_date: None,
+                    },
+                )?;
+            }
+        }
+        state.clear_chain_data();
+
+        batch.put(&keys::account_utxo_set(0), model::UtxoSet::default())?;
+        batch.put(
+            &keys::account_stake_output_set(0),
+            model::StakeOutputSet::default(),
+        )?;
+        batch.put(&keys::account_balance(0), model::BalanceInfo::default())?;
         batch.put(&keys::wallet_last_sync(), state.birth_date)?;
         batch.put(&keys::transaction_next_id(0), 0)?;
         batch.put(
diff --git a/wallet/src/repository/wallet/state.rs b/wallet/src/repository/wallet/state.rs
index 732b936..fc463b9 100644
--- a/wallet/src/repository/wallet/state.rs
+++ b/wallet/src/repository/wallet/state.rs
@@ -101,6 +101,7 @@ impl State {
     ///
     pub fn clear_chain_data(&mut self) {
         self.balance = Default::default();
+        self.db_movements_to_update.clear();
         self.last_confirmed = self.birth_date;
         self.last_sync = self.birth_date;
         self.local_movements.clear();
@@ -114,6 +115,7 @@ impl State {
         self.pending_transactions.clear();
         self.transaction_next_id = Default::default();
         self.utxo_set.clear();
+        self.stake_output_set.clear();
         self.used_outputs.clear();
         self.transient_internal_addresses.clear();
         self.transient_external_addresses.clear();
-- 
2.43.0


From 41e190f5e7e1afe5cb9b22be6aaa618b1c5149ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 41/61] fix: persist the pending blocks of a wallet in order

A superblock that the wallet did not hear of, or a confirmed block on top
of pending ones, left the movements and addresses of the earlier blocks
out of the database, although the outputs and the number of movements
that were stored contained them. And what could not be written was lost.
---
 wallet/src/repository/wallet/mod.rs | 79 ++++++++++++++++++++++++-----
 1 file changed, 67 insertions(+), 12 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index f335fe2..d3c4e5c 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -982,6 +982,9 @@ where
 
         // Persist into database
         if confirmed {
+            // The pending blocks that a confirmed block builds upon are confirmed as well
+            self._consolidate_blocks_before(&mut state, block_info.epoch)?;
+
             let mut balance_movements_to_persist = block_balance_movements.clone();
             balance_movements_to_persist.extend_from_slice(&db_movements_to_update);
 
@@ -2043,22 +2046,67 @@ where
     }
 
     /// Try to consolidate a block by persisting all changes into the database.
+    ///
+    /// The state after a block contains that of the pending blocks before it, so those are
+    /// consolidated first.
     pub fn try_consolidate_block(&self, block_hash: &str) -> Result<()> {
         let mut state = self.state.write()?;
 
-        // Retrieve and remove pending changes of the block
-        let block_state = state.pending_blocks.remove(block_hash).ok_or_else(|| {
-            Error::BlockConsolidation(format!("beacon not found for pending block {block_hash}"))
-        })?;
-        let mut movements = state.pending_movements.remove(block_hash).ok_or_else(|| {
-            Error::BlockConsolidation(format!(
-                "balance movements not found for pending block {block_hash}"
-            ))
-        })?;
+        let epoch = state
+            .pending_blocks
+            .get(block_hash)
+            .map(|block_state| block_state.beacon.epoch)
+            .ok_or_else(|| {
+                Error::BlockConsolidation(format!(
+                    "beacon not found for pending block {block_hash}"
+                ))
+            })?;
+        self._consolidate_blocks_before(&mut state, epoch)?;
+
+        self._consolidate_block(&mut state, block_hash)
+    }
+
+    /// Consolidate all the pending blocks prior to some epoch, in order.
+    fn _consolidate_blocks_before(&self, state: &mut State, epoch: u32) -> Result<()> {
+        let mut earlier: Vec<_> = state
+            .pending_blocks
+            .iter()
+            .filter(|(_, block_state)| block_state.beacon.epoch < epoch)
+            .map(|(block_hash, block_state)| (block_state.beacon.epoch, block_hash.clone()))
+            .collect();
+        earlier.sort();
+
+        earlier
+            .iter()
+            .try_for_each(|(_, block_hash)| self._consolidate_block(state, block_hash))
+    }
+
+    /// Non-locking persistence of all the changes of a single pending block.
+    fn _consolidate_block(&self, state: &mut State, block_hash: &str) -> Result<()> {
+        // Retrieve pending changes of the block
+        let block_state = state
+            .pending_blocks
+            .get(block_hash)
+            .cloned()
+            .ok_or_else(|| {
+                Error::BlockConsolidation(format!(
+                    "beacon not found for pending block {block_hash}"
+                ))
+            })?;
+        let mut movements = state
+            .pending_movements
+            .get(block_hash)
+            .cloned()
+            .ok_or_else(|| {
+                Error::BlockConsolidation(format!(
+                    "balance movements not found for pending block {block_hash}"
+                ))
+            })?;
         movements.extend(
             state
                 .db_movements_to_update
-                .remove(block_hash)
+                .get(block_hash)
+                .cloned()
                 .ok_or_else(|| {
                     Error::BlockConsolidation(format!(
                         "balance movements not found for pending block {block_hash}"
@@ -2068,7 +2116,8 @@ where
 
         let addresses = state
             .pending_addresses_by_block
-            .remove(block_hash)
+            .get(block_hash)
+            .cloned()
             .ok_or_else(|| {
                 Error::BlockConsolidation(format!(
                     "address infos not found for pending block {block_hash}"
@@ -2078,7 +2127,7 @@ where
         // Try to persist block transaction changes
         self._persist_block_txns(
             movements.clone(),
-            addresses,
+            addresses.clone(),
             block_state.transaction_next_id,
             block_state.utxo_set.clone(),
             block_state.stake_output_set.clone(),
@@ -2086,6 +2135,12 @@ where
             &block_state.beacon,
         )?;
 
+        // Once they are persisted, the changes of the block are no longer pending
+        state.pending_blocks.remove(block_hash);
+        state.pending_movements.remove(block_hash);
+        state.db_movements_to_update.remove(block_hash);
+        state.pending_addresses_by_block.remove(block_hash);
+
         // Update pending DR movements if they were persisted
         // balance_movements_to_persist.
         movements.iter().for_each(|x| {
-- 
2.43.0


From 52770507677e89b04e9953bb4b6bac96f98e5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 42/61] fix: what an address received is read from the database
 once it is there

Pending address information hid what later, confirmed blocks had paid.
---
 wallet/src/repository/wallet/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index d3c4e5c..fbdb224 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -978,7 +978,7 @@ where
             .map(|stake_output| stake_output.value)
             .sum();
 
-        let addresses = addresses.into_values().collect();
+        let addresses: Vec<_> = addresses.into_values().collect();
 
         // Persist into database
         if confirmed {
@@ -988,6 +988,9 @@ where
             let mut balance_movements_to_persist = block_balance_movements.clone();
             balance_movements_to_persist.extend_from_slice(&db_movements_to_update);
 
+            for address in &addresses {
+                state.pending_addresses_by_path.remove(&address.path);
+            }
             self._persist_block_txns(
                 balance_movements_to_persist.clone(),
                 addresses,
@@ -2140,6 +2143,11 @@ where
         state.pending_movements.remove(block_hash);
         state.db_movements_to_update.remove(block_hash);
         state.pending_addresses_by_block.remove(block_hash);
+        for address in &addresses {
+            if state.pending_addresses_by_path.get(&address.path) == Some(address) {
+                state.pending_addresses_by_path.remove(&address.path);
+            }
+        }
 
         // Update pending DR movements if they were persisted
         // balance_movements_to_persist.
-- 
2.43.0


From e4cbd1abb0704cd7ae518dd340a06ec9fd326a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:43 +0000
Subject: [PATCH 43/61] fix: subscriptions of the JSON-RPC client survive a
 failed request

A subscription that failed while a reconnection was in its cool-down
period was only tried again after the connection failed once more. One
that was answered after the connection had been replaced was registered
on the new connection, whose server did not know of it.
---
 net/src/client/tcp/actors/jsonrpc.rs | 87 +++++++++++++++-------------
 1 file changed, 48 insertions(+), 39 deletions(-)

diff --git a/net/src/client/tcp/actors/jsonrpc.rs b/net/src/client/tcp/actors/jsonrpc.rs
index 51a3dd6..879f4f2 100644
--- a/net/src/client/tcp/actors/jsonrpc.rs
+++ b/net/src/client/tcp/actors/jsonrpc.rs
@@ -362,48 +362,57 @@ impl Handler<Subscribe> for JsonRpcClient {
         let topic = subscription_topic_from_request(&request);
         log::debug!("Handling Subscribe message for topic {topic}. Request is {request:?}");
 
-        ctx.address()
-            .send(request.clone())
-            .into_actor(self)
+        // The subscription is only good for the connection on which it was requested
+        let connection_timestamp = self.connection.timestamp;
+
+        Handler::<Request>::handle(self, request.clone(), ctx)
             .map(move |res, act, ctx| match res {
-                Ok(resp) => match resp {
-                    Ok(Value::String(id)) => {
-                        if let Ok(mut subscriptions) = act.active_subscriptions.lock() {
-                            (*subscriptions).insert(id.clone(), subscribe.clone());
-                        };
-
-                        let stream_01 = act.connection.socket.subscribe(&id.clone().into());
-
-                        let stream_03 = Compat01As03::new(stream_01);
-                        let stream = stream_03.map(move |res| {
-                            let id = id.clone();
-                            res.map(move |value| {
-                                log::debug!("<< Forwarding notification from node to subscribers",);
-                                log::trace!("<< {value:?}");
-                                NotifySubscriptionId { id, value }
-                            })
-                            .map_err(|err| Error::RequestFailed {
-                                message: err.to_string(),
-                                error_kind: err.0,
-                            })
-                        });
-                        Self::add_stream(stream, ctx);
-                        if let Some(method) = request.params.get(0) {
-                            log::info!("Client {method} subscription created");
-                        }
-                    }
-                    Ok(_) => {
-                        log::error!("Unsupported subscription id. Subscription cancelled.");
-                    }
-                    Err(err) => {
-                        log::error!(
-                            "Could not subscribe to topic {topic}. Delaying subscription. Error was: {err}"
-                        );
-                        act.pending_subscriptions.insert(topic, subscribe);
+                Ok(_) if act.connection.timestamp != connection_timestamp => {
+                    log::warn!("The connection was replaced while subscribing to topic {topic}. Subscribing again.");
+                    ctx.notify(subscribe);
+                }
+                Ok(Value::String(id)) => {
+                    if let Ok(mut subscriptions) = act.active_subscriptions.lock() {
+                        (*subscriptions).insert(id.clone(), subscribe.clone());
+                    };
+
+                    let stream_01 = act.connection.socket.subscribe(&id.clone().into());
+
+                    let stream_03 = Compat01As03::new(stream_01);
+                    let stream = stream_03.map(move |res| {
+                        let id = id.clone();
+                        res.map(move |value| {
+                            log::debug!("<< Forwarding notification from node to subscribers",);
+                            log::trace!("<< {value:?}");
+                            NotifySubscriptionId { id, value }
+                        })
+                        .map_err(|err| Error::RequestFailed {
+                            message: err.to_string(),
+                            error_kind: err.0,
+                        })
+                    });
+                    Self::add_stream(stream, ctx);
+                    if let Some(method) = request.params.get(0) {
+                        log::info!("Client {method} subscription created");
                     }
-                },
+                }
+                Ok(_) => {
+                    log::error!("Unsupported subscription id. Subscription cancelled.");
+                }
                 Err(err) => {
-                    log::error!("Couldn't subscribe: {err}");
+                    log::error!(
+                        "Could not subscribe to topic {topic}. Delaying subscription. Error was: {err}"
+                    );
+                    act.pending_subscriptions.insert(topic.clone(), subscribe);
+                    // If the connection is not replaced before, try again on this one
+                    ctx.run_later(
+                        Duration::from_millis(MAX_BACKOFF_TIME_MILLIS),
+                        move |act, ctx| {
+                            if let Some(subscribe) = act.pending_subscriptions.remove(&topic) {
+                                ctx.notify(subscribe);
+                            }
+                        },
+                    );
                 }
             })
             .spawn(ctx);
-- 
2.43.0


From d31e8fa0ff9ce0318397dee6e0ce5af3f5cbd0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:24 +0000
Subject: [PATCH 44/61] fix: a malformed reveal does not stop the wallet

The block with the tally of a data request of the wallet could not be
indexed if a witness had revealed what cannot be decoded, so that the
wallet was not synchronized ever again.
---
 wallet/src/repository/wallet/mod.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index fbdb224..1dd8798 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2419,19 +2419,23 @@ fn build_tally_report(
                 .reveals
                 .iter()
                 .map(|(pkh, reveal_txn)| {
-                    RadonTypes::try_from(reveal_txn.body.reveal.as_slice())
-                        .map(|x| {
-                            (
-                                *pkh,
-                                model::Reveal {
-                                    value: x.to_string(),
-                                    in_consensus: true,
-                                },
+                    // A witness can reveal anything, also what is not a value
+                    let value = RadonTypes::try_from(reveal_txn.body.reveal.as_slice())
+                        .unwrap_or_else(|_| {
+                            RadonTypes::from(
+                                RadonError::try_from(RadError::MalformedReveal).unwrap(),
                             )
-                        })
-                        .map_err(|err| Error::RevealRadDecode(err.to_string()))
+                        });
+
+                    (
+                        *pkh,
+                        model::Reveal {
+                            value: value.to_string(),
+                            in_consensus: true,
+                        },
+                    )
                 })
-                .collect::<Result<HashMap<PublicKeyHash, model::Reveal>>>()?;
+                .collect();
 
             // Set not `in_consensus` reveals
             for pkh in &tally.out_of_consensus {
-- 
2.43.0


From d071b38b8403721a8ed032962c9c0ce628f7991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:24 +0000
Subject: [PATCH 45/61] fix: the wallet tells which reveals were out of
 consensus

The flag was set on a copy of the reveal.
---
 wallet/src/repository/wallet/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 1dd8798..ed89bc9 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2439,8 +2439,7 @@ fn build_tally_report(
 
             // Set not `in_consensus` reveals
             for pkh in &tally.out_of_consensus {
-                let outlier = reveals.get_mut(pkh).cloned();
-                if let Some(mut reveal) = outlier {
+                if let Some(reveal) = reveals.get_mut(pkh) {
                     reveal.in_consensus = false;
                 } else {
                     reveals.insert(
-- 
2.43.0


From 145bdac3f729922b15184d81518b389940093b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:48 +0000
Subject: [PATCH 46/61] fix: the wallet sees what spends its outputs in the
 block that created them

A transaction that spent an output of the wallet created in the same
block, and paid nothing back to it, was missed, so the wallet kept on
listing an output that no longer existed.
---
 wallet/src/actors/worker/methods.rs |  2 +-
 wallet/src/repository/wallet/mod.rs | 29 ++++++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/wallet/src/actors/worker/methods.rs b/wallet/src/actors/worker/methods.rs
index e2a2187..e0ff122 100644
--- a/wallet/src/actors/worker/methods.rs
+++ b/wallet/src/actors/worker/methods.rs
@@ -442,7 +442,7 @@ impl Worker {
         // Note: this code can be further refactored by only updating the transient addresses
         wallet._sync_address_generation(txns.clone())?;
 
-        let filtered_txns = wallet.filter_wallet_transactions(txns)?;
+        let filtered_txns = wallet.filter_wallet_transactions(txns, block_info)?;
         log::debug!(
             "Indexing block #{} ({}) with {} transactions ({})",
             block_info.epoch,
diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index ed89bc9..7dd759f 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -790,10 +790,18 @@ where
     pub fn filter_wallet_transactions(
         &self,
         txns: impl Iterator<Item = Transaction>,
+        block_info: &model::Beacon,
     ) -> Result<Vec<Transaction>> {
         let state = self.state.read()?;
+        let protocol_version = self
+            .params
+            .protocol_info
+            .all_versions
+            .version_for_epoch(block_info.epoch);
 
         let mut filtered_txns = vec![];
+        // Transactions of this same block that pay to the wallet, and may be spent by others in it
+        let mut paying_txns: HashMap<Hash, Vec<bool>> = HashMap::new();
         for txn in txns {
             // Inputs and outputs from different transaction types
             let (inputs, outputs): (&[Input], &[ValueTransferOutput]) = match txn {
@@ -834,12 +842,23 @@ where
                     || state.transient_external_addresses.contains_key(&output.pkh)
                     || state.transient_internal_addresses.contains_key(&output.pkh)
             };
+            let own_outputs: Vec<bool> = outputs.iter().map(check_db_and_transient).collect();
+            let is_own_input = |input: &Input| {
+                let pointer = input.output_pointer();
+
+                state.utxo_set.contains_key(&pointer.into())
+                    || paying_txns
+                        .get(&pointer.transaction_id)
+                        .and_then(|outputs| outputs.get(pointer.output_index as usize))
+                        .copied()
+                        .unwrap_or(false)
+            };
             // Check if any input or output is from the wallet (input is an UTXO or output points to any wallet's pkh)
-            if inputs
-                .iter()
-                .any(|input| state.utxo_set.contains_key(&input.output_pointer().into()))
-                || outputs.iter().any(check_db_and_transient)
-            {
+            let pays_to_wallet = own_outputs.contains(&true);
+            if pays_to_wallet || inputs.iter().any(is_own_input) {
+                if pays_to_wallet {
+                    paying_txns.insert(txn.versioned_hash(protocol_version), own_outputs);
+                }
                 filtered_txns.push(txn.clone());
             }
         }
-- 
2.43.0


From 03c30e7a2bcb5c7af0e29e08683e2d956be7ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 47/61] fix: the birth date of a wallet can be any epoch that
 has begun

The current epoch was computed as if its length had never changed, so
that recent epochs were refused once they became shorter.
---
 wallet/src/actors/worker/methods.rs | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/wallet/src/actors/worker/methods.rs b/wallet/src/actors/worker/methods.rs
index e0ff122..ba0eedc 100644
--- a/wallet/src/actors/worker/methods.rs
+++ b/wallet/src/actors/worker/methods.rs
@@ -7,8 +7,8 @@ use serde_json::{Value, json};
 use witnet_crypto::{key::ExtendedSK, mnemonic};
 use witnet_data_structures::{
     chain::{
-        Block, CheckpointBeacon, DataRequestInfo, OutputPointer, RADRequest, StateMachine,
-        ValueTransferOutput,
+        Block, CheckpointBeacon, DataRequestInfo, EpochConstants, OutputPointer, RADRequest,
+        StateMachine, ValueTransferOutput,
     },
     fee::AbsoluteFee,
     proto::versioning::VersionedHashable,
@@ -170,11 +170,7 @@ impl Worker {
             }
             // Use provided epoch as birth date
             Some(types::BirthDate::Imported(epoch)) => {
-                validate_birth_date(
-                    epoch,
-                    self.params.epoch_constants.checkpoint_zero_timestamp,
-                    self.params.epoch_constants.checkpoints_period,
-                )?;
+                validate_birth_date(epoch, &self.params.epoch_constants)?;
 
                 let gen_fut = self.get_block_chain(
                     // this unwrap will never be called due to confirm_superblock_period is a consensus constant value
@@ -1296,19 +1292,12 @@ impl Worker {
     }
 }
 
-fn validate_birth_date(
-    birth_date: u32,
-    checkpoint_zero_timestamp: i64,
-    checkpoints_period: u16,
-) -> Result<()> {
-    let seconds_from_genesis = get_timestamp() - checkpoint_zero_timestamp;
-    let current_epoch = seconds_from_genesis / i64::from(checkpoints_period);
-
-    if current_epoch < i64::from(birth_date) {
-        Err(Error::InvalidBirthDate(
-            birth_date,
-            u32::try_from(current_epoch).unwrap_or(0),
-        ))
+fn validate_birth_date(birth_date: u32, epoch_constants: &EpochConstants) -> Result<()> {
+    // The length of the epochs may have changed since genesis
+    let current_epoch = epoch_constants.epoch_at(get_timestamp()).unwrap_or(0);
+
+    if current_epoch < birth_date {
+        Err(Error::InvalidBirthDate(birth_date, current_epoch))
     } else {
         Ok(())
     }
-- 
2.43.0


From 79857eacb2110888288243b1a0c3c58087ea12d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:42 +0000
Subject: [PATCH 48/61] fix: a session of a wallet stops writing chain data
 once it is over

A wallet that was locked, or unlocked again, while its synchronization
was running had two of them writing into its database: movements were
counted twice and the balance was not that of the last block. After a
wrong password the synchronization in the running session did not
continue beyond a batch.
---
 wallet/src/actors/app/methods.rs    | 16 ++++++++++++++--
 wallet/src/actors/app/state.rs      |  5 ++++-
 wallet/src/repository/error.rs      |  2 ++
 wallet/src/repository/wallet/mod.rs | 21 ++++++++++++++++++---
 4 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/wallet/src/actors/app/methods.rs b/wallet/src/actors/app/methods.rs
index 300d266..d091989 100644
--- a/wallet/src/actors/app/methods.rs
+++ b/wallet/src/actors/app/methods.rs
@@ -386,8 +386,12 @@ impl App {
     ) -> ResponseActFuture<types::UnlockedWallet> {
         // If a synchronization from a previous session is still running, set `stop_syncing` to
         // `true` so as to signal that it must stop as soon as possible
-        if let Some(wallet) = self.state.get_current_wallet_session(wallet_id.clone()) {
-            wallet.set_stop_syncing().expect("Lock error")
+        let previous = self
+            .state
+            .get_current_wallet_session(wallet_id.clone())
+            .cloned();
+        if let Some(wallet) = &previous {
+            wallet.set_stop_syncing(true).expect("Lock error")
         }
         let id = wallet_id.clone();
         let f = self
@@ -396,6 +400,14 @@ impl App {
             .send(worker::UnlockWallet { id, password })
             .flatten_err()
             .into_actor(self)
+            .map(move |res, _slf: &mut Self, _ctx| {
+                // There is no new session, so that the previous one can go on
+                if let (Err(_), Some(wallet)) = (&res, &previous) {
+                    wallet.set_stop_syncing(false).expect("Lock error")
+                }
+
+                res
+            })
             .and_then(move |res, slf: &mut Self, ctx| {
                 let types::UnlockedSessionWallet {
                     wallet,
diff --git a/wallet/src/actors/app/state.rs b/wallet/src/actors/app/state.rs
index 27fdb12..3bb8e69 100644
--- a/wallet/src/actors/app/state.rs
+++ b/wallet/src/actors/app/state.rs
@@ -143,7 +143,10 @@ impl State {
             .get_mut(session_id)
             .ok_or(Error::SessionNotFound)?;
 
-        session.wallets.remove(wallet_id);
+        if let Some(wallet) = session.wallets.remove(wallet_id) {
+            // It may be unlocked again while its synchronization is still running
+            wallet.set_stop_syncing(true).ok();
+        }
         self.wallets.remove(wallet_id);
 
         Ok(())
diff --git a/wallet/src/repository/error.rs b/wallet/src/repository/error.rs
index bf1a52f..9829953 100644
--- a/wallet/src/repository/error.rs
+++ b/wallet/src/repository/error.rs
@@ -46,6 +46,8 @@ pub enum Error {
     TallyRadDecode(String),
     #[error("reveal decode failed: {0}")]
     RevealRadDecode(String),
+    #[error("synchronization was stopped because the wallet was unlocked in another session")]
+    SyncStopped,
     #[error("transaction metadata type is wrong: {0}")]
     WrongMetadataType(String),
     #[error("block consolidation failed: {0}")]
diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 7dd759f..d5eb716 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -528,14 +528,24 @@ where
         Ok((Arc::new(address), next_index))
     }
 
-    /// Set stop syncing flag to true
-    pub fn set_stop_syncing(&self) -> Result<()> {
+    /// Set the stop syncing flag. While it is set, this session of the wallet does not write any
+    /// chain data into the database, which may belong to another session by then.
+    pub fn set_stop_syncing(&self, stop_syncing: bool) -> Result<()> {
         let mut state = self.state.write()?;
-        state.stop_syncing = true;
+        state.stop_syncing = stop_syncing;
 
         Ok(())
     }
 
+    /// Fail if the synchronization of this session of the wallet was stopped
+    fn _check_not_stopped(&self, state: &State) -> Result<()> {
+        if state.stop_syncing {
+            Err(Error::SyncStopped)
+        } else {
+            Ok(())
+        }
+    }
+
     /// Generate an address in the external keychain (WIP-0001).
     pub fn gen_external_address(&self, label: Option<String>) -> Result<Arc<model::Address>> {
         let mut state = self.state.write()?;
@@ -874,6 +884,8 @@ where
         confirmed: bool,
     ) -> Result<Vec<model::BalanceMovement>> {
         let mut state = self.state.write()?;
+        self._check_not_stopped(&state)?;
+
         let mut addresses = HashMap::new();
         let mut block_balance_movements = Vec::new();
         let mut dr_balance_movements = HashMap::new();
@@ -1684,6 +1696,7 @@ where
     // if transaction outputs are pointing to transient addresses
     pub fn _sync_address_generation(&self, txns: impl Iterator<Item = Transaction>) -> Result<()> {
         let mut state = self.state.write()?;
+        self._check_not_stopped(&state)?;
 
         // Exit if not syncing
         if state.transient_internal_addresses.is_empty()
@@ -2073,6 +2086,7 @@ where
     /// consolidated first.
     pub fn try_consolidate_block(&self, block_hash: &str) -> Result<()> {
         let mut state = self.state.write()?;
+        self._check_not_stopped(&state)?;
 
         let epoch = state
             .pending_blocks
@@ -2208,6 +2222,7 @@ where
     /// - External and internal address indices set to zero
     pub fn clear_chain_data(&self) -> Result<()> {
         let mut state = self.state.write()?;
+        self._check_not_stopped(&state)?;
 
         let mut batch = self.db.batch();
         // What the known addresses received is to be counted anew
-- 
2.43.0


From de60c8501274ff94788fe4274d5813873ad976bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:31 +0000
Subject: [PATCH 49/61] fix: the result of a data request goes with the block
 that holds its tally

The movement of a pending data request was changed in place, so that the
result remained when the block with the tally was discarded after that of
the request had been confirmed.
---
 wallet/src/repository/wallet/mod.rs | 30 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index d5eb716..bf49ced 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -639,6 +639,12 @@ where
             transactions.extend_from_slice(local_movements.drain(range_local).as_slice());
         }
 
+        // Build a HashMap<transaction_index, balance_movement>
+        let mut db_movements_to_update: HashMap<u32, model::BalanceMovement> = HashMap::new();
+        state.db_movements_to_update.values().for_each(|movements| {
+            db_movements_to_update.extend(movements.iter().map(|x| (x.db_key, x.clone())))
+        });
+
         // Append balance movements of pending blocks
         if let Some(range_pending) = range_pending {
             // We need to order transaction by beacon
@@ -660,15 +666,14 @@ where
                 );
             });
 
-            transactions.extend_from_slice(&all_pending_movements[range_pending]);
+            transactions.extend(all_pending_movements[range_pending].iter().map(|movement| {
+                db_movements_to_update
+                    .get(&movement.db_key)
+                    .unwrap_or(movement)
+                    .clone()
+            }));
         }
 
-        // Build a HashMap<transaction_index, balance_movement>
-        let mut db_movements_to_update: HashMap<u32, model::BalanceMovement> = HashMap::new();
-        state.db_movements_to_update.values().for_each(|movements| {
-            db_movements_to_update.extend(movements.iter().map(|x| (x.db_key, x.clone())))
-        });
-
         if let Some(range_db) = range_db {
             for index in range_db.rev() {
                 let index = u32::try_from(index).unwrap();
@@ -680,7 +685,9 @@ where
                         "Updating transaction {:?} with pending tally found",
                         transaction.transaction.hash
                     );
-                    transactions.push(transaction.clone());
+                    let mut transaction = transaction.clone();
+                    transaction.transaction.confirmed = true;
+                    transactions.push(transaction);
                 } else {
                     match self.get_transaction(account, index) {
                         Ok(transaction) => {
@@ -938,10 +945,9 @@ where
                             let mut updated_dr_movement = dr_movement;
                             updated_dr_movement.transaction.data =
                                 build_updated_dr_transaction_data(dr_data, tally, &txn.metadata)?;
-                            state
-                                .pending_movements
-                                .get_mut(&pending_block_hash.to_string())
-                                .unwrap()[index] = updated_dr_movement;
+                            // The tally belongs to this block, which may be discarded even if that
+                            // of the data request is confirmed
+                            db_movements_to_update.push(updated_dr_movement);
                             state
                                 .pending_dr_movements
                                 .remove(&tally.dr_pointer.to_string());
-- 
2.43.0


From 50c383ab44c9a0d2e4c0cc5a5738b5fd8e7f3c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:35 +0000
Subject: [PATCH 50/61] fix: a transaction with an absolute fee must not be too
 heavy with all its inputs

---
 data_structures/src/transaction_factory.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index c844212..eaadcff 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -392,6 +392,15 @@ pub trait OutputsCollection {
                 let inputs =
                     self.take_enough_utxos(amount, timestamp, block_number_limit, utxo_strategy)?;
 
+                // The transaction must fit even with all the inputs that it needs
+                let change = usize::from(inputs.total_value > amount);
+                calculate_weight(
+                    inputs.pointers.len(),
+                    outputs.len() + change,
+                    dr_output,
+                    max_weight,
+                )?;
+
                 Ok(TransactionInfo {
                     fee: absolute_fee,
                     inputs,
-- 
2.43.0


From 508288b068969f8480d4421f921bfa7baf6ba077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:18 +0000
Subject: [PATCH 51/61] fix: report malformed messages of peers instead of
 panicking

The conversion from the legacy schema unwrapped, so any frame that was a
valid legacy envelope of an invalid message made the session panic and
left it registered for ever.
---
 data_structures/src/proto/versioning.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/proto/versioning.rs b/data_structures/src/proto/versioning.rs
index 62c9462..8f7859a 100644
--- a/data_structures/src/proto/versioning.rs
+++ b/data_structures/src/proto/versioning.rs
@@ -283,9 +283,9 @@ pub trait Versioned: ProtobufConvert {
     /// schema.
     fn from_versioned_pb(legacy: Self::LegacyType) -> Result<Self, Error>
     where
-        Self: From<Self::LegacyType>,
+        Self: TryFrom<Self::LegacyType, Error = Error>,
     {
-        Ok(Self::from(legacy))
+        Self::try_from(legacy)
     }
 
     /// Tries to deserialize a data structure from its regular protobuf schema, and if it fails, it
@@ -293,7 +293,7 @@ pub trait Versioned: ProtobufConvert {
     fn from_versioned_pb_bytes(bytes: &[u8]) -> Result<Self, Error>
     where
         <Self as ProtobufConvert>::ProtoStruct: protobuf::Message,
-        Self: From<Self::LegacyType>,
+        Self: TryFrom<Self::LegacyType, Error = Error>,
     {
         let mut current = Self::ProtoStruct::new();
         let direct_attempt = current
@@ -307,7 +307,7 @@ pub trait Versioned: ProtobufConvert {
             let mut legacy = Self::LegacyType::new();
             legacy.merge_from_bytes(bytes)?;
 
-            Ok(Self::from(legacy))
+            Self::try_from(legacy)
         }
     }
 }
@@ -848,11 +848,13 @@ impl From<LegacyMessage> for crate::proto::schema::witnet::Message {
     }
 }
 
-impl From<LegacyMessage> for Message {
-    fn from(legacy: LegacyMessage) -> Self {
+impl TryFrom<LegacyMessage> for Message {
+    type Error = Error;
+
+    fn try_from(legacy: LegacyMessage) -> Result<Self, Self::Error> {
         let pb = crate::proto::schema::witnet::Message::from(legacy);
 
-        Message::from_pb(pb).unwrap()
+        Message::from_pb(pb)
     }
 }
 
-- 
2.43.0


From 5cf9c741d723770de0361063beca0f008fd24c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:18 +0000
Subject: [PATCH 52/61] fix: refuse superblock votes with malformed keys or
 signatures

verify_signatures unwrapped the conversion of the secp256k1 key and
signature of a vote, so any peer could stop a node with one message.
---
 validations/src/validations.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 3978f04..bd84199 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2992,17 +2992,9 @@ pub fn verify_signatures(
                 let secp_message = superblock_vote.secp256k1_signature_message();
                 let secp_message_hash = calculate_sha256(&secp_message);
                 verify(
-                    &superblock_vote
-                        .secp256k1_signature
-                        .public_key
-                        .try_into()
-                        .unwrap(),
+                    &superblock_vote.secp256k1_signature.public_key.try_into()?,
                     &secp_message_hash.0,
-                    &superblock_vote
-                        .secp256k1_signature
-                        .signature
-                        .try_into()
-                        .unwrap(),
+                    &superblock_vote.secp256k1_signature.signature.try_into()?,
                 )?;
             }
         }
-- 
2.43.0


From 304950eebdd062fa9dd87c52ae74e7970d562e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:28 +0000
Subject: [PATCH 53/61] fix: search data requests since absolute epochs, and
 before the first day

---
 node/src/actors/chain_manager/handlers.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/node/src/actors/chain_manager/handlers.rs b/node/src/actors/chain_manager/handlers.rs
index 771c761..47f2f43 100644
--- a/node/src/actors/chain_manager/handlers.rs
+++ b/node/src/actors/chain_manager/handlers.rs
@@ -1561,8 +1561,10 @@ impl Handler<SearchDataRequests> for ChainManager {
             let offset = msg.offset.unwrap_or_default();
             let reverse = msg.reverse.unwrap_or_default();
             let mut since_epoch = msg.since.unwrap_or(-4_320);
-            if let Some(current) = self.current_epoch {
-                since_epoch = i64::from(current).saturating_add(since_epoch);
+            // Negative values are relative to current epoch, and cannot go beyond the first one
+            if since_epoch < 0 {
+                let current = i64::from(self.current_epoch.unwrap_or_default());
+                since_epoch = current.saturating_add(since_epoch).max(0);
             }
             let since_epoch = u32::try_from(since_epoch).inspect_err(|&e| {
                 log::warn!("Invalid 'since' limit on SearchDataRequests: {e}");
-- 
2.43.0


From 5b34c01d0d3b99438b6faf03ac3dcfed15ff7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 54/61] fix: refuse a wallet backup that is too short instead
 of panicking

---
 wallet/src/crypto.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wallet/src/crypto.rs b/wallet/src/crypto.rs
index ac380d2..e67532c 100644
--- a/wallet/src/crypto.rs
+++ b/wallet/src/crypto.rs
@@ -27,6 +27,9 @@ pub enum Error {
     InvalidKeyPath(String),
     #[error("The AES encryption/decryption failed: {0}")]
     Aes(cipher::Error),
+    /// The encrypted data does not have the expected format IV|SALT|CIPHERTEXT.
+    #[error("The encrypted data is too short ({0} bytes)")]
+    CiphertextTooShort(usize),
 }
 
 /// Result type for cryptographic operations that can fail.
@@ -131,6 +134,9 @@ pub fn encrypt_cbc(value: &[u8], password: &[u8]) -> Result<Vec<u8>> {
 
 /// AES-CBC decryption of a given u8 given as IV|SALT|CIPHERTEXT slice with the provided password.
 pub fn decrypt_cbc(ciphertext: &[u8], password: &[u8]) -> Result<Vec<u8>> {
+    if ciphertext.len() < IV_LENGTH + SALT_LENGTH {
+        return Err(Error::CiphertextTooShort(ciphertext.len()));
+    }
     let mut iv = ciphertext.to_vec();
     let mut salt = iv.split_off(IV_LENGTH);
     let true_ciphertext = salt.split_off(SALT_LENGTH);
-- 
2.43.0


From 34b17abbbe3f3214f1200acc8d975e2545929479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:32 +0000
Subject: [PATCH 55/61] fix: creating a wallet without overwriting never
 replaces one that is created meanwhile

---
 wallet/src/actors/worker/methods.rs  |  2 ++
 wallet/src/repository/wallets/mod.rs | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/wallet/src/actors/worker/methods.rs b/wallet/src/actors/worker/methods.rs
index ba0eedc..ab67b84 100644
--- a/wallet/src/actors/worker/methods.rs
+++ b/wallet/src/actors/worker/methods.rs
@@ -203,6 +203,7 @@ impl Worker {
         };
 
         // Return error if `overwrite=false` and wallet already exists
+        let creation_lock = self.wallets.lock_creation()?;
         if !overwrite
             && self
                 .wallets
@@ -237,6 +238,7 @@ impl Worker {
                 birth_date,
             },
         )?;
+        drop(creation_lock);
 
         Ok(id)
     }
diff --git a/wallet/src/repository/wallets/mod.rs b/wallet/src/repository/wallets/mod.rs
index 862cacd..a6b0a5e 100644
--- a/wallet/src/repository/wallets/mod.rs
+++ b/wallet/src/repository/wallets/mod.rs
@@ -1,4 +1,4 @@
-use std::sync::Mutex;
+use std::sync::{Mutex, MutexGuard};
 
 use super::*;
 use crate::{
@@ -13,6 +13,7 @@ mod tests;
 pub struct Wallets<T> {
     db: T,
     wallets_mutex: Mutex<()>,
+    creation_mutex: Mutex<()>,
 }
 
 impl<T: Database> Wallets<T> {
@@ -20,9 +21,16 @@ impl<T: Database> Wallets<T> {
         Self {
             db,
             wallets_mutex: Default::default(),
+            creation_mutex: Default::default(),
         }
     }
 
+    /// Prevent other wallets from being created while the returned guard is held, so that nobody
+    /// can create a wallet between checking that it does not exist and creating it
+    pub fn lock_creation(&self) -> Result<MutexGuard<'_, ()>> {
+        Ok(self.creation_mutex.lock()?)
+    }
+
     pub fn flush_db(&self) -> Result<()> {
         self.db.flush()?;
 
-- 
2.43.0


From e6e9fb2aa6bc0de4f40cf30fb554387f185b37d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:35 +0000
Subject: [PATCH 56/61] fix: a wallet applies each block once, even if several
 workers handle its chain at once

---
 wallet/src/actors/worker/methods.rs | 18 ++++++++++++++++++
 wallet/src/repository/wallet/mod.rs | 10 +++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/wallet/src/actors/worker/methods.rs b/wallet/src/actors/worker/methods.rs
index ab67b84..c8f9be4 100644
--- a/wallet/src/actors/worker/methods.rs
+++ b/wallet/src/actors/worker/methods.rs
@@ -768,11 +768,20 @@ impl Worker {
     ) -> Result<()> {
         let sync_start = wallet.lock_and_read_state(|state| state.last_sync.checkpoint)?;
 
+        // Do not synchronize the same wallet twice at the same time
+        let chain_lock = wallet.lock_chain()?;
+        if wallet.is_syncing()? {
+            log::debug!("Wallet {wallet_id} is already being synchronized");
+
+            return Ok(());
+        }
+
         // Generate transient addresses for sync purposes
         wallet.initialize_transient_addresses(
             self.params.sync_address_batch_length,
             self.params.sync_address_batch_length,
         )?;
+        drop(chain_lock);
 
         let sync_result = self.sync_inner(wallet_id, wallet, sink.clone());
 
@@ -1006,6 +1015,8 @@ impl Worker {
         wallet: types::SessionWallet,
         sink: types::DynamicSink,
     ) -> Result<()> {
+        // Nobody else may move the tip of the chain of the wallet until the block is indexed
+        let chain_lock = wallet.lock_chain()?;
         let block_beacon = block.block_header.beacon;
         let wallet_data = wallet.public_data()?;
         let last_sync = wallet_data.last_sync;
@@ -1092,6 +1103,7 @@ impl Worker {
             // Update wallet state with the last indexed epoch and block hash
             wallet.update_sync_state(new_last_sync, confirmed)?;
         }
+        drop(chain_lock);
 
         Ok(())
     }
@@ -1115,6 +1127,7 @@ impl Worker {
             notification.consolidated_block_hashes
         );
 
+        let chain_lock = wallet.lock_chain()?;
         if wallet.is_syncing()? {
             log::warn!(
                 "Superblock #{} notification received. Ignoring superblock because the wallet is still synchronizing...",
@@ -1127,6 +1140,7 @@ impl Worker {
         let consolidated = wallet
             .handle_superblock(&notification.consolidated_block_hashes)
             .map_err(Error::from);
+        drop(chain_lock);
 
         match consolidated {
             Ok(_) => {
@@ -1175,8 +1189,10 @@ impl Worker {
         let events = vec![types::Event::NodeStatus(status)];
         self.notify_client(&wallet, sink.clone(), Some(events)).ok();
 
+        let chain_lock = wallet.lock_chain()?;
         if status == StateMachine::Synced && !wallet.is_syncing()? {
             wallet.clear_pending_state().ok();
+            drop(chain_lock);
             self.sync(&wallet.id, &wallet, sink)?;
         }
 
@@ -1276,8 +1292,10 @@ impl Worker {
         sink: DynamicSink,
     ) -> Result<bool> {
         // Do not try to clear chain data and resync if a resynchronization is already in progress
+        let chain_lock = wallet.lock_chain()?;
         if !wallet.is_syncing()? {
             wallet.clear_chain_data()?;
+            drop(chain_lock);
 
             self.sync(wallet_id, &wallet, sink).map(|_| true)
         } else {
diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index bf49ced..107edc8 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -5,7 +5,7 @@ use std::{
     convert::TryFrom,
     ops::Range,
     str::FromStr,
-    sync::{Arc, RwLock, RwLockReadGuard},
+    sync::{Arc, Mutex, MutexGuard, RwLock, RwLockReadGuard},
 };
 
 use bech32::ToBase32;
@@ -185,6 +185,7 @@ pub struct Wallet<T> {
     db: T,
     params: Params,
     state: RwLock<State>,
+    chain_mutex: Mutex<()>,
 }
 
 impl<T> Wallet<T>
@@ -438,9 +439,16 @@ where
             db,
             params,
             state,
+            chain_mutex: Default::default(),
         })
     }
 
+    /// Prevent other threads from applying blocks and superblocks to this wallet, clearing them or
+    /// starting to synchronize it while the returned guard is held
+    pub fn lock_chain(&self) -> Result<MutexGuard<'_, ()>> {
+        Ok(self.chain_mutex.lock()?)
+    }
+
     /// Return all non-sensitive data regarding the wallet.
     pub fn public_data(&self) -> Result<types::WalletData> {
         let state = self.state.read()?;
-- 
2.43.0


From 74e75c1f7faafe395224a86a1dc745da782b94d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:05 +0000
Subject: [PATCH 57/61] fix: do not register two inbound sessions in the same
 IP range

The range was only checked when a session is created, so two peers of one
range that connect at the same moment were both accepted.
---
 node/src/actors/sessions_manager/handlers.rs | 25 ++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/node/src/actors/sessions_manager/handlers.rs b/node/src/actors/sessions_manager/handlers.rs
index b3dd475..207dc7c 100644
--- a/node/src/actors/sessions_manager/handlers.rs
+++ b/node/src/actors/sessions_manager/handlers.rs
@@ -125,10 +125,26 @@ impl Handler<Register> for SessionsManager {
     type Result = SessionsUnitResult;
 
     fn handle(&mut self, msg: Register, _: &mut Context<Self>) -> Self::Result {
-        // Call method register session from sessions library
-        let result = self
-            .sessions
-            .register_session(msg.session_type, msg.address, msg.actor);
+        // Another session in the same IP range may have been registered after this one was created
+        let limited_range = self.config.as_ref().and_then(|config| {
+            if config.connections.reject_sybil_inbounds && msg.session_type == SessionType::Inbound
+            {
+                let range = self.sessions.is_similar_to_inbound_session(&msg.address)?;
+                let range_limit = config.connections.reject_sybil_inbounds_range_limit;
+
+                Some(ip_range_string(range, range_limit))
+            } else {
+                None
+            }
+        });
+
+        let result = match limited_range {
+            Some(range) => Err(SessionsError::AddressInSameRangeAlreadyRegistered { range }),
+            // Call method register session from sessions library
+            None => self
+                .sessions
+                .register_session(msg.session_type, msg.address, msg.actor),
+        };
 
         match &result {
             Ok(_) => log::debug!(
@@ -137,6 +153,7 @@ impl Handler<Register> for SessionsManager {
                 msg.address
             ),
             Err(error @ SessionsError::AddressAlreadyRegistered)
+            | Err(error @ SessionsError::AddressInSameRangeAlreadyRegistered { .. })
             | Err(error @ SessionsError::MaxPeersReached) => log::debug!(
                 "Error while registering peer {} (session type {:?}): {}",
                 msg.address,
-- 
2.43.0


From 101a28df50176d8ac0c30a25414788055be33814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:05 +0000
Subject: [PATCH 58/61] fix: keep the configured ice period when peers are
 loaded from storage

The ice period is not stored, so after a restart the default one was used.
---
 node/src/actors/peers_manager/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/node/src/actors/peers_manager/mod.rs b/node/src/actors/peers_manager/mod.rs
index 4b549c1..40a8653 100644
--- a/node/src/actors/peers_manager/mod.rs
+++ b/node/src/actors/peers_manager/mod.rs
@@ -86,7 +86,14 @@ impl PeersManager {
     }
 
     fn import_peers(&mut self, peers: Peers, known_peers: Vec<SocketAddr>) {
-        self.peers = peers;
+        // Only the contents of the buckets come from storage. The configuration may have changed
+        // since they were stored, and the ice period is not stored at all.
+        self.peers = Peers {
+            bootstrapped: self.peers.bootstrapped,
+            ice_period: self.peers.ice_period,
+            server_address: self.peers.server_address,
+            ..peers
+        };
 
         match self.peers.add_to_new(known_peers, None) {
             Ok(_duplicated_peers) => {}
-- 
2.43.0


From 894c3df4935d21dcb0c1d245ddebacb7ba57c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:05 +0000
Subject: [PATCH 59/61] fix: do not ice the addresses of inbound peers

They are not addresses that could be called, and once melted they were
among the potential peers.
---
 node/src/actors/session/handlers.rs | 12 ++++--------
 node/src/actors/session/mod.rs      |  6 ++++++
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/node/src/actors/session/handlers.rs b/node/src/actors/session/handlers.rs
index e8aac67..29f6921 100644
--- a/node/src/actors/session/handlers.rs
+++ b/node/src/actors/session/handlers.rs
@@ -30,10 +30,9 @@ use crate::actors::{
     messages::{
         AddBlocks, AddCandidates, AddConsolidatedPeer, AddPeers, AddSuperBlock, AddSuperBlockVote,
         AddTransaction, CloseSession, Consolidate, EpochNotification, GetBlocksEpochRange,
-        GetHighestCheckpointBeacon, GetItem, GetSuperBlockVotes, PeerBeacon,
-        RemoveAddressesFromTried, RequestPeers, SendGetPeers, SendInventoryAnnouncement,
-        SendInventoryItem, SendInventoryRequest, SendLastBeacon, SendSuperBlockVote,
-        SessionUnitResult,
+        GetHighestCheckpointBeacon, GetItem, GetSuperBlockVotes, PeerBeacon, RequestPeers,
+        SendGetPeers, SendInventoryAnnouncement, SendInventoryItem, SendInventoryRequest,
+        SendLastBeacon, SendSuperBlockVote, SessionUnitResult,
     },
     peers_manager::PeersManager,
     sessions_manager::SessionsManager,
@@ -646,10 +645,7 @@ fn peer_discovery_peers(
         log::debug!("{src_address} sent unwanted \"peers\"(possibly attack?)",);
 
         // If the "peers" messages was unwanted one, put the peer into iced
-        peers_manager_addr.do_send(RemoveAddressesFromTried {
-            addresses: vec![src_address],
-            ice: true,
-        });
+        session.remove_and_ice_peer();
 
         // And stop the actor
         ctx.stop()
diff --git a/node/src/actors/session/mod.rs b/node/src/actors/session/mod.rs
index 3646cd0..55e5202 100644
--- a/node/src/actors/session/mod.rs
+++ b/node/src/actors/session/mod.rs
@@ -218,6 +218,12 @@ impl Session {
 
     // Remove this address from tried bucket and move to the ice bucket
     fn remove_and_ice_peer(&self) {
+        // The address of an inbound session is not one that we could connect to: there is nothing
+        // to remove, and it would become a potential peer once it melts
+        if self.session_type == SessionType::Inbound {
+            return;
+        }
+
         let peers_manager_addr = PeersManager::from_registry();
         peers_manager_addr.do_send(RemoveAddressesFromTried {
             addresses: vec![self.remote_addr],
-- 
2.43.0


From 2fa123bade5d2e505322910463c26329b405f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:56 +0000
Subject: [PATCH 60/61] fix: recognize the genesis block under any protocol
 version

---
 data_structures/src/chain/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 5663aca..fd745a2 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -676,7 +676,11 @@ impl Block {
     }
 
     pub fn is_genesis(&self, genesis: &Hash) -> bool {
-        self.hash().eq(genesis)
+        // The genesis block can be processed at any time (e.g. upon rewinding), so its hash must not
+        // depend on the protocol version that is current at that moment
+        let protocol_version = get_protocol_version(Some(self.block_header.beacon.checkpoint));
+
+        self.versioned_hash(protocol_version).eq(genesis)
     }
 }
 
-- 
2.43.0


From 3e673acc6d84997e9243920bb52decb765009c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:15 +0000
Subject: [PATCH 61/61] fix: persist the chain state once after rewinding

---
 node/src/actors/chain_manager/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index 6c86844..5bceb49 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -592,7 +592,10 @@ impl ChainManager {
                             .expect("resync from storage fail");
                         // We need to persist the chain state periodically, otherwise the entire
                         // UTXO set will be in memory, consuming a huge amount of memory.
-                        if block_list.len().is_multiple_of(1_000) {
+                        // The state after the last block is left to be persisted by `done`.
+                        // Persisting it here as well would enqueue two writes, and the one without
+                        // the new UTXOs could reach the storage before the one that contains them.
+                        if !block_list.is_empty() && block_list.len().is_multiple_of(1_000) {
                             act.persist_chain_state(None)
                                 .map(|_res: Result<(), ()>, _act, _ctx| ())
                                 .wait(ctx);
-- 
2.43.0

