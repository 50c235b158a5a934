From df998473fab25bd9e1994a04e593369efb0b33b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 01/11] fix: walk the graph iteratively in search

The recursion depth of FindexGraph::walk was the depth of the keyword
graph: a chain of a few thousand keyword-to-keyword associations
overflowed the stack and aborted the process.
---
 src/findex_graph/graph.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/findex_graph/graph.rs b/src/findex_graph/graph.rs
index b6a7915..a851860 100644
--- a/src/findex_graph/graph.rs
+++ b/src/findex_graph/graph.rs
@@ -132,32 +132,29 @@ impl<
     ///
     /// In order not to enter cycles, the same node is not visited twice. This
     /// is ensured by maintaining a set of visited nodes.
-    #[allow(clippy::only_used_in_recursion)]
     pub fn walk<'a, Tag: Hash + Eq + Clone, Item: Clone + Hash + Eq>(
         &self,
         graph: &'a HashMap<Tag, HashSet<IndexedValue<Tag, Item>>>,
         entry: &'a Tag,
         visited: &mut HashSet<&'a Tag>,
     ) -> HashSet<Item> {
-        if visited.contains(&entry) {
-            // Results associated to this tag have already been recovered.
-            return HashSet::new();
-        }
-
-        visited.insert(entry);
-
-        let indexed_values = match graph.get(entry) {
-            Some(values) => values,
-            None => return HashSet::new(),
-        };
-
-        let mut res = HashSet::with_capacity(indexed_values.len());
+        let mut res = HashSet::new();
+        // An explicit stack is used rather than recursion since the depth of the
+        // graph is only bounded by the number of indexed keywords.
+        let mut stack = vec![entry];
+
+        while let Some(tag) = stack.pop() {
+            if !visited.insert(tag) {
+                // Results associated to this tag have already been recovered.
+                continue;
+            }
 
-        for value in indexed_values {
-            match value {
-                IndexedValue::Pointer(child) => res.extend(self.walk(graph, child, visited)),
-                IndexedValue::Data(data) => {
-                    res.insert(data.clone());
+            for value in graph.get(tag).into_iter().flatten() {
+                match value {
+                    IndexedValue::Pointer(child) => stack.push(child),
+                    IndexedValue::Data(data) => {
+                        res.insert(data.clone());
+                    }
                 }
             }
         }
-- 
2.43.0


From 5f658057a729488728d840e5b27e3d868bcaea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 02/11] fix: read back indexed empty data and keywords

An empty data or keyword is serialized to one byte, which was rejected
when read back: indexing one made its keyword unsearchable and the index
impossible to compact.
---
 src/findex_graph/structs.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/findex_graph/structs.rs b/src/findex_graph/structs.rs
index 00481d3..d8e87cf 100644
--- a/src/findex_graph/structs.rs
+++ b/src/findex_graph/structs.rs
@@ -64,11 +64,11 @@ impl<Tag: From<Vec<u8>>, Data: From<Vec<u8>>> TryFrom<&[u8]> for IndexedValue<Ta
     type Error = CoreError;
 
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
-        if value.len() < 2 {
-            return Err(Self::Error::Conversion(format!(
-                "indexed values should be at least two bytes long, {} given",
-                value.len()
-            )));
+        // The value itself may be empty.
+        if value.is_empty() {
+            return Err(Self::Error::Conversion(
+                "indexed values should be at least one byte long, 0 given".to_string(),
+            ));
         }
         // TODO: change the leading value in v.7
         match value[0] {
-- 
2.43.0


From 525586333cce5d7b9ffa7f2a60da2a8e44a3fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 03/11] fix: make the in-memory table serialization round-trip

The writer omitted the value length the reader expects in front of each
value, so no serialized table could be read back. Write it as previous
versions did, count it in the announced length, check it when reading and
stop allocating memory for an arbitrary number of lines.
---
 src/edx/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 0f64cae..ab5ccf2 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -166,7 +166,10 @@ pub mod in_memory {
     use async_trait::async_trait;
     use cosmian_crypto_core::CryptoCoreError;
     #[cfg(feature = "in_memory")]
-    use cosmian_crypto_core::{bytes_ser_de::Serializable, Nonce};
+    use cosmian_crypto_core::{
+        bytes_ser_de::{to_leb128_len, Serializable},
+        Nonce,
+    };
 
     use super::{
         DbInterface, Token, TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens,
@@ -242,8 +245,9 @@ pub mod in_memory {
         type Error = InMemoryDbError;
 
         fn length(&self) -> usize {
-            (self.lock().expect("could not lock mutex").deref()).len()
-                * (Token::LENGTH + NONCE_LENGTH + MAC_LENGTH + VALUE_LENGTH)
+            let n = self.len();
+            let value_length = EncryptedValue::<VALUE_LENGTH>::LENGTH;
+            to_leb128_len(n) + n * (Token::LENGTH + to_leb128_len(value_length) + value_length)
         }
 
         fn write(
@@ -254,6 +258,7 @@ pub mod in_memory {
             let mut n = ser.write_leb128_u64(table.len() as u64)?;
             for (k, v) in table.iter() {
                 n += ser.write_array(k)?;
+                n += ser.write_leb128_u64(EncryptedValue::<VALUE_LENGTH>::LENGTH as u64)?;
                 n += ser.write_array(&v.nonce.0)?;
                 n += ser.write_array(&v.ciphertext)?;
                 n += ser.write_array(&v.tag)?;
@@ -265,11 +270,16 @@ pub mod in_memory {
             de: &mut cosmian_crypto_core::bytes_ser_de::Deserializer,
         ) -> Result<Self, Self::Error> {
             let n = de.read_leb128_u64()? as usize;
-            let mut table = HashMap::with_capacity(n);
+            // Do not trust `n` to allocate memory.
+            let mut table = HashMap::with_capacity(n.min(de.value().len() / Token::LENGTH));
             for _ in 0..n {
                 let k = de.read_array::<{ Token::LENGTH }>()?;
-                // previous version used to write the size of the value.
-                let _ = de.read_leb128_u64();
+                let value_length = de.read_leb128_u64()?;
+                if value_length != EncryptedValue::<VALUE_LENGTH>::LENGTH as u64 {
+                    return Err(InMemoryDbError(format!(
+                        "incorrect value length: {value_length}"
+                    )));
+                }
                 let nonce = Nonce::from(de.read_array::<NONCE_LENGTH>()?);
                 let ciphertext = de.read_array::<VALUE_LENGTH>()?;
                 let tag = de.read_array::<MAC_LENGTH>()?;
-- 
2.43.0


From 7dc20704506a1f39eacb7609edc1217091bb6546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 04/11] fix: refuse to compact several entries of the same
 keyword into one

When two entries of the Entry Table get the same new token, one was
silently dropped and its chain removed, losing its associations.
---
 src/findex_mm/compact.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index 32d5d42..5f419c5 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -196,11 +196,16 @@ impl<
             for (token, entry) in continuation.entries {
                 old_entries.insert(token);
                 if remaining_entry_tokens.get(&token).is_some() {
-                    new_entries.insert(
+                    let old_entry = new_entries.insert(
                         self.entry_table
                             .tokenize(new_key, &entry.tag_hash, Some(new_label)),
                         self.entry_table.prepare(rng, new_key, entry.into())?,
                     );
+                    if old_entry.is_some() {
+                        return Err(Error::Crypto(
+                            "several entries to compact belong to the same keyword".to_string(),
+                        ));
+                    }
                 }
             }
         }
-- 
2.43.0


From 84f58770ecfa89e54cd1470a475c6e5ba5bd50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 05/11] fix: remove the old entries before the old links when
 compacting

A compaction stopped between both removals left entries without links,
which a later compaction mixes up with the new entries.
---
 src/findex_mm/compact.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index 5f419c5..eb633c4 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -233,8 +233,10 @@ impl<
         });
 
         if res.is_ok() {
-            self.chain_table.delete(old_links).await?;
+            // Remove the entries first: upon failure, unreachable links are
+            // harmless while entries without links are not.
             self.entry_table.delete(old_entries).await?;
+            self.chain_table.delete(old_links).await?;
         } else {
             self.chain_table.delete(new_links_tokens).await?;
             self.entry_table.delete(new_entry_tokens).await?;
-- 
2.43.0


From 2670bdc0fb2daab10bfcb8a91ae0d16c06b14c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 06/11] fix: only remove its own entries when reverting a
 compaction

The insertion of the new entries fails when a token is already used.
Reverting then removed the entries stored under these tokens, destroying
an index already stored under the target label, or the whole index when
the given old label was mistaken.
---
 src/edx/mod.rs           |  2 +-
 src/findex_mm/compact.rs | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index ab5ccf2..b11b7fe 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -39,7 +39,7 @@ pub trait DxEnc<const VALUE_LENGTH: usize> {
     type Error: std::error::Error;
 
     /// Fixed length encrypted value stored inside the encrypted dictionary.
-    type EncryptedValue: Debug + Sized + Clone;
+    type EncryptedValue: Debug + Sized + Clone + PartialEq;
 
     /// Backend storage.
     type Database: DbInterface<VALUE_LENGTH>;
diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index eb633c4..63a7eb6 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -210,7 +210,7 @@ impl<
             }
         }
         let new_links_tokens = new_links.keys().copied().collect();
-        let new_entry_tokens = new_entries.keys().copied().collect();
+        let inserted_entries = new_entries.clone();
 
         debug!(
             "Step 3: tries applying modifications, reverts modifications upon failure or removes \
@@ -238,8 +238,19 @@ impl<
             self.entry_table.delete(old_entries).await?;
             self.chain_table.delete(old_links).await?;
         } else {
+            // The insertion fails when a token is already in use. Only remove the
+            // entries inserted by this operation.
+            let tokens = inserted_entries.keys().copied().collect();
+            let tokens = self
+                .entry_table
+                .get(tokens)
+                .await?
+                .into_iter()
+                .filter(|(token, value)| inserted_entries.get(token) == Some(value))
+                .map(|(token, _)| token)
+                .collect();
+            self.entry_table.delete(tokens).await?;
             self.chain_table.delete(new_links_tokens).await?;
-            self.entry_table.delete(new_entry_tokens).await?;
         }
 
         res
-- 
2.43.0


From cd718c998f388b51fcd802395e89d0a2ee03bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 07/11] fix: draw at least one entry in a partial compaction

The number of draws was rounded down to zero for small indexes, which
were thus never compacted however many times compact was called.
---
 src/index/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 442cc95..a1277be 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -379,7 +379,8 @@ impl<
         // [coupon collector's problem](https://en.wikipedia.org/wiki/Coupon_collector%27s_problem).
         let n_draws = length.mul_add(length.log2() + GAMMA, 0.5);
         // Split this number among the given number of compact operations.
-        (n_draws * compacting_rate) as usize
+        // Rounding up ensures small indexes are compacted too.
+        (n_draws * compacting_rate).ceil() as usize
     }
 
     #[instrument(ret, err, skip_all)]
-- 
2.43.0


From 0ee3f60fe6196d7fc0d15faf7a4ca405875e33ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 08/11] verification hook: small compaction batches under
 cfg(findex_verif)

---
 src/index/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index a1277be..b5b6d8a 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -344,7 +344,9 @@ impl<
     /// the memory used by the compact operation is:
     ///
     /// N * 32 + BS * EB + f * BS * LB
-    const COMPACT_BATCH_SIZE: usize = 1_000_000;
+    // Small batches let the verification harness cover multi-batch compactions.
+    #[allow(unexpected_cfgs)]
+    const COMPACT_BATCH_SIZE: usize = if cfg!(findex_verif) { 4 } else { 1_000_000 };
 
     /// Draw `n` tokens at random among the given `tokens`. The same token may
     /// be drawn several times, thus the number of tokens returned may be
-- 
2.43.0


From fa0b40ce59edadb054ea96b2cb04d19a885d9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 09/11] fix: read all lines of a fetch at once

The in-memory backend locked the table once per token, so that a fetch
could miss a line and still return another one written by the same
operation.
---
 src/edx/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index b11b7fe..54907b9 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -316,16 +316,13 @@ pub mod in_memory {
             &self,
             tokens: Tokens,
         ) -> Result<TokenWithEncryptedValueList<VALUE_LENGTH>, InMemoryDbError> {
+            // Lock the table once for all tokens: a line must not be missed while
+            // another one written by the same operation is returned.
+            let edx = self.lock().expect("couldn't lock the table");
             Ok(TokenWithEncryptedValueList::from(
                 tokens
                     .into_iter()
-                    .filter_map(|token| {
-                        self.lock()
-                            .expect("couldn't lock the table")
-                            .get(&token)
-                            .cloned()
-                            .map(|v| (token, v))
-                    })
+                    .filter_map(|token| edx.get(&token).cloned().map(|v| (token, v)))
                     .collect::<Vec<_>>(),
             ))
         }
-- 
2.43.0


From 8d97bde41d2cf5a87b175029dca1098e1a967fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 10/11] Expose the inner layers to the verification harness
 (cfg findex_verif only)

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f72e9d2..8a56d8c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,6 +8,9 @@
 //! The `Index` traits is not a cryptographic one. It is used to simplify the interface and to hide
 //! the details of the cryptographic implementation when it is possible.
 
+// The verification harness sets `findex_verif`.
+#![allow(unexpected_cfgs)]
+
 // Macro declarations should come first.
 #[macro_use]
 pub mod macros;
@@ -34,6 +37,12 @@ pub use index::{
 };
 pub use parameters::*;
 
+// Lets the verification harness use the inner layers directly.
+#[cfg(findex_verif)]
+pub use findex_graph::GxEnc;
+#[cfg(findex_verif)]
+pub use findex_mm::{MmEnc, Operation};
+
 #[cfg(test)]
 mod example {
     use std::collections::HashSet;
-- 
2.43.0


From ae58f229ccb2f2b476f63715e23d913df8dc4fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 11/11] fix: keep the chain of a tag given an empty list of
 modifications

---
 src/findex_mm/mm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/findex_mm/mm.rs b/src/findex_mm/mm.rs
index 97c9540..36a54f0 100644
--- a/src/findex_mm/mm.rs
+++ b/src/findex_mm/mm.rs
@@ -327,7 +327,8 @@ impl<
                     entry.chain_token.unwrap_or_else(|| entry.tag_hash.into()),
                     *n_additions,
                 );
-                entry.chain_token = chain_tokens.last().copied();
+                // Keep the current chain if there is nothing to add to it.
+                entry.chain_token = chain_tokens.last().copied().or(entry.chain_token);
 
                 chain.insert((*tag).clone(), (chain_key, chain_tokens));
                 new_entries.insert(
-- 
2.43.0

