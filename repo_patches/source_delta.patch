From 98af38b147873c012f7ce7c3e70c8c2078a26d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 01/14] fix: represent a zero DecimalAmount with any number of
 decimals

Increasing the decimals of a zero amount by 39 or more failed because the
multiplier 10^extra overflowed, so e.g. parsing "0" as an amount with 40
decimals was rejected while "0.0" padded further was accepted.
---
 common/src/primitives/amount/decimal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/src/primitives/amount/decimal.rs b/common/src/primitives/amount/decimal.rs
index b8ba9fd..d903d91 100644
--- a/common/src/primitives/amount/decimal.rs
+++ b/common/src/primitives/amount/decimal.rs
@@ -73,7 +73,12 @@ impl DecimalAmount {
     /// Change the number of decimals. Can only increase decimals, otherwise we risk losing digits.
     pub fn with_decimals(self, decimals: u8) -> Option<Self> {
         let extra_decimals = decimals.checked_sub(self.decimals)?;
-        let mantissa = self.mantissa.checked_mul(TEN.checked_pow(extra_decimals as u32)?)?;
+        // Zero has a representation with any number of decimals, even if the multiplier overflows.
+        let mantissa = if self.mantissa == 0 {
+            0
+        } else {
+            self.mantissa.checked_mul(TEN.checked_pow(extra_decimals as u32)?)?
+        };
         Some(Self::from_uint_decimal(mantissa, decimals))
     }
 
-- 
2.43.0


From 48a02e1fa568d603619ebf7cd5606806299bfdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 02/14] fix: don't panic on a decimal amount with 256
 fractional digits

A string consisting of a dot and 256 digits passes the length check, but its
number of decimals doesn't fit into u8, so parsing it panicked.
---
 common/src/primitives/amount/decimal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/src/primitives/amount/decimal.rs b/common/src/primitives/amount/decimal.rs
index d903d91..fa6ea4f 100644
--- a/common/src/primitives/amount/decimal.rs
+++ b/common/src/primitives/amount/decimal.rs
@@ -158,7 +158,8 @@ impl std::str::FromStr for DecimalAmount {
         let int: UnsignedIntType = empty_to_zero(int_str).parse()?;
         let frac: UnsignedIntType = empty_to_zero(frac_str).parse()?;
 
-        let decimals: u8 = frac_str.len().try_into().expect("Checked string length above");
+        // Note: without the integer part, the fractional part may still be one digit too long here.
+        let decimals: u8 = frac_str.len().try_into().map_err(|_| ParseError::StringTooLong)?;
 
         let mantissa = if int == 0 {
             Some(0)
-- 
2.43.0


From 12afdae7ed40564850329d417424576b430458d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 03/14] fix: do not let OP_CODESEPARATOR in a branch that is
 not taken change what is signed

---
 script/src/interpreter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/script/src/interpreter.rs b/script/src/interpreter.rs
index 045fbc8..89e084f 100644
--- a/script/src/interpreter.rs
+++ b/script/src/interpreter.rs
@@ -302,8 +302,11 @@ pub fn run_script<'a, Ctx: Context>(
                 }
                 opcodes::Class::ControlFlow(cf) => match cf {
                     opcodes::ControlFlow::OP_CODESEPARATOR => {
-                        subscript = instr_iter.subscript();
-                        codesep_idx = cur_instr_num;
+                        // A separator in a branch that is not taken has no effect.
+                        if executing {
+                            subscript = instr_iter.subscript();
+                            codesep_idx = cur_instr_num;
+                        }
                     }
                     opcodes::ControlFlow::OP_IF | opcodes::ControlFlow::OP_NOTIF => {
                         let cond = executing && {
-- 
2.43.0


From c2a1fdb7b0ccf918ab8d9c0e4f7188418e7526bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 04/14] fix: read the whole length of OP_PUSHDATA2 and
 OP_PUSHDATA4 when printing a script

---
 script/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/src/script.rs b/script/src/script.rs
index c8ffd0e..4ac641a 100644
--- a/script/src/script.rs
+++ b/script/src/script.rs
@@ -370,7 +370,7 @@ impl Script {
                             f.write_str("<unexpected end>")?;
                             break;
                         }
-                        match read_uint(&script[index..], 1) {
+                        match read_uint(&script[index..], push_opc.data_size_bytes()) {
                             Ok(n) => {
                                 index += push_opc.data_size_bytes();
                                 n
-- 
2.43.0


From 8df255cf1ddadf7ba5a89a6722c1cbc238c8c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:14 +0000
Subject: [PATCH 05/14] fix: emit a traversal root reachable from another root
 after it, and once

---
 utils/src/graph_traversals.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/utils/src/graph_traversals.rs b/utils/src/graph_traversals.rs
index 2418201..51e2ef1 100644
--- a/utils/src/graph_traversals.rs
+++ b/utils/src/graph_traversals.rs
@@ -34,15 +34,25 @@ where
     I: IntoIterator<Item = T> + 'a,
     F: Fn(&T) -> I + 'a,
 {
+    // Roots that have not been looked at yet, the next one is the last element.
+    let mut roots: Vec<_> = roots.into_iter().rev().collect();
+
     // Stack of items paired with iterator over the item's children that have to be visited before
     // the item itself is emitted.
-    let mut stack: Vec<_> =
-        roots.into_iter().rev().map(|x| (children(&x).into_iter(), x)).collect();
+    let mut stack = Vec::new();
 
     // Keep track of already visited items
-    let mut visited: BTreeSet<T> = stack.iter().map(|x| x.1.clone()).collect();
+    let mut visited = BTreeSet::<T>::new();
 
     let iter_fn = move || {
+        // A root may be reachable from another one, in which case it is emitted as its descendant.
+        while stack.is_empty() {
+            let root = roots.pop()?;
+            if visited.insert(root.clone()) {
+                stack.push((children(&root).into_iter(), root));
+            }
+        }
+
         stack.pop().map(|(mut top_children, mut top_item)| {
             // Keep pushing items onto the stack until we find one with no further children.
             while let Some(next_top_item) = top_children.next() {
-- 
2.43.0


From 32051bc644b0d7d2996435ae287a9e90b983766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 06/14] fix: truncate a leftover temporary file before writing
 the RPC cookie

---
 rpc/src/rpc_creds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/src/rpc_creds.rs b/rpc/src/rpc_creds.rs
index 45a95aa..9aaa5e6 100644
--- a/rpc/src/rpc_creds.rs
+++ b/rpc/src/rpc_creds.rs
@@ -48,7 +48,7 @@ fn write_file_atomically(path: &Path, data: &str) -> Result<(), std::io::Error>
         options.mode(0o600);
     }
 
-    options.create(true).write(true).open(&path_tmp)?.write_all(data.as_bytes())?;
+    options.create(true).write(true).truncate(true).open(&path_tmp)?.write_all(data.as_bytes())?;
 
     std::fs::rename(path_tmp, path)
 }
-- 
2.43.0


From e9ad50ae03159b99f113fc99e2415d541a35d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 07/14] fix: do not mark a block as invalid because reading or
 writing the utxo set failed

A utxo view read or write error was classified as a bad block, so a block (and everything
after it) was recorded as invalid for good when the storage failed once while the block was
being connected.
---
 chainstate/src/detail/error_classification.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/chainstate/src/detail/error_classification.rs b/chainstate/src/detail/error_classification.rs
index bfe3245..54ce4ae 100644
--- a/chainstate/src/detail/error_classification.rs
+++ b/chainstate/src/detail/error_classification.rs
@@ -477,9 +477,19 @@ impl BlockProcessingErrorClassification for DestinationSigError {
 
 impl BlockProcessingErrorClassification for utxo::Error {
     fn classify(&self) -> BlockProcessingErrorClass {
-        // Nothing other than BadBlock here.
-        // TODO: should we descend into inner errors just in case?
-        BlockProcessingErrorClass::BadBlock
+        match self {
+            // These denote storage errors; the block itself may be perfectly fine.
+            utxo::Error::ViewRead | utxo::Error::StorageWrite => BlockProcessingErrorClass::General,
+
+            utxo::Error::OverwritingUtxo
+            | utxo::Error::FreshUtxoAlreadyExists
+            | utxo::Error::UtxoAlreadySpent(_)
+            | utxo::Error::NoUtxoFound
+            | utxo::Error::NoBlockchainHeightFound
+            | utxo::Error::MissingBlockRewardUndo(_)
+            | utxo::Error::InvalidBlockRewardOutputType(_)
+            | utxo::Error::TxInputAndUndoMismatch(_) => BlockProcessingErrorClass::BadBlock,
+        }
     }
 }
 
-- 
2.43.0


From 214db0d557fd6b52738d2e36b18cd3b3711ea080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 08/14] fix: do not panic when an output locked for a huge
 number of blocks is spent

---
 mintscript/src/checker/timelock.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mintscript/src/checker/timelock.rs b/mintscript/src/checker/timelock.rs
index 0e6978b..277b42c 100644
--- a/mintscript/src/checker/timelock.rs
+++ b/mintscript/src/checker/timelock.rs
@@ -15,7 +15,7 @@
 
 use common::{
     chain::{block::timestamp::BlockTimestamp, timelock::OutputTimeLock},
-    primitives::{BlockDistance, BlockHeight},
+    primitives::BlockHeight,
 };
 
 pub trait TimelockChecker<C> {
@@ -80,8 +80,9 @@ impl<C: TimelockContext> TimelockChecker<C> for StandardTimelockChecker {
                 check_at_least(ctx.spending_time(), *required, E::TimestampLocked)
             }
             OutputTimeLock::ForBlockCount(d) => {
-                let distance = BlockDistance::new((*d).try_into().map_err(|_| E::HeightArith)?);
-                let required = (ctx.source_height()? + distance).ok_or(E::HeightArith)?;
+                // Note: adding a `BlockDistance` would panic on overflow, and the block count
+                // is up to whoever creates the output.
+                let required = ctx.source_height()?.checked_add(*d).ok_or(E::HeightArith)?;
                 check_at_least(ctx.spending_height(), required, E::HeightLocked)
             }
             OutputTimeLock::ForSeconds(dt) => {
-- 
2.43.0


From edf8e69b647532c16252c4e230407a8ac6ec151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 09/14] fix: keep the peeked byte when zero bytes are read from
 a peekable input

---
 serialization/tagged/src/derive_support.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/serialization/tagged/src/derive_support.rs b/serialization/tagged/src/derive_support.rs
index d8961a0..3b6bf0a 100644
--- a/serialization/tagged/src/derive_support.rs
+++ b/serialization/tagged/src/derive_support.rs
@@ -59,13 +59,17 @@ impl<I: Input> Input for Peekable<'_, I> {
     fn read(&mut self, into: &mut [u8]) -> Result<(), crate::Error> {
         match self.init.take() {
             None => self.inner.read(into),
-            Some(b) => {
-                if let Some((first, rest)) = into.split_first_mut() {
+            Some(b) => match into.split_first_mut() {
+                Some((first, rest)) => {
                     *first = b;
-                    self.inner.read(rest)?;
+                    self.inner.read(rest)
                 }
-                Ok(())
-            }
+                None => {
+                    // Nothing was requested, so the peeked byte is still to be read.
+                    self.init = Some(b);
+                    Ok(())
+                }
+            },
         }
     }
 
-- 
2.43.0


From 7c9dd8801b8b43fdc4ce32230db7364ee94bdcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 10/14] fix: print scripts with capital letters where
 upper-case hexadecimal is asked for

---
 script/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/src/script.rs b/script/src/script.rs
index 4ac641a..8dcf219 100644
--- a/script/src/script.rs
+++ b/script/src/script.rs
@@ -89,7 +89,7 @@ impl fmt::LowerHex for Script {
 impl fmt::UpperHex for Script {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         for &ch in self.0.iter() {
-            write!(f, "{ch:02x}")?;
+            write!(f, "{ch:02X}")?;
         }
         Ok(())
     }
-- 
2.43.0


From 2b752491394b564579edb8654dfb245013bf4811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 11/14] fix: order fractions with the same numerator by their
 value when it is zero

---
 common/src/primitives/rational.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/common/src/primitives/rational.rs b/common/src/primitives/rational.rs
index 0bc8b9e..3945817 100644
--- a/common/src/primitives/rational.rs
+++ b/common/src/primitives/rational.rs
@@ -54,10 +54,6 @@ impl<T: Into<Uint512> + ComparableType + Ord + Copy> Ord for Rational<T> {
             return self.numer.cmp(&other.numer);
         }
 
-        if self.numer == other.numer {
-            return other.denom.cmp(&self.denom);
-        }
-
         let self_numer_big: Uint512 = self.numer.into();
         let self_denom_big: Uint512 = self.denom.into();
 
-- 
2.43.0


From 1051696f1cf3ad62437defe161099dade8e4e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 12/14] fix: read an empty list in JSON as no list in
 DataOrNoVec

---
 serialization/src/extras/non_empty_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serialization/src/extras/non_empty_vec.rs b/serialization/src/extras/non_empty_vec.rs
index c053a6f..823f1ef 100644
--- a/serialization/src/extras/non_empty_vec.rs
+++ b/serialization/src/extras/non_empty_vec.rs
@@ -22,6 +22,7 @@ use serialization_core::{Decode, Encode};
 /// - If the Vec has no data, it encodes to None
 /// - Some(vec![]) and None are equivalent when encoded, but when decoded result in None
 #[derive(Debug, PartialEq, Eq, Clone, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
+#[serde(from = "Option<Vec<T>>")]
 pub struct DataOrNoVec<T>(Option<Vec<T>>);
 
 impl<T> DataOrNoVec<T> {
-- 
2.43.0


From 2599c0c061d158f7a098acba0e59837d15f3cdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 13/14] fix: sqlite: closing a read-only transaction after
 sqlite has rolled it back panicked

---
 storage/sqlite/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/storage/sqlite/src/lib.rs b/storage/sqlite/src/lib.rs
index 8f63b09..f9fcc0c 100644
--- a/storage/sqlite/src/lib.rs
+++ b/storage/sqlite/src/lib.rs
@@ -114,11 +114,9 @@ impl<const IS_READONLY: bool> Drop for DbTx<'_, IS_READONLY> {
         // Note: is_autocommit basically checks whether there are no existing transaction
         // (sqlite is in the autocommit mode by default; it switches to the manual mode on
         // BEGIN and returns to autocommit mode after COMMIT or ROLLBACK).
-        // We can only get into this 'if' if `drop` is being called as a result of `commit_transaction`.
-        if conn_lock.connection.is_autocommit() {
-            assert!(!IS_READONLY);
-            return;
-        }
+        // For a read-write transaction this means that it has been committed. In either case, it may
+        // also mean that sqlite itself has rolled the transaction back because of an error.
+        let is_autocommit = conn_lock.connection.is_autocommit();
 
         let need_actual_rollback = if IS_READONLY {
             assert!(conn_lock.read_only_tx_count > 0);
@@ -132,7 +130,7 @@ impl<const IS_READONLY: bool> Drop for DbTx<'_, IS_READONLY> {
             true
         };
 
-        if need_actual_rollback {
+        if need_actual_rollback && !is_autocommit {
             let res = conn_lock.connection.execute("ROLLBACK TRANSACTION", ());
             if let Err(err) = res {
                 logging::log::error!("Error: transaction rollback failed: {}", err);
-- 
2.43.0


From 686347252374d5a2d7cae7efbaa9b4fd232d4917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 14/14] fix: sqlite: operations after sqlite has rolled the
 transaction back took effect outside of it

---
 storage/sqlite/src/lib.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/storage/sqlite/src/lib.rs b/storage/sqlite/src/lib.rs
index f9fcc0c..bf435b2 100644
--- a/storage/sqlite/src/lib.rs
+++ b/storage/sqlite/src/lib.rs
@@ -89,6 +89,20 @@ impl<'m, const IS_READONLY: bool> DbTx<'m, IS_READONLY> {
     fn lock_connection(&self) -> MutexGuard<'_, SqliteConnection> {
         self.connection.lock().expect("poisoned mutex")
     }
+
+    /// Lock the connection in order to perform an operation inside the transaction.
+    fn lock_connection_in_tx(&self) -> storage_core::Result<MutexGuard<'_, SqliteConnection>> {
+        let conn_lock = self.lock_connection();
+
+        // Sqlite may roll the transaction back by itself if an operation fails (e.g. due to an I/O
+        // error). Anything done after that would happen outside of the transaction and take effect
+        // immediately.
+        if !IS_READONLY && conn_lock.connection.is_autocommit() {
+            return Err(storage_core::error::Recoverable::TransactionFailed.into());
+        }
+
+        Ok(conn_lock)
+    }
 }
 
 impl<'m> DbTx<'m, false> {
@@ -141,7 +155,7 @@ impl<const IS_READONLY: bool> Drop for DbTx<'_, IS_READONLY> {
 
 impl<const IS_READONLY: bool> backend::ReadOps for DbTx<'_, IS_READONLY> {
     fn get(&self, map_id: DbMapId, key: &[u8]) -> storage_core::Result<Option<Cow<'_, [u8]>>> {
-        let conn_lock = self.lock_connection();
+        let conn_lock = self.lock_connection_in_tx()?;
 
         let mut stmt = conn_lock
             .connection
@@ -164,7 +178,7 @@ impl<const IS_READONLY: bool> backend::ReadOps for DbTx<'_, IS_READONLY> {
     ) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
         // TODO check if prefix.is_empty()
         // TODO Perform the filtering in the SQL query itself
-        let conn_lock = self.lock_connection();
+        let conn_lock = self.lock_connection_in_tx()?;
         let mut stmt = conn_lock
             .connection
             .prepare_cached(self.queries[map_id].prefix_iter_query())
@@ -189,7 +203,7 @@ impl<const IS_READONLY: bool> backend::ReadOps for DbTx<'_, IS_READONLY> {
         map_id: DbMapId,
         key: Data,
     ) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
-        let conn_lock = self.lock_connection();
+        let conn_lock = self.lock_connection_in_tx()?;
         let mut stmt = conn_lock
             .connection
             .prepare_cached(&self.queries[map_id].greater_equal_iter_query(&key))
@@ -212,7 +226,7 @@ impl<const IS_READONLY: bool> backend::ReadOps for DbTx<'_, IS_READONLY> {
 
 impl backend::WriteOps for DbTx<'_, false> {
     fn put(&mut self, map_id: DbMapId, key: Data, val: Data) -> storage_core::Result<()> {
-        let conn_lock = self.lock_connection();
+        let conn_lock = self.lock_connection_in_tx()?;
         let mut stmt = conn_lock
             .connection
             .prepare_cached(self.queries[map_id].put_query())
@@ -225,7 +239,7 @@ impl backend::WriteOps for DbTx<'_, false> {
     }
 
     fn del(&mut self, map_id: DbMapId, key: &[u8]) -> storage_core::Result<()> {
-        let conn_lock = self.lock_connection();
+        let conn_lock = self.lock_connection_in_tx()?;
         let mut stmt = conn_lock
             .connection
             .prepare_cached(self.queries[map_id].delete_query())
-- 
2.43.0

