From 88ed48f33bba1313921224c97c5836b3dc477f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:55 +0000
Subject: [PATCH 1/5] fix: report an overflowing sum of input amounts instead
 of wrapping or panicking

---
 src/checked_transaction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checked_transaction.rs b/src/checked_transaction.rs
index 3a8ef7d..21b589e 100644
--- a/src/checked_transaction.rs
+++ b/src/checked_transaction.rs
@@ -312,7 +312,10 @@ where
         }
         _ => None,
     }) {
-        *balances.entry(asset_id).or_default() += amount;
+        let balance = balances.entry(asset_id).or_default();
+        *balance = balance
+            .checked_add(*amount)
+            .ok_or(CheckError::ArithmeticOverflow)?;
     }
 
     // Deduct fee from base asset
-- 
2.43.0


From a84deb30911bc96b959d574a07b57af00ef1180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 2/5] fix: do not allocate for attacker-chosen element counts
 before decoding the elements

---
 src/transaction/types/create.rs | 18 ++++++++++++------
 src/transaction/types/mint.rs   |  6 ++++--
 src/transaction/types/script.rs | 18 ++++++++++++------
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index c6a2001..92695e0 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -652,25 +652,31 @@ impl io::Write for Create {
             buf = &buf[StorageSlot::SLOT_SIZE..];
         }
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
+        let mut inputs = Vec::new();
+        for _ in 0..inputs_len {
+            let mut input = Input::default();
             let input_len = input.write(buf)?;
             buf = &buf[input_len..];
             n += input_len;
+            inputs.push(input);
         }
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
+        let mut outputs = Vec::new();
+        for _ in 0..outputs_len {
+            let mut output = Output::default();
             let output_len = output.write(buf)?;
             buf = &buf[output_len..];
             n += output_len;
+            outputs.push(output);
         }
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
+        let mut witnesses = Vec::new();
+        for _ in 0..witnesses_len {
+            let mut witness = Witness::default();
             let witness_len = witness.write(buf)?;
             buf = &buf[witness_len..];
             n += witness_len;
+            witnesses.push(witness);
         }
 
         *self = Create {
diff --git a/src/transaction/types/mint.rs b/src/transaction/types/mint.rs
index f52861a..5f0fec2 100644
--- a/src/transaction/types/mint.rs
+++ b/src/transaction/types/mint.rs
@@ -287,11 +287,13 @@ impl io::Write for Mint {
         let buf = &buf[tx_pointer.serialized_size()..];
         let (outputs_len, mut buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
+        let mut outputs = Vec::new();
+        for _ in 0..outputs_len {
+            let mut output = Output::default();
             let output_len = output.write(buf)?;
             buf = &buf[output_len..];
             n += output_len;
+            outputs.push(output);
         }
 
         *self = Mint {
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index 666796d..b57606c 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -636,25 +636,31 @@ impl io::Write for Script {
         let (size, script_data, mut buf) = bytes::restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
+        let mut inputs = Vec::new();
+        for _ in 0..inputs_len {
+            let mut input = Input::default();
             let input_len = input.write(buf)?;
             buf = &buf[input_len..];
             n += input_len;
+            inputs.push(input);
         }
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
+        let mut outputs = Vec::new();
+        for _ in 0..outputs_len {
+            let mut output = Output::default();
             let output_len = output.write(buf)?;
             buf = &buf[output_len..];
             n += output_len;
+            outputs.push(output);
         }
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
+        let mut witnesses = Vec::new();
+        for _ in 0..witnesses_len {
+            let mut witness = Witness::default();
             let witness_len = witness.write(buf)?;
             buf = &buf[witness_len..];
             n += witness_len;
+            witnesses.push(witness);
         }
 
         *self = Script {
-- 
2.43.0


From 47fe6008214db9c6280771256beca360ca4606fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 3/5] fix: decode every storage slot of a create transaction
 instead of truncating their count to 16 bits

---
 src/transaction/types/create.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index 92695e0..7813a8f 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -637,7 +637,7 @@ impl io::Write for Create {
         let (maturity, buf) = unsafe { bytes::restore_number_unchecked(buf) };
         let (bytecode_length, buf) = unsafe { bytes::restore_number_unchecked(buf) };
         let (bytecode_witness_index, buf) = unsafe { bytes::restore_u8_unchecked(buf) };
-        let (storage_slots_len, buf) = unsafe { bytes::restore_u16_unchecked(buf) };
+        let (storage_slots_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (inputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (outputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (witnesses_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
@@ -645,11 +645,13 @@ impl io::Write for Create {
 
         let salt = salt.into();
 
-        let mut storage_slots = vec![StorageSlot::default(); storage_slots_len as usize];
-        n += StorageSlot::SLOT_SIZE * storage_slots_len as usize;
-        for storage_slot in storage_slots.iter_mut() {
-            let _ = storage_slot.write(buf)?;
-            buf = &buf[StorageSlot::SLOT_SIZE..];
+        let mut storage_slots = Vec::new();
+        for _ in 0..storage_slots_len {
+            let mut storage_slot = StorageSlot::default();
+            let storage_len = storage_slot.write(buf)?;
+            buf = &buf[storage_len..];
+            n += storage_len;
+            storage_slots.push(storage_slot);
         }
 
         let mut inputs = Vec::new();
-- 
2.43.0


From f0866d7a2ff9781bf38c7818d12478f2e595428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 4/5] fix: reject variable-data lengths larger than the buffer
 before padding them, instead of overflowing

---
 src/receipt/receipt_std.rs       |  7 ++++---
 src/transaction.rs               |  2 +-
 src/transaction/txio.rs          | 21 +++++++++++++++++++++
 src/transaction/types/input.rs   | 13 ++++++++-----
 src/transaction/types/script.rs  |  7 +++++--
 src/transaction/types/witness.rs |  5 ++++-
 6 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index 2e09c74..4f237f8 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -5,6 +5,7 @@ use fuel_types::bytes::{self, SizedBytes, WORD_SIZE};
 use fuel_types::Word;
 
 use crate::receipt::script_result::ScriptExecutionResult;
+use crate::transaction::txio;
 use std::io::{self, Write};
 
 impl io::Read for Receipt {
@@ -269,7 +270,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = txio::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -329,7 +330,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = txio::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -392,7 +393,7 @@ impl io::Write for Receipt {
                 let (nonce, buf) = unsafe { bytes::restore_array_unchecked(buf) };
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
-                let (count, data, _) = bytes::restore_bytes(buf)?;
+                let (count, data, _) = txio::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
diff --git a/src/transaction.rs b/src/transaction.rs
index f5f82f0..6eec7f9 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -15,7 +15,7 @@ mod types;
 mod id;
 
 #[cfg(feature = "std")]
-mod txio;
+pub(crate) mod txio;
 
 pub mod consensus_parameters;
 
diff --git a/src/transaction/txio.rs b/src/transaction/txio.rs
index 2f9d097..66cdade 100644
--- a/src/transaction/txio.rs
+++ b/src/transaction/txio.rs
@@ -6,6 +6,27 @@ use fuel_types::Word;
 
 use std::io::{self, Write};
 
+/// Same as [`bytes::restore_raw_bytes`], for a length that was read from the input: one that cannot
+/// fit in `buf` is an end of file, and never overflows when it is padded.
+pub(crate) fn restore_raw_bytes(buf: &[u8], len: usize) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    if buf.len() < len {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_raw_bytes(buf, len)
+}
+
+/// Same as [`bytes::restore_bytes`], where an encoded length that cannot fit in `buf` is an end of
+/// file, and never overflows when it is padded.
+pub(crate) fn restore_bytes(buf: &[u8]) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    let (len, data): (Word, _) = bytes::restore_number(buf)?;
+    if (data.len() as Word) < len {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_bytes(buf)
+}
+
 impl Transaction {
     pub fn try_from_bytes(bytes: &[u8]) -> io::Result<(usize, Self)> {
         let mut tx = Self::default();
diff --git a/src/transaction/types/input.rs b/src/transaction/types/input.rs
index 6c3562b..ce24526 100644
--- a/src/transaction/types/input.rs
+++ b/src/transaction/types/input.rs
@@ -6,6 +6,9 @@ use fuel_types::{Address, AssetId, Bytes32, ContractId, MessageId, Word};
 
 use core::mem;
 
+#[cfg(feature = "std")]
+use crate::transaction::txio;
+
 #[cfg(feature = "std")]
 use fuel_types::bytes::{Deserializable, SizedBytes, WORD_SIZE};
 
@@ -733,10 +736,10 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = txio::restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) = txio::restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let owner = owner.into();
@@ -817,13 +820,13 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, data, buf) = bytes::restore_raw_bytes(buf, data_len)?;
+                let (size, data, buf) = txio::restore_raw_bytes(buf, data_len)?;
                 n += size;
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = txio::restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) = txio::restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let message_id = message_id.into();
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index b57606c..60e990c 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -12,6 +12,9 @@ use derivative::Derivative;
 use fuel_types::bytes::{SizedBytes, WORD_SIZE};
 use fuel_types::{bytes, Bytes32, Word};
 
+#[cfg(feature = "std")]
+use crate::transaction::txio;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -630,10 +633,10 @@ impl io::Write for Script {
 
         let receipts_root = receipts_root.into();
 
-        let (size, script, buf) = bytes::restore_raw_bytes(buf, script_len)?;
+        let (size, script, buf) = txio::restore_raw_bytes(buf, script_len)?;
         n += size;
 
-        let (size, script_data, mut buf) = bytes::restore_raw_bytes(buf, script_data_len)?;
+        let (size, script_data, mut buf) = txio::restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
         let mut inputs = Vec::new();
diff --git a/src/transaction/types/witness.rs b/src/transaction/types/witness.rs
index e7b5211..42478a2 100644
--- a/src/transaction/types/witness.rs
+++ b/src/transaction/types/witness.rs
@@ -1,5 +1,8 @@
 use fuel_types::bytes::{self, WORD_SIZE};
 
+#[cfg(feature = "std")]
+use crate::transaction::txio;
+
 #[cfg(feature = "random")]
 use rand::{
     distributions::{Distribution, Standard},
@@ -89,7 +92,7 @@ impl io::Read for Witness {
 #[cfg(feature = "std")]
 impl io::Write for Witness {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        bytes::restore_bytes(buf).map(|(n, data, _)| {
+        txio::restore_bytes(buf).map(|(n, data, _)| {
             self.data = data;
             n
         })
-- 
2.43.0


From 15e1b7aaf3c835aa263b1f437abd1bc3626533a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 5/5] fix: return an error instead of panicking when parsing
 ids and pointers from non-ASCII text

---
 src/transaction/types/utxo_id.rs | 6 ++++--
 src/tx_pointer.rs                | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/transaction/types/utxo_id.rs b/src/transaction/types/utxo_id.rs
index c4c89b3..545e57f 100644
--- a/src/transaction/types/utxo_id.rs
+++ b/src/transaction/types/utxo_id.rs
@@ -88,9 +88,11 @@ impl str::FromStr for UtxoId {
         let utxo_id = if s.is_empty() {
             UtxoId::new(Bytes32::default(), 0)
         } else if s.len() > 2 {
+            let tx_id = s.get(..s.len() - 2).ok_or(ERR)?;
+            let output_index = s.get(s.len() - 2..).ok_or(ERR)?;
             UtxoId::new(
-                Bytes32::from_str(&s[..s.len() - 2])?,
-                u8::from_str_radix(&s[s.len() - 2..], 16).map_err(|_| ERR)?,
+                Bytes32::from_str(tx_id)?,
+                u8::from_str_radix(output_index, 16).map_err(|_| ERR)?,
             )
         } else {
             UtxoId::new(TxId::default(), u8::from_str_radix(s, 16).map_err(|_| ERR)?)
diff --git a/src/tx_pointer.rs b/src/tx_pointer.rs
index b0d66bf..d10b5b2 100644
--- a/src/tx_pointer.rs
+++ b/src/tx_pointer.rs
@@ -72,8 +72,10 @@ impl str::FromStr for TxPointer {
             return Err(ERR);
         }
 
-        let block_height = u32::from_str_radix(&s[..8], 16).map_err(|_| ERR)?;
-        let tx_index = u16::from_str_radix(&s[8..12], 16).map_err(|_| ERR)?;
+        let block_height = s.get(..8).ok_or(ERR)?;
+        let block_height = u32::from_str_radix(block_height, 16).map_err(|_| ERR)?;
+        let tx_index = s.get(8..).ok_or(ERR)?;
+        let tx_index = u16::from_str_radix(tx_index, 16).map_err(|_| ERR)?;
 
         Ok(Self::new(block_height, tx_index))
     }
-- 
2.43.0

