From 6fdd4b87aa3ab2c8df9eca282a0e11e8344f78ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 01/34] fix: keep the nonce bump of a transaction when a later
 one fails

---
 core/executor/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 53061b0..2e5e5d7 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -125,6 +125,8 @@ impl<DB: TrieDB> Executor for TransactionExecutor<DB> {
             };
 
             self.account_contract.inc_nonce(Rc::clone(&ictx))?;
+            // Otherwise the bump is reverted with the next failed transaction.
+            self.stash()?;
 
             let receipt = Receipt {
                 state_root: Hash::from_empty(),
-- 
2.43.0


From 1073291f27fbc416ace661f8057b5098eea2b990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 02/34] fix: commit the rewards of the coinbase

---
 core/executor/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 2e5e5d7..4baf92a 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -154,7 +154,8 @@ impl<DB: TrieDB> Executor for TransactionExecutor<DB> {
             )?;
         }
 
-        // commit state
+        // commit state, including the rewards
+        self.stash()?;
         let state_root = self.commit()?;
         for receipt in receipts.iter_mut() {
             receipt.state_root = state_root.clone();
-- 
2.43.0


From 606a1afe3747ffd2c2e4efcd06afd044b54e0dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 03/34] fix: a transaction of an unknown sender must not fail
 the whole epoch

---
 core/executor/src/native_contract/account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/executor/src/native_contract/account.rs b/core/executor/src/native_contract/account.rs
index 8de79bf..280eaa1 100644
--- a/core/executor/src/native_contract/account.rs
+++ b/core/executor/src/native_contract/account.rs
@@ -110,7 +110,7 @@ impl<StateAdapter: ContractStateAdapter> AccountContract<StateAdapter>
 
     fn inc_nonce(&mut self, ictx: RcInvokeContext) -> ProtocolResult<()> {
         let caller = &ictx.borrow().caller;
-        let account = self.get_account(caller)?;
+        let account = self.find_or_create(caller)?;
 
         let modified_account = match account {
             Account::User(user) => Account::User(UserAccount {
-- 
2.43.0


From 0f60532a12f7144d2ceb31070de0d240d07fd024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 04/34] fix: an unsupported transaction fails instead of
 stopping the node

---
 core/executor/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 4baf92a..0810c71 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -191,7 +191,7 @@ impl<DB: TrieDB> TransactionExecutor<DB> {
                 code,
                 contract_type,
             } => self.handle_deploy(Rc::clone(&ictx), code, contract_type)?,
-            _ => panic!("Unsupported transaction"),
+            _ => return Err(TransactionExecutorError::Unsupported.into()),
         };
 
         Ok(res)
@@ -257,7 +257,7 @@ impl<DB: TrieDB> TransactionExecutor<DB> {
                     contract_type: ContractType::Asset,
                 })
             }
-            _ => panic!("Unsupported transaction"),
+            _ => Err(TransactionExecutorError::Unsupported.into()),
         }
     }
 
@@ -408,6 +408,9 @@ fn gen_invoke_ctx(
 pub enum TransactionExecutorError {
     FromHex(hex::FromHexError),
     ParseInt(ParseIntError),
+
+    #[display(fmt = "unsupported transaction")]
+    Unsupported,
 }
 
 impl Error for TransactionExecutorError {}
-- 
2.43.0


From 840e6560b85924791ac5238b1d23f8fe0b1f345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 05/34] fix: check the balance of a contract account before
 debiting it

---
 core/executor/src/native_contract/account.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/executor/src/native_contract/account.rs b/core/executor/src/native_contract/account.rs
index 280eaa1..de23fdf 100644
--- a/core/executor/src/native_contract/account.rs
+++ b/core/executor/src/native_contract/account.rs
@@ -269,12 +269,16 @@ impl<StateAdapter: ContractStateAdapter> NativeAccountContract<StateAdapter> {
         account: &mut ContractAccount,
         amount: Balance,
     ) -> ProtocolResult<()> {
-        account
-            .assets
-            .entry(id.clone())
-            .and_modify(|balance| *balance -= amount.clone())
-            .or_insert(amount);
-        Ok(())
+        if let Some(balance) = account.assets.get_mut(id) {
+            if *balance < amount {
+                return Err(NativeAccountContractError::InsufficientBalance.into());
+            }
+
+            *balance -= amount;
+            return Ok(());
+        }
+
+        Err(NativeAccountContractError::InsufficientBalance.into())
     }
 }
 
-- 
2.43.0


From 4b13e6209eae057967ecbb39fbf44be411a052b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 06/34] fix: the cycle meter must not wrap around

---
 core/executor/src/cycles.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/executor/src/cycles.rs b/core/executor/src/cycles.rs
index 0fdcc5f..f4030e4 100644
--- a/core/executor/src/cycles.rs
+++ b/core/executor/src/cycles.rs
@@ -28,10 +28,12 @@ pub fn consume_cycles(
     cycles_used: u64,
     cycles_limit: u64,
 ) -> ProtocolResult<u64> {
+    let cycles = CYCLES_TABLE
+        .get(&action)
+        .unwrap_or_else(|| panic!("cycles action {:?} uninitialized", action));
     let cycles_used = cycles_used
-        + CYCLES_TABLE
-            .get(&action)
-            .unwrap_or_else(|| panic!("cycles action {:?} uninitialized", action));
+        .checked_add(*cycles)
+        .ok_or(CyclesError::OutOfCycles)?;
 
     if cycles_used > cycles_limit {
         return Err(CyclesError::OutOfCycles.into());
-- 
2.43.0


From c9f6894fc110d9914d84b3bb8b41c72d50ad35f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 07/34] fix: objects of different categories must not share a
 key in the memory adapter

---
 core/storage/src/adapter/memory.rs | 33 +++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/core/storage/src/adapter/memory.rs b/core/storage/src/adapter/memory.rs
index 8e4abf5..06af3a9 100644
--- a/core/storage/src/adapter/memory.rs
+++ b/core/storage/src/adapter/memory.rs
@@ -8,7 +8,7 @@ use derive_more::{Display, From};
 use parking_lot::RwLock;
 
 use protocol::codec::ProtocolCodec;
-use protocol::traits::{StorageAdapter, StorageBatchModify, StorageSchema};
+use protocol::traits::{StorageAdapter, StorageBatchModify, StorageCategory, StorageSchema};
 use protocol::{ProtocolError, ProtocolErrorKind, ProtocolResult};
 
 #[derive(Debug)]
@@ -39,7 +39,7 @@ impl StorageAdapter for MemoryAdapter {
         mut key: <S as StorageSchema>::Key,
         mut val: <S as StorageSchema>::Value,
     ) -> ProtocolResult<()> {
-        let key = key.encode().await?.to_vec();
+        let key = category_key::<S>(&key.encode().await?);
         let val = val.encode().await?.to_vec();
 
         self.db.write().insert(key, val);
@@ -51,9 +51,9 @@ impl StorageAdapter for MemoryAdapter {
         &self,
         mut key: <S as StorageSchema>::Key,
     ) -> ProtocolResult<Option<<S as StorageSchema>::Value>> {
-        let key = key.encode().await?;
+        let key = category_key::<S>(&key.encode().await?);
 
-        let opt_bytes = self.db.read().get(&key.to_vec()).cloned();
+        let opt_bytes = self.db.read().get(&key).cloned();
 
         if let Some(bytes) = opt_bytes {
             let val = <_>::decode(bytes).await?;
@@ -68,7 +68,7 @@ impl StorageAdapter for MemoryAdapter {
         &self,
         mut key: <S as StorageSchema>::Key,
     ) -> ProtocolResult<()> {
-        let key = key.encode().await?.to_vec();
+        let key = category_key::<S>(&key.encode().await?);
 
         self.db.write().remove(&key);
 
@@ -79,7 +79,7 @@ impl StorageAdapter for MemoryAdapter {
         &self,
         mut key: <S as StorageSchema>::Key,
     ) -> ProtocolResult<bool> {
-        let key = key.encode().await?.to_vec();
+        let key = category_key::<S>(&key.encode().await?);
 
         Ok(self.db.read().get(&key).is_some())
     }
@@ -93,10 +93,10 @@ impl StorageAdapter for MemoryAdapter {
             return Err(MemoryAdapterError::BatchLengthMismatch.into());
         }
 
-        let mut pairs: Vec<(Bytes, Option<Bytes>)> = Vec::with_capacity(keys.len());
+        let mut pairs: Vec<(Vec<u8>, Option<Bytes>)> = Vec::with_capacity(keys.len());
 
         for (mut key, value) in keys.into_iter().zip(vals.into_iter()) {
-            let key = key.encode().await?;
+            let key = category_key::<S>(&key.encode().await?);
 
             let value = match value {
                 StorageBatchModify::Insert(mut value) => Some(value.encode().await?),
@@ -108,8 +108,8 @@ impl StorageAdapter for MemoryAdapter {
 
         for (key, value) in pairs.into_iter() {
             match value {
-                Some(value) => self.db.write().insert(key.to_vec(), value.to_vec()),
-                None => self.db.write().remove(&key.to_vec()),
+                Some(value) => self.db.write().insert(key, value.to_vec()),
+                None => self.db.write().remove(&key),
             };
         }
 
@@ -117,6 +117,19 @@ impl StorageAdapter for MemoryAdapter {
     }
 }
 
+// Objects of different categories must not share a key.
+fn category_key<S: StorageSchema>(key: &Bytes) -> Vec<u8> {
+    let category = match S::category() {
+        StorageCategory::Epoch => 0,
+        StorageCategory::Receipt => 1,
+        StorageCategory::SignedTransaction => 2,
+    };
+
+    let mut full = vec![category];
+    full.extend_from_slice(key.as_ref());
+    full
+}
+
 #[derive(Debug, Display, From)]
 pub enum MemoryAdapterError {
     #[display(fmt = "batch length dont match")]
-- 
2.43.0


From ff7b578d36c91421b6d6397a70e614d566ab7822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 08/34] fix: a malformed list or genesis must be refused when
 decoded, not panic

---
 protocol/src/fixed_codec/epoch.rs       | 10 +++++-----
 protocol/src/fixed_codec/genesis.rs     | 17 +++++------------
 protocol/src/fixed_codec/primitive.rs   |  6 +++---
 protocol/src/fixed_codec/transaction.rs |  2 +-
 4 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/protocol/src/fixed_codec/epoch.rs b/protocol/src/fixed_codec/epoch.rs
index aa79ac1..ffe2a32 100644
--- a/protocol/src/fixed_codec/epoch.rs
+++ b/protocol/src/fixed_codec/epoch.rs
@@ -96,7 +96,7 @@ impl rlp::Decodable for EpochHeader {
         }
 
         let chain_id: Hash = rlp::decode(r.at(0)?.as_raw())?;
-        let confirm_root: Vec<Hash> = rlp::decode_list(r.at(1)?.as_raw());
+        let confirm_root: Vec<Hash> = r.at(1)?.as_list()?;
         let cycles_used: u64 = r.at(2)?.as_val()?;
         let epoch_id: u64 = r.at(3)?.as_val()?;
         let logs_bloom: Bloom = rlp::decode(r.at(4)?.as_raw())?;
@@ -104,11 +104,11 @@ impl rlp::Decodable for EpochHeader {
         let pre_hash = rlp::decode(r.at(6)?.as_raw())?;
         let proof: Proof = rlp::decode(r.at(7)?.as_raw())?;
         let proposer = rlp::decode(r.at(8)?.as_raw())?;
-        let receipt_root: Vec<Hash> = rlp::decode_list(r.at(9)?.as_raw());
+        let receipt_root: Vec<Hash> = r.at(9)?.as_list()?;
         let state_root = rlp::decode(r.at(10)?.as_raw())?;
         let timestamp: u64 = r.at(11)?.as_val()?;
         let validator_version: u64 = r.at(12)?.as_val()?;
-        let validators: Vec<Validator> = rlp::decode_list(r.at(13)?.as_raw());
+        let validators: Vec<Validator> = r.at(13)?.as_list()?;
 
         Ok(EpochHeader {
             chain_id,
@@ -144,7 +144,7 @@ impl rlp::Decodable for Epoch {
         }
 
         let header: EpochHeader = rlp::decode(r.at(0)?.as_raw())?;
-        let ordered_tx_hashes: Vec<Hash> = rlp::decode_list(r.at(1)?.as_raw());
+        let ordered_tx_hashes: Vec<Hash> = r.at(1)?.as_list()?;
 
         Ok(Epoch {
             header,
@@ -168,7 +168,7 @@ impl rlp::Decodable for Pill {
         }
 
         let epoch: Epoch = rlp::decode(r.at(0)?.as_raw())?;
-        let propose_hashes: Vec<Hash> = rlp::decode_list(r.at(1)?.as_raw());
+        let propose_hashes: Vec<Hash> = r.at(1)?.as_list()?;
 
         Ok(Pill {
             epoch,
diff --git a/protocol/src/fixed_codec/genesis.rs b/protocol/src/fixed_codec/genesis.rs
index 7a80c18..2cd453d 100644
--- a/protocol/src/fixed_codec/genesis.rs
+++ b/protocol/src/fixed_codec/genesis.rs
@@ -27,19 +27,12 @@ impl rlp::Decodable for GenesisSystemToken {
             return Err(rlp::DecoderError::RlpIncorrectListLen);
         }
 
-        let mut values = Vec::with_capacity(4);
-
-        for val in r {
-            let data = val.data()?;
-            values.push(data)
-        }
-
-        let code = String::from_utf8(values[0].to_vec())
+        let code = String::from_utf8(r.at(0)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
-        let name = String::from_utf8(values[1].to_vec())
+        let name = String::from_utf8(r.at(1)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
         let supply: u64 = r.at(2)?.as_val()?;
-        let symbol = String::from_utf8(values[3].to_vec())
+        let symbol = String::from_utf8(r.at(3)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
 
         Ok(GenesisSystemToken {
@@ -90,7 +83,7 @@ impl rlp::Decodable for GenesisStateAlloc {
 
         let address = String::from_utf8(r.at(0)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
-        let assets: Vec<GenesisStateAsset> = rlp::decode_list(r.at(1)?.as_raw());
+        let assets: Vec<GenesisStateAsset> = r.at(1)?.as_list()?;
 
         Ok(GenesisStateAlloc { address, assets })
     }
@@ -114,7 +107,7 @@ impl rlp::Decodable for Genesis {
 
         let prevhash = String::from_utf8(r.at(0)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
-        let state_alloc: Vec<GenesisStateAlloc> = rlp::decode_list(r.at(1)?.as_raw());
+        let state_alloc: Vec<GenesisStateAlloc> = r.at(1)?.as_list()?;
         let system_token = rlp::decode(r.at(2)?.as_raw())?;
         let timestamp = r.at(3)?.as_val()?;
 
diff --git a/protocol/src/fixed_codec/primitive.rs b/protocol/src/fixed_codec/primitive.rs
index 320b456..065ecf9 100644
--- a/protocol/src/fixed_codec/primitive.rs
+++ b/protocol/src/fixed_codec/primitive.rs
@@ -208,7 +208,7 @@ impl rlp::Decodable for Account {
 
         match flag {
             USER_ACCOUNT_FLAG => {
-                let asset_list: Vec<FixedUserAsset> = rlp::decode_list(r.at(1)?.as_raw());
+                let asset_list: Vec<FixedUserAsset> = r.at(1)?.as_list()?;
                 let nonce = r.at(2)?.as_val()?;
 
                 let mut assets = BTreeMap::new();
@@ -223,7 +223,7 @@ impl rlp::Decodable for Account {
                 Ok(Account::User(UserAccount { nonce, assets }))
             }
             CONTRACT_ACCOUNT_FLAG => {
-                let asset_list: Vec<FixedContractAsset> = rlp::decode_list(r.at(1)?.as_raw());
+                let asset_list: Vec<FixedContractAsset> = r.at(1)?.as_list()?;
 
                 let mut assets = BTreeMap::new();
 
@@ -276,7 +276,7 @@ impl rlp::Encodable for FixedUserAsset {
 
 impl rlp::Decodable for FixedUserAsset {
     fn decode(r: &rlp::Rlp) -> Result<Self, rlp::DecoderError> {
-        let approved_list: Vec<FixedUserAssetApproved> = rlp::decode_list(r.at(0)?.as_raw());
+        let approved_list: Vec<FixedUserAssetApproved> = r.at(0)?.as_list()?;
 
         let mut approved = BTreeMap::new();
         for v in approved_list {
diff --git a/protocol/src/fixed_codec/transaction.rs b/protocol/src/fixed_codec/transaction.rs
index 9e7a8bc..c0d7c90 100644
--- a/protocol/src/fixed_codec/transaction.rs
+++ b/protocol/src/fixed_codec/transaction.rs
@@ -169,7 +169,7 @@ impl rlp::Decodable for RawTransaction {
                 let (chain_id, fee, nonce, timeout) = help_decode_raw_tx(r)?;
 
                 // Decode tx action fields
-                let args: Vec<String> = rlp::decode_list(r.at(6)?.as_raw());
+                let args: Vec<String> = r.at(6)?.as_list()?;
                 let args: Result<Vec<_>, _> = args.iter().map(|arg| hex_to_bytes(&arg)).collect();
                 let args = args?;
 
-- 
2.43.0


From 01dbcb5d7e1975dd02bceec8a38b438bbfaa86da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 09/34] fix: approve actions and receipts must survive the
 canonical encoding

---
 protocol/src/fixed_codec/receipt.rs     | 24 +++++++++++++-
 protocol/src/fixed_codec/transaction.rs | 43 ++++++++++++++++++++++++-
 2 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/protocol/src/fixed_codec/receipt.rs b/protocol/src/fixed_codec/receipt.rs
index 07a38e8..7548f0b 100644
--- a/protocol/src/fixed_codec/receipt.rs
+++ b/protocol/src/fixed_codec/receipt.rs
@@ -45,6 +45,7 @@ const TRANSFER_RESULT_FLAG: u8 = 0;
 const DEPLOY_RESULT_FLAG: u8 = 1;
 const CALL_RESULT_FLAG: u8 = 2;
 const FAIL_RESULT_FLAG: u8 = 3;
+const APPROVE_RESULT_FLAG: u8 = 4;
 
 impl rlp::Encodable for ReceiptResult {
     fn rlp_append(&self, s: &mut rlp::RlpStream) {
@@ -93,7 +94,17 @@ impl rlp::Encodable for ReceiptResult {
                     .append(&system.as_bytes())
                     .append(&user.as_bytes());
             }
-            _ => {}
+            ReceiptResult::Approve {
+                spender,
+                asset_id,
+                max,
+            } => {
+                s.begin_list(4)
+                    .append(&APPROVE_RESULT_FLAG)
+                    .append(asset_id)
+                    .append(&max.to_bytes_be())
+                    .append(spender);
+            }
         }
     }
 }
@@ -152,6 +163,17 @@ impl rlp::Decodable for ReceiptResult {
 
                 Ok(ReceiptResult::Fail { system, user })
             }
+            APPROVE_RESULT_FLAG => {
+                let asset_id = rlp::decode(r.at(1)?.as_raw())?;
+                let max = Balance::from_bytes_be(r.at(2)?.data()?);
+                let spender = rlp::decode(r.at(3)?.as_raw())?;
+
+                Ok(ReceiptResult::Approve {
+                    spender,
+                    asset_id,
+                    max,
+                })
+            }
             _ => Err(rlp::DecoderError::RlpListLenWithZeroPrefix),
         }
     }
diff --git a/protocol/src/fixed_codec/transaction.rs b/protocol/src/fixed_codec/transaction.rs
index c0d7c90..eeed39b 100644
--- a/protocol/src/fixed_codec/transaction.rs
+++ b/protocol/src/fixed_codec/transaction.rs
@@ -14,6 +14,7 @@ const TRANSFER_ACTION_FLAG: u8 = 0;
 const DEPLOY_ACTION_FLAG: u8 = 1;
 const CALL_ACTION_WITH_ASSET_FLAG: u8 = 2;
 const CALL_ACTION_WITHOUT_ASSET_FLAG: u8 = 3;
+const APPROVE_ACTION_FLAG: u8 = 4;
 
 impl rlp::Encodable for RawTransaction {
     fn rlp_append(&self, s: &mut rlp::RlpStream) {
@@ -102,7 +103,26 @@ impl rlp::Encodable for RawTransaction {
                 s.append(&contract.as_bytes().to_vec());
                 s.append(&method.as_bytes());
             }
-            _ => {}
+            TransactionAction::Approve {
+                spender,
+                asset_id,
+                max,
+            } => {
+                s.begin_list(9);
+                s.append(&APPROVE_ACTION_FLAG);
+
+                // Append tx basic fields
+                s.append(&self.chain_id.as_bytes().to_vec());
+                s.append(&self.fee.asset_id.as_bytes().to_vec());
+                s.append(&self.fee.cycle);
+                s.append(&self.nonce.as_bytes().to_vec());
+                s.append(&self.timeout);
+
+                // Append tx action fields
+                s.append(&asset_id.as_bytes().to_vec());
+                s.append(&max.to_bytes_be());
+                s.append(&spender.as_bytes().to_vec());
+            }
         }
     }
 }
@@ -221,6 +241,27 @@ impl rlp::Decodable for RawTransaction {
                     })
                 }
             }
+            APPROVE_ACTION_FLAG => {
+                // Decode tx basic fields
+                let (chain_id, fee, nonce, timeout) = help_decode_raw_tx(r)?;
+
+                // Decode tx action fields
+                let action = TransactionAction::Approve {
+                    spender:  ContractAddress::from_bytes(Bytes::from(r.at(8)?.data()?))
+                        .map_err(|_| rlp::DecoderError::RlpInvalidLength)?,
+                    asset_id: Hash::from_bytes(Bytes::from(r.at(6)?.data()?))
+                        .map_err(|_| rlp::DecoderError::RlpInvalidLength)?,
+                    max:      Balance::from_bytes_be(r.at(7)?.data()?),
+                };
+
+                Ok(RawTransaction {
+                    chain_id,
+                    nonce,
+                    timeout,
+                    fee,
+                    action,
+                })
+            }
             _ => Err(rlp::DecoderError::RlpListLenWithZeroPrefix),
         }
     }
-- 
2.43.0


From 553cb4274b98dcad6c585895aca99c75be7850b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 10/34] fix: contract kinds must survive the wire encoding

---
 protocol/src/codec/primitive.rs   | 20 ++++++++++++++------
 protocol/src/codec/receipt.rs     |  3 ++-
 protocol/src/codec/transaction.rs |  3 ++-
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/protocol/src/codec/primitive.rs b/protocol/src/codec/primitive.rs
index c4bc1a1..9612791 100644
--- a/protocol/src/codec/primitive.rs
+++ b/protocol/src/codec/primitive.rs
@@ -206,6 +206,19 @@ impl TryFrom<UserAddress> for protocol_primitive::UserAddress {
     }
 }
 
+// ContractType
+
+impl From<protocol_primitive::ContractType> for ContractType {
+    fn from(contract_type: protocol_primitive::ContractType) -> ContractType {
+        match contract_type {
+            protocol_primitive::ContractType::Asset => ContractType::Asset,
+            protocol_primitive::ContractType::Library => ContractType::Library,
+            protocol_primitive::ContractType::App => ContractType::App,
+            protocol_primitive::ContractType::Native => ContractType::Native,
+        }
+    }
+}
+
 // ContractAddress
 
 impl From<protocol_primitive::ContractAddress> for ContractAddress {
@@ -213,12 +226,7 @@ impl From<protocol_primitive::ContractAddress> for ContractAddress {
         let value = contract.as_bytes().to_vec();
         let address = Some(Address { value });
 
-        let contract_type = match contract.contract_type() {
-            protocol_primitive::ContractType::Asset => ContractType::Asset,
-            protocol_primitive::ContractType::Library => ContractType::Library,
-            protocol_primitive::ContractType::App => ContractType::App,
-            protocol_primitive::ContractType::Native => ContractType::Native,
-        };
+        let contract_type = ContractType::from(contract.contract_type());
 
         ContractAddress {
             value:         address,
diff --git a/protocol/src/codec/receipt.rs b/protocol/src/codec/receipt.rs
index f04f8f2..3d95f24 100644
--- a/protocol/src/codec/receipt.rs
+++ b/protocol/src/codec/receipt.rs
@@ -141,7 +141,7 @@ impl From<receipt::ReceiptResult> for ReceiptResult {
             } => {
                 let deploy = Deploy {
                     contract:      Some(ContractAddress::from(contract)),
-                    contract_type: contract_type as i32,
+                    contract_type: ContractType::from(contract_type) as i32,
                 };
 
                 ReceiptResult::Deploy(deploy)
@@ -216,6 +216,7 @@ impl TryFrom<ReceiptResult> for receipt::ReceiptResult {
                     0 => protocol_primitive::ContractType::Asset,
                     1 => protocol_primitive::ContractType::Library,
                     2 => protocol_primitive::ContractType::App,
+                    3 => protocol_primitive::ContractType::Native,
                     _ => return Err(CodecError::InvalidContractType(deploy.contract_type).into()),
                 };
 
diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 3b24e40..6bb5594 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -181,7 +181,7 @@ impl From<transaction::TransactionAction> for TransactionAction {
             } => {
                 let deploy = Deploy {
                     code:          code.to_vec(),
-                    contract_type: contract_type as i32,
+                    contract_type: ContractType::from(contract_type) as i32,
                 };
 
                 TransactionAction::Deploy(deploy)
@@ -255,6 +255,7 @@ impl TryFrom<TransactionAction> for transaction::TransactionAction {
                     0 => protocol_primitive::ContractType::Asset,
                     1 => protocol_primitive::ContractType::Library,
                     2 => protocol_primitive::ContractType::App,
+                    3 => protocol_primitive::ContractType::Native,
                     _ => return Err(CodecError::InvalidContractType(deploy.contract_type).into()),
                 };
 
-- 
2.43.0


From 06e4f288edabddd90fb60e1f823a3dac69d30cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:06 +0000
Subject: [PATCH 11/34] fix: a bloom filter of a wrong length must be refused
 when decoded, not panic

---
 protocol/src/codec/epoch.rs     | 3 ++-
 protocol/src/codec/primitive.rs | 3 +--
 protocol/src/codec/receipt.rs   | 5 ++++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/protocol/src/codec/epoch.rs b/protocol/src/codec/epoch.rs
index 86df6bb..ebccef1 100644
--- a/protocol/src/codec/epoch.rs
+++ b/protocol/src/codec/epoch.rs
@@ -5,7 +5,7 @@ use prost::Message;
 
 use crate::{
     codec::{
-        primitive::{Hash, UserAddress},
+        primitive::{ensure_len, Hash, UserAddress},
         CodecError, ProtocolCodecSync,
     },
     field, impl_default_bytes_codec_for,
@@ -215,6 +215,7 @@ impl TryFrom<EpochHeader> for epoch::EpochHeader {
         let state_root = field!(epoch_header.state_root, "EpochHeader", "state_root")?;
         let proposer = field!(epoch_header.proposer, "EpochHeader", "proposer")?;
         let proof = field!(epoch_header.proof, "EpochHeader", "proof")?;
+        ensure_len(epoch_header.logs_bloom.len(), Bloom::len_bytes())?;
 
         let mut confirm_root = Vec::new();
         for root in epoch_header.confirm_root {
diff --git a/protocol/src/codec/primitive.rs b/protocol/src/codec/primitive.rs
index 9612791..a2dcc54 100644
--- a/protocol/src/codec/primitive.rs
+++ b/protocol/src/codec/primitive.rs
@@ -340,8 +340,7 @@ impl_default_bytes_codec_for!(primitive, [
 // Util
 // #####################
 
-#[allow(dead_code)]
-fn ensure_len(real: usize, expect: usize) -> Result<(), CodecError> {
+pub(crate) fn ensure_len(real: usize, expect: usize) -> Result<(), CodecError> {
     if real != expect {
         return Err(CodecError::WrongBytesLength { expect, real });
     }
diff --git a/protocol/src/codec/receipt.rs b/protocol/src/codec/receipt.rs
index 3d95f24..d361b91 100644
--- a/protocol/src/codec/receipt.rs
+++ b/protocol/src/codec/receipt.rs
@@ -5,7 +5,9 @@ use prost::{Message, Oneof};
 
 use crate::{
     codec::{
-        primitive::{AssetID, Balance, ContractAddress, ContractType, Fee, Hash, UserAddress},
+        primitive::{
+            ensure_len, AssetID, Balance, ContractAddress, ContractType, Fee, Hash, UserAddress,
+        },
         CodecError, ProtocolCodecSync,
     },
     field, impl_default_bytes_codec_for,
@@ -229,6 +231,7 @@ impl TryFrom<ReceiptResult> for receipt::ReceiptResult {
             }
             ReceiptResult::Call(call) => {
                 let contract = field!(call.contract, "ReceiptResult::Call", "contract")?;
+                ensure_len(call.logs_bloom.len(), Bloom::len_bytes())?;
 
                 let action = receipt::ReceiptResult::Call {
                     contract:     protocol_primitive::ContractAddress::try_from(contract)?,
-- 
2.43.0


From 139d948563573037398b62852e68d7bf1a8a5a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:29 +0000
Subject: [PATCH 12/34] fix: an empty merkle list has no proof for position 0

---
 common/merkle/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/merkle/src/lib.rs b/common/merkle/src/lib.rs
index 6314deb..d3a450a 100644
--- a/common/merkle/src/lib.rs
+++ b/common/merkle/src/lib.rs
@@ -27,6 +27,9 @@ impl Merkle {
     }
 
     pub fn get_proof_by_input_index(&self, input_index: usize) -> Option<Vec<ProofNode>> {
+        // The underlying tree proves position 0 of an empty list.
+        self.tree.get_root_hash()?;
+
         self.tree
             .get_proof_by_input_index(input_index)
             .map(|proof| {
-- 
2.43.0


From f3317d9057a0e0a09b9b6fc83ad859b1ac76039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 13/34] fix: packaging must not wrap the cycle count around

The cycles of pooled transactions are whatever their senders asked for. Adding
them up could overflow: a panic with overflow checks, and without them a
wrapped count that lets the ordered list grow over the cycle limit.
---
 core/mempool/src/tx_cache.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/mempool/src/tx_cache.rs b/core/mempool/src/tx_cache.rs
index 54f6cb6..d961574 100644
--- a/core/mempool/src/tx_cache.rs
+++ b/core/mempool/src/tx_cache.rs
@@ -217,10 +217,14 @@ impl TxCache {
                 }
                 // Accumulate cycles. The order_tx_hashes and the propose_tx_hashes both collect
                 // transactions under cycle limit.
-                cycle_count += shared_tx.tx.raw.fee.cycle;
-                if cycle_count > cycle_limit {
-                    stage = stage.next();
-                    cycle_count = shared_tx.tx.raw.fee.cycle;
+                let tx_cycle = shared_tx.tx.raw.fee.cycle;
+                match cycle_count.checked_add(tx_cycle) {
+                    Some(count) if count <= cycle_limit => cycle_count = count,
+                    // Over the limit, or over what a u64 holds.
+                    _ => {
+                        stage = stage.next();
+                        cycle_count = tx_cycle;
+                    }
                 }
 
                 match stage {
-- 
2.43.0


From 86c3475f5929d569cf3ab6964d09807d7fd86df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 14/34] fix: do not propose a proposed transaction that closes
 the ordered list

The check for transactions that came from another proposal was made before the
stage was switched, so the one that overflows the ordered list was pushed to
the proposed list all the same.
---
 core/mempool/src/tx_cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mempool/src/tx_cache.rs b/core/mempool/src/tx_cache.rs
index d961574..b081255 100644
--- a/core/mempool/src/tx_cache.rs
+++ b/core/mempool/src/tx_cache.rs
@@ -229,6 +229,8 @@ impl TxCache {
 
                 match stage {
                     Stage::OrderTxs => order_tx_hashes.push(tx_hash.clone()),
+                    // The transaction that closed the ordered list may itself have been proposed.
+                    Stage::ProposeTxs if shared_tx.is_proposed() => cycle_count = 0,
                     Stage::ProposeTxs => propose_tx_hashes.push(tx_hash.clone()),
                     Stage::Finished => {}
                 }
-- 
2.43.0


From ee3d70fedfd215bafff123d05420dc5a6ba5b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:19 +0000
Subject: [PATCH 15/34] fix: check pulled transactions before using them

Transactions answered by a peer went into the pool, or into the cache a block
is executed from, unchecked: a forged transaction under a requested hash was
taken for the real one. They now pass the checks a submitted transaction does.
---
 core/mempool/src/lib.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 91f66e0..a5826d7 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -56,6 +56,18 @@ where
         }
     }
 
+    async fn check_pulled_tx(&self, ctx: Context, tx: &SignedTransaction) -> ProtocolResult<()> {
+        self.adapter
+            .check_signature(ctx.clone(), tx.clone())
+            .await?;
+        self.adapter
+            .check_transaction(ctx.clone(), tx.clone())
+            .await?;
+        self.adapter
+            .check_storage_exist(ctx, tx.tx_hash.clone())
+            .await
+    }
+
     pub fn get_tx_cache(&self) -> &TxCache {
         &self.tx_cache
     }
@@ -157,9 +169,16 @@ where
                 }
                 .into());
             }
-            txs.into_iter().for_each(|tx| {
+            // The answer of a peer is not to be trusted more than a submitted transaction.
+            for tx in txs {
+                self.adapter
+                    .check_signature(ctx.clone(), tx.clone())
+                    .await?;
+                self.adapter
+                    .check_transaction(ctx.clone(), tx.clone())
+                    .await?;
                 self.callback_cache.insert(tx.tx_hash.clone(), tx);
-            });
+            }
         }
 
         Ok(())
@@ -173,11 +192,16 @@ where
         let unknown_hashes = self.tx_cache.show_unknown(propose_tx_hashes);
         if !unknown_hashes.is_empty() {
             let txs = self.adapter.pull_txs(ctx.clone(), unknown_hashes).await?;
-            txs.into_iter().for_each(|tx| {
+            for tx in txs {
+                // The answer of a peer is not to be trusted more than a submitted transaction.
+                let checked = self.check_pulled_tx(ctx.clone(), &tx).await;
+                if checked.is_err() {
+                    continue;
+                }
                 // Should not handle error here, it is normal that transactions response here
                 // are exist in pool.
                 let _ = self.tx_cache.insert_propose_tx(tx);
-            });
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 97c8cf59c434624f810a9104f8f4edf1ac1c6f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:22 +0000
Subject: [PATCH 16/34] fix: an rpc endpoint converted from an endpoint needs
 an rpc scheme

---
 core/network/src/endpoint.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/network/src/endpoint.rs b/core/network/src/endpoint.rs
index 4fea390..1c61466 100644
--- a/core/network/src/endpoint.rs
+++ b/core/network/src/endpoint.rs
@@ -173,6 +173,10 @@ impl TryFrom<Endpoint> for RpcEndpoint {
     type Error = NetworkError;
 
     fn try_from(end: Endpoint) -> Result<Self, Self::Error> {
+        if !end.starts_with(RPC_CALL_SCHEME) && !end.starts_with(RPC_RESPONSE_SCHEME) {
+            return Err(NetworkError::UnexpectedScheme(end.root()));
+        }
+
         let rid = Self::extract_rpc_id_from(&end)?;
 
         Ok(RpcEndpoint { end, rid })
-- 
2.43.0


From 4f1d1fa07cadb7732ea0d220d018e5aa5101ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 17/34] fix: an unknown address is dropped after its last
 retry, not its first

---
 core/network/src/peer_manager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index d597586..0513967 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -85,7 +85,7 @@ impl UnknownAddr {
     }
 
     pub fn reach_max_retry(&self) -> bool {
-        MAX_RETRY_COUNT + 1 >= self.retry_count
+        self.retry_count >= MAX_RETRY_COUNT
     }
 }
 
-- 
2.43.0


From 631bafd753695ec00096f1abba1d0a90a824e61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 18/34] fix: removing a peer's address leaves another peer's
 entry

---
 core/network/src/peer_manager/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 0513967..8c1849a 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -222,7 +222,12 @@ impl Inner {
     }
 
     pub fn remove_peer_addr(&self, peer_id: &PeerId, addr: &Multiaddr) {
-        self.addr_pid.write().remove(addr);
+        let mut addr_pid = self.addr_pid.write();
+
+        // Leave an address that belongs to another peer now
+        if addr_pid.get(addr) == Some(peer_id) {
+            addr_pid.remove(addr);
+        }
 
         if let Some(peer) = self.pool.write().get_mut(peer_id) {
             peer.remove_addr(addr);
@@ -292,7 +297,10 @@ impl Inner {
             self.user_pid.write().remove(peer.user_addr());
 
             for addr in peer.addrs().into_iter() {
-                addr_pid.remove(addr);
+                // Leave an address that belongs to another peer now
+                if addr_pid.get(addr) == Some(peer_id) {
+                    addr_pid.remove(addr);
+                }
             }
         }
     }
-- 
2.43.0


From 4174f74e0e34478fd17bad4b8948e2138976188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 19/34] fix: adding a known peer keeps the addresses it is
 listed under

---
 core/network/src/peer_manager/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 8c1849a..9c34e96 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -202,6 +202,15 @@ impl Inner {
             addr_pid.insert(addr.clone(), peer.id().clone());
         }
 
+        // A peer that is known already keeps its addresses
+        if let Some(known) = pool.get_mut(peer.id()) {
+            for addr in peer.owned_addrs().into_iter() {
+                known.add_addr(addr);
+            }
+
+            return;
+        }
+
         pool.insert(peer.id().clone(), peer);
     }
 
-- 
2.43.0


From dec5424e3e9bd44d864c973881c4d5d9e78ae58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 20/34] fix: a peer's new session replaces its last one in both
 directions

---
 core/network/src/peer_manager/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 9c34e96..32e2447 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -669,7 +669,10 @@ impl PeerManager {
 
         self.inner.set_connected(&pid, connection_ip);
 
-        self.peer_session.insert(pid.clone(), sid);
+        // A session of this peer that is not closed yet is not its session any more
+        if let Some(last_sid) = self.peer_session.insert(pid.clone(), sid) {
+            self.session_peer.remove(&last_sid);
+        }
         self.session_peer.insert(sid, pid);
     }
 
-- 
2.43.0


From 3fca45b5b668ecc72d66e807d152624d2bb550ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:55 +0000
Subject: [PATCH 21/34] fix: disconnect a peer that is dropped at its last
 retry

---
 core/network/src/peer_manager/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 32e2447..6f5113f 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -917,16 +917,19 @@ impl PeerManager {
                     self.peer_id, pid
                 );
 
+                // The session is forgotten when the peer reaches its last retry
+                let opt_sid = self.peer_session.get(&pid).cloned();
+
                 self.increase_peer_retry(&pid);
 
-                if !self.peer_session.contains_key(&pid) {
+                if opt_sid.is_none() {
                     debug!("network: retry peer {:?} but session id not found", pid);
                     return;
                 }
 
                 // Make sure that we disconnect this peer
-                if let Some(sid) = self.peer_session.get(&pid) {
-                    let disconnect_peer = ConnectionEvent::Disconnect(*sid);
+                if let Some(sid) = opt_sid {
+                    let disconnect_peer = ConnectionEvent::Disconnect(sid);
 
                     // TODO: report upstream or wrap some how
                     if self.conn_tx.unbounded_send(disconnect_peer).is_err() {
-- 
2.43.0


From 1e81089da6c695678c610284acbc272018041386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:25 +0000
Subject: [PATCH 22/34] fix: a peer whose dial failed can be dialed again

---
 core/network/src/peer_manager/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 6f5113f..a31a830 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -336,6 +336,11 @@ impl Inner {
         self.connecting.write().insert(peer_id.clone());
     }
 
+    // The peer may be dialed again
+    pub fn stop_connecting(&self, peer_id: &PeerId) {
+        self.connecting.write().remove(peer_id);
+    }
+
     pub fn set_connected(&self, peer_id: &PeerId, ip: Option<IpAddr>) {
         // Clean outbound connection
         self.connecting.write().remove(peer_id);
@@ -981,6 +986,10 @@ impl PeerManager {
             PeerManagerEvent::UnconnectableAddress { addr, .. } => {
                 self.unknown_addrs.remove(&addr.clone().into());
 
+                if let Some(pid) = self.inner.match_pid(&addr) {
+                    self.inner.stop_connecting(&pid);
+                }
+
                 if self.bootstraps.contains(&addr) {
                     error!("network: unconnectable bootstrap address {}", addr);
                     return;
@@ -1005,6 +1014,7 @@ impl PeerManager {
                         return;
                     }
 
+                    self.inner.stop_connecting(&pid);
                     self.increase_peer_retry(&pid);
                 }
             }
-- 
2.43.0


From 272f72d8da5d86892b4684f1678a42ace3d96026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:25 +0000
Subject: [PATCH 23/34] fix: a peer without an address is not picked for
 dialing

---
 core/network/src/peer_manager/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index a31a830..c5c25fb 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -383,7 +383,10 @@ impl Inner {
         let qualified_peers = pool.values().filter(|peer| {
             let pid = peer.id();
 
-            !connected.contains(pid) && !connecting.contains(pid) && peer.retry_ready()
+            !connected.contains(pid)
+                && !connecting.contains(pid)
+                && !peer.addrs().is_empty()
+                && peer.retry_ready()
         });
 
         qualified_peers
-- 
2.43.0


From 9927ed0e84ec7c95c6c648cd7357088794c39867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 24/34] fix: do not catch up from epoch 1 when the storage does
 not answer

---
 core/consensus/src/consensus.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 7fcd99d..bd16726 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -78,8 +78,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
         let current_epoch_id = self
             .engine
             .get_current_epoch_id(ctx.clone())
-            .await
-            .unwrap_or(1u64);
+            .await?;
 
         if current_epoch_id >= rich_epoch_id - 1 {
             return Ok(());
-- 
2.43.0


From e8cb6a04f869c08378a6f99ae4476d16e34e1dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 25/34] fix: an announced epoch id of 0 or 1 does not underflow

---
 core/consensus/src/consensus.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index bd16726..ae995fe 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -72,7 +72,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
         // Reveive the rich epoch ID.
         let epoch_id: FixedEpochID =
             deserialize(&msg).map_err(|_| ConsensusError::DecodeErr(MsgType::RichEpochID))?;
-        let rich_epoch_id = epoch_id.inner - 1;
+        let rich_epoch_id = epoch_id.inner.saturating_sub(1);
 
         // TODO: fix to get_epoch_by_epoch_id()
         let current_epoch_id = self
@@ -80,7 +80,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             .get_current_epoch_id(ctx.clone())
             .await?;
 
-        if current_epoch_id >= rich_epoch_id - 1 {
+        if current_epoch_id >= rich_epoch_id.saturating_sub(1) {
             return Ok(());
         }
 
-- 
2.43.0


From 2503d785322fc7faf4654e336251bdb442fd9097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 26/34] fix: catch up from the state the last epoch left

---
 core/consensus/src/consensus.rs | 4 ++--
 core/consensus/src/engine.rs    | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index ae995fe..67253e1 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -93,13 +93,13 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
         info!("self {}, chain {}", current_epoch_id, rich_epoch_id);
         info!("consensus: start synchronization");
 
-        let mut state_root = Hash::from_empty();
+        // An epoch's header holds the state root it was executed on, not the one it left.
+        let mut state_root = self.engine.get_current_state_root();
         let mut current_hash = if current_epoch_id != 0 {
             let current_epoch = self
                 .engine
                 .get_epoch_by_id(ctx.clone(), current_epoch_id)
                 .await?;
-            state_root = current_epoch.header.state_root.clone();
             let tmp = Hash::digest(current_epoch.encode_fixed()?);
 
             // Check epoch for the first time.
diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index bb045c4..9fb3ecf 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -403,6 +403,11 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         self.adapter.save_proof(ctx, proof).await
     }
 
+    pub fn get_current_state_root(&self) -> MerkleRoot {
+        let current_consensus_status = self.current_consensus_status.read();
+        current_consensus_status.state_root.clone()
+    }
+
     pub fn get_current_interval(&self) -> u64 {
         let current_consensus_status = self.current_consensus_status.read();
         current_consensus_status.consensus_interval
-- 
2.43.0


From 24adae22beaacfd4acc4a0dc997d477493a3ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 27/34] fix: the first epoch has to extend the genesis epoch

---
 core/consensus/src/consensus.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 67253e1..d57f4f9 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -95,7 +95,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
 
         // An epoch's header holds the state root it was executed on, not the one it left.
         let mut state_root = self.engine.get_current_state_root();
-        let mut current_hash = if current_epoch_id != 0 {
+        let mut current_hash = {
             let current_epoch = self
                 .engine
                 .get_epoch_by_id(ctx.clone(), current_epoch_id)
@@ -113,8 +113,6 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
                 return Err(ConsensusError::SyncEpochHashErr(current_epoch_id + 1).into());
             }
             tmp
-        } else {
-            Hash::from_empty()
         };
 
         // Start to synchronization.
@@ -129,7 +127,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             debug!("consensus: synchronization check proof and previous hash");
             let proof = epoch.header.proof.clone();
             self.check_proof(id, proof.clone())?;
-            if id != 1 && current_hash != epoch.header.pre_hash {
+            if current_hash != epoch.header.pre_hash {
                 return Err(ConsensusError::SyncEpochHashErr(id).into());
             }
             self.engine.save_proof(ctx.clone(), proof.clone()).await?;
-- 
2.43.0


From 46e2ff91e0501e67c3f6d07b84af970b99bb5918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 28/34] fix: a pulled epoch has to be the one asked for

---
 core/consensus/src/consensus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index d57f4f9..691aaf7 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -127,7 +127,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             debug!("consensus: synchronization check proof and previous hash");
             let proof = epoch.header.proof.clone();
             self.check_proof(id, proof.clone())?;
-            if current_hash != epoch.header.pre_hash {
+            if id != epoch.header.epoch_id || current_hash != epoch.header.pre_hash {
                 return Err(ConsensusError::SyncEpochHashErr(id).into());
             }
             self.engine.save_proof(ctx.clone(), proof.clone()).await?;
-- 
2.43.0


From f550bfa1450fbbe0c73ef80bf518fe3c8ea8ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 29/34] fix: pulled transactions have to be the ones the epoch
 orders

---
 core/consensus/src/consensus.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 691aaf7..3756191 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -12,7 +12,7 @@ use parking_lot::RwLock;
 use common_crypto::{PrivateKey, Secp256k1PrivateKey};
 
 use protocol::traits::{Consensus, ConsensusAdapter, CurrentConsensusStatus, NodeInfo};
-use protocol::types::{Address, Hash, Proof, Validator};
+use protocol::types::{Address, Hash, Proof, SignedTransaction, Validator};
 use protocol::{fixed_codec::ProtocolFixedCodec, ProtocolResult};
 
 use crate::engine::ConsensusEngine;
@@ -138,6 +138,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
                 .engine
                 .pull_txs(ctx.clone(), epoch.ordered_tx_hashes.clone())
                 .await?;
+            check_txs(&epoch.ordered_tx_hashes, &txs)?;
 
             // After get the signed transactions:
             // 1. Execute the signed transactions.
@@ -244,6 +245,19 @@ impl<Adapter: ConsensusAdapter + 'static> OverlordConsensus<Adapter> {
     }
 }
 
+/// The transactions pulled have to be the ones the epoch orders.
+fn check_txs(ordered_tx_hashes: &[Hash], txs: &[SignedTransaction]) -> ProtocolResult<()> {
+    if txs.len() != ordered_tx_hashes.len() {
+        return Err(ConsensusError::RpcErr(MsgType::RpcPullTxs).into());
+    }
+    for (hash, tx) in ordered_tx_hashes.iter().zip(txs.iter()) {
+        if tx.tx_hash != *hash || Hash::digest(tx.raw.encode_fixed()?) != *hash {
+            return Err(ConsensusError::RpcErr(MsgType::RpcPullTxs).into());
+        }
+    }
+    Ok(())
+}
+
 fn gen_overlord_status(epoch_id: u64, interval: u64, validators: Vec<Validator>) -> Status {
     let mut authority_list = validators
         .into_iter()
-- 
2.43.0


From a96bd2a29f4a2a826d06e3411ed5e34536b5052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 30/34] fix: transactions committed while catching up leave the
 pool

---
 core/consensus/src/consensus.rs | 3 +++
 core/consensus/src/engine.rs    | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 3756191..76d6555 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -162,6 +162,9 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             self.engine
                 .update_status(epoch.header.epoch_id, epoch.clone(), proof, exec_resp, txs)
                 .await?;
+            self.engine
+                .flush_mempool(ctx.clone(), epoch.ordered_tx_hashes.clone())
+                .await?;
 
             // Update the previous hash and last epoch.
             info!("consensus: finish synchronization {} epoch", id);
diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 9fb3ecf..a981bba 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -403,6 +403,10 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         self.adapter.save_proof(ctx, proof).await
     }
 
+    pub async fn flush_mempool(&self, ctx: Context, hashes: Vec<Hash>) -> ProtocolResult<()> {
+        self.adapter.flush_mempool(ctx, hashes).await
+    }
+
     pub fn get_current_state_root(&self) -> MerkleRoot {
         let current_consensus_status = self.current_consensus_status.read();
         current_consensus_status.state_root.clone()
-- 
2.43.0


From ba96de0103ab42fbdc671832e2bbfd54db7f9d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 31/34] fix: a signature shorter than a public key is an error,
 not a panic

---
 core/consensus/src/util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/consensus/src/util.rs b/core/consensus/src/util.rs
index be63645..7287901 100644
--- a/core/consensus/src/util.rs
+++ b/core/consensus/src/util.rs
@@ -39,6 +39,12 @@ impl Crypto for OverlordCrypto {
         mut signature: Bytes,
         hash: Bytes,
     ) -> Result<Bytes, Box<dyn Error + Send>> {
+        if signature.len() < 33 {
+            return Err(ProtocolError::from(ConsensusError::Other(
+                "signature too short".to_string(),
+            ))
+            .into());
+        }
         let tmp = signature.split_off(33);
         let pub_key = signature;
         let signature = tmp;
-- 
2.43.0


From cd8ae3a41b4cfb9458575ae85259053ea23ea2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 32/34] fix: a malformed answer to a pull request is an error,
 not a panic

---
 core/consensus/src/fixed_types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/fixed_types.rs b/core/consensus/src/fixed_types.rs
index 714af44..435dcfb 100644
--- a/core/consensus/src/fixed_types.rs
+++ b/core/consensus/src/fixed_types.rs
@@ -47,6 +47,9 @@ impl MessageCodec for ConsensusRpcResponse {
 
     async fn decode(mut bytes: Bytes) -> ProtocolResult<Self> {
         let len = bytes.len();
+        if len == 0 {
+            return Err(ConsensusError::DecodeErr(MsgType::RpcPullEpochs).into());
+        }
         let flag = bytes.split_off(len - 1);
 
         match flag.as_ref() {
@@ -60,7 +63,7 @@ impl MessageCodec for ConsensusRpcResponse {
                     .map_err(|_| ConsensusError::DecodeErr(MsgType::RpcPullTxs))?;
                 Ok(ConsensusRpcResponse::PullTxs(Box::new(res)))
             }
-            _ => unreachable!(),
+            _ => Err(ConsensusError::DecodeErr(MsgType::RpcPullEpochs).into()),
         }
     }
 }
-- 
2.43.0


From 2a798dd169cb7ccc95e58a880b6b001c24026a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:34 +0000
Subject: [PATCH 33/34] fix: peers' pulls of transactions are served by their
 handler

---
 src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d694507..e87f46a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -23,8 +23,8 @@ use core_consensus::message::{
 use core_executor::trie::RocksTrieDB;
 use core_executor::TransactionExecutorFactory;
 use core_mempool::{
-    DefaultMemPoolAdapter, HashMemPool, MsgPushTxs, NewTxsHandler, END_GOSSIP_NEW_TXS,
-    END_RESP_PULL_TXS, END_RPC_PULL_TXS,
+    DefaultMemPoolAdapter, HashMemPool, MsgPushTxs, NewTxsHandler, PullTxsHandler,
+    END_GOSSIP_NEW_TXS, END_RESP_PULL_TXS, END_RPC_PULL_TXS,
 };
 use core_network::{NetworkConfig, NetworkService};
 use core_storage::{adapter::rocks::RocksAdapter, ImplStorage};
@@ -215,7 +215,10 @@ async fn start(cfg: &Config) -> ProtocolResult<()> {
     network_service
         .register_endpoint_handler(
             END_RPC_PULL_TXS,
-            Box::new(NewTxsHandler::new(Arc::clone(&mempool))),
+            Box::new(PullTxsHandler::new(
+                network_service.handle(),
+                Arc::clone(&mempool),
+            )),
         )
         .unwrap();
 
-- 
2.43.0


From 2ed1c7cf5b4547eae873e31f65ed58752365935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:15 +0000
Subject: [PATCH 34/34] fix: the genesis proof is stored before the epoch that
 ends the initialisation

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e87f46a..180b0d1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -141,6 +141,8 @@ async fn handle_init(cfg: &Config, genesis_path: impl AsRef<Path>) -> ProtocolRe
         validators:        vec![],
     };
     let latest_proof = genesis_epoch_header.proof.clone();
+    // The epoch goes last: once it is there, the chain is not initialised again.
+    storage.update_latest_proof(latest_proof).await.unwrap();
     storage
         .insert_epoch(Epoch {
             header:            genesis_epoch_header,
@@ -148,7 +150,6 @@ async fn handle_init(cfg: &Config, genesis_path: impl AsRef<Path>) -> ProtocolRe
         })
         .await
         .unwrap();
-    storage.update_latest_proof(latest_proof).await.unwrap();
     Ok(())
 }
 
-- 
2.43.0

