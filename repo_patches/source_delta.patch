From 4c92e0317cbbec7886e0b98b0ab40d0fc1d9b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:35 +0000
Subject: [PATCH 01/58] fix: make the layer fingerprint depend on the committed
 contents

Storage::checkpoint computed the XOR of the changes and then dropped it, so
the fingerprint of a layer did not depend on what was stored in it. The
fingerprint now covers the current value of every key.
---
 crates/host/state/src/storage.rs | 36 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 71a8ce3..5ebab0f 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -23,11 +23,9 @@ pub use crate::error::{StorageError, StorageResult as Result};
 
 type Changes = HashMap<State, Vec<u8>>;
 
-// When initializing [`State`]'s on the database, we zero all bits. In
-// memory, however, the initial [`State`] is always filled with 1's (by
-// XOR-ing them together, we still get 0).
+// The fingerprint of an empty set of key-value pairs (the identity element of
+// XOR).
 const STATE_ZEROS: State = State([0; 32]);
-const STATE_ONES: State = State([std::u8::MAX; 32]);
 
 const SQL_SCHEMA: &str = include_str!("resources/schema.sql");
 
@@ -171,7 +169,15 @@ impl Storage {
             self.get_by_hash_historical(hash, layer_id).await
         } else if let Some(value) = self.dirty_changes.get(hash) {
             Ok(Some(value.clone()))
-        } else if let Some(value) = self.next_layer.changes.get(hash) {
+        } else {
+            self.get_saved_by_hash(hash).await
+        }
+    }
+
+    /// Like [`Storage::get_by_hash`] for the most recent value, but ignoring
+    /// all dirty changes.
+    async fn get_saved_by_hash(&self, hash: &State) -> Result<Option<Vec<u8>>> {
+        if let Some(value) = self.next_layer.changes.get(hash) {
             Ok(Some(value.clone()))
         } else {
             let value: Option<(Vec<u8>,)> = sqlx::query_as(
@@ -238,15 +244,21 @@ impl Storage {
 
     pub async fn checkpoint(&mut self) -> Result<()> {
         let mut fingerprint = self.next_layer.changes_xor_fingerprint;
-        let dirty_changes = std::mem::take(&mut self.dirty_changes);
 
-        for change in dirty_changes {
-            let xor = hash_key_value_pair(&change.0, &change.1);
-            xor_fingerprint(&mut fingerprint, &xor);
+        for (key_hash, value) in self.dirty_changes.iter() {
+            // The fingerprint only covers the current value of each key, so we
+            // must get rid of the contribution of the value being replaced.
+            if let Some(old_value) = self.get_saved_by_hash(key_hash).await? {
+                xor_fingerprint(&mut fingerprint, &hash_key_value_pair(key_hash, &old_value));
+            }
 
-            self.next_layer.changes.insert(change.0, change.1);
+            xor_fingerprint(&mut fingerprint, &hash_key_value_pair(key_hash, value));
         }
 
+        let dirty_changes = std::mem::take(&mut self.dirty_changes);
+        self.next_layer.changes.extend(dirty_changes);
+        self.next_layer.changes_xor_fingerprint = fingerprint;
+
         Ok(())
     }
 
@@ -294,7 +306,7 @@ impl Storage {
         .await?;
 
         // Reset layer-specific information to default values.
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
+        self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
         self.next_layer.id += 1;
 
         Ok((layer_id, fingerprint))
@@ -371,7 +383,7 @@ impl Storage {
         // We must now bring `self.next_layer` in a good state.
         self.next_layer.id = layer_id + 1;
         self.next_layer.changes.clear();
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
+        self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
 
         Ok(())
     }
-- 
2.43.0


From feb31cae97b12b7d9885ee3b68fd043f26dbf2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:27 +0000
Subject: [PATCH 02/58] fix: reopen existing state databases

Opening a database that already holds layers failed on the duplicate initial
layer, resumed from the wrong layer and kept incomplete layers around.
---
 crates/host/state/src/global_state.rs |  3 ++-
 crates/host/state/src/storage.rs      | 23 ++++++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index fbeb9c4..e4d3f3f 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -51,7 +51,8 @@ impl GlobalState {
         tracing::debug!("Initializing genesis configuration.");
 
         let genesis_fingerprint = self.storage().genesis_fingerprint().await?;
-        if genesis_fingerprint.is_some() {
+        if let Some(genesis_state) = genesis_fingerprint {
+            self.genesis_state = genesis_state;
             tracing::debug!("The database is not empty. Genesis is assumed to have been configured already. Skipping.");
             return Ok(());
         }
diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 5ebab0f..49c95d8 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -66,23 +66,28 @@ impl Storage {
     async fn new_with_pool(sqlite: Pool<Sqlite>) -> Result<Self> {
         sqlx::query(SQL_SCHEMA).execute(&sqlite).await?;
 
-        let next_layer_id = max_layer_id(&sqlite).await?;
-
-        let storage = Self {
+        let mut storage = Self {
             sqlite,
             dirty_changes: HashMap::new(),
             next_layer: NextLayer {
-                id: next_layer_id.unwrap_or(INITIAL_LAYER_ID + 1),
+                id: INITIAL_LAYER_ID + 1,
                 changes: HashMap::new(),
                 changes_xor_fingerprint: INITIAL_LAYER_STATE,
             },
         };
-        storage
-            .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
-            .await?;
 
         storage.delete_bad_layers().await?;
 
+        // The database might already contain some layers, in which case we must
+        // resume from the last one.
+        if let Some(last_layer_id) = storage.last_layer_id().await? {
+            storage.next_layer.id = last_layer_id + 1;
+        } else {
+            storage
+                .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
+                .await?;
+        }
+
         Ok(storage)
     }
 
@@ -112,6 +117,10 @@ impl Storage {
         .await?
         .rows_affected();
 
+        sqlx::query(r#"DELETE FROM "layers" WHERE "complete" = 0"#)
+            .execute(&self.sqlite)
+            .await?;
+
         if count_rows > 0 {
             tracing::warn!(
                 affected_rows = count_rows,
-- 
2.43.0


From 3526f75106fcd4635706bc98f6f5a80510b1ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:27 +0000
Subject: [PATCH 03/58] fix: never read values of incomplete layers

The values/layers join had no condition that ties a value to its own layer.
---
 crates/host/state/src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 49c95d8..0281a23 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -194,6 +194,8 @@ impl Storage {
                 SELECT "value"
                 FROM "values"
                 INNER JOIN "layers" ON
+                    "layers"."id" = "layer_id"
+                    AND
                     "complete" = 1
                     AND
                     "key_hash" = ?1
@@ -215,6 +217,8 @@ impl Storage {
             SELECT "value"
             FROM "values"
             INNER JOIN "layers" ON
+                "layers"."id" = "layer_id"
+                AND
                 "layer_id" <= ?1
                 AND
                 "complete" = 1
-- 
2.43.0


From a77b06c726a873aca347c810ad8e20ced0f64421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:07 +0000
Subject: [PATCH 04/58] fix: write each layer in a single SQL transaction

A failure in the middle of a commit lost the saved changes and left a partial
layer behind; besides, the concurrent inserts raced with each other.
---
 crates/host/state/src/storage.rs | 86 +++++++++++++++++---------------
 1 file changed, 45 insertions(+), 41 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 0281a23..4a7933b 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -11,6 +11,7 @@
 #![deny(dead_code)]
 #![deny(unreachable_code)]
 
+use sqlx::sqlite::SqliteExecutor;
 use sqlx::{Pool, Sqlite, SqlitePool};
 
 use std::collections::HashMap;
@@ -83,9 +84,7 @@ impl Storage {
         if let Some(last_layer_id) = storage.last_layer_id().await? {
             storage.next_layer.id = last_layer_id + 1;
         } else {
-            storage
-                .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
-                .await?;
+            insert_layer(&storage.sqlite, INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true).await?;
         }
 
         Ok(storage)
@@ -281,30 +280,27 @@ impl Storage {
         }
 
         let layer_id = self.next_layer.id;
-        let layer_changes = std::mem::take(&mut self.next_layer.changes);
         let mut fingerprint = self.layer_fingerprint(layer_id - 1, true).await?;
         xor_fingerprint(&mut fingerprint, &self.next_layer.changes_xor_fingerprint);
-        self.insert_layer(layer_id, fingerprint, false).await?;
-
-        // Note: SQLx 0.5 doesn't support bulk inserts. So, we must resort to
-        // "futures" magic instead.
-        let mut inserts = Vec::with_capacity(layer_changes.len());
-        for (key_hash, value) in layer_changes {
-            inserts.push(
-                sqlx::query(
-                    r#"
-                    INSERT INTO "values" ("key_hash", "value", "layer_id")
-                    VALUES (?1, ?2, ?3)
-                    "#,
-                )
-                .bind(key_hash.0.to_vec())
-                .bind(value)
-                .bind(layer_id)
-                .execute(&self.sqlite),
-            );
-        }
 
-        futures::future::try_join_all(inserts).await?;
+        // Either the whole layer is written or nothing is. The saved changes
+        // stay in memory until then.
+        let mut tx = self.sqlite.begin().await?;
+        insert_layer(&mut tx, layer_id, fingerprint, false).await?;
+
+        for (key_hash, value) in self.next_layer.changes.iter() {
+            sqlx::query(
+                r#"
+                INSERT INTO "values" ("key_hash", "value", "layer_id")
+                VALUES (?1, ?2, ?3)
+                "#,
+            )
+            .bind(&key_hash.0[..])
+            .bind(&value[..])
+            .bind(layer_id)
+            .execute(&mut tx)
+            .await?;
+        }
 
         sqlx::query(
             r#"
@@ -315,10 +311,13 @@ impl Storage {
         )
         .bind(&fingerprint.0[..])
         .bind(layer_id)
-        .execute(&self.sqlite)
+        .execute(&mut tx)
         .await?;
 
+        tx.commit().await?;
+
         // Reset layer-specific information to default values.
+        self.next_layer.changes.clear();
         self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
         self.next_layer.id += 1;
 
@@ -344,22 +343,6 @@ impl Storage {
         }
     }
 
-    /// Creates a new [`State`]-ed layer with the given `id`.
-    async fn insert_layer(&self, id: i64, fingerprint: State, complete: bool) -> Result<()> {
-        sqlx::query(
-            r#"
-            INSERT INTO "layers" ("id", "fingerprint", "complete")
-            VALUES (?1, ?2, ?3)
-            "#,
-        )
-        .bind(id)
-        .bind(&fingerprint.0[..])
-        .bind(if complete { 1 } else { 0 })
-        .execute(&self.sqlite)
-        .await?;
-        Ok(())
-    }
-
     /// Queries the current [`State`] value of `layer_id`.
     async fn layer_fingerprint(&self, layer_id: i64, complete: bool) -> Result<State> {
         let bytes: (Vec<u8>,) = sqlx::query_as(
@@ -411,6 +394,27 @@ impl Storage {
     }
 }
 
+/// Creates a new [`State`]-ed layer with the given `id`.
+async fn insert_layer(
+    executor: impl SqliteExecutor<'_>,
+    id: i64,
+    fingerprint: State,
+    complete: bool,
+) -> Result<()> {
+    sqlx::query(
+        r#"
+        INSERT INTO "layers" ("id", "fingerprint", "complete")
+        VALUES (?1, ?2, ?3)
+        "#,
+    )
+    .bind(id)
+    .bind(&fingerprint.0[..])
+    .bind(if complete { 1 } else { 0 })
+    .execute(executor)
+    .await?;
+    Ok(())
+}
+
 async fn max_layer_id(pool: &SqlitePool) -> Result<Option<i64>> {
     let max_layer_id: Option<(i64,)> = sqlx::query_as(
         r#"
-- 
2.43.0


From c5a2ba8f28c0913d9f8ea9064bf24eaf8e5e7235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:07 +0000
Subject: [PATCH 05/58] fix: report invalid layers instead of poisoning the
 state lock

Rewinding to (or reading at) a layer that was never committed panicked while
the global state lock was held, which made the whole state unusable.
---
 crates/host/state/src/error.rs        |  7 +++++++
 crates/host/state/src/global_state.rs |  9 +++------
 crates/host/state/src/storage.rs      | 20 ++++++++++++--------
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/crates/host/state/src/error.rs b/crates/host/state/src/error.rs
index f334d67..52c2cbb 100644
--- a/crates/host/state/src/error.rs
+++ b/crates/host/state/src/error.rs
@@ -26,6 +26,13 @@ pub enum StorageError {
         key_hash: State,
     },
 
+    /// The given layer was never committed.
+    #[error("Invalid layer: {layer_id}")]
+    InvalidLayer {
+        /// The invalid layer ID.
+        layer_id: i64,
+    },
+
     /// A SQLite error happened.
     #[error("SQLite error.")]
     Sqlite(#[from] sqlx::Error),
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index e4d3f3f..74b5c07 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -141,14 +141,11 @@ impl GlobalState {
     /// after and excluding `layer_id` from the SQLite store. Persisted data is
     /// left untouched. It returns a [`StorageError::DirtyChanges`] in case
     /// there's any dirty changes, i.e. you must call [`GlobalState::rollback`]
-    /// beforehand.
-    ///
-    /// # Panics
-    ///
-    /// Panics if `layer_id` is invalid.
+    /// beforehand, and a [`StorageError::InvalidLayer`] in case `layer_id` is
+    /// invalid.
     pub async fn rewind(&mut self, layer_id: Layer) -> Result<()> {
         self.storage()
-            .rewind(layer_id.0.try_into().unwrap())
+            .rewind(layer_id.0.try_into().unwrap_or(i64::MAX))
             .await?;
         Ok(())
     }
diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 4a7933b..d70a503 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -141,8 +141,12 @@ impl Storage {
         Ok((layer_id, fingerprint))
     }
 
-    fn assert_layer_id_is_complete(&self, layer_id: i64) {
-        assert!(layer_id < self.next_layer.id);
+    fn ensure_layer_id_is_complete(&self, layer_id: i64) -> Result<()> {
+        if (INITIAL_LAYER_ID..self.next_layer.id).contains(&layer_id) {
+            Ok(())
+        } else {
+            Err(StorageError::InvalidLayer { layer_id })
+        }
     }
 
     pub fn has_uncommitted_changes(&self) -> bool {
@@ -152,9 +156,9 @@ impl Storage {
     /// Fetches the value associated with the Blake3 hash of `key`. See
     /// [`Storage::get_by_hash`] for more information.
     ///
-    /// # Panics
+    /// # Errors
     ///
-    /// Panics if `layer_id` is invalid.
+    /// Fails if `layer_id` is invalid.
     pub async fn get(&self, key: &[u8], layer_id: Option<i64>) -> Result<Option<Vec<u8>>> {
         let hash = Blake3Hasher::hash(key);
         self.get_by_hash(&State(hash), layer_id).await
@@ -164,16 +168,16 @@ impl Storage {
     /// is `None`, the most recent value will be returned; otherwise, only the
     /// values present at the time of `layer` would be considered.
     ///
-    /// # Panics
+    /// # Errors
     ///
-    /// Panics if `layer_id` is invalid.
+    /// Fails if `layer_id` is invalid.
     pub async fn get_by_hash(
         &self,
         hash: &State,
         layer_id: Option<i64>,
     ) -> Result<Option<Vec<u8>>> {
         if let Some(layer_id) = layer_id {
-            self.assert_layer_id_is_complete(layer_id);
+            self.ensure_layer_id_is_complete(layer_id)?;
             self.get_by_hash_historical(hash, layer_id).await
         } else if let Some(value) = self.dirty_changes.get(hash) {
             Ok(Some(value.clone()))
@@ -360,7 +364,7 @@ impl Storage {
     }
 
     pub async fn rewind(&mut self, layer_id: i64) -> Result<()> {
-        self.assert_layer_id_is_complete(layer_id);
+        self.ensure_layer_id_is_complete(layer_id)?;
 
         if !self.dirty_changes.is_empty() {
             return Err(StorageError::DirtyChanges);
-- 
2.43.0


From c7f39be095611e7a6f9068991b7af964a8a8824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:29 +0000
Subject: [PATCH 06/58] fix: apply the historical query parameter to storage
 variables

---
 crates/host/state/src/account_storage.rs | 2 +-
 crates/host/state/src/global_state.rs    | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/host/state/src/account_storage.rs b/crates/host/state/src/account_storage.rs
index e310a74..9658282 100644
--- a/crates/host/state/src/account_storage.rs
+++ b/crates/host/state/src/account_storage.rs
@@ -133,7 +133,7 @@ impl AccountStorage {
             let bytes: [u8; SEGMENT_SIZE] = self
                 .gs
                 .storage()
-                .get(segment.key.as_bytes(), None)
+                .get(segment.key.as_bytes(), self.gs.layer_query_id())
                 .await?
                 .unwrap_or(vec![0; SEGMENT_SIZE])
                 .try_into()
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index 74b5c07..906c200 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -104,6 +104,10 @@ impl GlobalState {
         &mut self.layer_query_parameter
     }
 
+    pub(crate) fn layer_query_id(&self) -> Option<i64> {
+        self.layer_query_parameter.map(|layer| layer.0 as i64)
+    }
+
     // VERSIONING
     // ----------
 
@@ -171,10 +175,7 @@ impl GlobalState {
     {
         let bytes = self
             .storage()
-            .get(
-                key.as_bytes(),
-                self.layer_query_parameter.map(|layer| layer.0 as i64),
-            )
+            .get(key.as_bytes(), self.layer_query_id())
             .await?
             .ok_or(StorageError::NotFound {
                 key_hash: State(Blake3Hasher::hash(key.as_bytes())),
-- 
2.43.0


From 9d917de4776ea4c473d2beebd7e18a859b73016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:33 +0000
Subject: [PATCH 07/58] fix: discard the changes of failed transactions

A call or spawn that failed after writing to its storage left its changes (or
the account it was creating) in memory, where the next successful transaction
committed them. Successful deploys, transfers and account creations are now
saved right away, so that discarding never touches them.
---
 crates/host/runtime/src/runtime/runtime.rs | 49 ++++++++++++++++++----
 crates/host/state/src/global_state.rs      |  4 +-
 crates/host/state/src/storage.rs           |  2 +-
 3 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 53a8f9e..b23c828 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -2,6 +2,7 @@ use log::info;
 use tokio::runtime::Runtime as TokioRuntime;
 use wasmer::{Instance, Module, WasmPtr, WasmTypeList};
 
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use std::sync::Arc;
 
 use svm_codec::Codec;
@@ -81,8 +82,27 @@ impl Runtime {
     }
 
     fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt {
-        let result = self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, out));
-        result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
+        let result = catch_unwind(AssertUnwindSafe(|| {
+            self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, out))
+        }));
+
+        // A failed transaction must not leave anything behind.
+        if !matches!(result, Ok(Ok(_))) {
+            self.tokio_rt.block_on(self.gs.rollback()).unwrap();
+        }
+
+        match result {
+            Ok(result) => {
+                result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
+            }
+            Err(panic) => resume_unwind(panic),
+        }
+    }
+
+    /// Saves all dirty changes, so that a later failing transaction won't discard them.
+    fn save_changes(&self) {
+        let mut gs = self.gs.clone();
+        self.tokio_rt.block_on(gs.checkpoint()).unwrap();
     }
 
     fn exec<Args, Rets, F, R>(&self, call: &Call, f: F) -> Result<R>
@@ -501,6 +521,7 @@ impl Runtime {
         self.tokio_rt
             .block_on(account.set_balance(new_balance))
             .unwrap();
+        self.save_changes();
         Ok(())
     }
 
@@ -536,6 +557,20 @@ impl Runtime {
         balance: u64,
         counter: u128,
     ) -> Result<()> {
+        self.create_dirty_account(account_addr, template_addr, name, balance, counter);
+        self.save_changes();
+
+        Ok(())
+    }
+
+    fn create_dirty_account(
+        &self,
+        account_addr: &Address,
+        template_addr: TemplateAddr,
+        name: String,
+        balance: u64,
+        counter: u128,
+    ) {
         self.tokio_rt
             .block_on(AccountStorage::create(
                 self.gs.clone(),
@@ -546,8 +581,6 @@ impl Runtime {
                 counter,
             ))
             .unwrap();
-
-        Ok(())
     }
 
     /// Validates syntactically a binary `Deploy Template` message prior to executing it.
@@ -612,6 +645,7 @@ impl Runtime {
                 template.sections().clone(),
             ))
             .unwrap();
+        self.save_changes();
 
         DeployReceipt::new(addr, gas_used)
     }
@@ -651,14 +685,14 @@ impl Runtime {
         let account = spawn.account();
         let target = compute_account_addr(&spawn);
 
-        self.create_account(
+        // The account is only saved if its constructor succeeds.
+        self.create_dirty_account(
             &target,
             template_addr.clone(),
             account.name().to_string(),
             0,
             0,
-        )
-        .unwrap();
+        );
 
         self.call_ctor(&spawn, target, envelope, context, gas_left)
     }
@@ -789,6 +823,7 @@ impl Runtime {
         self.tokio_rt
             .block_on(dst_account.set_balance(dst_bal.checked_add(amount).unwrap()))
             .unwrap();
+        self.save_changes();
     }
 }
 
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index 906c200..3316cc0 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -154,8 +154,8 @@ impl GlobalState {
         Ok(())
     }
 
-    /// Returns [`true`] iff there are any dirty changes in memory; [`false`]
-    /// otherwise.
+    /// Returns [`true`] iff there are any dirty or saved changes in memory that
+    /// haven't been committed yet; [`false`] otherwise.
     pub fn has_uncommitted_changes(&self) -> bool {
         self.storage().has_uncommitted_changes()
     }
diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index d70a503..59e72f6 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -150,7 +150,7 @@ impl Storage {
     }
 
     pub fn has_uncommitted_changes(&self) -> bool {
-        !self.dirty_changes.is_empty()
+        !self.dirty_changes.is_empty() || !self.next_layer.changes.is_empty()
     }
 
     /// Fetches the value associated with the Blake3 hash of `key`. See
-- 
2.43.0


From 7e3b50db385f78af8c8ccc31cdb2f706bde5ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:33 +0000
Subject: [PATCH 08/58] fix: transfers neither create nor destroy coins

Sending coins to oneself increased the balance, and a transfer that overflowed
the destination's balance had already debited the source.
---
 crates/host/runtime/src/runtime/runtime.rs  |  6 +++++-
 crates/host/runtime/src/vmcalls/transfer.rs | 11 +++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index b23c828..5ffd183 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -817,11 +817,15 @@ impl Runtime {
         if src_bal < amount {
             panic!("Not enough balance to execute transfer");
         }
+        if src_addr == dst_addr {
+            return;
+        }
+        let new_dst_bal = dst_bal.checked_add(amount).unwrap();
         self.tokio_rt
             .block_on(src_account.set_balance(src_bal.checked_sub(amount).unwrap()))
             .unwrap();
         self.tokio_rt
-            .block_on(dst_account.set_balance(dst_bal.checked_add(amount).unwrap()))
+            .block_on(dst_account.set_balance(new_dst_bal))
             .unwrap();
         self.save_changes();
     }
diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index 2594f4a..5a66dcc 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -44,10 +44,13 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
         panic!("Not enough balance to execute transfer")
     }
 
-    rt.block_on(src_account.set_balance(src_balance - amount))
-        .unwrap();
-    rt.block_on(dst_account.set_balance(dst_balance.checked_add(amount).unwrap()))
-        .unwrap();
+    // Sending coins to oneself is a no-op.
+    if src_addr != dst_addr {
+        rt.block_on(src_account.set_balance(src_balance - amount))
+            .unwrap();
+        rt.block_on(dst_account.set_balance(dst_balance.checked_add(amount).unwrap()))
+            .unwrap();
+    }
 
     borrow.touch_account(src_addr);
     borrow.touch_account(dst_addr);
-- 
2.43.0


From 65327f90c57d7fd4e272a0671c1dc45287804287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:14 +0000
Subject: [PATCH 09/58] fix: let svm_verify run to completion

verify looked up svm_verify with the wrong signature and tried to commit with
storage access denied, so it could never succeed.
---
 crates/host/runtime/src/runtime/runtime.rs | 30 +++++++++++++++++-----
 crates/host/state/src/global_state.rs      |  7 +++++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 5ffd183..8e03152 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -81,9 +81,22 @@ impl Runtime {
         svm_types::into_spawn_receipt(receipt, &target)
     }
 
-    fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt {
+    fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt
+    where
+        Args: WasmTypeList,
+        Rets: WasmTypeList,
+    {
         let result = catch_unwind(AssertUnwindSafe(|| {
-            self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, out))
+            self.exec::<Args, Rets, _, _>(&call, |env, out| {
+                let returndata = take_returndata(env);
+                let new_state = match call.access_mode {
+                    AccessMode::FullAccess => commit_changes(env).unwrap(),
+                    // There's nothing to commit.
+                    _ => self.tokio_rt.block_on(self.gs.current_state()).unwrap(),
+                };
+
+                outcome_to_receipt(env, out, returndata, new_state)
+            })
         }));
 
         // A failed transaction must not leave anything behind.
@@ -725,7 +738,7 @@ impl Runtime {
         );
 
         // TODO: override the `call.gas_limit` with `VERIFY_MAX_GAS`
-        self.exec_call::<(), ()>(&call)
+        self.exec_call::<(), u32>(&call)
     }
 
     /// Executes a [`Transaction`](svm_types::Transaction) and returns its output [`CallReceipt`].
@@ -905,13 +918,18 @@ fn commit_changes(env: &FuncEnv) -> svm_state::StorageResult<State> {
     Ok(state)
 }
 
-fn outcome_to_receipt(env: &FuncEnv, mut out: Outcome<Box<[wasmer::Val]>>) -> CallReceipt {
+fn outcome_to_receipt(
+    env: &FuncEnv,
+    mut out: Outcome<Box<[wasmer::Val]>>,
+    returndata: Vec<u8>,
+    new_state: State,
+) -> CallReceipt {
     CallReceipt {
         version: 0,
         success: true,
         error: None,
-        returndata: Some(take_returndata(env)),
-        new_state: Some(commit_changes(&env).unwrap()),
+        returndata: Some(returndata),
+        new_state: Some(new_state),
         gas_used: out.gas_used(),
         touched_accounts: env.borrow().touched_accounts(),
         logs: out.take_logs(),
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index 3316cc0..25e7343 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -134,6 +134,13 @@ impl GlobalState {
         Ok((Layer(layer_id.try_into().unwrap()), state))
     }
 
+    /// Returns the [`State`] of the last ever committed layer, whichever that
+    /// is (i.e. genesis included).
+    pub async fn current_state(&self) -> Result<State> {
+        let (_layer_id, state) = self.storage().last_layer().await?;
+        Ok(state)
+    }
+
     /// Erases all dirty changes from memory. Persisted and saved data are left
     /// untouched.
     pub async fn rollback(&mut self) -> Result<()> {
-- 
2.43.0


From 2cf6df234a4b8f74f0181c5967c7bf2a94272915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:45 +0000
Subject: [PATCH 10/58] fix: report missing accounts and templates with a
 receipt

Calls to unknown accounts and spawns of unknown templates panicked.
---
 crates/host/runtime/src/runtime/runtime.rs | 41 ++++++++++++----------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 8e03152..0216f65 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -349,28 +349,30 @@ impl Runtime {
         &self,
         account_addr: &Address,
     ) -> std::result::Result<Template, RuntimeFailure> {
-        // TODO:
-        //
-        // * Return a `RuntimeFailure` when `account_addr` doesn't exist.
-        let account = self
-            .tokio_rt
-            .block_on(AccountStorage::load(self.gs.clone(), account_addr))
-            .unwrap();
+        let account = self.load_account(account_addr)?;
         let template_addr = self.tokio_rt.block_on(account.template_addr()).unwrap();
         self.load_template(&template_addr)
     }
 
+    fn load_account(&self, account_addr: &Address) -> Result<AccountStorage> {
+        self.tokio_rt
+            .block_on(AccountStorage::load(self.gs.clone(), account_addr))
+            .map_err(|_| RuntimeError::AccountNotFound(account_addr.clone()).into())
+    }
+
     fn load_template(
         &self,
         template_addr: &TemplateAddr,
     ) -> std::result::Result<Template, RuntimeFailure> {
         let template_storage = TemplateStorage::load(self.gs.clone(), &template_addr).unwrap();
-        let sections = self.tokio_rt.block_on(template_storage.sections()).unwrap();
+        let sections = self
+            .tokio_rt
+            .block_on(template_storage.sections())
+            .map_err(|_| RuntimeError::TemplateNotFound(template_addr.clone()))?;
         let template = Template::from_sections(sections);
 
         // TODO:
         //
-        // * Return a `RuntimeFailure` when `Template` doesn't exist.
         // * Fetch only the `Core Sections`.
         // * Add `non_core` sections to be fetched as a param (optional)
         Ok(template)
@@ -488,19 +490,16 @@ impl Runtime {
         func_name: &'a str,
         func_input: &'a [u8],
         gas_left: GasTank,
-    ) -> Call<'a> {
+    ) -> Result<Call<'a>> {
         let target = tx.target();
-        let account_storage = self
-            .tokio_rt
-            .block_on(AccountStorage::load(self.gs.clone(), target))
-            .unwrap();
+        let account_storage = self.load_account(target)?;
 
         let template = self
             .tokio_rt
             .block_on(account_storage.template_addr())
             .unwrap();
 
-        Call {
+        Ok(Call {
             func_name,
             func_input,
             target: target.clone(),
@@ -511,7 +510,7 @@ impl Runtime {
             within_spawn: false,
             envelope,
             context,
-        }
+        })
     }
 
     /// Returns the [`State`] root hash and [`Layer`] of the last layer.
@@ -738,7 +737,10 @@ impl Runtime {
         );
 
         // TODO: override the `call.gas_limit` with `VERIFY_MAX_GAS`
-        self.exec_call::<(), u32>(&call)
+        match call {
+            Ok(call) => self.exec_call::<(), u32>(&call),
+            Err(fail) => CallReceipt::from_err(fail.err, fail.logs),
+        }
     }
 
     /// Executes a [`Transaction`](svm_types::Transaction) and returns its output [`CallReceipt`].
@@ -757,7 +759,10 @@ impl Runtime {
             GasTank::new(envelope.gas_limit()),
         );
 
-        self.exec_call::<(), ()>(&call)
+        match call {
+            Ok(call) => self.exec_call::<(), ()>(&call),
+            Err(fail) => CallReceipt::from_err(fail.err, fail.logs),
+        }
     }
 
     /// Moves the internal state of this [`Runtime`] back to the time of
-- 
2.43.0


From fe56a8188a5b978056f904df98a4cf0b1d563443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:16 +0000
Subject: [PATCH 11/58] fix: report constructors that aren't exported with a
 receipt

---
 crates/host/runtime/src/runtime/runtime.rs | 23 ++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 0216f65..1d77263 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -457,11 +457,12 @@ impl Runtime {
         &self,
         template_addr: &TemplateAddr,
         template: &Template,
+        target: &Address,
         func_name: &str,
         gas_left: GasTank,
-    ) -> GasTank {
+    ) -> Result<GasTank> {
         if gas_left.is_empty() {
-            return GasTank::Empty;
+            return Ok(GasTank::Empty);
         }
 
         let code_section = template.code_section();
@@ -471,11 +472,17 @@ impl Runtime {
 
         match gas_mode {
             GasMode::Fixed => {
-                let func_index = program.exports().get(func_name).unwrap();
+                let func_index = program.exports().get(func_name).ok_or_else(|| {
+                    RuntimeFailure::from(RuntimeError::FuncNotFound {
+                        target: target.clone(),
+                        template: template_addr.clone(),
+                        func: func_name.to_string(),
+                    })
+                })?;
                 let func_price = self.template_price.price_of(&template_addr, &program);
 
                 let price = func_price.get(func_index) as u64;
-                gas_left.consume(price)
+                Ok(gas_left.consume(price))
             }
             GasMode::Metering => unreachable!("Not supported yet... (TODO)"),
         }
@@ -688,14 +695,18 @@ impl Runtime {
         }
 
         let gas_left = self.check_gas_for_payload(envelope, message, gas_left);
-        let gas_left = self.check_gas_for_func(&template_addr, &template, ctor, gas_left);
+        let target = compute_account_addr(&spawn);
+        let gas_left =
+            match self.check_gas_for_func(&template_addr, &template, &target, ctor, gas_left) {
+                Ok(gas_left) => gas_left,
+                Err(fail) => return SpawnReceipt::from_err(fail.err, fail.logs),
+            };
 
         if gas_left.is_empty() {
             return SpawnReceipt::new_oog(Vec::new());
         }
 
         let account = spawn.account();
-        let target = compute_account_addr(&spawn);
 
         // The account is only saved if its constructor succeeds.
         self.create_dirty_account(
-- 
2.43.0


From c4b06dd19b9fc7939b5e257e3c5738486a1e8e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:22 +0000
Subject: [PATCH 12/58] fix: reject float-to-integer conversions

The validation of smWasm let through the opcodes which convert or reinterpret
floats into integers, though they are floating-point operations.
---
 crates/host/program/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/host/program/src/lib.rs b/crates/host/program/src/lib.rs
index 342b412..38333da 100644
--- a/crates/host/program/src/lib.rs
+++ b/crates/host/program/src/lib.rs
@@ -91,7 +91,17 @@ fn validate_opcode(op: &Op) -> Result<(), ProgramError> {
         | Instruction::F64ConvertUI64
         | Instruction::F64PromoteF32
         | Instruction::F32ReinterpretI32
-        | Instruction::F64ReinterpretI64 => Err(ProgramError::FloatsNotAllowed),
+        | Instruction::F64ReinterpretI64
+        | Instruction::I32TruncSF32
+        | Instruction::I32TruncUF32
+        | Instruction::I32TruncSF64
+        | Instruction::I32TruncUF64
+        | Instruction::I64TruncSF32
+        | Instruction::I64TruncUF32
+        | Instruction::I64TruncSF64
+        | Instruction::I64TruncUF64
+        | Instruction::I32ReinterpretF32
+        | Instruction::I64ReinterpretF64 => Err(ProgramError::FloatsNotAllowed),
         _ => Ok(()),
     }
 }
-- 
2.43.0


From fe6e1319256e6be7560c8b272c6d061deda59f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:22 +0000
Subject: [PATCH 13/58] fix: reject exports of imported or nonexistent
 functions

Validating a module which exports an imported function (or an index out of
range) as `svm_alloc` or `svm_verify` panicked.
---
 crates/host/program/src/program.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/host/program/src/program.rs b/crates/host/program/src/program.rs
index 5171e83..a558aa8 100644
--- a/crates/host/program/src/program.rs
+++ b/crates/host/program/src/program.rs
@@ -285,14 +285,13 @@ fn export_func_signature<'p>(
 ) -> Result<&'p pwasm::Type, ProgramError> {
     if let pwasm::Internal::Function(global) = entry.internal() {
         let global = *global as usize;
-        debug_assert!(global >= import_count);
 
-        let local = global - import_count;
-        let func = &module_functions[local];
-        let type_ref = func.type_ref() as usize;
-        let sig = &module_types[type_ref];
-
-        Ok(sig)
+        // Exporting an imported (or nonexistent) function isn't valid.
+        global
+            .checked_sub(import_count)
+            .and_then(|local| module_functions.get(local))
+            .and_then(|func| module_types.get(func.type_ref() as usize))
+            .ok_or_else(|| ProgramError::InvalidExportFunctionSignature(entry.field().to_string()))
     } else {
         Err(ProgramError::InvalidExportKind)
     }
-- 
2.43.0


From e7981fc1a040308243166e564a612f1a78083916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:22 +0000
Subject: [PATCH 14/58] fix: count imported functions against the limit of
 functions

---
 crates/host/program/src/program.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/host/program/src/program.rs b/crates/host/program/src/program.rs
index a558aa8..55f7885 100644
--- a/crates/host/program/src/program.rs
+++ b/crates/host/program/src/program.rs
@@ -60,7 +60,9 @@ impl Program {
         if validate_exports {
             module_validate_exports(&module)?;
         }
-        if count_functions_in_program(&program) > u16::MAX as u64 {
+        let function_count =
+            count_functions_in_program(&program) + program.imports().count() as u64;
+        if function_count > u16::MAX as u64 {
             return Err(ProgramError::FunctionIndexTooLarge);
         }
 
-- 
2.43.0


From e021823c6a9e318aac28dd69922ffaaa61cea96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:44 +0000
Subject: [PATCH 15/58] fix: prune all the unreachable blocks when pricing a
 function

Only the blocks without predecessors were pruned, so that pricing a function
with a chain of unreachable blocks panicked.
---
 crates/host/gas/src/graph/weight.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/host/gas/src/graph/weight.rs b/crates/host/gas/src/graph/weight.rs
index dd68b1c..b880e8f 100644
--- a/crates/host/gas/src/graph/weight.rs
+++ b/crates/host/gas/src/graph/weight.rs
@@ -54,13 +54,24 @@ fn prune_unreachable_nodes<L>(graph: &WeightedGraph<L>, start: L)
 where
     L: NodeLabel,
 {
-    graph
+    let mut unreachable: Vec<_> = graph
         .source_nodes()
-        .iter()
+        .into_iter()
         .filter(|node| node.label() != start)
-        .for_each(|source| {
-            graph.remove_node(source);
-        });
+        .collect();
+
+    // Removing a node may turn its successors into unreachable nodes too.
+    while let Some(source) = unreachable.pop() {
+        let successors = source.outgoing();
+
+        graph.remove_node(&source);
+
+        unreachable.extend(
+            successors
+                .into_iter()
+                .filter(|node| node.is_source() && node.label() != start),
+        );
+    }
 }
 
 fn construct_path<L>(graph: &WeightedGraph<L>, start: L, end: L) -> WeightedPath<L>
-- 
2.43.0


From f607a80844eb788f774054b578b826e9928d1587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:51 +0000
Subject: [PATCH 16/58] fix: rewind in a single SQL transaction

---
 crates/host/state/src/storage.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 59e72f6..3622e0e 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -370,6 +370,9 @@ impl Storage {
             return Err(StorageError::DirtyChanges);
         }
 
+        // Within a transaction, so that nothing is deleted if an error is
+        // reported (`sqlx` might step again a failed statement).
+        let mut tx = self.sqlite.begin().await?;
         sqlx::query(
             r#"
             DELETE FROM "layers"
@@ -377,8 +380,9 @@ impl Storage {
             "#,
         )
         .bind(layer_id)
-        .execute(&self.sqlite)
+        .execute(&mut tx)
         .await?;
+        tx.commit().await?;
 
         // We must now bring `self.next_layer` in a good state.
         self.next_layer.id = layer_id + 1;
-- 
2.43.0


From 86269c1904d2d0ee0738ee387346f5bbfc6e2ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:54 +0000
Subject: [PATCH 17/58] fix: reject templates whose code isn't valid Wasm

---
 crates/host/runtime/src/runtime/runtime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 1d77263..ec06271 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -7,7 +7,7 @@ use std::sync::Arc;
 
 use svm_codec::Codec;
 use svm_hash::{Blake3Hasher, Hasher};
-use svm_program::Program;
+use svm_program::{Program, ProgramError};
 use svm_state::{AccountStorage, GlobalState, TemplateStorage};
 use svm_types::{
     Address, BytesPrimitive, CallReceipt, Context, DeployReceipt, Envelope, Gas, GasMode, Layer,
@@ -612,6 +612,11 @@ impl Runtime {
         // There's no reason to also do it when spawning new `Account`
         // over already-validated [`Template`]s
         let program = Program::new(code, true)?;
+
+        // `Program` only parses the code. Pricing functions and running them requires it to be valid Wasm.
+        Module::validate(&crate::wasm_store::new_store(), code)
+            .map_err(|_| ProgramError::InvalidWasm)?;
+
         svm_gas::validate_wasm(&program, false)?;
 
         Ok(())
-- 
2.43.0


From 8cf114e0bebc0d7dfcb88c3bb4a5a1f0ccfc8699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:02 +0000
Subject: [PATCH 18/58] fix: don't price constructors that are imported
 functions

---
 crates/host/runtime/src/runtime/runtime.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index ec06271..164557f 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -472,13 +472,18 @@ impl Runtime {
 
         match gas_mode {
             GasMode::Fixed => {
-                let func_index = program.exports().get(func_name).ok_or_else(|| {
-                    RuntimeFailure::from(RuntimeError::FuncNotFound {
-                        target: target.clone(),
-                        template: template_addr.clone(),
-                        func: func_name.to_string(),
-                    })
-                })?;
+                // Exported imports (i.e. host functions) can't be constructors.
+                let func_index = program
+                    .exports()
+                    .get(func_name)
+                    .filter(|func_index| !program.is_imported(*func_index))
+                    .ok_or_else(|| {
+                        RuntimeFailure::from(RuntimeError::FuncNotFound {
+                            target: target.clone(),
+                            template: template_addr.clone(),
+                            func: func_name.to_string(),
+                        })
+                    })?;
                 let func_price = self.template_price.price_of(&template_addr, &program);
 
                 let price = func_price.get(func_index) as u64;
-- 
2.43.0


From 78acd84186f5f5711180e586ba8fe367e32185db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:10 +0000
Subject: [PATCH 19/58] fix: report templates that don't export a memory with a
 receipt

---
 crates/host/runtime/src/runtime/runtime.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 164557f..e8f61a2 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -164,7 +164,7 @@ impl Runtime {
         let module = self.compile_template(store, func_env, &template, call.gas_left)?;
         let instance = self.instantiate(func_env, &module, import_object)?;
 
-        set_memory(func_env, &instance);
+        set_memory(func_env, &instance)?;
 
         let func = self.func::<Args, Rets>(&instance, func_env, call.func_name)?;
 
@@ -891,11 +891,14 @@ fn read_memory(env: &FuncEnv, offset: usize, length: usize) -> Vec<u8> {
     cells.iter().map(|c| c.get()).collect()
 }
 
-fn set_memory(env: &FuncEnv, instance: &Instance) {
-    // TODO: raise when no exported memory exists
-    let memory = instance.exports.get_memory("memory").unwrap();
+fn set_memory(env: &FuncEnv, instance: &Instance) -> Result<()> {
+    let memory = instance
+        .exports
+        .get_memory("memory")
+        .map_err(|err| err::memory_not_found(env, err))?;
 
     env.borrow_mut().set_memory(memory.clone());
+    Ok(())
 }
 
 fn set_calldata(env: &FuncEnv, calldata: &[u8], wasm_ptr: WasmPtr<u8>) {
@@ -1002,6 +1005,15 @@ mod err {
         .into()
     }
 
+    pub fn memory_not_found(env: &FuncEnv, err: wasmer::ExportError) -> RuntimeFailure {
+        RuntimeError::InstantiationFailed {
+            target: env.target_addr.clone(),
+            template: env.template_addr.clone(),
+            msg: err.to_string(),
+        }
+        .into()
+    }
+
     pub fn func_not_ctor(template_addr: &TemplateAddr, func_name: &str) -> RuntimeFailure {
         RuntimeError::FuncNotCtor {
             template: template_addr.clone(),
-- 
2.43.0


From 9e310e8445b81af09fb6e46a360ba1b8e9798034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:16 +0000
Subject: [PATCH 20/58] fix: report a real cycle of calls, or none at all

---
 crates/host/gas/src/graph/sort.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/host/gas/src/graph/sort.rs b/crates/host/gas/src/graph/sort.rs
index 57e6d30..36a7f3b 100644
--- a/crates/host/gas/src/graph/sort.rs
+++ b/crates/host/gas/src/graph/sort.rs
@@ -96,16 +96,14 @@ where
         .collect::<Vec<_>>();
 
     // We order so that the tests will be deterministic.
-    // So we always pick the first node out of the sorted `candidates`
+    // So we always pick the first node out of the sorted `candidates` from
+    // which a cycle can be reached. (A candidate might only follow a cycle).
     candidates.sort_by_key(|node| node.label());
 
-    let start = candidates.first().unwrap();
-    let cycle = find_cycle(&start);
-
-    Some(cycle)
+    candidates.iter().find_map(find_cycle)
 }
 
-fn find_cycle<L, D>(start: &NodeRef<L, D>) -> Vec<L>
+fn find_cycle<L, D>(start: &NodeRef<L, D>) -> Option<Vec<L>>
 where
     L: NodeLabel,
     D: NodeData,
@@ -115,9 +113,14 @@ where
 
     let found = recur_find_cycle(start, &mut cycle, &mut visited);
 
-    debug_assert!(found);
+    if !found {
+        return None;
+    }
 
-    cycle
+    // Drops the path leading to the cycle (if any).
+    let last = cycle.last().copied();
+    let first = cycle.iter().position(|label| Some(*label) == last)?;
+    Some(cycle.split_off(first))
 }
 
 fn recur_find_cycle<L, D>(
-- 
2.43.0


From 77bed50f2b0ebfdb4df288af56a0b8a454af79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:20 +0000
Subject: [PATCH 21/58] fix: don't free a receipt twice when unwrapping a
 result

---
 crates/host/runtime-ffi/src/result.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime-ffi/src/result.rs b/crates/host/runtime-ffi/src/result.rs
index 4795515..efc3b10 100644
--- a/crates/host/runtime-ffi/src/result.rs
+++ b/crates/host/runtime-ffi/src/result.rs
@@ -69,8 +69,10 @@ impl svm_result_t {
         if self.error.is_null() && self.receipt.is_null() {
             None
         } else if self.error.is_null() {
+            // The returned [`Vec`] takes ownership of the receipt.
+            let this = std::mem::ManuallyDrop::new(self);
             Some(unsafe {
-                Vec::from_raw_parts(self.receipt, self.buf_size as usize, self.buf_size as usize)
+                Vec::from_raw_parts(this.receipt, this.buf_size as usize, this.buf_size as usize)
             })
         } else {
             let err_bytes =
-- 
2.43.0


From feba3e71f81c0628eb0558392d3ab8aec7aa97e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:20 +0000
Subject: [PATCH 22/58] fix: creating a runtime works after a failed attempt

---
 crates/host/runtime-ffi/src/c_api.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index 0b95840..0662b02 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -65,11 +65,12 @@ pub unsafe extern "C" fn svm_runtime_create(
     path_len: u32,
 ) -> svm_result_t {
     catch_unwind_or_fail(|| {
-        let mut initialized = INITIALIZED.lock().unwrap();
-        if !*initialized {
+        // The lock must not be held while creating the runtime: a failure would
+        // poison it and no other runtime could ever be created.
+        let initialized = *INITIALIZED.lock().unwrap();
+        if !initialized {
             return svm_result_t::new_error(b"`svm_init` not called beforehand.");
         }
-        *initialized = true;
 
         let genesis = GenesisConfig::mainnet();
         let tokio_rt = TokioRuntime::new().unwrap();
-- 
2.43.0


From b3012f8e64100d460953d18893567269df06fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:20 +0000
Subject: [PATCH 23/58] fix: svm_get_account fills in the address

---
 crates/host/runtime-ffi/src/c_api.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index 0662b02..6c6700a 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -537,6 +537,7 @@ pub unsafe extern "C" fn svm_get_account(
         let account_addr = Address::new(std::slice::from_raw_parts(account_addr, Address::N));
         let account_data = runtime.get_account(&account_addr).unwrap();
 
+        (*account).address.clone_from_slice(account_addr.as_slice());
         (*account).balance = account_data.0;
         (*account).counter_upper_bits = (account_data.1 >> 64) as u64;
         (*account).counter_lower_bits = account_data.1 as u64;
-- 
2.43.0


From c086099433005a8ac72f93bb73d88d09fe2ef2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:20 +0000
Subject: [PATCH 24/58] fix: release the runtimes that are destroyed

---
 crates/host/runtime-ffi/src/resource_tracker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/host/runtime-ffi/src/resource_tracker.rs b/crates/host/runtime-ffi/src/resource_tracker.rs
index 491e022..77fb6e5 100644
--- a/crates/host/runtime-ffi/src/resource_tracker.rs
+++ b/crates/host/runtime-ffi/src/resource_tracker.rs
@@ -39,6 +39,7 @@ impl<T> ResourceTracker<T> {
         let found = self.pointers.lock().unwrap().remove(&(ptr as usize));
 
         if found {
+            drop(unsafe { Box::<T>::from_raw(ptr.cast()) });
             Some(())
         } else {
             None
-- 
2.43.0


From 214d42118ac86836d17073e3c21046832b7d0457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:47 +0000
Subject: [PATCH 25/58] fix: encode the accounts a transaction touched in a
 fixed order

---
 crates/host/codec/src/api/json/receipt.rs         | 15 ++++++++++++---
 crates/host/codec/src/receipt/touched_accounts.rs |  8 ++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/host/codec/src/api/json/receipt.rs b/crates/host/codec/src/api/json/receipt.rs
index 720968b..f00a8a2 100644
--- a/crates/host/codec/src/api/json/receipt.rs
+++ b/crates/host/codec/src/api/json/receipt.rs
@@ -1,7 +1,9 @@
 use serde_json::{json, Value};
 
+use std::collections::HashSet;
+
 use svm_types::RuntimeError;
-use svm_types::{BytesPrimitive, CallReceipt, DeployReceipt, Receipt, ReceiptLog, SpawnReceipt};
+use svm_types::{Address, BytesPrimitive, CallReceipt, DeployReceipt, Receipt, ReceiptLog, SpawnReceipt};
 
 use crate::api::json::serde_types::{AddressWrapper, HexBlob, TemplateAddrWrapper};
 use crate::api::json::{self, get_field, parse_json, JsonError};
@@ -164,6 +166,13 @@ fn decode_deploy(receipt: &DeployReceipt, ty: &'static str) -> Value {
     })
 }
 
+/// The same accounts are always listed in the same order.
+fn touched_accounts_to_json(touched_accounts: &HashSet<Address>) -> Vec<AddressWrapper> {
+    let mut addrs: Vec<Address> = touched_accounts.iter().copied().collect();
+    addrs.sort_unstable_by(|a, b| a.as_slice().cmp(b.as_slice()));
+    addrs.into_iter().map(AddressWrapper).collect()
+}
+
 fn decode_spawn(receipt: &SpawnReceipt, ty: &'static str) -> Value {
     debug_assert!(receipt.success);
     debug_assert!(receipt.error.is_none());
@@ -185,7 +194,7 @@ fn decode_spawn(receipt: &SpawnReceipt, ty: &'static str) -> Value {
         "state": HexBlob(init_state.as_ref().unwrap().as_slice()),
         "returndata": HexBlob(returndata.as_ref().unwrap()),
         "gas_used": json::gas_to_json(&gas_used),
-        "touched_accounts": touched_accounts.into_iter().map(|addr| AddressWrapper(*addr)).collect::<Vec<AddressWrapper>>(),
+        "touched_accounts": touched_accounts_to_json(touched_accounts),
         "logs": json::logs_to_json(&logs),
     })
 }
@@ -209,7 +218,7 @@ fn decode_call(receipt: &CallReceipt, ty: &'static str) -> Value {
         "new_state": HexBlob(new_state.as_ref().unwrap().as_slice()),
         "returndata": HexBlob(returndata.as_ref().unwrap()),
         "gas_used": json::gas_to_json(&gas_used),
-        "touched_accounts": touched_accounts.into_iter().map(|addr| AddressWrapper(*addr)).collect::<Vec<AddressWrapper>>(),
+        "touched_accounts": touched_accounts_to_json(touched_accounts),
         "logs": json::logs_to_json(&logs),
     })
 }
diff --git a/crates/host/codec/src/receipt/touched_accounts.rs b/crates/host/codec/src/receipt/touched_accounts.rs
index 7d5e4cc..21b9fef 100644
--- a/crates/host/codec/src/receipt/touched_accounts.rs
+++ b/crates/host/codec/src/receipt/touched_accounts.rs
@@ -10,8 +10,12 @@ impl Codec for HashSet<Address> {
     fn encode(&self, w: &mut impl WriteExt) {
         u16::try_from(self.len()).unwrap().encode(w);
 
-        for addr in self.iter() {
-            w.write_bytes(addr.as_slice());
+        // The same accounts are always encoded in the same order.
+        let mut addrs: Vec<_> = self.iter().map(|addr| addr.as_slice()).collect();
+        addrs.sort_unstable();
+
+        for addr in addrs {
+            w.write_bytes(addr);
         }
     }
 
-- 
2.43.0


From f2c60427a5a072f40fb44607af93f683230f5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:18 +0000
Subject: [PATCH 26/58] fix: release the Wasm instances of executed
 transactions

---
 crates/host/runtime/src/func_env.rs        | 10 ++++++++++
 crates/host/runtime/src/runtime/runtime.rs | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/crates/host/runtime/src/func_env.rs b/crates/host/runtime/src/func_env.rs
index 4a7fb0b..5d69bbf 100644
--- a/crates/host/runtime/src/func_env.rs
+++ b/crates/host/runtime/src/func_env.rs
@@ -91,6 +91,16 @@ impl FuncEnv {
             .expect("Attempted write but RwLock is poisoned")
     }
 
+    /// Forgets the memory of the instance. The instance keeps its [`FuncEnv`]
+    /// alive, so it would never be released if it kept its own memory.
+    pub(crate) fn release_memory(&self) {
+        let mut inner = match self.inner.write() {
+            Ok(inner) => inner,
+            Err(poisoned) => poisoned.into_inner(),
+        };
+        inner.memory = None;
+    }
+
     /// Sets the [`AccessMode`] and overrides the existing value.
     pub fn set_access_mode(&self, mode: AccessMode) {
         let mut borrow = self.borrow_mut();
diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index e8f61a2..2334235 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -139,6 +139,7 @@ impl Runtime {
             call.target.clone(),
             call.access_mode,
         );
+        let _release = ReleaseMemory(env.clone());
 
         let store = crate::wasm_store::new_store();
         let import_object = self.create_import_object(&store, &mut env);
@@ -891,6 +892,15 @@ fn read_memory(env: &FuncEnv, offset: usize, length: usize) -> Vec<u8> {
     cells.iter().map(|c| c.get()).collect()
 }
 
+/// Breaks the cycle between an instance and its [`FuncEnv`] once it goes out of scope.
+struct ReleaseMemory(FuncEnv);
+
+impl Drop for ReleaseMemory {
+    fn drop(&mut self) {
+        self.0.release_memory();
+    }
+}
+
 fn set_memory(env: &FuncEnv, instance: &Instance) -> Result<()> {
     let memory = instance
         .exports
-- 
2.43.0


From 9b5398577c6be3a3c7b279bec6f2228c5b5b625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 27/58] fix: report malformed receipts instead of panicking

---
 crates/host/codec/src/receipt/call.rs   |   6 +-
 crates/host/codec/src/receipt/deploy.rs |   6 +-
 crates/host/codec/src/receipt/error.rs  | 128 ++++++++++++------------
 crates/host/codec/src/receipt/mod.rs    |  15 ++-
 crates/host/codec/src/receipt/spawn.rs  |   8 +-
 5 files changed, 82 insertions(+), 81 deletions(-)

diff --git a/crates/host/codec/src/receipt/call.rs b/crates/host/codec/src/receipt/call.rs
index 1582bea..d3556f8 100644
--- a/crates/host/codec/src/receipt/call.rs
+++ b/crates/host/codec/src/receipt/call.rs
@@ -59,11 +59,7 @@ impl Codec for CallReceipt {
     }
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, crate::receipt::TY_CALL);
-
-        let version = u16::decode(reader)?;
-        debug_assert_eq!(0, version);
+        let version = super::decode_head(reader, super::TY_CALL)?;
 
         let is_success = bool::decode(reader)?;
 
diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index 9c5e9fd..a8603ef 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -39,11 +39,7 @@ impl Codec for DeployReceipt {
     }
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, TY_DEPLOY);
-
-        let version = u16::decode(reader)?;
-        debug_assert_eq!(version, 0);
+        let version = super::decode_head(reader, TY_DEPLOY)?;
 
         let is_success = bool::decode(reader)?;
 
diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index e8ea82b..42a594d 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -162,22 +162,22 @@ impl Codec for RuntimeFailure {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> std::result::Result<Self, Self::Error> {
-        let ty = cursor.read_byte().unwrap();
-        let logs = <Vec<ReceiptLog>>::decode(cursor).unwrap();
+        let ty = cursor.read_byte()?;
+        let logs = <Vec<ReceiptLog>>::decode(cursor)?;
 
         let err = {
             match ty {
-                0 => oog(cursor),
-                1 => template_not_found(cursor),
-                2 => account_not_found(cursor),
-                3 => compilation_error(cursor),
-                4 => instantiation_error(cursor),
-                5 => func_not_found(cursor),
-                6 => func_failed(cursor),
-                7 => func_not_ctor(cursor),
-                8 => func_not_allowed(cursor),
-                9 => func_invalid_sig(cursor),
-                _ => unreachable!(),
+                0 => oog(cursor)?,
+                1 => template_not_found(cursor)?,
+                2 => account_not_found(cursor)?,
+                3 => compilation_error(cursor)?,
+                4 => instantiation_error(cursor)?,
+                5 => func_not_found(cursor)?,
+                6 => func_failed(cursor)?,
+                7 => func_not_ctor(cursor)?,
+                8 => func_not_allowed(cursor)?,
+                9 => func_invalid_sig(cursor)?,
+                _ => return Err(ParseError::BadByte(ty)),
             }
         };
 
@@ -212,104 +212,104 @@ fn encode_err_type(err: &RuntimeError, w: &mut impl WriteExt) {
     w.write_byte(ty);
 }
 
-fn oog(_cursor: &mut impl ReadExt) -> RuntimeError {
-    RuntimeError::OOG
+fn oog(_cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    Ok(RuntimeError::OOG)
 }
 
-fn template_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    RuntimeError::TemplateNotFound(template_addr)
+fn template_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    Ok(RuntimeError::TemplateNotFound(template_addr))
 }
 
-fn account_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let account = Address::decode(cursor).unwrap();
-    RuntimeError::AccountNotFound(account)
+fn account_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let account = Address::decode(cursor)?;
+    Ok(RuntimeError::AccountNotFound(account))
 }
 
-fn compilation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn compilation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::CompilationFailed {
+    Ok(RuntimeError::CompilationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn instantiation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn instantiation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::InstantiationFailed {
+    Ok(RuntimeError::InstantiationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn func_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotFound {
+    Ok(RuntimeError::FuncNotFound {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
-fn func_failed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_failed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncFailed {
+    Ok(RuntimeError::FuncFailed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_not_ctor(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_ctor(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotCtor {
+    Ok(RuntimeError::FuncNotCtor {
         template: template_addr,
         func,
-    }
+    })
 }
 
-fn func_not_allowed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_not_allowed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncNotAllowed {
+    Ok(RuntimeError::FuncNotAllowed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_invalid_sig(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_invalid_sig(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncInvalidSignature {
+    Ok(RuntimeError::FuncInvalidSignature {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
 #[cfg(test)]
diff --git a/crates/host/codec/src/receipt/mod.rs b/crates/host/codec/src/receipt/mod.rs
index d084b91..6d812ac 100644
--- a/crates/host/codec/src/receipt/mod.rs
+++ b/crates/host/codec/src/receipt/mod.rs
@@ -30,7 +30,7 @@ impl Codec for Receipt {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        Ok(match cursor.peek_byte().unwrap() {
+        Ok(match cursor.peek_byte().ok_or(ParseError::Eof)? {
             TY_DEPLOY => {
                 let receipt = DeployReceipt::decode(cursor)?;
                 Receipt::Deploy(receipt)
@@ -48,6 +48,19 @@ impl Codec for Receipt {
     }
 }
 
+/// Reads the type and the version which every receipt begins with.
+fn decode_head(reader: &mut impl ReadExt, expected_ty: u8) -> Result<u16, ParseError> {
+    let ty = reader.read_byte()?;
+    if ty != expected_ty {
+        return Err(ParseError::BadByte(ty));
+    }
+
+    match u16::decode(reader)? {
+        0 => Ok(0),
+        _ => Err(ParseError::Other),
+    }
+}
+
 const TY_DEPLOY: u8 = 0;
 const TY_SPAWN: u8 = 1;
 const TY_CALL: u8 = 2;
diff --git a/crates/host/codec/src/receipt/spawn.rs b/crates/host/codec/src/receipt/spawn.rs
index d96b5f7..164c7fa 100644
--- a/crates/host/codec/src/receipt/spawn.rs
+++ b/crates/host/codec/src/receipt/spawn.rs
@@ -60,11 +60,7 @@ impl Codec for SpawnReceipt {
     }
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, TY_SPAWN);
-
-        let version = u16::decode(reader)?;
-        debug_assert_eq!(0, version);
+        let version = super::decode_head(reader, TY_SPAWN)?;
 
         let is_success = bool::decode(reader)?;
 
@@ -88,7 +84,7 @@ impl Codec for SpawnReceipt {
                 logs,
             })
         } else {
-            let x = RuntimeFailure::decode(reader).unwrap();
+            let x = RuntimeFailure::decode(reader)?;
             Ok(SpawnReceipt::from_err(x.err, x.logs))
         }
     }
-- 
2.43.0


From 26d973c78d4a0ab198f120e7ceb777d5b7ea082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:37 +0000
Subject: [PATCH 28/58] fix: shorten the messages of all errors to what a
 receipt can hold

---
 crates/host/codec/src/receipt/error.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index 42a594d..6ad9188 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -112,7 +112,7 @@ impl Codec for RuntimeFailure {
             } => {
                 template.encode(w);
                 target.encode(w);
-                msg.encode(w);
+                encode_msg(&msg, w);
             }
             RuntimeError::FuncNotFound {
                 target,
@@ -186,13 +186,13 @@ impl Codec for RuntimeFailure {
 }
 
 fn encode_msg(msg: &str, w: &mut impl WriteExt) {
-    if msg.len() > 255 {
-        let bytes = &msg.as_bytes()[0..255];
-        let msg = String::from_utf8(bytes.to_vec()).unwrap();
-        msg.encode(w);
-    } else {
-        msg.to_string().encode(w);
+    // Messages that are too long are cut, but never in the middle of a character.
+    let mut len = msg.len().min(255);
+    while !msg.is_char_boundary(len) {
+        len -= 1;
     }
+
+    msg[..len].to_string().encode(w);
 }
 
 fn encode_err_type(err: &RuntimeError, w: &mut impl WriteExt) {
-- 
2.43.0


From a50da1819aa43897fb020aaf0f5ca692159be8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:37 +0000
Subject: [PATCH 29/58] fix: keep the logs of failed deployments in their
 receipts

---
 crates/host/codec/src/receipt/deploy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index a8603ef..eb1f42d 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -34,7 +34,7 @@ impl Codec for DeployReceipt {
             self.gas_used.encode(w);
             self.logs.encode(w);
         } else {
-            RuntimeFailure::new(self.error().clone(), vec![]).encode(w);
+            RuntimeFailure::new(self.error().clone(), self.logs.clone()).encode(w);
         };
     }
 
-- 
2.43.0


From a81579cc63e450df5f60da07eb5b54ac1a033ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:55 +0000
Subject: [PATCH 30/58] fix: report malformed template sections instead of
 panicking

---
 crates/host/codec/src/section/sections/api.rs    | 3 ++-
 crates/host/codec/src/section/sections/code.rs   | 4 ++--
 crates/host/codec/src/section/sections/data.rs   | 9 +++++++--
 crates/host/codec/src/section/sections/schema.rs | 3 ++-
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/host/codec/src/section/sections/api.rs b/crates/host/codec/src/section/sections/api.rs
index 6c963d0..2b748f0 100644
--- a/crates/host/codec/src/section/sections/api.rs
+++ b/crates/host/codec/src/section/sections/api.rs
@@ -10,6 +10,7 @@ impl Codec for ApiSection {
     }
 
     fn decode(_cursor: &mut impl ReadExt) -> Result<Self, ParseError> {
-        todo!("will be implemented in a future PR...");
+        // Will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
diff --git a/crates/host/codec/src/section/sections/code.rs b/crates/host/codec/src/section/sections/code.rs
index db3d921..4550954 100644
--- a/crates/host/codec/src/section/sections/code.rs
+++ b/crates/host/codec/src/section/sections/code.rs
@@ -13,7 +13,7 @@
 use svm_types::{CodeKind, CodeSection, GasMode};
 
 use crate::codec::DataWithPrefix;
-use crate::{Codec, ParseError, ReadExt, WriteExt};
+use crate::{Codec, Field, ParseError, ReadExt, WriteExt};
 
 pub const WASM: u16 = 1;
 pub const GAS_MODE_FIXED: u64 = 1;
@@ -70,7 +70,7 @@ impl Codec for GasMode {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u64::decode(reader)? {
             GAS_MODE_FIXED => Ok(GasMode::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::UnexpectedLayout(Field::GasMode)),
         }
     }
 }
diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index 1dcfb14..53d1caf 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -48,7 +48,7 @@ use std::convert::TryFrom;
 use svm_layout::{FixedLayout, Layout, LayoutKind};
 use svm_types::DataSection;
 
-use crate::{Codec, ParseError, ReadExt, WriteExt};
+use crate::{Codec, Field, ParseError, ReadExt, WriteExt};
 
 pub const FIXED: u16 = 0x00_01;
 
@@ -121,6 +121,11 @@ impl Codec for Layout {
                 if var_count > 0 {
                     first_var_id = u32::decode(reader)?;
 
+                    // The ids of all the variables have to exist.
+                    if first_var_id.checked_add(u32::from(var_count) - 1).is_none() {
+                        return Err(ParseError::UnexpectedLayout(Field::LayoutFirstVarId));
+                    }
+
                     // Decoding each `var`
                     for _ in 0..var_count {
                         let byte_size = decode_var_byte_size(reader)?;
@@ -150,7 +155,7 @@ impl Codec for LayoutKind {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u16::decode(reader)? {
             FIXED => Ok(LayoutKind::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::UnexpectedLayout(Field::LayoutKind)),
         }
     }
 }
diff --git a/crates/host/codec/src/section/sections/schema.rs b/crates/host/codec/src/section/sections/schema.rs
index 96d69be..834c17d 100644
--- a/crates/host/codec/src/section/sections/schema.rs
+++ b/crates/host/codec/src/section/sections/schema.rs
@@ -29,7 +29,8 @@ impl Codec for SchemaSection {
     }
 
     fn decode(_reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        todo!("will be implemented in a future PR...");
+        // Will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
 
-- 
2.43.0


From 2173970cb97d1a1d43e6dd0fe5ef56608c74c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:00 +0000
Subject: [PATCH 31/58] fix: encode exactly the templates that can be decoded

---
 crates/host/codec/src/section/sections/ctors.rs | 2 +-
 crates/host/codec/src/section/sections/data.rs  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/host/codec/src/section/sections/ctors.rs b/crates/host/codec/src/section/sections/ctors.rs
index 3199822..d9caced 100644
--- a/crates/host/codec/src/section/sections/ctors.rs
+++ b/crates/host/codec/src/section/sections/ctors.rs
@@ -21,7 +21,7 @@ impl Codec for CtorsSection {
         // `#Ctors`
         let count = self.ctors().len();
 
-        assert!(count < std::u8::MAX as usize);
+        assert!(count <= std::u8::MAX as usize);
 
         w.write_byte(count as u8);
 
diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index 53d1caf..19b91c0 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -91,7 +91,7 @@ impl Codec for Layout {
 
                 // `#Vars`
                 let var_count = layout.len();
-                assert!(var_count < std::u16::MAX as usize);
+                assert!(var_count <= std::u16::MAX as usize);
                 (var_count as u16).encode(w);
 
                 if var_count > 0 {
@@ -100,7 +100,9 @@ impl Codec for Layout {
 
                     // Encoding each `Var Byte-Size`
                     for var in layout.iter() {
-                        (var.byte_size as u16).encode(w);
+                        u16::try_from(var.byte_size)
+                            .expect("The variable is too large, max 65535 bytes.")
+                            .encode(w);
                     }
                 }
             }
-- 
2.43.0


From e8420f3a30170bf0fe5a34922108282d092864ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:44 +0000
Subject: [PATCH 32/58] fix: an empty layout has no first variable

---
 crates/host/layout/src/fixed.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/host/layout/src/fixed.rs b/crates/host/layout/src/fixed.rs
index 1244810..0e35658 100644
--- a/crates/host/layout/src/fixed.rs
+++ b/crates/host/layout/src/fixed.rs
@@ -40,10 +40,7 @@ impl FixedLayout {
             offset += byte_size;
         }
 
-        Self {
-            first: Some(first),
-            vars,
-        }
+        Self::new(vars)
     }
 
     /// Returns a fixed-variable's layout
-- 
2.43.0


From f49bb5fec942735f51b62040f49bdf432cb7bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:50 +0000
Subject: [PATCH 33/58] fix: don't allocate memory for data that isn't there

---
 crates/host/codec/src/ext.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/ext.rs b/crates/host/codec/src/ext.rs
index a596f1e..3a1d40a 100644
--- a/crates/host/codec/src/ext.rs
+++ b/crates/host/codec/src/ext.rs
@@ -2,6 +2,9 @@ use std::io::{Cursor, Read};
 
 use crate::ParseError;
 
+/// Memory for no more bytes than this is allocated prior to reading them.
+const MAX_PREALLOCATED: usize = 4096;
+
 /// A trait to be implemented by Decoders
 pub trait ReadExt: Sized {
     /// Tries to read the next byte, but doesn't move the cursor forward.
@@ -24,8 +27,12 @@ pub trait ReadExt: Sized {
 
     /// Reads `length` bytes
     fn read_bytes(&mut self, length: usize) -> Result<Vec<u8>, ParseError> {
-        let mut buf = vec![0; length];
-        self.read_fill(&mut buf[..])?;
+        // `length` is a part of the input: there might be much less to read.
+        let mut buf = Vec::with_capacity(length.min(MAX_PREALLOCATED));
+        for _ in 0..length {
+            buf.push(self.read_byte()?);
+        }
+
         Ok(buf)
     }
 }
-- 
2.43.0


From c4c714b312154e9f01dabf9bd219ff4bbb2e52bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:12 +0000
Subject: [PATCH 34/58] fix: transactions fail when their logs or results don't
 fit into a receipt

---
 crates/host/runtime/src/vmcalls/logs.rs       | 7 +++++++
 crates/host/runtime/src/vmcalls/returndata.rs | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/crates/host/runtime/src/vmcalls/logs.rs b/crates/host/runtime/src/vmcalls/logs.rs
index 16e23c5..a3342a3 100644
--- a/crates/host/runtime/src/vmcalls/logs.rs
+++ b/crates/host/runtime/src/vmcalls/logs.rs
@@ -4,6 +4,13 @@ use crate::FuncEnv;
 
 /// Logs the log entry given in a form of blob (offset and length).
 pub fn log(env: &FuncEnv, offset: u32, length: u32) {
+    // The transaction has to fail now, as there couldn't be a receipt for it.
+    assert!(length <= u16::MAX as u32, "The log is too long");
+    assert!(
+        env.borrow().logs().len() < u8::MAX as usize,
+        "There are too many logs"
+    );
+
     let start = offset as usize;
     let end = start + length as usize;
 
diff --git a/crates/host/runtime/src/vmcalls/returndata.rs b/crates/host/runtime/src/vmcalls/returndata.rs
index 717ceaa..bc25b69 100644
--- a/crates/host/runtime/src/vmcalls/returndata.rs
+++ b/crates/host/runtime/src/vmcalls/returndata.rs
@@ -5,6 +5,9 @@ use crate::FuncEnv;
 pub fn set_returndata(env: &FuncEnv, offset: u32, length: u32) {
     dbg!("set_returndata (offset = {}, length = {})", offset, length);
 
+    // The transaction has to fail now, as there couldn't be a receipt for it.
+    assert!(length <= u16::MAX as u32, "The `returndata` is too long");
+
     env.borrow_mut()
         .set_returndata(offset as usize, length as usize)
 }
-- 
2.43.0


From 9bb218a8badcf8adf447092b968868ab11459de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:20 +0000
Subject: [PATCH 35/58] fix: report malformed ABI data instead of panicking,
 decode arrays of 8 items

---
 crates/wasm/abi-decoder/src/decoder.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/wasm/abi-decoder/src/decoder.rs b/crates/wasm/abi-decoder/src/decoder.rs
index 677a2b2..2822bd5 100644
--- a/crates/wasm/abi-decoder/src/decoder.rs
+++ b/crates/wasm/abi-decoder/src/decoder.rs
@@ -101,7 +101,11 @@ impl Decoder {
             TypeKind::U32 => self.decode_u32(cursor)?.into(),
             TypeKind::I64 => self.decode_i64(cursor)?.into(),
             TypeKind::U64 => self.decode_u64(cursor)?.into(),
-            _ => svm_sdk_std::panic(),
+            TypeKind::Array => {
+                // Only an array of primitives can be decoded.
+                let byte = self.peek(cursor)?;
+                return Result::Err(DecodeError::Type(TypeError::InvalidTypeKind(byte)));
+            }
         };
 
         Result::Ok(value)
@@ -265,8 +269,6 @@ impl Decoder {
 
         let len = self.read_byte(cursor)?;
 
-        let mut values: Vec<Value> = Vec::with_capacity(len as usize);
-
         let len = match len {
             layout::ARR_0 => 0,
             layout::ARR_1 => 1,
@@ -281,6 +283,9 @@ impl Decoder {
             layout::ARR_10 => 10,
             _ => svm_sdk_std::panic(),
         };
+
+        let mut values: Vec<Value> = Vec::with_capacity(len);
+
         seq_macro::seq!(n in 0..11 {
             if len > n {
                 let value = self.decode_primitive(cursor)?;
@@ -393,7 +398,7 @@ impl Decoder {
             | layout::ARR_9
             | layout::ARR_10 => TypeKind::Array,
 
-            _ => svm_sdk_std::panic(),
+            _ => return Result::Err(DecodeError::Type(TypeError::InvalidTypeKind(byte))),
         };
 
         Result::Ok(kind)
-- 
2.43.0


From daa4badc76ef91ac8cb7cf40269cd540e5ce532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:20 +0000
Subject: [PATCH 36/58] fix: the byte size of encoded arrays

---
 crates/wasm/abi-encoder/src/types/small_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/abi-encoder/src/types/small_array.rs b/crates/wasm/abi-encoder/src/types/small_array.rs
index 2ffd233..4a2a67f 100644
--- a/crates/wasm/abi-encoder/src/types/small_array.rs
+++ b/crates/wasm/abi-encoder/src/types/small_array.rs
@@ -40,7 +40,7 @@ where
             // The compiler complains, but it's wrong! The following comparison
             // might be useless or not, depending on the array const generic.
             #[allow(unused_comparisons)]
-            if N >= i {
+            if N > i {
                 payload_size += self[i].byte_size();
             }
         });
-- 
2.43.0


From bdbabcb440bdbe290d5d681a5ee0245566fe51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:20 +0000
Subject: [PATCH 37/58] fix: the size of a section preview

---
 crates/host/codec/src/section/preview.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/codec/src/section/preview.rs b/crates/host/codec/src/section/preview.rs
index 9def6cd..fe35169 100644
--- a/crates/host/codec/src/section/preview.rs
+++ b/crates/host/codec/src/section/preview.rs
@@ -42,6 +42,6 @@ impl Codec for SectionPreview {
     }
 
     fn fixed_size() -> Option<usize> {
-        Some(8)
+        Some(2 + 4)
     }
 }
-- 
2.43.0


From 68b01348adfd6694960a18b155209af547f10b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:20 +0000
Subject: [PATCH 38/58] fix: printing large layer numbers

---
 crates/wasm/sdk-types/src/layer_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-types/src/layer_id.rs b/crates/wasm/sdk-types/src/layer_id.rs
index 7c71ae2..2fa4f56 100644
--- a/crates/wasm/sdk-types/src/layer_id.rs
+++ b/crates/wasm/sdk-types/src/layer_id.rs
@@ -14,7 +14,7 @@ impl core::fmt::Debug for LayerId {
 
 impl ToString for LayerId {
     fn to_string(&self) -> String {
-        let mut sb = StringBuilder::with_capacity(20 + " coins".len());
+        let mut sb = StringBuilder::with_capacity("[Layer 18446744073709551615]".len());
 
         let s = self.0.to_string();
         sb.push_str(&String::new_short("[Layer ".as_bytes()));
-- 
2.43.0


From d06015704ac597ce57556639838aa9441df2e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:20 +0000
Subject: [PATCH 39/58] fix: amounts don't wrap around silently

---
 crates/wasm/sdk-types/src/amount.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/wasm/sdk-types/src/amount.rs b/crates/wasm/sdk-types/src/amount.rs
index 86eeed3..069c325 100644
--- a/crates/wasm/sdk-types/src/amount.rs
+++ b/crates/wasm/sdk-types/src/amount.rs
@@ -25,11 +25,21 @@ impl core::fmt::Debug for Amount {
     }
 }
 
+/// Aborts if there is no result, since it doesn't fit into an [`Amount`]
+/// (templates are compiled without overflow checks).
+#[inline]
+fn checked(result: Option<u64>) -> u64 {
+    match result {
+        Some(value) => value,
+        None => svm_sdk_std::panic(),
+    }
+}
+
 impl Add for Amount {
     type Output = Self;
 
     fn add(self, rhs: Self) -> Self::Output {
-        Self(self.0 + rhs.0)
+        Self(checked(self.0.checked_add(rhs.0)))
     }
 }
 
@@ -37,7 +47,7 @@ impl Add<u64> for Amount {
     type Output = Self;
 
     fn add(self, rhs: u64) -> Self::Output {
-        Self(self.0 + rhs)
+        Self(checked(self.0.checked_add(rhs)))
     }
 }
 
@@ -65,7 +75,7 @@ impl Mul for Amount {
     type Output = Self;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        Amount(self.0 * rhs.0)
+        Amount(checked(self.0.checked_mul(rhs.0)))
     }
 }
 
@@ -73,19 +83,19 @@ impl Mul<u64> for Amount {
     type Output = Self;
 
     fn mul(self, rhs: u64) -> Self::Output {
-        Amount(self.0 * rhs)
+        Amount(checked(self.0.checked_mul(rhs)))
     }
 }
 
 impl AddAssign for Amount {
     fn add_assign(&mut self, rhs: Self) {
-        *self = Amount(self.0 + rhs.0)
+        *self = *self + rhs
     }
 }
 
 impl AddAssign<u64> for Amount {
     fn add_assign(&mut self, rhs: u64) {
-        *self = Amount(self.0 + rhs)
+        *self = *self + rhs
     }
 }
 
@@ -107,13 +117,13 @@ impl SubAssign<u64> for Amount {
 
 impl MulAssign for Amount {
     fn mul_assign(&mut self, rhs: Self) {
-        *self = Amount(self.0 * rhs.0)
+        *self = *self * rhs
     }
 }
 
 impl MulAssign<u64> for Amount {
     fn mul_assign(&mut self, rhs: u64) {
-        *self = Amount(self.0 * rhs)
+        *self = *self * rhs
     }
 }
 
-- 
2.43.0


From 823514cc7f2b2111eb904f002c99fde04e7b6270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:20 +0000
Subject: [PATCH 40/58] fix: short strings longer than a short string abort, as
 documented

---
 crates/wasm/sdk-std/src/string/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-std/src/string/mod.rs b/crates/wasm/sdk-std/src/string/mod.rs
index 73a4d54..0e029be 100644
--- a/crates/wasm/sdk-std/src/string/mod.rs
+++ b/crates/wasm/sdk-std/src/string/mod.rs
@@ -72,7 +72,7 @@ impl String {
 
     fn new_short_inner(data: &[u8], safe: bool) -> Self {
         let length = data.len();
-        debug_assert!(length <= 8);
+        crate::ensure!(length <= 8);
 
         if safe {
             seq_macro::seq!(N in 0..8 {
-- 
2.43.0


From 50b700d8352e77f7b163fe90fed9598fc0982a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:37 +0000
Subject: [PATCH 41/58] fix: large gas amounts and binary logs in the JSON of
 receipts

---
 crates/host/codec/src/api/json/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/host/codec/src/api/json/mod.rs b/crates/host/codec/src/api/json/mod.rs
index 842fab5..2539fdc 100644
--- a/crates/host/codec/src/api/json/mod.rs
+++ b/crates/host/codec/src/api/json/mod.rs
@@ -18,18 +18,18 @@ use serde_json::{json, Value as Json};
 
 use svm_types::{Gas, ReceiptLog};
 
-fn gas_to_json(gas: &Gas) -> i64 {
+fn gas_to_json(gas: &Gas) -> Json {
     if gas.is_some() {
-        gas.unwrap() as _
+        json!(gas.unwrap())
     } else {
-        -1
+        json!(-1)
     }
 }
 
 fn logs_to_json(logs: &[ReceiptLog]) -> Vec<Json> {
     logs.iter()
         .map(|log| {
-            let data = std::str::from_utf8(log.as_bytes()).expect("Invalid UTF-8");
+            let data = String::from_utf8_lossy(log.as_bytes());
 
             json!({
                 "data": data,
-- 
2.43.0


From d257cbd5d851f127bdf9e573bc2e46a5ad525f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:37 +0000
Subject: [PATCH 42/58] fix: report a buffer that isn't UTF-8 instead of
 panicking

---
 crates/host/codec/src/api/wasm/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/api/wasm/mod.rs b/crates/host/codec/src/api/wasm/mod.rs
index 4e3c8b2..5943584 100644
--- a/crates/host/codec/src/api/wasm/mod.rs
+++ b/crates/host/codec/src/api/wasm/mod.rs
@@ -175,8 +175,9 @@ where
     F: Fn(&str) -> Result<Vec<u8>, JsonError>,
 {
     let buf = Buffer::from_ptr(ptr);
-    let json_s = std::str::from_utf8(buf.as_ref()).expect("Invalid UTF-8");
-    let result = f(json_s);
+    let result = std::str::from_utf8(buf.as_ref())
+        .map_err(JsonError::from)
+        .and_then(f);
 
     result
         .map(|bytes| Buffer::alloc_ok(&bytes))
-- 
2.43.0


From 40e2bd317e09eb55620b3b0705abeeef2618a20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:37 +0000
Subject: [PATCH 43/58] fix: report malformed receipts given as JSON instead of
 panicking

---
 crates/host/codec/src/api/json/receipt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/host/codec/src/api/json/receipt.rs b/crates/host/codec/src/api/json/receipt.rs
index f00a8a2..079fe26 100644
--- a/crates/host/codec/src/api/json/receipt.rs
+++ b/crates/host/codec/src/api/json/receipt.rs
@@ -15,9 +15,9 @@ pub fn decode_receipt(json: &str) -> Result<Value, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    assert!(encoded_data.len() > 0);
-
-    let receipt = Receipt::decode_bytes(encoded_data).unwrap();
+    let receipt = Receipt::decode_bytes(encoded_data).map_err(|_| JsonError::InvalidField {
+        path: "data".to_string(),
+    })?;
     let ty = receipt_type(&receipt);
 
     let json = if receipt.success() {
-- 
2.43.0


From 82379ecd8c174d1da3c8375bc9f10d17063f5743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:37 +0000
Subject: [PATCH 44/58] fix: report malformed transactions and input data given
 as JSON

---
 crates/host/codec/src/api/json/call.rs      | 33 ++++---
 crates/host/codec/src/api/json/inputdata.rs | 96 +++++++++++++--------
 crates/host/codec/src/api/json/mod.rs       | 19 ++++
 crates/host/codec/src/api/json/spawn.rs     | 17 ++--
 4 files changed, 110 insertions(+), 55 deletions(-)

diff --git a/crates/host/codec/src/api/json/call.rs b/crates/host/codec/src/api/json/call.rs
index 4fbf9b8..6fa5a2c 100644
--- a/crates/host/codec/src/api/json/call.rs
+++ b/crates/host/codec/src/api/json/call.rs
@@ -5,7 +5,7 @@ use svm_types::Transaction;
 
 use super::inputdata::{decode_raw_input, DecodedInputData};
 use super::serde_types::*;
-use super::{get_field, parse_json, JsonError};
+use super::{check_length, get_field, get_string, parse_json, JsonError};
 use crate::Codec;
 
 /// Transforms a user-friendly `call` into an encoded form:
@@ -42,9 +42,9 @@ pub fn encode_call_raw(json: &str) -> Result<Vec<u8>, JsonError> {
     Ok(Transaction {
         version: get_field(json, "version")?,
         target: get_field::<AddressWrapper>(json, "target")?.into(),
-        func_name: get_field(json, "func_name")?,
-        verifydata: get_field::<EncodedOrDecodedCalldata>(json, "verifydata")?.encode(),
-        calldata: get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode(),
+        func_name: get_string(json, "func_name")?,
+        verifydata: get_calldata(json, "verifydata")?,
+        calldata: get_calldata(json, "calldata")?,
     }
     .encode_to_vec())
 }
@@ -65,13 +65,8 @@ pub fn decode_call(json: &str) -> Result<Json, JsonError> {
         path: json.to_string(),
     })?;
 
-    let verifydata = EncodedOrDecodedCalldata::Decoded(
-        DecodedInputData::new(&decode_raw_input(tx.verifydata()).unwrap().to_string()).unwrap(),
-    );
-
-    let calldata = EncodedOrDecodedCalldata::Decoded(
-        DecodedInputData::new(&decode_raw_input(tx.calldata()).unwrap().to_string()).unwrap(),
-    );
+    let verifydata = decode_raw_input(tx.verifydata())?;
+    let calldata = decode_raw_input(tx.calldata())?;
 
     Ok(json!({
         "version": tx.version,
@@ -92,13 +87,23 @@ pub(crate) enum EncodedOrDecodedCalldata {
 }
 
 impl EncodedOrDecodedCalldata {
-    pub fn encode(self) -> Vec<u8> {
+    pub fn encode(self) -> Result<Vec<u8>, JsonError> {
         match self {
-            Self::Encoded(encoded) => encoded.0,
-            Self::Decoded(decoded) => decoded.encode().unwrap(),
+            Self::Encoded(encoded) => Ok(encoded.0),
+            Self::Decoded(decoded) => decoded.encode(),
         }
     }
 }
+
+/// Reads a field holding either an encoded or a decoded `calldata`, and encodes
+/// it.
+pub(crate) fn get_calldata(json: &mut Json, name: &str) -> Result<Vec<u8>, JsonError> {
+    let calldata = get_field::<EncodedOrDecodedCalldata>(json, name)?.encode()?;
+    check_length(&calldata, name)?;
+
+    Ok(calldata)
+}
+
 #[cfg(test)]
 mod tests {
     use serde_json::json;
diff --git a/crates/host/codec/src/api/json/inputdata.rs b/crates/host/codec/src/api/json/inputdata.rs
index d7fca6a..e86e343 100644
--- a/crates/host/codec/src/api/json/inputdata.rs
+++ b/crates/host/codec/src/api/json/inputdata.rs
@@ -4,7 +4,7 @@ use serde_json::Value as Json;
 
 use std::convert::TryFrom;
 
-use svm_abi_decoder::CallData;
+use svm_abi_decoder::{Cursor, Decoder};
 use svm_abi_encoder::{ByteSize, Encoder};
 use svm_sdk_types::value::{Composite, Primitive, Value as SdkValue};
 use svm_sdk_types::{Address, Amount};
@@ -24,13 +24,12 @@ use crate::api::json::JsonError;
 /// ```
 pub fn encode_inputdata(json: &str) -> Result<Json, JsonError> {
     let decoded = DecodedInputData::new(json)?;
-    let calldata = HexBlob(decoded.encode().unwrap());
+    let calldata = HexBlob(decoded.encode()?);
     Ok(json!({ "data": calldata }))
 }
 
 pub fn decode_raw_input(data: &[u8]) -> Result<Json, JsonError> {
-    let calldata = CallData::new(data);
-    Ok(calldata_to_json(calldata))
+    calldata_to_json(data).ok_or_else(|| invalid_field("data"))
 }
 
 /// Given a binary `Calldata` (wrapped within a JSON), decodes it into a JSON
@@ -38,7 +37,7 @@ pub fn decode_inputdata(json: &str) -> Result<Json, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    Ok(calldata_to_json(CallData::new(&encoded_data)))
+    decode_raw_input(&encoded_data)
 }
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -54,13 +53,7 @@ impl DecodedInputData {
         let abi = get_field::<Vec<TySig>>(json, "abi")?;
         let data = get_field::<Vec<Json>>(json, "data")?;
 
-        if abi.len() != data.len() {
-            Err(JsonError::InvalidField {
-                path: "data".to_string(),
-            })
-        } else {
-            Ok(Self { abi, data })
-        }
+        Ok(Self { abi, data })
     }
 
     /// Like `Self::zip`, but in borrowed form.
@@ -79,6 +72,10 @@ impl DecodedInputData {
     }
 
     pub fn encode(self) -> Result<Vec<u8>, JsonError> {
+        if self.abi.len() != self.data.len() {
+            return Err(invalid_field("data"));
+        }
+
         let cap = self.cap()?;
         let mut buf = svm_sdk_std::Vec::with_capacity(cap);
 
@@ -89,16 +86,30 @@ impl DecodedInputData {
     }
 }
 
-pub(crate) fn calldata_to_json(mut calldata: CallData) -> Json {
+/// Returns [`None`] if the given bytes can't be decoded, or have no JSON form.
+fn calldata_to_json(calldata: &[u8]) -> Option<Json> {
+    let decoder = Decoder::new();
+    let cursor = &mut Cursor::new(calldata);
     let mut abi = vec![];
     let mut data = vec![];
 
-    while let Some(value) = calldata.next().into() {
-        abi.push(sdk_value_utils::ty_sig_of_sdk_value(&value));
-        data.push(sdk_value_utils::sdk_value_to_json(value));
+    while !cursor.is_eof() {
+        let value = match decoder.decode_value(cursor) {
+            svm_sdk_std::Result::Ok(value) => value,
+            svm_sdk_std::Result::Err(_) => return None,
+        };
+
+        abi.push(sdk_value_utils::ty_sig_of_sdk_value(&value)?);
+        data.push(sdk_value_utils::sdk_value_to_json(value)?);
     }
 
-    json!({ "abi": abi, "data": data })
+    Some(json!({ "abi": abi, "data": data }))
+}
+
+fn invalid_field(path: &str) -> JsonError {
+    JsonError::InvalidField {
+        path: path.to_string(),
+    }
 }
 
 mod sdk_value_utils {
@@ -110,8 +121,10 @@ mod sdk_value_utils {
     /// JSON value. This function, together with [`ty_sig_of_sdk_value`], can
     /// give a **ful** overview over some values, with both its type signature
     /// and its value.
-    pub fn sdk_value_to_json(value: SdkValue) -> Json {
-        match value {
+    ///
+    /// Returns [`None`] if there is no JSON form of `value`.
+    pub fn sdk_value_to_json(value: SdkValue) -> Option<Json> {
+        let json = match value {
             SdkValue::Primitive(prim) => match prim {
                 Primitive::Bool(x) => json!(x),
                 Primitive::I8(x) => json!(x),
@@ -124,21 +137,24 @@ mod sdk_value_utils {
                 Primitive::U64(x) => json!(x),
                 Primitive::Amount(x) => json!(x.0),
                 Primitive::Address(x) => json!(AddressWrapper(Address::new(x.as_slice()))),
-                _ => unreachable!(),
+                Primitive::None | Primitive::Unit => return None,
             },
             SdkValue::Composite(Composite::Vec(values)) => Json::Array(
                 values
                     .into_iter()
                     .map(|sdk_value| sdk_value_to_json(sdk_value))
-                    .collect(),
+                    .collect::<Option<_>>()?,
             ),
-        }
+        };
+        Some(json)
     }
 
     /// Given a [`svm_sdk_types::value::Value`], encodes its type signature as a
     /// JSON value.
-    pub fn ty_sig_of_sdk_value(value: &SdkValue) -> Json {
-        match value {
+    ///
+    /// Returns [`None`] if there is no JSON form of `value`.
+    pub fn ty_sig_of_sdk_value(value: &SdkValue) -> Option<Json> {
+        let json = match value {
             SdkValue::Primitive(prim) => match prim {
                 Primitive::Bool(_) => "bool",
                 Primitive::I8(_) => "i8",
@@ -151,7 +167,7 @@ mod sdk_value_utils {
                 Primitive::U64(_) => "u64",
                 Primitive::Amount(_) => "amount",
                 Primitive::Address(_) => "address",
-                _ => unreachable!(),
+                Primitive::None | Primitive::Unit => return None,
             }
             .into(),
             SdkValue::Composite(Composite::Vec(values)) => {
@@ -159,10 +175,11 @@ mod sdk_value_utils {
                     Json::Null
                 } else {
                     let ty = &values.last().unwrap();
-                    Json::Array(vec![ty_sig_of_sdk_value(ty)])
+                    Json::Array(vec![ty_sig_of_sdk_value(ty)?])
                 }
             }
-        }
+        };
+        Some(json)
     }
 
     pub fn sdk_value_from_json(json: Json, ty_sig: TySigPrim) -> Option<SdkValue> {
@@ -211,9 +228,7 @@ impl TySig {
     fn value_byte_size(&self, value: &Json) -> Result<usize, JsonError> {
         let byte_size = match self {
             TySig::Array(types) => {
-                assert_eq!(types.len(), 1);
-
-                let ty = &types[0];
+                let ty = array_elem_ty(types)?;
 
                 // we initialize `byte_size` for the `length` marker.
                 let mut byte_size = 1;
@@ -278,6 +293,17 @@ enum TyPrimSdkValue {
     Address(AddressWrapper),
 }
 
+/// The ABI has no arrays of more items.
+const MAX_ARRAY_LEN: usize = 10;
+
+/// The type of an array is written as an array holding the type of its items.
+fn array_elem_ty(types: &[TySig]) -> Result<&TySig, JsonError> {
+    match types {
+        [ty] => Ok(ty),
+        _ => Err(invalid_field("abi")),
+    }
+}
+
 fn encode_value(ty: TySig, value: Json) -> Result<SdkValue, JsonError> {
     match ty {
         TySig::Array(types) => encode_array(&types, value),
@@ -290,16 +316,18 @@ fn encode_value(ty: TySig, value: Json) -> Result<SdkValue, JsonError> {
 }
 
 fn encode_array(types: &[TySig], mut value: Json) -> Result<SdkValue, JsonError> {
-    assert_eq!(types.len(), 1);
-
-    let ty = &types[0];
+    let ty = array_elem_ty(types)?;
 
     let mut value = value.take();
     let elems = value.as_array_mut().ok_or(JsonError::InvalidField {
         path: "calldata".to_string(),
     })?;
 
-    let mut vec = svm_sdk_std::Vec::with_capacity(10);
+    if elems.len() > MAX_ARRAY_LEN {
+        return Err(invalid_field("calldata"));
+    }
+
+    let mut vec = svm_sdk_std::Vec::with_capacity(MAX_ARRAY_LEN);
 
     for elem in elems.iter_mut() {
         let elem = encode_value(ty.clone(), elem.take())?;
diff --git a/crates/host/codec/src/api/json/mod.rs b/crates/host/codec/src/api/json/mod.rs
index 2539fdc..802f29d 100644
--- a/crates/host/codec/src/api/json/mod.rs
+++ b/crates/host/codec/src/api/json/mod.rs
@@ -54,6 +54,25 @@ where
     })
 }
 
+/// Reads a field holding a text that is short enough to be encoded.
+fn get_string(json: &mut Json, name: &str) -> Result<String, JsonError> {
+    let string = get_field::<String>(json, name)?;
+    check_length(string.as_bytes(), name)?;
+
+    Ok(string)
+}
+
+/// Texts and input data are encoded with a length of a single byte.
+fn check_length(bytes: &[u8], name: &str) -> Result<(), JsonError> {
+    if bytes.len() > u8::MAX as usize {
+        return Err(JsonError::InvalidField {
+            path: name.to_string(),
+        });
+    }
+
+    Ok(())
+}
+
 fn parse_json(json_str: &str) -> Result<Json, JsonError> {
     let json_deserializer = &mut serde_json::Deserializer::from_str(json_str);
     let value = serde_path_to_error::deserialize(json_deserializer)?;
diff --git a/crates/host/codec/src/api/json/spawn.rs b/crates/host/codec/src/api/json/spawn.rs
index db0582b..29d133b 100644
--- a/crates/host/codec/src/api/json/spawn.rs
+++ b/crates/host/codec/src/api/json/spawn.rs
@@ -2,10 +2,10 @@ use serde_json::{json, Value as Json};
 
 use svm_types::{Account, SpawnAccount};
 
-use super::call::EncodedOrDecodedCalldata;
+use super::call::get_calldata;
 use super::inputdata::decode_raw_input;
 use super::serde_types::{HexBlob, TemplateAddrWrapper};
-use super::{get_field, parse_json, JsonError};
+use super::{get_field, get_string, parse_json, JsonError};
 use crate::Codec;
 
 ///
@@ -23,9 +23,9 @@ pub fn encode_spawn(json: &str) -> Result<Vec<u8>, JsonError> {
 
     let version = get_field(json, "version")?;
     let template_addr = get_field::<TemplateAddrWrapper>(json, "template")?.into();
-    let name = get_field(json, "name")?;
-    let ctor_name = get_field(json, "ctor_name")?;
-    let calldata = get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode();
+    let name = get_string(json, "name")?;
+    let ctor_name = get_string(json, "ctor_name")?;
+    let calldata = get_calldata(json, "calldata")?;
 
     Ok(SpawnAccount {
         version,
@@ -42,8 +42,11 @@ pub fn decode_spawn(json: &str) -> Result<Json, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    let spawn = SpawnAccount::decode_bytes(encoded_data).unwrap();
-    let decoded_calldata = decode_raw_input(&spawn.calldata).unwrap();
+    let spawn =
+        SpawnAccount::decode_bytes(encoded_data).map_err(|_| JsonError::InvalidField {
+            path: "data".to_string(),
+        })?;
+    let decoded_calldata = decode_raw_input(&spawn.calldata)?;
 
     Ok(json!({
         "version": spawn.version,
-- 
2.43.0


From 5dd2471ea5a6aacd00a4fa742084dcf759b42ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:37 +0000
Subject: [PATCH 45/58] fix: a template without a layout has no variables

---
 crates/host/state/src/account_storage.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/host/state/src/account_storage.rs b/crates/host/state/src/account_storage.rs
index 9658282..534d2dd 100644
--- a/crates/host/state/src/account_storage.rs
+++ b/crates/host/state/src/account_storage.rs
@@ -335,7 +335,12 @@ async fn template_layout(
     let template_storage = TemplateStorage::load(gs, &template_addr)?;
     let sections = template_storage.sections().await?;
     let data_section = sections.get(SectionKind::Data).as_data();
-    let layout = data_section.layouts()[0].as_fixed().clone();
+    // A `Template` without any layout has no variables.
+    let layout = data_section
+        .layouts()
+        .first()
+        .map(|layout| layout.as_fixed().clone())
+        .unwrap_or_default();
     Ok(layout)
 }
 
-- 
2.43.0


From 3312f5d9af1014dc9d6bce99cd0c82a9e5f432bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:37 +0000
Subject: [PATCH 46/58] fix: variables of size zero occupy no storage

---
 crates/host/state/src/account_storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/host/state/src/account_storage.rs b/crates/host/state/src/account_storage.rs
index 534d2dd..8705c31 100644
--- a/crates/host/state/src/account_storage.rs
+++ b/crates/host/state/src/account_storage.rs
@@ -358,6 +358,10 @@ impl Segment {
 }
 
 fn var_segments(account_addr: &Address, offset: u32, byte_size: u32) -> Vec<Segment> {
+    if byte_size == 0 {
+        return vec![];
+    }
+
     let mut remaining_size = i64::from(byte_size);
     let mut segments = vec![];
     let mut segment_index = offset as usize / SEGMENT_SIZE;
-- 
2.43.0


From f2c181fad53c4d61c6c11aabd61be8f506b9804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:24 +0000
Subject: [PATCH 47/58] fix: equal addresses have equal hashes

---
 crates/wasm/sdk-types/src/blob.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-types/src/blob.rs b/crates/wasm/sdk-types/src/blob.rs
index 0825819..cf41a07 100644
--- a/crates/wasm/sdk-types/src/blob.rs
+++ b/crates/wasm/sdk-types/src/blob.rs
@@ -8,7 +8,7 @@ macro_rules! impl_blob_type {
 
         #[allow(missing_docs)]
         #[repr(transparent)]
-        #[derive(Copy, Hash)]
+        #[derive(Copy)]
         pub struct $ty(*const u8);
 
         impl $crate::types::PrimitiveMarker for $ty {}
@@ -134,6 +134,12 @@ macro_rules! impl_blob_type {
 
         impl Eq for $ty {}
 
+        impl core::hash::Hash for $ty {
+            fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+                self.as_slice().hash(state)
+            }
+        }
+
         impl svm_sdk_std::ToString for $ty {
             fn to_string(&self) -> svm_sdk_std::String {
                 use svm_sdk_std::{HexDigit, StringBuilder, String};
-- 
2.43.0


From 750bed19a5bd9ca4a9fdf40846bb1d840f5410d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:24 +0000
Subject: [PATCH 48/58] fix: the mock host doesn't create coins on a transfer
 to oneself

---
 crates/wasm/sdk-host-mock/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/wasm/sdk-host-mock/src/lib.rs b/crates/wasm/sdk-host-mock/src/lib.rs
index 1325351..94e529a 100644
--- a/crates/wasm/sdk-host-mock/src/lib.rs
+++ b/crates/wasm/sdk-host-mock/src/lib.rs
@@ -323,12 +323,14 @@ impl Host for InnerHost {
 
         assert!(target_balance >= amount);
 
-        let dst_balance = self.balance_of(dst);
+        let src = self.target();
 
-        let src_balance = target_balance - amount;
-        let dst_balance = dst_balance + amount;
+        if src == *dst {
+            return;
+        }
 
-        let src = self.target();
+        let src_balance = target_balance - amount;
+        let dst_balance = self.balance_of(dst) + amount;
 
         self.accounts.insert(src, src_balance);
         self.accounts.insert(dst.clone(), dst_balance);
-- 
2.43.0


From 38d090ecafa252ee61e669ee243b701fa2c9ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:15 +0000
Subject: [PATCH 49/58] fix: svm_sdk::log imports svm_log from the svm
 namespace

The import was declared with a link section instead of a Wasm import module,
so templates that log imported it from "env" and couldn't be instantiated.
---
 crates/wasm/sdk-std/src/log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-std/src/log.rs b/crates/wasm/sdk-std/src/log.rs
index 1554a05..d9532f7 100644
--- a/crates/wasm/sdk-std/src/log.rs
+++ b/crates/wasm/sdk-std/src/log.rs
@@ -3,7 +3,7 @@ use crate::String;
 /// The external function (a.k.a host function) to be called from `log`.
 #[allow(unused)]
 #[cfg(target_arch = "wasm32")]
-#[link_section = "svm"]
+#[link(wasm_import_module = "svm")]
 extern "C" {
     fn svm_log(offset: u32, length: u32);
 }
-- 
2.43.0


From be444eb5ca554fec7e2b45154b35582858bf76a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:05 +0000
Subject: [PATCH 50/58] fix: the SDK declares svm_log as the host defines it

The host's svm_log takes an offset and a length. With the third parameter the
import's type didn't match and no template using Host::log could be instantiated.
---
 crates/wasm/sdk-host-ffi/src/ext.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/wasm/sdk-host-ffi/src/ext.rs b/crates/wasm/sdk-host-ffi/src/ext.rs
index 43a4738..d94326d 100644
--- a/crates/wasm/sdk-host-ffi/src/ext.rs
+++ b/crates/wasm/sdk-host-ffi/src/ext.rs
@@ -33,8 +33,7 @@ extern "C" {
 
     /// Sends to SVM the logging message that starts
     /// at memory offset `offset` (of byte-length `length`)
-    /// and it's associated message code (for signaling errors severity such as `trace/info/error` etc.)
-    fn svm_log(offset: u32, length: u32, code: u32);
+    fn svm_log(offset: u32, length: u32);
 }
 
 /// ## Spacemesh Imports
@@ -240,12 +239,12 @@ impl Host for InnerHost {
     }
 
     #[inline]
-    fn log(&mut self, msg: &str, code: u8) {
+    fn log(&mut self, msg: &str, _code: u8) {
         unsafe {
             let offset = msg.as_ptr() as u32;
             let len = msg.len() as u32;
 
-            svm_log(offset, len, code as u32)
+            svm_log(offset, len)
         }
     }
 }
-- 
2.43.0


From 4007ba95219f9a5c1269a9c7256ef86efb3f03ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:25 +0000
Subject: [PATCH 51/58] fix: blocks of svm_static_alloc don't overlap

The end of the block was returned instead of its start, so a block could overlap
the one allocated before it and lie past the end of the memory. For example, an
endpoint returning the second and third of its parameters returned the second one
twice, since the calldata was overwritten by the returndata.
---
 crates/host/runtime/src/vmcalls/alloc.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/host/runtime/src/vmcalls/alloc.rs b/crates/host/runtime/src/vmcalls/alloc.rs
index 6f1a01a..78c9c24 100644
--- a/crates/host/runtime/src/vmcalls/alloc.rs
+++ b/crates/host/runtime/src/vmcalls/alloc.rs
@@ -11,8 +11,8 @@ pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     assert!(size > 0);
 
-    let used = used_memory(env);
-    let new_used = used + size as u64;
+    let offset = free_offset(env);
+    let new_used = offset + size as u64;
 
     let allocated = allocated_memory(env);
 
@@ -22,7 +22,17 @@ pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     set_used_memory(env, new_used);
 
-    new_used as u32
+    offset as u32
+}
+
+/// The offset where the next block of memory starts. It's aligned and never
+/// zero, which is the null pointer.
+fn free_offset(env: &FuncEnv) -> u64 {
+    const ALIGNMENT: u64 = 8;
+
+    let used = used_memory(env).max(1);
+
+    (used + ALIGNMENT - 1) / ALIGNMENT * ALIGNMENT
 }
 
 #[allow(unused)]
-- 
2.43.0


From 176f91bacff48779c91bdb4dd1d5522b72ea00b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:58 +0000
Subject: [PATCH 52/58] fix: returndata may be set more than once in debug
 builds

The last call wins, as documented in the SDK and as it is in release builds. In
debug builds an assertion failed the transaction instead.
---
 crates/host/runtime/src/func_env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/func_env.rs b/crates/host/runtime/src/func_env.rs
index 5d69bbf..2561c29 100644
--- a/crates/host/runtime/src/func_env.rs
+++ b/crates/host/runtime/src/func_env.rs
@@ -219,7 +219,7 @@ impl Inner {
             offset
         );
 
-        debug_assert!(self.returndata.is_none());
+        // The last call wins.
         self.returndata = Some((offset, len));
     }
 
-- 
2.43.0


From aa4805dc58a223dd323bd4c09371ec08c32532a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:21 +0000
Subject: [PATCH 53/58] fix: svm-cli validate rejects programs with loops and
 recursion instead of calling them valid and panicking

---
 crates/host/cli/src/subcmd_validate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/host/cli/src/subcmd_validate.rs b/crates/host/cli/src/subcmd_validate.rs
index 400d0a1..36a160b 100644
--- a/crates/host/cli/src/subcmd_validate.rs
+++ b/crates/host/cli/src/subcmd_validate.rs
@@ -3,7 +3,7 @@ use clap::ArgMatches;
 use std::io;
 use std::rc::Rc;
 
-use svm_gas::{resolvers::ExampleResolver, ProgramPricing};
+use svm_gas::{resolvers::ExampleResolver, validate_wasm, ProgramPricing};
 use svm_program::{Program, ProgramVisitor};
 
 use crate::Error;
@@ -42,6 +42,12 @@ pub fn subcmd_validate(args: &ArgMatches) -> anyhow::Result<()> {
 
     match program_res {
         Ok(program) => {
+            // Programs with loops, recursion, etc. can't be priced.
+            if let Err(e) = validate_wasm(&program, false) {
+                println!("{}", e);
+                return Ok(());
+            }
+
             println!("The given file contains a valid smWasm module.");
 
             let resolver = ExampleResolver::default();
-- 
2.43.0


From 031f08003275c3a6546d512b33c7243bbbecf804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:40 +0000
Subject: [PATCH 54/58] fix: values that don't fit their declaration render as
 nothing instead of panicking

---
 crates/host/query/src/render.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/host/query/src/render.rs b/crates/host/query/src/render.rs
index 1eb6f71..0fefe50 100644
--- a/crates/host/query/src/render.rs
+++ b/crates/host/query/src/render.rs
@@ -33,21 +33,21 @@ impl JsonVarRenderer {
     fn render_int(var: &Var, bytes: &[u8], is_signed: bool) -> Option<Value> {
         let length = var.layout.length;
 
-        if length > 8 {
+        if length == 0 || length > 8 {
             // Currently, an integer can be at most 8 bytes
             return None;
         }
 
-        let nbytes = bytes.len();
-        let mut buf = vec![0; nbytes];
-
-        (&mut buf[..length]).clone_from_slice(&bytes[..length]);
+        if bytes.len() != length {
+            // The Storage isn't in-sync with the Schema.
+            return None;
+        }
 
         let num = if is_signed {
-            let num: i64 = BigEndian::read_int(&buf[..], nbytes);
+            let num: i64 = BigEndian::read_int(bytes, length);
             num.into()
         } else {
-            let num: u64 = BigEndian::read_uint(&buf[..], nbytes);
+            let num: u64 = BigEndian::read_uint(bytes, length);
             num.into()
         };
 
@@ -59,11 +59,9 @@ impl JsonVarRenderer {
     }
 
     fn render_bool(_var: &Var, bytes: &[u8]) -> Option<Value> {
-        assert_eq!(bytes.len(), 1);
-
-        let value = match bytes[0] {
-            0 => false,
-            1 => true,
+        let value = match bytes {
+            [0] => false,
+            [1] => true,
             _ => return None,
         };
 
-- 
2.43.0


From 0e3f7a98e8ede5d4808f71ed033900e41b10c550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:40 +0000
Subject: [PATCH 55/58] fix: printing logs that aren't UTF-8

---
 crates/host/types/src/receipt/log.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/host/types/src/receipt/log.rs b/crates/host/types/src/receipt/log.rs
index b6593ee..8555a44 100644
--- a/crates/host/types/src/receipt/log.rs
+++ b/crates/host/types/src/receipt/log.rs
@@ -28,7 +28,6 @@ impl fmt::Debug for ReceiptLog {
 }
 
 fn fmt_msg(log: &ReceiptLog) -> String {
-    let bytes = log.as_bytes().to_vec();
-
-    unsafe { String::from_utf8_unchecked(bytes) }
+    // Templates may log any bytes.
+    String::from_utf8_lossy(log.as_bytes()).into_owned()
 }
-- 
2.43.0


From afa0b8675290a5098b455a69813b9a0ed9a470ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:40 +0000
Subject: [PATCH 56/58] fix: header and deploy sections can be removed from a
 template, as documented

---
 crates/host/types/src/template/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/host/types/src/template/mod.rs b/crates/host/types/src/template/mod.rs
index 1f92f63..2ac0944 100644
--- a/crates/host/types/src/template/mod.rs
+++ b/crates/host/types/src/template/mod.rs
@@ -78,8 +78,11 @@ impl Template {
 
     /// Adds, removes or replaces a [`HeaderSection`] in `self`.
     pub fn with_header(mut self, header: Option<HeaderSection>) -> Self {
-        if let Some(header) = header {
-            self.sections.insert(Section::Header(header));
+        match header {
+            Some(header) => self.sections.insert(Section::Header(header)),
+            None => {
+                self.sections.try_take(SectionKind::Header);
+            }
         }
 
         self
@@ -87,8 +90,11 @@ impl Template {
 
     /// Adds, removes or replaces a [`DeploySection`] in `self`.
     pub fn with_deploy(mut self, deploy: Option<DeploySection>) -> Self {
-        if let Some(deploy) = deploy {
-            self.sections.insert(Section::Deploy(deploy));
+        match deploy {
+            Some(deploy) => self.sections.insert(Section::Deploy(deploy)),
+            None => {
+                self.sections.try_take(SectionKind::Deploy);
+            }
         }
 
         self
-- 
2.43.0


From b60b7a4dda6af0877db8e4af903a221ba40bdd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:03 +0000
Subject: [PATCH 57/58] fix: reading a variable of more than 32 bits as 32 bits
 fails, as documented

---
 crates/host/runtime/src/vmcalls/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/vmcalls/storage.rs b/crates/host/runtime/src/vmcalls/storage.rs
index 6f46843..ebf22ed 100644
--- a/crates/host/runtime/src/vmcalls/storage.rs
+++ b/crates/host/runtime/src/vmcalls/storage.rs
@@ -11,7 +11,7 @@ pub fn get32(env: &FuncEnv, var_id: u32) -> u32 {
     let rt = env.tokio_rt.clone();
     let borrow = env.borrow();
     let storage = borrow.storage();
-    rt.block_on(storage.get_var_i64(var_id)).unwrap() as u32
+    rt.block_on(storage.get_var_i32(var_id)).unwrap() as u32
 }
 
 /// Sets the data of variable `var_id` to Little-Endian representation of `value`.
-- 
2.43.0


From 091b2be44335a8c412914ffaf28e82366ec466bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:11 +0000
Subject: [PATCH 58/58] fix: use a single connection to the database

---
 crates/host/state/src/storage.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 3622e0e..645053a 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -60,7 +60,15 @@ impl Storage {
     /// The SQLite database may or may not be an empty database. If it's empty,
     /// then it will be initialized with the appropriate schema.
     pub async fn new(sqlite_uri: &str) -> Result<Self> {
-        let sqlite = sqlx::SqlitePool::connect(sqlite_uri).await?;
+        // A single connection, for as long as the pool lives: the connections to
+        // an in-memory database lock each other out, and it's gone with the
+        // last one.
+        let sqlite = sqlx::sqlite::SqlitePoolOptions::new()
+            .max_connections(1)
+            .idle_timeout(None)
+            .max_lifetime(None)
+            .connect(sqlite_uri)
+            .await?;
         Self::new_with_pool(sqlite).await
     }
 
-- 
2.43.0

