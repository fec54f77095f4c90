From 0ce58b04d14e825bd0986460eb23104e75070e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 01/59] fix: view queries honor order and limit for every kind
 of key selection

---
 crates/bonsaidb-local/src/database.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 0456cc2..136a2fc 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -796,12 +796,14 @@ impl Database {
                 SerializedQueryKey::Multiple(mut list) => {
                     list.sort();
 
-                    values.extend(
-                        view_entries
-                            .get_multiple(list.iter().map(|bytes| bytes.as_slice()))?
-                            .into_iter()
-                            .map(|(_, value)| value),
-                    );
+                    // The entries aren't guaranteed to be returned in key order.
+                    let mut entries =
+                        view_entries.get_multiple(list.iter().map(|bytes| bytes.as_slice()))?;
+                    entries.sort_by(|a, b| a.0.cmp(&b.0));
+                    if !forwards {
+                        entries.reverse();
+                    }
+                    values.extend(entries.into_iter().map(|(_, value)| value));
                 }
             }
         } else {
@@ -1469,8 +1471,12 @@ impl LowLevelConnection for Database {
             &BonsaiAction::Database(DatabaseAction::View(ViewAction::Query)),
         )?;
         let mut results = Vec::new();
+        let limit_results = limit.map_or(usize::MAX, |limit| limit as usize);
         self.for_each_in_view(view, key, order, limit, access_policy, |entry| {
-            for mapping in entry.mappings {
+            // An entry contains every mapping of its key, but `limit` restricts
+            // the number of mappings returned.
+            let remaining = limit_results - results.len();
+            for mapping in entry.mappings.into_iter().take(remaining) {
                 results.push(bonsaidb_core::schema::view::map::Serialized {
                     source: mapping.source,
                     key: entry.key.clone(),
-- 
2.43.0


From 9112232e405d0e6df2f1aa837de57ee275771bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 02/59] fix: delete_docs deletes each document once

---
 crates/bonsaidb-local/src/database.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 136a2fc..b48478c 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1617,9 +1617,13 @@ impl LowLevelConnection for Database {
         let view = self.data.schema.view_by_name(view)?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
+        // A document can be mapped more than once, but can only be deleted once.
+        let mut deleted_ids = HashSet::new();
         self.for_each_in_view(view, key, Sort::Ascending, None, access_policy, |entry| {
             for mapping in entry.mappings {
-                transaction.push(Operation::delete(collection.clone(), mapping.source));
+                if deleted_ids.insert(mapping.source.id.clone()) {
+                    transaction.push(Operation::delete(collection.clone(), mapping.source));
+                }
             }
 
             Ok(())
-- 
2.43.0


From ddfe9fce632630d68d7594947a21471df66b4ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 03/59] fix: deleted documents don't count towards the limit of
 a list

---
 crates/bonsaidb-local/src/database.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index b48478c..d07af96 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1261,7 +1261,11 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                if index.position == 0 {
+                    // Deleted documents remain in the tree without data.
+                    return ScanEvaluation::Skip;
+                }
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
@@ -1324,7 +1328,11 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                if index.position == 0 {
+                    // Deleted documents remain in the tree without data.
+                    return ScanEvaluation::Skip;
+                }
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
-- 
2.43.0


From f83d92882a7c2b1c0e83c1c5dd6b8be5cd1358bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 04/59] fix: compact trees of encrypted or compressed
 collections with their vault

---
 crates/bonsaidb-local/src/tasks/compactor.rs | 46 +++++++++++---------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index 8afeeb0..8ef2da4 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -1,8 +1,7 @@
-use std::borrow::Cow;
-
 use bonsaidb_core::connection::Connection;
 use bonsaidb_core::schema::CollectionName;
-use nebari::tree::{Root, Unversioned, Versioned};
+use nebari::io::any::AnyFile;
+use nebari::tree::{Root, TreeRoot, Unversioned, Versioned};
 
 use crate::database::keyvalue::KEY_TREE;
 use crate::database::{document_tree_name, DatabaseNonBlocking};
@@ -51,8 +50,8 @@ pub struct Compaction {
 
 #[derive(Debug, Clone, Hash, Eq, PartialEq)]
 pub enum Target {
-    VersionedTree(String),
-    UnversionedTree(String),
+    VersionedTree(CollectionName, String),
+    UnversionedTree(CollectionName, String),
     Collection(CollectionName),
     KeyValue,
     Database,
@@ -61,14 +60,20 @@ pub enum Target {
 impl Target {
     fn compact(self, database: &Database) -> Result<(), Error> {
         match self {
-            Target::UnversionedTree(name) => compact_tree::<Unversioned, _>(database, name),
-            Target::VersionedTree(name) => compact_tree::<Versioned, _>(database, name),
+            Target::UnversionedTree(collection, name) => compact_tree(
+                database,
+                database.collection_tree::<Unversioned, _>(&collection, name)?,
+            ),
+            Target::VersionedTree(collection, name) => compact_tree(
+                database,
+                database.collection_tree::<Versioned, _>(&collection, name)?,
+            ),
             Target::Collection(collection) => {
                 let mut trees = Vec::new();
                 gather_collection_trees(database, &collection, &mut trees);
                 compact_trees(database, trees)
             }
-            Target::KeyValue => compact_tree::<Unversioned, _>(database, KEY_TREE),
+            Target::KeyValue => compact_tree(database, Unversioned::tree(KEY_TREE)),
             Target::Database => {
                 let mut trees = Vec::new();
                 for collection in database.schematic().collections() {
@@ -102,16 +107,18 @@ fn gather_collection_trees(
     collection: &CollectionName,
     trees: &mut Vec<Target>,
 ) {
-    trees.push(Target::VersionedTree(document_tree_name(collection)));
-    trees.push(Target::UnversionedTree(view_versions_tree_name(collection)));
+    let unversioned = |name| Target::UnversionedTree(collection.clone(), name);
+    trees.push(Target::VersionedTree(
+        collection.clone(),
+        document_tree_name(collection),
+    ));
+    trees.push(unversioned(view_versions_tree_name(collection)));
 
     for view in database.data.schema.views_in_collection(collection) {
         let name = view.view_name();
-        trees.push(Target::UnversionedTree(view_entries_tree_name(&name)));
-        trees.push(Target::UnversionedTree(view_document_map_tree_name(&name)));
-        trees.push(Target::UnversionedTree(view_invalidated_docs_tree_name(
-            &name,
-        )));
+        trees.push(unversioned(view_entries_tree_name(&name)));
+        trees.push(unversioned(view_document_map_tree_name(&name)));
+        trees.push(unversioned(view_invalidated_docs_tree_name(&name)));
     }
 }
 
@@ -134,11 +141,8 @@ fn compact_trees(database: &Database, targets: Vec<Target>) -> Result<(), Error>
     Ok(())
 }
 
-fn compact_tree<R: Root, S: Into<Cow<'static, str>>>(
-    database: &Database,
-    name: S,
-) -> Result<(), Error> {
-    let documents = database.roots().tree(R::tree(name))?;
-    documents.compact()?;
+fn compact_tree<R: Root>(database: &Database, tree: TreeRoot<R, AnyFile>) -> Result<(), Error> {
+    let tree = database.roots().tree(tree)?;
+    tree.compact()?;
     Ok(())
 }
-- 
2.43.0


From 75395f8226d028f804d59fa2d1f84dd851bc1ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 05/59] fix: count only the documents within the requested
 range

---
 crates/bonsaidb-local/src/database.rs | 30 +++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index d07af96..dbe0634 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1383,10 +1383,36 @@ impl LowLevelConnection for Database {
             .roots
             .tree(self.collection_tree::<Versioned, _>(collection, document_tree_name(collection))?)
             .map_err(Error::from)?;
+        if matches!(
+            (&ids.start, &ids.end),
+            (connection::Bound::Unbounded, connection::Bound::Unbounded)
+        ) {
+            let stats = tree.reduce(&(..)).map_err(Error::from)?;
+            return Ok(stats.alive_keys);
+        }
+
+        // Reducing a tree can include nodes that are only partially contained
+        // within the range, so the keys are counted instead.
+        let mut alive_keys = 0;
         let ids = DocumentIdRange(ids);
-        let stats = tree.reduce(&ids.borrow_as_bytes()).map_err(Error::from)?;
+        tree.scan::<Infallible, _, _, _, _>(
+            &ids.borrow_as_bytes(),
+            true,
+            |_, _, _| ScanEvaluation::ReadData,
+            |_, index| {
+                if index.position > 0 {
+                    alive_keys += 1;
+                }
+                ScanEvaluation::Skip
+            },
+            |_, _, _| Ok(()),
+        )
+        .map_err(|err| match err {
+            AbortError::Other(_) => unreachable!(),
+            AbortError::Nebari(err) => Error::from(err),
+        })?;
 
-        Ok(stats.alive_keys)
+        Ok(alive_keys)
     }
 
     #[cfg_attr(feature = "tracing", tracing::instrument(
-- 
2.43.0


From 5819af0b53a4926b50964ae8f7b34f4149713768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 06/59] fix: don't let documents change while a view's outdated
 index is replaced

---
 .../src/views/integrity_scanner.rs            | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 9728893..5e582ff 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -7,7 +7,7 @@ use std::sync::Arc;
 use bonsaidb_core::document::DocumentId;
 use bonsaidb_core::schema::{CollectionName, ViewName};
 use nebari::io::any::AnyFile;
-use nebari::tree::{Operation, ScanEvaluation, Unversioned, Versioned};
+use nebari::tree::{AnyTreeRoot, Operation, ScanEvaluation, Unversioned, Versioned};
 use nebari::{ArcBytes, Roots, Tree};
 use parking_lot::Mutex;
 use serde::{Deserialize, Serialize};
@@ -71,29 +71,34 @@ impl Job for IntegrityScanner {
         let task = if version.is_current(view_version) {
             None
         } else {
-            // The view isn't the current version, queue up all documents.
+            // The view isn't the current version, queue up all documents. No
+            // document can be allowed to change between gathering the list of
+            // documents and invalidating them, because the trees that track
+            // those changes are being replaced.
+            let invalidated_entries_tree = self.database.collection_tree::<Unversioned, _>(
+                &self.scan.collection,
+                view_invalidated_docs_tree_name(&self.scan.view_name),
+            )?;
+            let transaction = roots.transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
+                Box::new(documents.clone()) as Box<dyn AnyTreeRoot<AnyFile>>,
+                Box::new(invalidated_entries_tree),
+                Box::new(view_versions_tree),
+            ])?;
             let missing_entries = tree_keys::<Versioned>(&documents)?;
             // When a version is updated, we can make no guarantees about
             // existing keys. The best we can do is delete the existing files so
             // that the view starts fresh.
-            roots.delete_tree(view_invalidated_docs_tree_name(&self.scan.view_name))?;
             roots.delete_tree(view_entries_tree_name(&self.scan.view_name))?;
             roots.delete_tree(view_document_map_tree_name(&self.scan.view_name))?;
             // Add all missing entries to the invalidated list. The view
             // mapping job will update them on the next pass.
-            let invalidated_entries_tree = self.database.collection_tree::<Unversioned, _>(
-                &self.scan.collection,
-                view_invalidated_docs_tree_name(&self.scan.view_name),
-            )?;
-
-            let transaction = roots.transaction(&[invalidated_entries_tree, view_versions_tree])?;
             {
-                let mut view_versions = transaction.tree::<Unversioned>(1).unwrap();
+                let mut view_versions = transaction.tree::<Unversioned>(2).unwrap();
                 view_versions.set(
                     view_name.to_string().as_bytes().to_vec(),
                     ViewVersion::current_for(view_version).to_vec()?,
                 )?;
-                let mut invalidated_entries = transaction.tree::<Unversioned>(0).unwrap();
+                let mut invalidated_entries = transaction.tree::<Unversioned>(1).unwrap();
                 let mut missing_entries = missing_entries
                     .into_iter()
                     .map(|id| ArcBytes::from(id.to_vec()))
-- 
2.43.0


From d70ffe47230329dc3ea0e9fc828b1bd81b1df2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 07/59] verif: named points for the verification harness (cfg
 bonsai_verif)

---
 crates/bonsaidb-local/src/database.rs         |  6 +++++
 .../bonsaidb-local/src/database/keyvalue.rs   |  4 ++++
 crates/bonsaidb-local/src/lib.rs              |  3 +++
 crates/bonsaidb-local/src/verif.rs            | 24 +++++++++++++++++++
 .../src/views/integrity_scanner.rs            |  4 ++++
 crates/bonsaidb-local/src/views/mapper.rs     |  6 +++++
 6 files changed, 47 insertions(+)
 create mode 100644 crates/bonsaidb-local/src/verif.rs

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index dbe0634..c714b21 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -315,6 +315,8 @@ impl Database {
             .roots
             .transaction::<_, dyn AnyTreeRoot<AnyFile>>(&open_trees.trees)?;
 
+        #[cfg(bonsai_verif)]
+        crate::verif::point("tx.locked");
         let mut results = Vec::new();
         let mut changed_documents = Vec::new();
         let mut collection_indexes = HashMap::new();
@@ -372,7 +374,11 @@ impl Database {
                 }),
             )?)?;
 
+        #[cfg(bonsai_verif)]
+        crate::verif::point("tx.commit");
         roots_transaction.commit()?;
+        #[cfg(bonsai_verif)]
+        crate::verif::point("tx.committed");
 
         Ok(results)
     }
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 0435692..6fdaf78 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -686,6 +686,8 @@ impl KeyValueState {
         roots: &Roots<AnyFile>,
         keys: &BTreeMap<String, Option<Entry>>,
     ) -> Result<(), bonsaidb_core::Error> {
+        #[cfg(bonsai_verif)]
+        crate::verif::point("kv.persist");
         let mut transaction = roots
             .transaction(&[Unversioned::tree(KEY_TREE)])
             .map_err(Error::from)?;
@@ -735,6 +737,8 @@ impl KeyValueState {
             transaction.commit().map_err(Error::from)?;
         }
 
+        #[cfg(bonsai_verif)]
+        crate::verif::point("kv.persisted");
         // If we are shutting down, check if we still have dirty keys.
         let final_keys = {
             let mut state = key_value_state.lock();
diff --git a/crates/bonsaidb-local/src/lib.rs b/crates/bonsaidb-local/src/lib.rs
index 297c821..5555fe3 100644
--- a/crates/bonsaidb-local/src/lib.rs
+++ b/crates/bonsaidb-local/src/lib.rs
@@ -29,6 +29,9 @@ mod storage;
 mod tasks;
 #[cfg(feature = "encryption")]
 pub mod vault;
+/// Hooks for verification harnesses.
+#[cfg(bonsai_verif)]
+pub mod verif;
 mod views;
 
 #[cfg(feature = "password-hashing")]
diff --git a/crates/bonsaidb-local/src/verif.rs b/crates/bonsaidb-local/src/verif.rs
new file mode 100644
index 0000000..456052a
--- /dev/null
+++ b/crates/bonsaidb-local/src/verif.rs
@@ -0,0 +1,24 @@
+//! Named points at which a verification harness can delay or observe the
+//! current thread. Only compiled with `--cfg bonsai_verif`.
+#![allow(missing_docs)]
+
+use std::sync::Arc;
+
+use parking_lot::RwLock;
+
+type Hook = Arc<dyn Fn(&'static str) + Send + Sync>;
+
+static HOOK: RwLock<Option<Hook>> = parking_lot::const_rwlock(None);
+
+/// Installs or removes the function called at every point.
+pub fn set_hook(hook: Option<Hook>) {
+    *HOOK.write() = hook;
+}
+
+/// Invokes the installed hook.
+pub fn point(name: &'static str) {
+    let hook = HOOK.read().clone();
+    if let Some(hook) = hook {
+        hook(name);
+    }
+}
diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 5e582ff..6589eaa 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -85,6 +85,8 @@ impl Job for IntegrityScanner {
                 Box::new(view_versions_tree),
             ])?;
             let missing_entries = tree_keys::<Versioned>(&documents)?;
+            #[cfg(bonsai_verif)]
+            crate::verif::point("scan.listed");
             // When a version is updated, we can make no guarantees about
             // existing keys. The best we can do is delete the existing files so
             // that the view starts fresh.
@@ -107,6 +109,8 @@ impl Job for IntegrityScanner {
                 invalidated_entries.modify(missing_entries, Operation::Set(ArcBytes::default()))?;
             }
             transaction.commit()?;
+            #[cfg(bonsai_verif)]
+            crate::verif::point("scan.committed");
 
             Some(Arc::new(Mutex::new(Some(
                 self.database
diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 98360b3..bf7e893 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -78,6 +78,8 @@ impl Job for Mapper {
             .last_transaction_id()?
             .expect("no way to have documents without a transaction");
 
+        #[cfg(bonsai_verif)]
+        crate::verif::point("mapper.txid");
         let storage = self.database.clone();
         let map_request = self.map.clone();
 
@@ -116,6 +118,8 @@ fn map_view(
         .into_iter()
         .map(|(key, _)| key)
         .collect::<Vec<_>>();
+    #[cfg(bonsai_verif)]
+    crate::verif::point("mapper.invalidated");
     while !invalidated_ids.is_empty() {
         let transaction = database
             .roots()
@@ -153,6 +157,8 @@ fn map_view(
             invalidated_entries.modify(document_ids, nebari::tree::Operation::Remove)?;
         }
         transaction.commit()?;
+        #[cfg(bonsai_verif)]
+        crate::verif::point("mapper.committed");
     }
 
     Ok(())
-- 
2.43.0


From e38c2f9403bed32127acde322d78e633fd9b7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 08/59] fix: mark a view current only up to transactions whose
 changes were seen

The mapper read the last transaction id and the list of invalidated
documents while transactions were being published: a transaction's id is
recorded in the log before its changes can be read, so a view could be
marked current up to a transaction whose changed documents were not in the
list it had just mapped. Queries then missed committed changes until the
next write to the collection.
---
 crates/bonsaidb-local/src/views/mapper.rs | 24 +++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index bf7e893..426dddc 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -73,10 +73,25 @@ impl Job for Mapper {
                     view_invalidated_docs_tree_name(&self.map.view_name),
                 )?)?;
 
+        // A transaction's id is recorded before its changes can be read. While
+        // the list of invalidated documents is locked, each transaction that
+        // added to it is either completely visible or hasn't been recorded yet.
+        let lock = self
+            .database
+            .roots()
+            .transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
+                Box::new(invalidated_entries.clone()) as Box<dyn AnyTreeRoot<AnyFile>>
+            ])?;
         let transaction_id = self
             .database
             .last_transaction_id()?
             .expect("no way to have documents without a transaction");
+        let invalidated_ids = invalidated_entries
+            .get_range(&(..))?
+            .into_iter()
+            .map(|(key, _)| key)
+            .collect::<Vec<_>>();
+        drop(lock);
 
         #[cfg(bonsai_verif)]
         crate::verif::point("mapper.txid");
@@ -84,6 +99,7 @@ impl Job for Mapper {
         let map_request = self.map.clone();
 
         map_view(
+            invalidated_ids,
             &invalidated_entries,
             &document_map,
             &documents,
@@ -104,6 +120,7 @@ impl Job for Mapper {
 }
 
 fn map_view(
+    mut invalidated_ids: Vec<ArcBytes<'static>>,
     invalidated_entries: &Tree<Unversioned, AnyFile>,
     document_map: &Tree<Unversioned, AnyFile>,
     documents: &Tree<Versioned, AnyFile>,
@@ -112,14 +129,9 @@ fn map_view(
     map_request: &Map,
 ) -> Result<(), Error> {
     const CHUNK_SIZE: usize = 100_000;
-    // Only do any work if there are invalidated documents to process
-    let mut invalidated_ids = invalidated_entries
-        .get_range(&(..))?
-        .into_iter()
-        .map(|(key, _)| key)
-        .collect::<Vec<_>>();
     #[cfg(bonsai_verif)]
     crate::verif::point("mapper.invalidated");
+    // Only do any work if there are invalidated documents to process
     while !invalidated_ids.is_empty() {
         let transaction = database
             .roots()
-- 
2.43.0


From e7a81b844cb8fdc6c22c2412be746261e8cdb787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 09/59] fix: don't compact a view's trees while they are being
 recreated

Building a view's index deletes its trees. A compaction of the same tree
running at that time replaced the new tree's file with the old contents:
compactions and queries failed, transactions failed with 'the file has been
compacted', or queries never returned.
---
 crates/bonsaidb-local/src/database.rs                | 11 ++++++++++-
 crates/bonsaidb-local/src/tasks/compactor.rs         |  1 +
 crates/bonsaidb-local/src/views/integrity_scanner.rs |  1 +
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index c714b21..ec0bbfb 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -38,7 +38,7 @@ use nebari::tree::{
     Unversioned, Versioned,
 };
 use nebari::{AbortError, ExecutingTransaction, Roots, Tree};
-use parking_lot::Mutex;
+use parking_lot::{Mutex, RwLock};
 use serde::{Deserialize, Serialize};
 use watchable::Watchable;
 
@@ -197,6 +197,10 @@ impl Database {
         &self.data.context.roots
     }
 
+    pub(crate) fn tree_files(&self) -> &'_ RwLock<()> {
+        &self.data.context.tree_files
+    }
+
     fn for_each_in_view<F: FnMut(ViewEntry) -> Result<(), bonsaidb_core::Error> + Send + Sync>(
         &self,
         view: &dyn view::Serialized,
@@ -1715,6 +1719,10 @@ impl Deref for Context {
 #[derive(Debug)]
 pub(crate) struct ContextData {
     pub(crate) roots: Roots<AnyFile>,
+    /// Held for writing while trees are deleted and for reading while trees are
+    /// compacted: compacting replaces a tree's file, which must not happen to a
+    /// tree that is being recreated.
+    pub(crate) tree_files: RwLock<()>,
     key_value_state: Arc<Mutex<keyvalue::KeyValueState>>,
 }
 
@@ -1741,6 +1749,7 @@ impl Context {
         let context = Self {
             data: Arc::new(ContextData {
                 roots,
+                tree_files: RwLock::default(),
                 key_value_state,
             }),
         };
diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index 8ef2da4..deb954d 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -142,6 +142,7 @@ fn compact_trees(database: &Database, targets: Vec<Target>) -> Result<(), Error>
 }
 
 fn compact_tree<R: Root>(database: &Database, tree: TreeRoot<R, AnyFile>) -> Result<(), Error> {
+    let _tree_files = database.tree_files().read();
     let tree = database.roots().tree(tree)?;
     tree.compact()?;
     Ok(())
diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 6589eaa..deca86f 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -79,6 +79,7 @@ impl Job for IntegrityScanner {
                 &self.scan.collection,
                 view_invalidated_docs_tree_name(&self.scan.view_name),
             )?;
+            let _tree_files = self.database.tree_files().write();
             let transaction = roots.transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
                 Box::new(documents.clone()) as Box<dyn AnyTreeRoot<AnyFile>>,
                 Box::new(invalidated_entries_tree),
-- 
2.43.0


From 3541e5d6915e45d06f6c82c3017eb0151b5d7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 10/59] fix: persist keys changed during a commit when the
 database is closed

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 6fdaf78..b1ffc41 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -239,7 +239,9 @@ impl KeyValueState {
     }
 
     pub fn shutdown(&mut self, state: &Arc<Mutex<KeyValueState>>) -> Option<flume::Receiver<()>> {
-        if self.keys_being_persisted.is_none() && self.commit_dirty_keys(state) {
+        // If keys are currently being persisted, the thread persisting them will
+        // persist the dirty keys once it's done.
+        if self.commit_dirty_keys(state) || self.keys_being_persisted.is_some() {
             let (shutdown_sender, shutdown_receiver) = flume::bounded(1);
             self.shutdown = Some(shutdown_sender);
             Some(shutdown_receiver)
-- 
2.43.0


From cf5a4bafb489facd01b37286c053fed3b6a688cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 11/59] fix: load a key's expiration only if it is still
 current

---
 crates/bonsaidb-local/src/database.rs         | 23 +++++++++++++------
 .../bonsaidb-local/src/database/keyvalue.rs   | 18 ++++++++++++++-
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index ec0bbfb..1687486 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -908,14 +908,12 @@ impl Database {
         Ok(tree)
     }
 
-    pub(crate) fn update_key_expiration<'key>(
+    pub(crate) fn load_key_expiration(
         &self,
-        tree_key: impl Into<Cow<'key, str>>,
-        expiration: Option<Timestamp>,
-    ) {
-        self.data
-            .context
-            .update_key_expiration(tree_key, expiration);
+        tree_key: String,
+        launched_at: Timestamp,
+    ) -> Result<(), Error> {
+        self.data.context.load_key_expiration(tree_key, launched_at)
     }
 
     /// Converts this instance into its blocking version, which is able to be
@@ -1774,6 +1772,7 @@ impl Context {
         state.perform_kv_operation(op, &self.data.key_value_state)
     }
 
+    #[cfg(test)]
     pub(crate) fn update_key_expiration<'key>(
         &self,
         tree_key: impl Into<Cow<'key, str>>,
@@ -1783,6 +1782,16 @@ impl Context {
         state.update_key_expiration(tree_key, expiration);
     }
 
+    pub(crate) fn load_key_expiration(
+        &self,
+        tree_key: String,
+        launched_at: Timestamp,
+    ) -> Result<(), Error> {
+        let mut state = self.data.key_value_state.lock();
+        state.load_key_expiration(tree_key, launched_at)?;
+        Ok(())
+    }
+
     #[cfg(test)]
     pub(crate) fn kv_persistence_watcher(&self) -> watchable::Watcher<Timestamp> {
         let state = self.data.key_value_state.lock();
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index b1ffc41..e3f8391 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -421,6 +421,22 @@ impl KeyValueState {
         }
     }
 
+    /// Loads the expiration of a key that was last updated before `launched_at`.
+    /// Keys that have been updated since then already have their expiration
+    /// tracked.
+    pub fn load_key_expiration(
+        &mut self,
+        tree_key: String,
+        launched_at: Timestamp,
+    ) -> Result<(), nebari::Error> {
+        if let Some(entry) = self.get(&tree_key)? {
+            if entry.last_updated < launched_at && entry.expiration.is_some() {
+                self.update_key_expiration(tree_key, entry.expiration);
+            }
+        }
+        Ok(())
+    }
+
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self)))]
     fn execute_get_operation(
         &mut self,
@@ -861,7 +877,7 @@ impl Job for ExpirationLoader {
         for ((namespace, key), entry) in database.all_key_value_entries()? {
             if entry.last_updated < launched_at && entry.expiration.is_some() {
                 self.database
-                    .update_key_expiration(full_key(namespace.as_deref(), &key), entry.expiration);
+                    .load_key_expiration(full_key(namespace.as_deref(), &key), launched_at)?;
             }
         }
 
-- 
2.43.0


From 1b811282567365f1a08ec1eebdaba802bbeeee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 12/59] fix: keys persisted before the database was opened
 aren't visible once expired

---
 .../bonsaidb-local/src/database/keyvalue.rs   | 68 +++++++++++++------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index e3f8391..6f149be 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -135,6 +135,12 @@ fn full_key(namespace: Option<&str>, key: &str) -> String {
     full_key
 }
 
+/// The keys that were persisted before the database was opened aren't removed
+/// when they expire until their expirations have been loaded.
+fn unexpired(entry: Option<Entry>, now: Timestamp) -> Option<Entry> {
+    entry.filter(|entry| entry.expiration.map_or(true, |expiration| expiration > now))
+}
+
 fn split_key(full_key: &str) -> Option<(Option<String>, String)> {
     if let Some((namespace, key)) = full_key.split_once('\0') {
         let namespace = if namespace.is_empty() {
@@ -263,9 +269,11 @@ impl KeyValueState {
                 self.execute_set_operation(op.namespace.as_deref(), &op.key, command, now)
             }
             Command::Get { delete } => {
-                self.execute_get_operation(op.namespace.as_deref(), &op.key, delete)
+                self.execute_get_operation(op.namespace.as_deref(), &op.key, delete, now)
+            }
+            Command::Delete => {
+                self.execute_delete_operation(op.namespace.as_deref(), &op.key, now)
             }
-            Command::Delete => self.execute_delete_operation(op.namespace.as_deref(), &op.key),
             Command::Increment { amount, saturating } => self.execute_increment_operation(
                 op.namespace.as_deref(),
                 &op.key,
@@ -309,7 +317,7 @@ impl KeyValueState {
         let full_key = full_key(namespace, key);
         let possible_existing_value =
             if set.check.is_some() || set.return_previous_value || set.keep_existing_expiration {
-                Some(self.get(&full_key).map_err(Error::from)?)
+                Some(self.get(&full_key, now).map_err(Error::from)?)
             } else {
                 None
             };
@@ -333,7 +341,7 @@ impl KeyValueState {
                 self.set(full_key, entry);
                 existing_value
             } else {
-                self.replace(full_key, entry).map_err(Error::from)?
+                self.replace(full_key, entry, now).map_err(Error::from)?
             };
             if set.return_previous_value {
                 Ok(Output::Value(previous_value.map(|entry| entry.value)))
@@ -429,7 +437,7 @@ impl KeyValueState {
         tree_key: String,
         launched_at: Timestamp,
     ) -> Result<(), nebari::Error> {
-        if let Some(entry) = self.get(&tree_key)? {
+        if let Some(entry) = self.get_including_expired(&tree_key)? {
             if entry.last_updated < launched_at && entry.expiration.is_some() {
                 self.update_key_expiration(tree_key, entry.expiration);
             }
@@ -437,31 +445,39 @@ impl KeyValueState {
         Ok(())
     }
 
-    #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self)))]
+    #[cfg_attr(
+        feature = "tracing",
+        tracing::instrument(level = "trace", skip(self, now))
+    )]
     fn execute_get_operation(
         &mut self,
         namespace: Option<&str>,
         key: &str,
         delete: bool,
+        now: Timestamp,
     ) -> Result<Output, bonsaidb_core::Error> {
         let full_key = full_key(namespace, key);
         let entry = if delete {
-            self.remove(full_key).map_err(Error::from)?
+            self.remove(full_key, now).map_err(Error::from)?
         } else {
-            self.get(&full_key).map_err(Error::from)?
+            self.get(&full_key, now).map_err(Error::from)?
         };
 
         Ok(Output::Value(entry.map(|e| e.value)))
     }
 
-    #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self)))]
+    #[cfg_attr(
+        feature = "tracing",
+        tracing::instrument(level = "trace", skip(self, now))
+    )]
     fn execute_delete_operation(
         &mut self,
         namespace: Option<&str>,
         key: &str,
+        now: Timestamp,
     ) -> Result<Output, bonsaidb_core::Error> {
         let full_key = full_key(namespace, key);
-        let value = self.remove(full_key).map_err(Error::from)?;
+        let value = self.remove(full_key, now).map_err(Error::from)?;
         if value.is_some() {
             Ok(Output::Status(KeyStatus::Deleted))
         } else {
@@ -509,7 +525,7 @@ impl KeyValueState {
         op: F,
     ) -> Result<Output, bonsaidb_core::Error> {
         let full_key = full_key(namespace, key);
-        let current = self.get(&full_key).map_err(Error::from)?;
+        let current = self.get(&full_key, now).map_err(Error::from)?;
         let mut entry = current.unwrap_or(Entry {
             value: Value::Numeric(Numeric::UnsignedInteger(0)),
             expiration: None,
@@ -531,29 +547,34 @@ impl KeyValueState {
         }
     }
 
-    #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self)))]
-    fn remove(&mut self, key: String) -> Result<Option<Entry>, nebari::Error> {
+    #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self, now)))]
+    fn remove(&mut self, key: String, now: Timestamp) -> Result<Option<Entry>, nebari::Error> {
         self.update_key_expiration(&key, None);
 
         if let Some(dirty_entry) = self.dirty_keys.get_mut(&key) {
-            Ok(dirty_entry.take())
+            Ok(unexpired(dirty_entry.take(), now))
         } else if let Some(persisting_entry) = self
             .keys_being_persisted
             .as_ref()
             .and_then(|keys| keys.get(&key))
         {
             self.dirty_keys.insert(key, None);
-            Ok(persisting_entry.clone())
+            Ok(unexpired(persisting_entry.clone(), now))
         } else {
             // There might be a value on-disk we need to remove.
             let previous_value = Self::retrieve_key_from_disk(&self.roots, &key)?;
             self.dirty_keys.insert(key, None);
-            Ok(previous_value)
+            Ok(unexpired(previous_value, now))
         }
     }
 
-    #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self)))]
-    fn get(&self, key: &str) -> Result<Option<Entry>, nebari::Error> {
+    #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self, now)))]
+    fn get(&self, key: &str, now: Timestamp) -> Result<Option<Entry>, nebari::Error> {
+        self.get_including_expired(key)
+            .map(|entry| unexpired(entry, now))
+    }
+
+    fn get_including_expired(&self, key: &str) -> Result<Option<Entry>, nebari::Error> {
         if let Some(entry) = self.dirty_keys.get(key) {
             Ok(entry.clone())
         } else if let Some(persisting_entry) = self
@@ -571,7 +592,12 @@ impl KeyValueState {
         self.dirty_keys.insert(key, Some(value));
     }
 
-    fn replace(&mut self, key: String, value: Entry) -> Result<Option<Entry>, nebari::Error> {
+    fn replace(
+        &mut self,
+        key: String,
+        value: Entry,
+        now: Timestamp,
+    ) -> Result<Option<Entry>, nebari::Error> {
         let mut value = Some(value);
         let map_entry = self.dirty_keys.entry(key);
         if matches!(map_entry, btree_map::Entry::Vacant(_)) {
@@ -587,14 +613,14 @@ impl KeyValueState {
                 Self::retrieve_key_from_disk(&self.roots, map_entry.key())?
             };
             map_entry.or_insert(value);
-            Ok(stored_value)
+            Ok(unexpired(stored_value, now))
         } else {
             // This key is already dirty, we can just replace the value and
             // return the old value.
             map_entry.and_modify(|map_entry| {
                 std::mem::swap(&mut value, map_entry);
             });
-            Ok(value)
+            Ok(unexpired(value, now))
         }
     }
 
-- 
2.43.0


From 75d55e1d737dda3505c43078c0ad3c782f8e4676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 13/59] fix: map an eager view's invalidated documents before
 its integrity check is complete

---
 .../src/views/integrity_scanner.rs            | 55 +++++++++++++------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index deca86f..7c723d1 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -68,21 +68,20 @@ impl Job for IntegrityScanner {
         // Remove any old files that are no longer used.
         version.cleanup(&roots, &view_name)?;
 
-        let task = if version.is_current(view_version) {
-            None
-        } else {
+        let invalidated_entries_tree = self.database.collection_tree::<Unversioned, _>(
+            &self.scan.collection,
+            view_invalidated_docs_tree_name(&self.scan.view_name),
+        )?;
+        let is_current = version.is_current(view_version);
+        if !is_current {
             // The view isn't the current version, queue up all documents. No
             // document can be allowed to change between gathering the list of
             // documents and invalidating them, because the trees that track
             // those changes are being replaced.
-            let invalidated_entries_tree = self.database.collection_tree::<Unversioned, _>(
-                &self.scan.collection,
-                view_invalidated_docs_tree_name(&self.scan.view_name),
-            )?;
             let _tree_files = self.database.tree_files().write();
             let transaction = roots.transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
                 Box::new(documents.clone()) as Box<dyn AnyTreeRoot<AnyFile>>,
-                Box::new(invalidated_entries_tree),
+                Box::new(invalidated_entries_tree.clone()),
                 Box::new(view_versions_tree),
             ])?;
             let missing_entries = tree_keys::<Versioned>(&documents)?;
@@ -112,21 +111,43 @@ impl Job for IntegrityScanner {
             transaction.commit()?;
             #[cfg(bonsai_verif)]
             crate::verif::point("scan.committed");
+        }
 
+        let mut mapper = Mapper {
+            database: self.database.clone(),
+            map: Map {
+                database: self.database.data.name.clone(),
+                collection: self.scan.collection.clone(),
+                view_name: self.scan.view_name.clone(),
+            },
+        };
+        let is_eager = self
+            .database
+            .data
+            .schema
+            .view_by_name(&self.scan.view_name)
+            .map_or(false, |view| view.update_policy().is_eager());
+        let mut mapped = Ok(());
+        let task = if is_eager {
+            // Transactions keep eager views up-to-date themselves as soon as the
+            // integrity check is complete. All documents that have been
+            // invalidated by a lazy view's transactions or by the code above
+            // must be mapped before that.
+            let invalidated_entries = roots.tree(invalidated_entries_tree)?;
+            if invalidated_entries.first_key()?.is_some() {
+                mapped = mapper.execute().map(|_| ());
+            }
+            None
+        } else if is_current {
+            None
+        } else {
             Some(Arc::new(Mutex::new(Some(
                 self.database
                     .storage
                     .instance
                     .tasks()
                     .jobs
-                    .lookup_or_enqueue(Mapper {
-                        database: self.database.clone(),
-                        map: Map {
-                            database: self.database.data.name.clone(),
-                            collection: self.scan.collection.clone(),
-                            view_name: self.scan.view_name.clone(),
-                        },
-                    }),
+                    .lookup_or_enqueue(mapper),
             ))))
         };
 
@@ -140,7 +161,7 @@ impl Job for IntegrityScanner {
                 self.scan.view_name.clone(),
             );
 
-        Ok(task)
+        mapped.map(|()| task)
     }
 }
 
-- 
2.43.0


From 228bd942fbc5b8ed4c39c865c382d6516ffbf8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 14/59] fix: index a view from scratch when it is added to the
 schema again

---
 crates/bonsaidb-local/src/database.rs | 41 ++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 1687486..b4d859c 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -51,7 +51,7 @@ use crate::storage::StorageLock;
 use crate::storage::TreeVault;
 use crate::views::{
     mapper, view_document_map_tree_name, view_entries_tree_name, view_invalidated_docs_tree_name,
-    ViewEntry,
+    view_versions_tree_name, ViewEntry,
 };
 use crate::Storage;
 
@@ -141,6 +141,8 @@ impl Database {
             }),
         };
 
+        db.forget_removed_views()?;
+
         if storage.instance.check_view_integrity_on_database_open() {
             for view in db.data.schema.views() {
                 storage.instance.tasks().spawn_integrity_check(view, &db);
@@ -155,6 +157,41 @@ impl Database {
         Ok(db)
     }
 
+    /// Removes the recorded versions of views that are no longer part of the
+    /// schema. Their indexes aren't updated when documents change. If a view is
+    /// added to the schema again, it must be indexed as if it were a new view.
+    fn forget_removed_views(&self) -> Result<(), Error> {
+        let mut checked = self.data.context.removed_views_forgotten.lock();
+        if !*checked {
+            let tree_names = self.roots().tree_names()?;
+            for collection in self.data.schema.collections() {
+                let tree_name = view_versions_tree_name(collection);
+                if !tree_names.contains(&tree_name) {
+                    continue;
+                }
+                let view_versions = self
+                    .roots()
+                    .tree(self.collection_tree::<Unversioned, _>(collection, tree_name)?)?;
+                let views = self
+                    .data
+                    .schema
+                    .views_in_collection(collection)
+                    .map(|view| view.view_name().to_string())
+                    .collect::<HashSet<_>>();
+                for (view_name, _) in view_versions.get_range(&(..))? {
+                    if !views
+                        .iter()
+                        .any(|view| view.as_bytes() == view_name.as_slice())
+                    {
+                        view_versions.remove(&view_name)?;
+                    }
+                }
+            }
+            *checked = true;
+        }
+        Ok(())
+    }
+
     /// Restricts an unauthenticated instance to having `effective_permissions`.
     /// Returns `None` if a session has already been established.
     #[must_use]
@@ -1721,6 +1758,7 @@ pub(crate) struct ContextData {
     /// compacted: compacting replaces a tree's file, which must not happen to a
     /// tree that is being recreated.
     pub(crate) tree_files: RwLock<()>,
+    removed_views_forgotten: Mutex<bool>,
     key_value_state: Arc<Mutex<keyvalue::KeyValueState>>,
 }
 
@@ -1748,6 +1786,7 @@ impl Context {
             data: Arc::new(ContextData {
                 roots,
                 tree_files: RwLock::default(),
+                removed_views_forgotten: Mutex::default(),
                 key_value_state,
             }),
         };
-- 
2.43.0


From 46808fef95c30922bc6b844b9f5a0805bfeb1143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 15/59] verif: point in the key expiration loader

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 6f149be..fd9ec5a 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -902,6 +902,8 @@ impl Job for ExpirationLoader {
 
         for ((namespace, key), entry) in database.all_key_value_entries()? {
             if entry.last_updated < launched_at && entry.expiration.is_some() {
+                #[cfg(bonsai_verif)]
+                crate::verif::point("kv.loader");
                 self.database
                     .load_key_expiration(full_key(namespace.as_deref(), &key), launched_at)?;
             }
-- 
2.43.0


From 6fd30882f87a78c511eecba528c271be715e9d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 16/59] fix: don't wait for the transaction of a commit that
 changes nothing while shutting down

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index fd9ec5a..efe542b 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -771,7 +771,10 @@ impl KeyValueState {
             )
             .map_err(Error::from)?;
 
-        if !changed_keys.is_empty() {
+        if changed_keys.is_empty() {
+            // Keys that are changed while shutting down are persisted below.
+            drop(transaction);
+        } else {
             transaction
                 .entry_mut()
                 .set_data(compat::serialize_executed_transaction_changes(
-- 
2.43.0


From cdf8676c9eb783103b78a01e16c552491d6f6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 17/59] fix: don't leave an incomplete master keys file when
 stopped while initializing the vault

---
 crates/bonsaidb-local/src/vault.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/vault.rs b/crates/bonsaidb-local/src/vault.rs
index fa3dc2d..66b6677 100644
--- a/crates/bonsaidb-local/src/vault.rs
+++ b/crates/bonsaidb-local/src/vault.rs
@@ -253,8 +253,12 @@ impl Vault {
                 tag,
             })?;
 
-            File::create(master_keys_path)
+            // An incomplete file can't be unsealed. Renaming the finished file
+            // ensures that it either doesn't exist or is complete.
+            let pending_path = master_keys_path.with_extension("pending");
+            File::create(&pending_path)
                 .and_then(move |mut file| file.write_all(&encrypted_master_keys_payload))
+                .and_then(|_| std::fs::rename(pending_path, master_keys_path))
                 .map_err(|err| Error::Initializing(format!("error saving vault key: {err:?}")))?;
 
             Ok(Self {
-- 
2.43.0


From ba10f5954a2c05ff4164af5cc0acd90e964b5783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 18/59] fix: accept a storage id file that was created but
 never written

---
 crates/bonsaidb-local/src/storage.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 18ae5bb..91248fc 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -405,14 +405,22 @@ impl Storage {
             if id_path.exists() {
                 // This value is important enought to not allow launching the
                 // server if the file can't be read or contains unexpected data.
-                let mut file = File::open(id_path)?;
+                let mut file = File::open(&id_path)?;
                 file.lock_exclusive()?;
                 let mut bytes = Vec::new();
                 file.read_to_end(&mut bytes)?;
-                let existing_id =
-                    String::from_utf8(bytes).expect("server-id contains invalid data");
-
-                (existing_id.parse().expect("server-id isn't numeric"), file)
+                if bytes.is_empty() {
+                    // The process stopped after creating the file but before
+                    // storing the id.
+                    let id = { thread_rng().gen::<u64>() };
+                    fs::write(id_path, id.to_string())?;
+                    (id, file)
+                } else {
+                    let existing_id =
+                        String::from_utf8(bytes).expect("server-id contains invalid data");
+
+                    (existing_id.parse().expect("server-id isn't numeric"), file)
+                }
             } else {
                 let id = { thread_rng().gen::<u64>() };
                 let mut file = File::create(id_path)?;
-- 
2.43.0


From 2b30e378056ca0349c55b1f5043a9c95ac11bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 19/59] fix: don't reuse the id of a transaction that wasn't
 logged after reopening

---
 crates/bonsaidb-local/src/database.rs |  4 +-
 crates/bonsaidb-local/src/storage.rs  | 65 ++++++++++++++++++++++++++-
 2 files changed, 66 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index b4d859c..c5a9fdd 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1849,8 +1849,10 @@ impl Drop for ContextData {
     }
 }
 
+pub(crate) const DOCUMENT_TREE_PREFIX: &str = "collection.";
+
 pub fn document_tree_name(collection: &CollectionName) -> String {
-    format!("collection.{collection:#}")
+    format!("{DOCUMENT_TREE_PREFIX}{collection:#}")
 }
 
 pub struct DocumentIdRange(Range<DocumentId>);
diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 91248fc..98d8cc1 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -31,14 +31,15 @@ use fs2::FileExt;
 use itertools::Itertools;
 use nebari::io::any::{AnyFile, AnyFileManager};
 use nebari::io::FileManager;
-use nebari::{ChunkCache, ThreadPool};
+use nebari::tree::{Root, State, TreeFile, Unversioned, Versioned};
+use nebari::{ChunkCache, Roots, ThreadPool};
 use parking_lot::{Mutex, RwLock};
 use rand::{thread_rng, Rng};
 
 #[cfg(feature = "compression")]
 use crate::config::Compression;
 use crate::config::{KeyValuePersistence, StorageConfiguration};
-use crate::database::Context;
+use crate::database::{Context, DOCUMENT_TREE_PREFIX};
 use crate::tasks::manager::Manager;
 use crate::tasks::TaskManager;
 #[cfg(feature = "encryption")]
@@ -664,6 +665,7 @@ impl StorageInstance {
             }
 
             let roots = config.open().map_err(Error::from)?;
+            self.retire_unlogged_transaction_ids(&roots)?;
             let context = Context::new(
                 roots,
                 self.data.key_value_persistence.clone(),
@@ -676,6 +678,54 @@ impl StorageInstance {
         }
     }
 
+    /// Ensures the ids of transactions that were written to a tree but never
+    /// recorded in the transaction log aren't assigned again.
+    ///
+    /// A tree's contents are ignored if they were written by a transaction that
+    /// isn't in the log, which happens when the process stops while a
+    /// transaction is being committed. When the log is opened, the next id is
+    /// the one following the last logged transaction. If that id were to be used
+    /// by another transaction, the interrupted transaction would be considered
+    /// successful from then on.
+    fn retire_unlogged_transaction_ids(&self, roots: &Roots<AnyFile>) -> Result<(), Error> {
+        let mut last_written_id = 0;
+        for name in roots.tree_names()? {
+            let path = roots.path().join(format!("{name}.nebari"));
+            let last_transaction_id = if name.starts_with(DOCUMENT_TREE_PREFIX) {
+                last_transaction_id::<Versioned>
+            } else {
+                last_transaction_id::<Unversioned>
+            };
+            let id = last_transaction_id(&path, roots.context());
+            // Collections can be encrypted even if the database isn't. Reading
+            // only requires the vault, not the key that was used.
+            #[cfg(feature = "encryption")]
+            let id = id.or_else(|_| {
+                let vault = TreeVault {
+                    #[cfg(feature = "compression")]
+                    compression: None,
+                    key: None,
+                    vault: self.data.vault.clone(),
+                };
+                last_transaction_id(&path, &roots.context().clone().with_vault(vault))
+            });
+            // A tree that can't be read reports its error when it is used.
+            last_written_id = last_written_id.max(id.unwrap_or_default());
+        }
+
+        let transactions = roots.transactions();
+        if transactions.next_transaction_id() <= last_written_id {
+            while transactions.next_transaction_id() < last_written_id {
+                transactions.new_transaction([]).rollback();
+            }
+            // The log continues from its last entry when it's opened again,
+            // which means that an entry must be written.
+            transactions.new_transaction([]).rollback();
+            transactions.new_transaction([]).commit()?;
+        }
+        Ok(())
+    }
+
     pub(crate) fn tasks(&self) -> &'_ TaskManager {
         &self.data.tasks
     }
@@ -1534,6 +1584,17 @@ impl Display for StorageId {
     }
 }
 
+/// Returns the id of the transaction that last wrote to the tree at `path`.
+fn last_transaction_id<R: Root>(
+    path: &Path,
+    context: &nebari::Context<AnyFileManager>,
+) -> Result<u64, Error> {
+    let state = State::<R>::new(None, None);
+    TreeFile::<R, AnyFile>::read(path, state.clone(), context, None)?;
+    let id = state.read().root.transaction_id();
+    Ok(id)
+}
+
 #[derive(Debug, Clone)]
 #[cfg(any(feature = "compression", feature = "encryption"))]
 pub(crate) struct TreeVault {
-- 
2.43.0


From 639b255a97a66b2cded7b33389e8a06cd7842041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 20/59] fix: refuse database names that are empty or used by
 the storage itself

---
 crates/bonsaidb-local/src/storage.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 98d8cc1..6607751 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -262,6 +262,16 @@ struct Data {
     relay: Relay,
 }
 
+/// The names of files and folders in the storage's folder that aren't
+/// databases.
+const RESERVED_NAMES: [&str; 5] = [
+    "storage-id",
+    "server-id",
+    "vault-keys",
+    "master-keys",
+    "master-keys.pending",
+];
+
 impl Storage {
     /// Creates or opens a multi-database [`Storage`] with its data stored in `directory`.
     pub fn open(configuration: StorageConfiguration) -> Result<Self, Error> {
@@ -522,11 +532,14 @@ impl Storage {
     }
 
     fn validate_name(name: &str) -> Result<(), Error> {
-        if name.chars().enumerate().all(|(index, c)| {
-            c.is_ascii_alphanumeric()
-                || (index == 0 && c == '_')
-                || (index > 0 && (c == '.' || c == '-'))
-        }) {
+        if !name.is_empty()
+            && !RESERVED_NAMES.contains(&name)
+            && name.chars().enumerate().all(|(index, c)| {
+                c.is_ascii_alphanumeric()
+                    || (index == 0 && c == '_')
+                    || (index > 0 && (c == '.' || c == '-'))
+            })
+        {
             Ok(())
         } else {
             Err(Error::Core(bonsaidb_core::Error::InvalidDatabaseName(
-- 
2.43.0


From 44e00b792a4785e2e72434e1d32894b22a96008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:03 +0000
Subject: [PATCH 21/59] fix: don't wait forever for key-value changes that
 couldn't be persisted

---
 .../bonsaidb-local/src/database/keyvalue.rs   | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index efe542b..df0872d 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -725,8 +725,7 @@ impl KeyValueState {
     }
 
     #[cfg_attr(feature = "instrument", tracing::instrument(level = "trace", skip_all))]
-    fn persist_keys(
-        key_value_state: &Arc<Mutex<KeyValueState>>,
+    fn write_keys(
         roots: &Roots<AnyFile>,
         keys: &BTreeMap<String, Option<Entry>>,
     ) -> Result<(), bonsaidb_core::Error> {
@@ -783,6 +782,31 @@ impl KeyValueState {
                 .map_err(Error::from)?;
             transaction.commit().map_err(Error::from)?;
         }
+        Ok(())
+    }
+
+    fn persist_keys(
+        key_value_state: &Arc<Mutex<KeyValueState>>,
+        roots: &Roots<AnyFile>,
+        keys: &BTreeMap<String, Option<Entry>>,
+    ) -> Result<(), bonsaidb_core::Error> {
+        let result = Self::write_keys(roots, keys);
+        if result.is_err() {
+            // The keys that couldn't be persisted remain dirty, and will be
+            // persisted along with the next change.
+            let mut state = key_value_state.lock();
+            state.keys_being_persisted = None;
+            for (key, entry) in keys {
+                state
+                    .dirty_keys
+                    .entry(key.clone())
+                    .or_insert_with(|| entry.clone());
+            }
+            if let Some(shutdown) = state.shutdown.take() {
+                let _: Result<_, _> = shutdown.send(());
+            }
+            return result;
+        }
 
         #[cfg(bonsai_verif)]
         crate::verif::point("kv.persisted");
-- 
2.43.0


From d737c9c47da96fe86760f6df1eefb3d36e5c52f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 22/59] fix: delete databases completely, and only those that
 exist

---
 crates/bonsaidb-local/src/database.rs         | 59 ++++++++++++++++++-
 .../bonsaidb-local/src/database/keyvalue.rs   | 19 +++++-
 crates/bonsaidb-local/src/storage.rs          | 55 ++++++++++-------
 crates/bonsaidb-local/src/tasks.rs            | 24 ++++++--
 crates/bonsaidb-local/src/tasks/compactor.rs  |  5 +-
 .../src/views/integrity_scanner.rs            |  5 +-
 crates/bonsaidb-local/src/views/mapper.rs     |  2 +
 7 files changed, 135 insertions(+), 34 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index c5a9fdd..34eddce 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -2,6 +2,7 @@ use std::borrow::{Borrow, Cow};
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::convert::Infallible;
 use std::ops::{self, Deref};
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use std::u8;
 
@@ -38,7 +39,7 @@ use nebari::tree::{
     Unversioned, Versioned,
 };
 use nebari::{AbortError, ExecutingTransaction, Roots, Tree};
-use parking_lot::{Mutex, RwLock};
+use parking_lot::{Mutex, RwLock, RwLockReadGuard};
 use serde::{Deserialize, Serialize};
 use watchable::Watchable;
 
@@ -119,6 +120,9 @@ pub struct Database {
 #[derive(Debug)]
 pub struct Data {
     pub name: Arc<Cow<'static, str>>,
+    /// Identifies this database's tasks. A database that is created after one of
+    /// the same name has been deleted has its own tasks.
+    pub(crate) task_name: Arc<Cow<'static, str>>,
     context: Context,
     pub(crate) schema: Arc<Schematic>,
 }
@@ -135,6 +139,7 @@ impl Database {
         let db = Self {
             storage: storage.clone(),
             data: Arc::new(Data {
+                task_name: Arc::new(Cow::Owned(context.task_name(&name))),
                 name: Arc::new(name),
                 context,
                 schema,
@@ -234,6 +239,21 @@ impl Database {
         &self.data.context.roots
     }
 
+    /// Ensures that the database isn't deleted until the returned guard is
+    /// dropped. Returns an error if the database has already been deleted.
+    pub(crate) fn in_use(&self) -> Result<RwLockReadGuard<'_, bool>, Error> {
+        // This function can be called while a guard is already held, even by
+        // another thread that is being waited upon.
+        let deleted = self.data.context.deleted.read_recursive();
+        if *deleted {
+            Err(Error::Core(bonsaidb_core::Error::DatabaseNotFound(
+                self.data.name.to_string(),
+            )))
+        } else {
+            Ok(deleted)
+        }
+    }
+
     pub(crate) fn tree_files(&self) -> &'_ RwLock<()> {
         &self.data.context.tree_files
     }
@@ -264,6 +284,7 @@ impl Database {
                 .map_err(Error::from)?;
         }
 
+        let _in_use = self.in_use()?;
         let view_entries = self
             .roots()
             .tree(self.collection_tree(
@@ -348,6 +369,7 @@ impl Database {
         &self,
         transaction: &Transaction,
     ) -> Result<Vec<OperationResult>, Error> {
+        let _in_use = self.in_use()?;
         let open_trees = self.open_trees_for_transaction(transaction)?;
 
         let mut roots_transaction = self
@@ -747,7 +769,7 @@ impl Database {
                     database: self,
                     document_ids: vec![document_id.clone()],
                     map_request: &mapper::Map {
-                        database: self.data.name.clone(),
+                        database: self.data.task_name.clone(),
                         collection: operation.collection.clone(),
                         view_name: name.clone(),
                     },
@@ -1077,6 +1099,7 @@ impl Connection for Database {
             };
 
             let mut entries = Vec::new();
+            let _in_use = self.in_use()?;
             self.roots()
                 .transactions()
                 .scan(range, |entry| {
@@ -1257,6 +1280,7 @@ impl LowLevelConnection for Database {
             document_resource_name(self.name(), collection, &id),
             &BonsaiAction::Database(DatabaseAction::Document(DocumentAction::Get)),
         )?;
+        let _in_use = self.in_use()?;
         let tree = self
             .data
             .context
@@ -1290,6 +1314,7 @@ impl LowLevelConnection for Database {
             collection_resource_name(self.name(), collection),
             &BonsaiAction::Database(DatabaseAction::Document(DocumentAction::List)),
         )?;
+        let _in_use = self.in_use()?;
         let tree = self
             .data
             .context
@@ -1357,6 +1382,7 @@ impl LowLevelConnection for Database {
             collection_resource_name(self.name(), collection),
             &BonsaiAction::Database(DatabaseAction::Document(DocumentAction::ListHeaders)),
         )?;
+        let _in_use = self.in_use()?;
         let tree = self
             .data
             .context
@@ -1422,6 +1448,7 @@ impl LowLevelConnection for Database {
             collection_resource_name(self.name(), collection),
             &BonsaiAction::Database(DatabaseAction::Document(DocumentAction::Count)),
         )?;
+        let _in_use = self.in_use()?;
         let tree = self
             .data
             .context
@@ -1482,6 +1509,7 @@ impl LowLevelConnection for Database {
         }
         let mut ids = ids.to_vec();
         let collection = collection.clone();
+        let _in_use = self.in_use()?;
         let tree = self
             .data
             .context
@@ -1738,6 +1766,8 @@ impl<'a> Iterator for ViewEntryCollectionIterator<'a> {
     }
 }
 
+static CONTEXT_IDS: AtomicU64 = AtomicU64::new(0);
+
 #[derive(Debug, Clone)]
 pub(crate) struct Context {
     data: Arc<ContextData>,
@@ -1753,11 +1783,15 @@ impl Deref for Context {
 
 #[derive(Debug)]
 pub(crate) struct ContextData {
+    id: u64,
     pub(crate) roots: Roots<AnyFile>,
     /// Held for writing while trees are deleted and for reading while trees are
     /// compacted: compacting replaces a tree's file, which must not happen to a
     /// tree that is being recreated.
     pub(crate) tree_files: RwLock<()>,
+    /// Whether the database has been deleted. Held for reading while the
+    /// database's files are used.
+    deleted: RwLock<bool>,
     removed_views_forgotten: Mutex<bool>,
     key_value_state: Arc<Mutex<keyvalue::KeyValueState>>,
 }
@@ -1784,8 +1818,10 @@ impl Context {
         let background_worker_state = Arc::downgrade(&key_value_state);
         let context = Self {
             data: Arc::new(ContextData {
+                id: CONTEXT_IDS.fetch_add(1, Ordering::Relaxed),
                 roots,
                 tree_files: RwLock::default(),
+                deleted: RwLock::default(),
                 removed_views_forgotten: Mutex::default(),
                 key_value_state,
             }),
@@ -1803,6 +1839,25 @@ impl Context {
         context
     }
 
+    /// Returns the name that identifies the tasks of the database `name` while
+    /// it is using this context.
+    pub(crate) fn task_name(&self, name: &str) -> String {
+        format!("{name}#{}", self.data.id)
+    }
+
+    /// Prevents this context's files from being used again. Once this function
+    /// returns, the files can be deleted.
+    pub(crate) fn mark_deleted(&self) {
+        *self.data.deleted.write() = true;
+        let persisting = {
+            let mut state = self.data.key_value_state.lock();
+            state.discard()
+        };
+        if let Some(persisting) = persisting {
+            let _: Result<_, _> = persisting.recv();
+        }
+    }
+
     pub(crate) fn perform_kv_operation(
         &self,
         op: KeyOperation,
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index df0872d..805fe7b 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -61,6 +61,7 @@ impl KeyValue for Database {
             keyvalue_key_resource_name(self.name(), op.namespace.as_deref(), &op.key),
             &BonsaiAction::Database(DatabaseAction::KeyValue(KeyValueAction::ExecuteOperation)),
         )?;
+        let _in_use = self.in_use()?;
         self.data.context.perform_kv_operation(op)
     }
 }
@@ -256,6 +257,19 @@ impl KeyValueState {
         }
     }
 
+    /// Forgets all changes that haven't been persisted. Returns a receiver that
+    /// must be waited on if keys are currently being persisted.
+    pub fn discard(&mut self) -> Option<flume::Receiver<()>> {
+        self.dirty_keys.clear();
+        self.expiring_keys.clear();
+        self.expiration_order.clear();
+        self.keys_being_persisted.is_some().then(|| {
+            let (shutdown_sender, shutdown_receiver) = flume::bounded(1);
+            self.shutdown = Some(shutdown_sender);
+            shutdown_receiver
+        })
+    }
+
     pub fn perform_kv_operation(
         &mut self,
         op: KeyOperation,
@@ -914,7 +928,7 @@ pub struct ExpirationLoader {
 
 impl Keyed<Task> for ExpirationLoader {
     fn key(&self) -> Task {
-        Task::ExpirationLoader(self.database.data.name.clone())
+        Task::ExpirationLoader(self.database.data.task_name.clone())
     }
 }
 
@@ -926,6 +940,7 @@ impl Job for ExpirationLoader {
     fn execute(&mut self) -> Result<Self::Output, Self::Error> {
         let database = self.database.clone();
         let launched_at = self.launched_at;
+        let _in_use = database.in_use()?;
 
         for ((namespace, key), entry) in database.all_key_value_entries()? {
             if entry.last_updated < launched_at && entry.expiration.is_some() {
@@ -940,7 +955,7 @@ impl Job for ExpirationLoader {
             .storage()
             .instance
             .tasks()
-            .mark_key_value_expiration_loaded(self.database.data.name.clone());
+            .mark_key_value_expiration_loaded(self.database.data.task_name.clone());
 
         Ok(())
     }
diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 6607751..087cb93 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -691,6 +691,28 @@ impl StorageInstance {
         }
     }
 
+    /// Deletes the files of a database that isn't available.
+    fn delete_database_files(&self, name: &str) -> Result<(), Error> {
+        let context = self.data.open_roots.lock().remove(name);
+        if let Some(context) = context {
+            context.mark_deleted();
+            self.data.tasks.forget_database(&context.task_name(name));
+        }
+
+        let database_folder = self.data.path.join(name);
+        // When stored in memory, deleting a folder doesn't delete files that are
+        // still open. The transaction log is open until all references to the
+        // database are dropped.
+        self.data
+            .file_manager
+            .delete(database_folder.join("_transactions"))
+            .map_err(Error::Nebari)?;
+        self.data
+            .file_manager
+            .delete_directory(database_folder)
+            .map_err(Error::Nebari)
+    }
+
     /// Ensures the ids of transactions that were written to a tree but never
     /// recorded in the transaction log aren't assigned again.
     ///
@@ -759,15 +781,12 @@ impl StorageInstance {
         expected_schema: Option<SchemaName>,
     ) -> Result<Database, Error> {
         // TODO switch to upgradable read now that we are on parking_lot
-        let stored_schema = {
-            let available_databases = self.data.available_databases.read();
-            available_databases
-                .get(name)
-                .ok_or_else(|| {
-                    Error::Core(bonsaidb_core::Error::DatabaseNotFound(name.to_string()))
-                })?
-                .clone()
-        };
+        // The database can't be deleted until it has been opened.
+        let available_databases = self.data.available_databases.read();
+        let stored_schema = available_databases
+            .get(name)
+            .ok_or_else(|| Error::Core(bonsaidb_core::Error::DatabaseNotFound(name.to_string())))?
+            .clone();
 
         if let Some(expected_schema) = expected_schema {
             if stored_schema != expected_schema {
@@ -1063,6 +1082,10 @@ impl StorageConnection for StorageInstance {
         let mut available_databases = self.data.available_databases.write();
         let admin = self.admin();
         if !available_databases.contains_key(name) {
+            if name != ADMIN_DATABASE_NAME {
+                // Deleting a database of this name may not have been completed.
+                self.delete_database_files(name)?;
+            }
             admin
                 .collection::<DatabaseRecord>()
                 .push(&admin::Database {
@@ -1088,18 +1111,6 @@ impl StorageConnection for StorageInstance {
     fn delete_database(&self, name: &str) -> Result<(), bonsaidb_core::Error> {
         let admin = self.admin();
         let mut available_databases = self.data.available_databases.write();
-        available_databases.remove(name);
-
-        let mut open_roots = self.data.open_roots.lock();
-        open_roots.remove(name);
-
-        let database_folder = self.data.path.join(name);
-        if database_folder.exists() {
-            let file_manager = self.data.file_manager.clone();
-            file_manager
-                .delete_directory(&database_folder)
-                .map_err(Error::Nebari)?;
-        }
 
         if let Some(entry) = admin
             .view::<database::ByName>()
@@ -1108,6 +1119,8 @@ impl StorageConnection for StorageInstance {
             .first()
         {
             admin.delete::<DatabaseRecord, _>(&entry.source)?;
+            available_databases.remove(name);
+            self.delete_database_files(name)?;
 
             Ok(())
         } else {
diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index daa6cdc..0484fc4 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -71,7 +71,7 @@ impl TaskManager {
                 // through the jobs system at all.
                 let statuses = self.statuses.read();
                 if let Some(last_transaction_indexed) = statuses.view_update_last_status.get(&(
-                    database.data.name.clone(),
+                    database.data.task_name.clone(),
                     view.collection(),
                     view.view_name(),
                 )) {
@@ -87,7 +87,7 @@ impl TaskManager {
                     let job = self.jobs.lookup_or_enqueue(Mapper {
                         database: database.clone(),
                         map: Map {
-                            database: database.data.name.clone(),
+                            database: database.data.task_name.clone(),
                             collection: view.collection(),
                             view_name: view_name.clone(),
                         },
@@ -132,7 +132,7 @@ impl TaskManager {
     ) -> Option<Handle<OptionalViewMapHandle, Error>> {
         let view_name = view.view_name();
         if self.view_integrity_checked(
-            database.data.name.clone(),
+            database.data.task_name.clone(),
             view.collection(),
             view_name.clone(),
         ) {
@@ -141,7 +141,7 @@ impl TaskManager {
             let job = self.jobs.lookup_or_enqueue(IntegrityScanner {
                 database: database.clone(),
                 scan: IntegrityScan {
-                    database: database.data.name.clone(),
+                    database: database.data.task_name.clone(),
                     view_version: view.version(),
                     collection: view.collection(),
                     view_name,
@@ -181,11 +181,25 @@ impl TaskManager {
             .insert((database, collection, view_name), transaction_id);
     }
 
+    /// Forgets the tasks that have been completed for `database`.
+    pub fn forget_database(&self, database: &str) {
+        let mut statuses = self.statuses.write();
+        statuses
+            .completed_integrity_checks
+            .retain(|(name, _, _)| name.as_ref() != database);
+        statuses
+            .key_value_expiration_loads
+            .retain(|name| name.as_ref() != database);
+        statuses
+            .view_update_last_status
+            .retain(|(name, _, _), _| name.as_ref() != database);
+    }
+
     pub fn spawn_key_value_expiration_loader(
         &self,
         database: &Database,
     ) -> Option<Handle<(), Error>> {
-        if self.key_value_expiration_loaded(&database.data.name) {
+        if self.key_value_expiration_loaded(&database.data.task_name) {
             None
         } else {
             Some(self.jobs.lookup_or_enqueue(ExpirationLoader {
diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index deb954d..b806958 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -4,7 +4,7 @@ use nebari::io::any::AnyFile;
 use nebari::tree::{Root, TreeRoot, Unversioned, Versioned};
 
 use crate::database::keyvalue::KEY_TREE;
-use crate::database::{document_tree_name, DatabaseNonBlocking};
+use crate::database::document_tree_name;
 use crate::tasks::{Job, Keyed, Task};
 use crate::views::{
     view_document_map_tree_name, view_entries_tree_name, view_invalidated_docs_tree_name,
@@ -22,7 +22,7 @@ impl Compactor {
     pub fn target(database: Database, target: Target) -> Self {
         Self {
             compaction: Compaction {
-                database_name: database.name().to_string(),
+                database_name: database.data.task_name.to_string(),
                 target,
             },
             database,
@@ -142,6 +142,7 @@ fn compact_trees(database: &Database, targets: Vec<Target>) -> Result<(), Error>
 }
 
 fn compact_tree<R: Root>(database: &Database, tree: TreeRoot<R, AnyFile>) -> Result<(), Error> {
+    let _in_use = database.in_use()?;
     let _tree_files = database.tree_files().read();
     let tree = database.roots().tree(tree)?;
     tree.compact()?;
diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 7c723d1..5269dde 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -43,6 +43,7 @@ impl Job for IntegrityScanner {
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip_all))]
     #[allow(clippy::too_many_lines)]
     fn execute(&mut self) -> Result<Self::Output, Self::Error> {
+        let _in_use = self.database.in_use()?;
         let documents =
             self.database
                 .roots()
@@ -116,7 +117,7 @@ impl Job for IntegrityScanner {
         let mut mapper = Mapper {
             database: self.database.clone(),
             map: Map {
-                database: self.database.data.name.clone(),
+                database: self.database.data.task_name.clone(),
                 collection: self.scan.collection.clone(),
                 view_name: self.scan.view_name.clone(),
             },
@@ -156,7 +157,7 @@ impl Job for IntegrityScanner {
             .instance
             .tasks()
             .mark_integrity_check_complete(
-                self.database.data.name.clone(),
+                self.database.data.task_name.clone(),
                 self.scan.collection.clone(),
                 self.scan.view_name.clone(),
             );
diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 426dddc..f69abd8 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -41,6 +41,8 @@ impl Job for Mapper {
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip_all))]
     #[allow(clippy::too_many_lines)]
     fn execute(&mut self) -> Result<Self::Output, Error> {
+        let database = self.database.clone();
+        let _in_use = database.in_use()?;
         let documents =
             self.database
                 .roots()
-- 
2.43.0


From 4f437674e7abb5cbd593d88073e34dfba53f5725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:01 +0000
Subject: [PATCH 23/59] verif: points in deleting and opening databases

---
 crates/bonsaidb-local/src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 087cb93..17dc9d1 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -667,6 +667,8 @@ impl StorageInstance {
         } else {
             let task_name = name.to_string();
 
+            #[cfg(bonsai_verif)]
+            crate::verif::point("db.open");
             let mut config = nebari::Config::new(self.data.path.join(task_name))
                 .file_manager(self.data.file_manager.clone())
                 .cache(self.data.chunk_cache.clone())
@@ -1120,6 +1122,8 @@ impl StorageConnection for StorageInstance {
         {
             admin.delete::<DatabaseRecord, _>(&entry.source)?;
             available_databases.remove(name);
+            #[cfg(bonsai_verif)]
+            crate::verif::point("db.delete");
             self.delete_database_files(name)?;
 
             Ok(())
-- 
2.43.0


From b00458ac55b6709d8e539cb9449451217f4627f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 24/59] fix: roles of a user give it the permissions of their
 groups

---
 crates/bonsaidb-core/src/admin/user.rs | 2 +-
 crates/bonsaidb-local/src/storage.rs   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-core/src/admin/user.rs b/crates/bonsaidb-core/src/admin/user.rs
index 0894a4e..1a7a3d3 100644
--- a/crates/bonsaidb-core/src/admin/user.rs
+++ b/crates/bonsaidb-core/src/admin/user.rs
@@ -67,7 +67,7 @@ impl User {
         let role_groups = if self.roles.is_empty() {
             Vec::default()
         } else {
-            let roles = role::Role::get_multiple(self.groups.iter(), admin)?;
+            let roles = role::Role::get_multiple(self.roles.iter(), admin)?;
             roles
                 .into_iter()
                 .flat_map(|doc| doc.contents.groups)
diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 17dc9d1..97dda1b 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1283,7 +1283,7 @@ impl StorageConnection for StorageInstance {
         user: U,
         role: G,
     ) -> Result<(), bonsaidb_core::Error> {
-        self.update_user_with_named_id::<PermissionGroup, _, _, _>(user, role, |user, role_id| {
+        self.update_user_with_named_id::<Role, _, _, _>(user, role, |user, role_id| {
             Ok(Self::add_role_to_user_inner(user, role_id))
         })
     }
@@ -1542,7 +1542,7 @@ impl StorageConnection for Storage {
         role: G,
     ) -> Result<(), bonsaidb_core::Error> {
         self.instance
-            .update_user_with_named_id::<PermissionGroup, _, _, _>(user, role, |user, role_id| {
+            .update_user_with_named_id::<Role, _, _, _>(user, role, |user, role_id| {
                 self.check_permission(
                     user_resource_name(user.header.id),
                     &BonsaiAction::Server(ServerAction::ModifyUserRoles),
-- 
2.43.0


From 56d74e1a4875543a0e015b143007afe11d459366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 25/59] fix: databases opened through a session have the
 session's permissions

---
 crates/bonsaidb-local/src/storage.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 97dda1b..ca775ef 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1316,7 +1316,12 @@ impl StorageConnection for Storage {
     type Database = Database;
 
     fn admin(&self) -> Self::Database {
-        self.instance.admin()
+        Database::new::<Admin, _>(
+            ADMIN_DATABASE_NAME,
+            self.instance.open_roots(ADMIN_DATABASE_NAME).unwrap(),
+            self,
+        )
+        .unwrap()
     }
 
     fn create_database_with_schema(
@@ -1334,7 +1339,9 @@ impl StorageConnection for Storage {
     }
 
     fn database<DB: Schema>(&self, name: &str) -> Result<Self::Database, bonsaidb_core::Error> {
-        self.instance.database::<DB>(name)
+        self.instance
+            .database_without_schema(name, Some(self), Some(DB::schema_name()))
+            .map_err(bonsaidb_core::Error::from)
     }
 
     fn delete_database(&self, name: &str) -> Result<(), bonsaidb_core::Error> {
@@ -1373,7 +1380,7 @@ impl StorageConnection for Storage {
         &self,
         user: U,
     ) -> Result<(), bonsaidb_core::Error> {
-        let admin = self.admin();
+        let admin = self.instance.admin();
         let user = user.name()?;
         let user_id = user
             .id::<User, _>(&admin)?
@@ -1391,7 +1398,7 @@ impl StorageConnection for Storage {
         user: U,
         password: bonsaidb_core::connection::SensitiveString,
     ) -> Result<(), bonsaidb_core::Error> {
-        let admin = self.admin();
+        let admin = self.instance.admin();
         let user = user.name()?;
         let user_id = user
             .id::<User, _>(&admin)?
@@ -1410,7 +1417,7 @@ impl StorageConnection for Storage {
         &self,
         authentication: bonsaidb_core::connection::Authentication,
     ) -> Result<Self, bonsaidb_core::Error> {
-        let admin = self.admin();
+        let admin = self.instance.admin();
         let mut loaded_user = None;
         match &authentication {
             #[cfg(feature = "token-authentication")]
@@ -1453,7 +1460,7 @@ impl StorageConnection for Storage {
     ) -> Result<Self::Authenticated, bonsaidb_core::Error> {
         match identity {
             IdentityReference::User(user) => {
-                let admin = self.admin();
+                let admin = self.instance.admin();
                 let user =
                     User::load(user, &admin)?.ok_or(bonsaidb_core::Error::InvalidCredentials)?;
                 self.check_permission(
@@ -1463,7 +1470,7 @@ impl StorageConnection for Storage {
                 self.instance.assume_user(user, &admin)
             }
             IdentityReference::Role(role) => {
-                let admin = self.admin();
+                let admin = self.instance.admin();
                 let role =
                     Role::load(role, &admin)?.ok_or(bonsaidb_core::Error::InvalidCredentials)?;
                 self.check_permission(
-- 
2.43.0


From 68588f3de5e1b0aa5162b2c341406a09650856b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 26/59] fix: require the permission to query a view to delete
 documents through it

---
 crates/bonsaidb-local/src/database.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 34eddce..209c047 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1722,6 +1722,10 @@ impl LowLevelConnection for Database {
         access_policy: AccessPolicy,
     ) -> Result<u64, bonsaidb_core::Error> {
         let view = self.data.schema.view_by_name(view)?;
+        self.check_permission(
+            view_resource_name(self.name(), &view.view_name()),
+            &BonsaiAction::Database(DatabaseAction::View(ViewAction::Query)),
+        )?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
         // A document can be mapped more than once, but can only be deleted once.
-- 
2.43.0


From 6dab3e5f6b36e4c2d77d21ac9a36bd47c9dd6f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 27/59] fix: querying a view does not need the permission to
 get the last transaction id

---
 crates/bonsaidb-local/src/tasks.rs        | 5 +++--
 crates/bonsaidb-local/src/views/mapper.rs | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index 0484fc4..0178429 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -2,7 +2,6 @@ use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
-use bonsaidb_core::connection::Connection;
 use bonsaidb_core::keyvalue::Timestamp;
 use bonsaidb_core::schema::{view, CollectionName, ViewName};
 use parking_lot::RwLock;
@@ -64,7 +63,9 @@ impl TaskManager {
         }
 
         // If there is no transaction id, there is no data, so the view is "up-to-date"
-        if let Some(current_transaction_id) = database.last_transaction_id()? {
+        if let Some(current_transaction_id) =
+            database.roots().transactions().current_transaction_id()
+        {
             let needs_reindex = {
                 // When views finish updating, they store the last transaction_id
                 // they mapped. If that value is current, we don't need to go
diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index f69abd8..a066dae 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -86,7 +86,9 @@ impl Job for Mapper {
             ])?;
         let transaction_id = self
             .database
-            .last_transaction_id()?
+            .roots()
+            .transactions()
+            .current_transaction_id()
             .expect("no way to have documents without a transaction");
         let invalidated_ids = invalidated_entries
             .get_range(&(..))?
-- 
2.43.0


From 90cd3fbf6d7548838c564115f556f4a765794cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 28/59] fix: getting the last transaction id asynchronously
 needs the permission to

---
 crates/bonsaidb-local/src/async.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/async.rs b/crates/bonsaidb-local/src/async.rs
index 9936d52..4004a84 100644
--- a/crates/bonsaidb-local/src/async.rs
+++ b/crates/bonsaidb-local/src/async.rs
@@ -609,11 +609,7 @@ impl AsyncConnection for AsyncDatabase {
     }
 
     async fn last_transaction_id(&self) -> Result<Option<u64>, bonsaidb_core::Error> {
-        Ok(self
-            .database
-            .roots()
-            .transactions()
-            .current_transaction_id())
+        self.database.last_transaction_id()
     }
 
     async fn compact(&self) -> Result<(), bonsaidb_core::Error> {
-- 
2.43.0


From 7f4d2b205a155699c2392347865151e94782f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:15 +0000
Subject: [PATCH 29/59] fix: subscribers of a lost QUIC connection are
 disconnected

---
 crates/bonsaidb-client/src/client/quic_worker.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-client/src/client/quic_worker.rs b/crates/bonsaidb-client/src/client/quic_worker.rs
index 7c3dcf0..5b06577 100644
--- a/crates/bonsaidb-client/src/client/quic_worker.rs
+++ b/crates/bonsaidb-client/src/client/quic_worker.rs
@@ -32,9 +32,11 @@ pub(super) async fn reconnecting_client_loop(
         let _: Result<_, _> = server.url.set_port(Some(5645));
     }
 
-    server.subscribers.clear();
     let mut pending_error = None;
-    while let Ok(request) = request_receiver.recv_async().await {
+    while let Ok(request) = {
+        server.subscribers.clear();
+        request_receiver.recv_async().await
+    } {
         if let Some(pending_error) = pending_error.take() {
             drop(request.responder.send(Err(pending_error)));
             continue;
-- 
2.43.0


From 2072cffbd5790f3a6d9d90c1d76b79a20a70a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:15 +0000
Subject: [PATCH 30/59] fix: requests do not wait for a WebSocket connection
 the server closed

---
 crates/bonsaidb-client/src/client/tungstenite_worker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-client/src/client/tungstenite_worker.rs b/crates/bonsaidb-client/src/client/tungstenite_worker.rs
index 7437822..93fe75b 100644
--- a/crates/bonsaidb-client/src/client/tungstenite_worker.rs
+++ b/crates/bonsaidb-client/src/client/tungstenite_worker.rs
@@ -138,5 +138,6 @@ async fn response_processor(
         }
     }
 
-    Ok(())
+    // Return an error to make sure try_join returns.
+    Err(Error::disconnected())
 }
-- 
2.43.0


From 80ab1992f97206995da15b0b67246e45754e0db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:15 +0000
Subject: [PATCH 31/59] fix: sessions of an earlier connection are not used on
 the current one

---
 crates/bonsaidb-client/src/client.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-client/src/client.rs b/crates/bonsaidb-client/src/client.rs
index 6f4ad04..d431af7 100644
--- a/crates/bonsaidb-client/src/client.rs
+++ b/crates/bonsaidb-client/src/client.rs
@@ -493,7 +493,12 @@ impl AsyncClient {
         let id = self.data.request_id.fetch_add(1, Ordering::SeqCst);
         self.data.request_sender.send(PendingRequest {
             request: Payload {
-                session_id: self.session.session.id,
+                // The id of a session of an earlier connection could be the
+                // id of another session of the current connection.
+                session_id: self
+                    .session_is_current()
+                    .then_some(self.session.session.id)
+                    .flatten(),
                 id: Some(id),
                 name,
                 value: Ok(bytes),
-- 
2.43.0


From b871814180d8bca9e9d58aa2338b067bb2daf63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:59 +0000
Subject: [PATCH 32/59] fix: subscribers of an earlier connection do not act on
 the current one

---
 crates/bonsaidb-client/src/client.rs          |  6 ++++
 .../src/client/remote_database/pubsub.rs      | 29 ++++++++++++++++++-
 crates/bonsaidb-client/src/client/sync.rs     |  3 ++
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-client/src/client.rs b/crates/bonsaidb-client/src/client.rs
index d431af7..0a4d692 100644
--- a/crates/bonsaidb-client/src/client.rs
+++ b/crates/bonsaidb-client/src/client.rs
@@ -639,6 +639,12 @@ impl AsyncClient {
         ))
     }
 
+    /// Returns the id of the connection currently used, which changes each time
+    /// the client reconnects.
+    pub(crate) fn connection_id(&self) -> u32 {
+        self.data.connection_counter.load(Ordering::SeqCst)
+    }
+
     fn session_is_current(&self) -> bool {
         self.session.session.id.is_none()
             || self.data.connection_counter.load(Ordering::SeqCst) == self.session.connection_id
diff --git a/crates/bonsaidb-client/src/client/remote_database/pubsub.rs b/crates/bonsaidb-client/src/client/remote_database/pubsub.rs
index 37e2193..13162b9 100644
--- a/crates/bonsaidb-client/src/client/remote_database/pubsub.rs
+++ b/crates/bonsaidb-client/src/client/remote_database/pubsub.rs
@@ -7,7 +7,7 @@ use bonsaidb_core::networking::{
 };
 use bonsaidb_core::pubsub::{AsyncPubSub, AsyncSubscriber, Receiver};
 
-use crate::AsyncClient;
+use crate::{AsyncClient, Error};
 
 #[async_trait]
 impl AsyncPubSub for super::AsyncRemoteDatabase {
@@ -27,6 +27,7 @@ impl AsyncPubSub for super::AsyncRemoteDatabase {
             client: self.client.clone(),
             database: self.name.clone(),
             id: subscriber_id,
+            connection_id: self.client.connection_id(),
             receiver: Receiver::new(receiver),
             #[cfg(not(target_arch = "wasm32"))]
             tokio: tokio::runtime::Handle::try_current().ok().map(Arc::new),
@@ -71,14 +72,33 @@ pub struct AsyncRemoteSubscriber {
     pub(crate) client: AsyncClient,
     pub(crate) database: Arc<String>,
     pub(crate) id: u64,
+    pub(crate) connection_id: u32,
     pub(crate) receiver: Receiver,
     #[cfg(not(target_arch = "wasm32"))]
     pub(crate) tokio: Option<Arc<tokio::runtime::Handle>>,
 }
 
+impl AsyncRemoteSubscriber {
+    /// Returns true if the connection this subscriber was created with is
+    /// still being used. The id of a subscriber has no meaning to any other
+    /// connection.
+    fn is_connected(&self) -> bool {
+        self.client.connection_id() == self.connection_id
+    }
+
+    pub(crate) fn check_connected(&self) -> Result<(), bonsaidb_core::Error> {
+        if self.is_connected() {
+            Ok(())
+        } else {
+            Err(bonsaidb_core::Error::from(Error::disconnected()))
+        }
+    }
+}
+
 #[async_trait]
 impl AsyncSubscriber for AsyncRemoteSubscriber {
     async fn subscribe_to_bytes(&self, topic: Vec<u8>) -> Result<(), bonsaidb_core::Error> {
+        self.check_connected()?;
         self.client
             .send_api_request(&SubscribeTo {
                 database: self.database.to_string(),
@@ -90,6 +110,7 @@ impl AsyncSubscriber for AsyncRemoteSubscriber {
     }
 
     async fn unsubscribe_from_bytes(&self, topic: &[u8]) -> Result<(), bonsaidb_core::Error> {
+        self.check_connected()?;
         self.client
             .send_api_request(&UnsubscribeFrom {
                 database: self.database.to_string(),
@@ -108,6 +129,9 @@ impl AsyncSubscriber for AsyncRemoteSubscriber {
 #[cfg(target_arch = "wasm32")]
 impl Drop for AsyncRemoteSubscriber {
     fn drop(&mut self) {
+        if !self.is_connected() {
+            return;
+        }
         let client = self.client.clone();
         let database = self.database.to_string();
         let subscriber_id = self.id;
@@ -123,6 +147,9 @@ impl Drop for AsyncRemoteSubscriber {
 #[cfg(not(target_arch = "wasm32"))]
 impl Drop for AsyncRemoteSubscriber {
     fn drop(&mut self) {
+        if !self.is_connected() {
+            return;
+        }
         if let Some(tokio) = &self.tokio {
             let client = self.client.clone();
             let database = self.database.to_string();
diff --git a/crates/bonsaidb-client/src/client/sync.rs b/crates/bonsaidb-client/src/client/sync.rs
index 89c88e7..e2ca0b1 100644
--- a/crates/bonsaidb-client/src/client/sync.rs
+++ b/crates/bonsaidb-client/src/client/sync.rs
@@ -571,6 +571,7 @@ impl PubSub for BlockingRemoteDatabase {
             client: self.0.client.clone(),
             database: self.0.name.clone(),
             id: subscriber_id,
+            connection_id: self.0.client.connection_id(),
             receiver: Receiver::new(receiver),
             tokio: None,
         }))
@@ -607,6 +608,7 @@ pub struct BlockingRemoteSubscriber(AsyncRemoteSubscriber);
 
 impl Subscriber for BlockingRemoteSubscriber {
     fn subscribe_to_bytes(&self, topic: Vec<u8>) -> Result<(), bonsaidb_core::Error> {
+        self.0.check_connected()?;
         self.0.client.send_blocking_api_request(&SubscribeTo {
             database: self.0.database.to_string(),
             subscriber_id: self.0.id,
@@ -616,6 +618,7 @@ impl Subscriber for BlockingRemoteSubscriber {
     }
 
     fn unsubscribe_from_bytes(&self, topic: &[u8]) -> Result<(), bonsaidb_core::Error> {
+        self.0.check_connected()?;
         self.0.client.send_blocking_api_request(&UnsubscribeFrom {
             database: self.0.database.to_string(),
             subscriber_id: self.0.id,
-- 
2.43.0


From aa08b50f7890b952aa520b9e2e0b521da6040e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:44 +0000
Subject: [PATCH 33/59] fix: a disconnected client's subscribers are dropped

---
 .../src/server/connected_client.rs            | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-server/src/server/connected_client.rs b/crates/bonsaidb-server/src/server/connected_client.rs
index 9b18014..3934ab7 100644
--- a/crates/bonsaidb-server/src/server/connected_client.rs
+++ b/crates/bonsaidb-server/src/server/connected_client.rs
@@ -74,6 +74,12 @@ impl<B: Backend> ConnectedClient<B> {
 
     pub(crate) fn set_disconnected(&self) {
         self.data.connected.store(false, Ordering::Relaxed);
+        // The tasks forwarding messages keep this client alive for as long as
+        // its subscribers exist.
+        let mut sessions = self.data.sessions.write();
+        for session in sessions.values_mut() {
+            session.subscribers.clear();
+        }
     }
 
     pub(crate) fn logged_in_as(&self, session: Session) {
@@ -137,13 +143,14 @@ impl<B: Backend> ConnectedClient<B> {
         let receiver = subscriber.receiver().clone();
         {
             let mut sessions = self.data.sessions.write();
-            if let Some(client_session) = sessions.get_mut(&session_id) {
-                client_session
-                    .subscribers
-                    .insert(subscriber.id(), subscriber);
-            } else {
+            match sessions.get_mut(&session_id) {
+                Some(client_session) if self.connected() => {
+                    client_session
+                        .subscribers
+                        .insert(subscriber.id(), subscriber);
+                }
                 // TODO return error for session not found.
-                return;
+                _ => return,
             }
         }
         let task_self = self.clone();
-- 
2.43.0


From 6405b9ad06e68974f3095390588ecd3bbd866131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:44 +0000
Subject: [PATCH 34/59] fix: shutting a server down closes its QUIC connections

---
 crates/bonsaidb-server/src/server.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-server/src/server.rs b/crates/bonsaidb-server/src/server.rs
index 5e7de76..bf029b5 100644
--- a/crates/bonsaidb-server/src/server.rs
+++ b/crates/bonsaidb-server/src/server.rs
@@ -399,10 +399,14 @@ impl<B: Backend> CustomServer<B> {
 
         while let Some(incoming) = tokio::select! {
             shutdown_state = shutdown_watcher.wait_for_shutdown() => {
-                drop(server.close_incoming());
                 if matches!(shutdown_state, ShutdownState::GracefulShutdown) {
-                    server.wait_idle().await;
+                    drop(server.close_incoming().await);
+                    tokio::select! {
+                        () = server.wait_idle() => {}
+                        _ = shutdown_watcher.wait_for_shutdown() => {}
+                    }
                 }
+                server.close().await;
                 None
             },
             msg = server.next() => msg
-- 
2.43.0


From 94d907448a4b25a4ab0f7c8485336793a4c09ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 35/59] fix: a QUIC client tells the server that it is gone

---
 crates/bonsaidb-client/src/client/quic_worker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-client/src/client/quic_worker.rs b/crates/bonsaidb-client/src/client/quic_worker.rs
index 5b06577..d75cac0 100644
--- a/crates/bonsaidb-client/src/client/quic_worker.rs
+++ b/crates/bonsaidb-client/src/client/quic_worker.rs
@@ -17,6 +17,8 @@ use crate::client::{
 };
 use crate::Error;
 
+const FINISH_TIMEOUT: Duration = Duration::from_secs(5);
+
 /// This function will establish a connection and try to keep it active. If an
 /// error occurs, any queries that come in while reconnecting will have the
 /// error replayed to them.
@@ -135,7 +137,9 @@ async fn process_requests(
         );
     }
 
-    drop(payload_sender.finish());
+    // The server keeps the connection until it hears about its end, which it
+    // won't once this task's runtime is gone.
+    drop(tokio::time::timeout(FINISH_TIMEOUT, payload_sender.finish()).await);
 
     // Return an error to make sure try_join returns.
     Err(Error::disconnected())
-- 
2.43.0


From b4a16dbdb2bf23a642442339cbae8c98063f48e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:38 +0000
Subject: [PATCH 36/59] fix: document ids containing "$" are displayed so that
 they can be parsed

---
 crates/bonsaidb-core/src/document/id.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/document/id.rs b/crates/bonsaidb-core/src/document/id.rs
index 1b1a8c5..85fd9e1 100644
--- a/crates/bonsaidb-core/src/document/id.rs
+++ b/crates/bonsaidb-core/src/document/id.rs
@@ -35,7 +35,11 @@ impl std::fmt::Debug for DocumentId {
 impl Display for DocumentId {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if let Ok(string) = std::str::from_utf8(self.as_ref()) {
-            if string.bytes().all(|b| (32..=127).contains(&b)) {
+            // A `$` is what tells the hexadecimal form apart.
+            if string
+                .bytes()
+                .all(|b| (32..=127).contains(&b) && b != b'$')
+            {
                 return f.write_str(string);
             }
         }
-- 
2.43.0


From 7c18bb123bf1753aef1dbff7457f9dd382ed2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:38 +0000
Subject: [PATCH 37/59] fix: key-value entries are backed up from databases
 without collections

---
 crates/bonsaidb-local/src/storage/backup.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 6966bf6..3b2048d 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -120,16 +120,16 @@ impl Storage {
                     &document.contents,
                 )?;
             }
-            for ((namespace, key), entry) in database.all_key_value_entries()? {
-                let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
-                location.store(
-                    &schema,
-                    database.name(),
-                    "_kv",
-                    &full_name,
-                    &pot::to_vec(&entry)?,
-                )?;
-            }
+        }
+        for ((namespace, key), entry) in database.all_key_value_entries()? {
+            let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
+            location.store(
+                &schema,
+                database.name(),
+                "_kv",
+                &full_name,
+                &pot::to_vec(&entry)?,
+            )?;
         }
         Ok(())
     }
-- 
2.43.0


From fc8ffaa819d72a788dc41d608fe1865597ca1753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:00 +0000
Subject: [PATCH 38/59] fix: namespaces containing the separator of key names
 are restored from backups

---
 crates/bonsaidb-local/src/storage/backup.rs | 31 +++++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 3b2048d..bc740b7 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -122,7 +122,7 @@ impl Storage {
             }
         }
         for ((namespace, key), entry) in database.all_key_value_entries()? {
-            let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
+            let full_name = key_name(namespace.as_deref().unwrap_or(""), &key);
             location.store(
                 &schema,
                 database.name(),
@@ -168,13 +168,13 @@ impl Storage {
         database.apply_transaction(transaction)?;
 
         for full_key in location.list_stored(&schema, database.name(), "_kv")? {
-            if let Some((namespace, key)) = full_key.split_once("._key._") {
+            if let Some((namespace, key)) = split_key_name(&full_key) {
                 let entry = location.load(&schema, database.name(), "_kv", &full_key)?;
                 let entry = pot::from_slice::<Entry>(&entry)?;
                 let namespace = if namespace.is_empty() {
                     None
                 } else {
-                    Some(namespace.to_string())
+                    Some(namespace)
                 };
                 entry.restore(namespace, key.to_string(), database)?;
             }
@@ -184,6 +184,31 @@ impl Storage {
     }
 }
 
+const KEY_NAME_SEPARATOR: &str = "._key._";
+
+/// Returns the name an entry of the key-value store is stored by. A namespace
+/// that could be mistaken for containing the separator has its periods escaped.
+fn key_name(namespace: &str, key: &str) -> String {
+    if namespace.contains("._key") || namespace.contains('%') {
+        let namespace = namespace.replace('%', "%25").replace('.', "%2e");
+        format!("{namespace}{KEY_NAME_SEPARATOR}{key}")
+    } else {
+        format!("{namespace}{KEY_NAME_SEPARATOR}{key}")
+    }
+}
+
+/// Returns the namespace and the key that [`key_name()`] was given.
+fn split_key_name(name: &str) -> Option<(String, &str)> {
+    let (stored, key) = name.split_once(KEY_NAME_SEPARATOR)?;
+    let namespace = stored.replace("%2e", ".").replace("%25", "%");
+    // Names stored by earlier versions weren't escaped.
+    if key_name(&namespace, key) == name {
+        Some((namespace, key))
+    } else {
+        Some((stored.to_string(), key))
+    }
+}
+
 pub trait AnyBackupLocation: Send + Sync {
     fn store(
         &self,
-- 
2.43.0


From e9a34ab527f37f226fea9a120b60e0628bb89b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:00 +0000
Subject: [PATCH 39/59] fix: names of stored objects are escaped in the file
 names of a backup

---
 crates/bonsaidb-local/src/storage/backup.rs | 58 +++++++++++++++++++--
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index bc740b7..f39b61b 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -301,7 +301,7 @@ impl BackupLocation for Path {
     ) -> Result<(), Self::Error> {
         let container_folder = container_folder(self, schema, database_name, container);
         std::fs::create_dir_all(&container_folder)?;
-        std::fs::write(container_folder.join(name), object)?;
+        std::fs::write(container_folder.join(file_name(name)), object)?;
 
         Ok(())
     }
@@ -336,7 +336,7 @@ impl BackupLocation for Path {
             &container_folder(self, schema, database_name, container),
             |entry, file_name| {
                 if entry.file_type()?.is_file() {
-                    return Ok(Some(file_name));
+                    return Ok(Some(object_name(file_name)));
                 }
                 Ok(None)
             },
@@ -350,7 +350,12 @@ impl BackupLocation for Path {
         container: &str,
         name: &str,
     ) -> Result<Vec<u8>, Self::Error> {
-        std::fs::read(container_folder(self, schema, database_name, container).join(name))
+        let container_folder = container_folder(self, schema, database_name, container);
+        match std::fs::read(container_folder.join(file_name(name))).ignore_not_found()? {
+            Some(object) => Ok(object),
+            // Earlier versions used the name as it is.
+            None => std::fs::read(container_folder.join(name)),
+        }
     }
 }
 
@@ -447,6 +452,53 @@ impl<T> IoResultExt<T> for Result<T, std::io::Error> {
     }
 }
 
+/// Returns the name of the file that the object named `name` is stored in.
+/// Bytes that can't be in a file's name, or that have a meaning in paths, are
+/// escaped.
+fn file_name(name: &str) -> String {
+    if name.is_empty() {
+        return String::from("%");
+    }
+
+    let mut file_name = String::with_capacity(name.len());
+    for ch in name.chars() {
+        match ch {
+            '%' | '/' | '\\' | ':' | '*' | '?' | '"' | '<' | '>' | '|' => {
+                file_name.push_str(&format!("%{:02x}", ch as u32));
+            }
+            '.' if name == "." || name == ".." => file_name.push_str("%2e"),
+            ch if ch.is_ascii_control() => file_name.push_str(&format!("%{:02x}", ch as u32)),
+            ch => file_name.push(ch),
+        }
+    }
+    file_name
+}
+
+/// Returns the name of the object that is stored in the file named `stored`.
+fn object_name(stored: String) -> String {
+    let mut parts = stored.split('%');
+    let mut name = String::from(parts.next().unwrap_or_default());
+    for part in parts {
+        match part
+            .get(..2)
+            .and_then(|escaped| u8::from_str_radix(escaped, 16).ok())
+        {
+            Some(byte) => {
+                name.push(char::from(byte));
+                name.push_str(&part[2..]);
+            }
+            None => name.push_str(part),
+        }
+    }
+
+    // Files stored by earlier versions weren't escaped.
+    if file_name(&name) == stored {
+        name
+    } else {
+        stored
+    }
+}
+
 fn schema_folder(base: &Path, schema: &SchemaName) -> PathBuf {
     base.join(schema.encoded())
 }
-- 
2.43.0


From d35c7151028ca3f758a1056e1f39bf15985e5cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:34 +0000
Subject: [PATCH 40/59] fix: databases without contents are restored from
 backups

---
 crates/bonsaidb-local/src/storage/backup.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index f39b61b..6eea97e 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -2,9 +2,10 @@ use std::fs::DirEntry;
 use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 
+use bonsaidb_core::admin::{Admin, ADMIN_DATABASE_NAME};
 use bonsaidb_core::connection::{LowLevelConnection, Range, Sort, StorageConnection};
 use bonsaidb_core::document::DocumentId;
-use bonsaidb_core::schema::{Collection, Qualified, SchemaName};
+use bonsaidb_core::schema::{Collection, Qualified, Schema, SchemaName, SerializedCollection};
 use bonsaidb_core::transaction::{Operation, Transaction};
 use bonsaidb_core::{admin, AnyError};
 
@@ -94,6 +95,20 @@ impl Storage {
             }
         }
 
+        // Databases that had no contents are only known to the list of databases.
+        let admin_schema = Admin::schema_name();
+        let collection_name = admin::Database::collection_name().encoded();
+        for id in location
+            .list_stored(&admin_schema, ADMIN_DATABASE_NAME, &collection_name)
+            .map_err(|err| Error::Backup(Box::new(err)))?
+        {
+            let contents = location
+                .load(&admin_schema, ADMIN_DATABASE_NAME, &collection_name, &id)
+                .map_err(|err| Error::Backup(Box::new(err)))?;
+            let database = admin::Database::deserialize(&contents)?;
+            self.create_database_with_schema(&database.name, database.schema, true)?;
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 05c465a7b2c6007ad03a7f0ba6fc250ae8fea185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:23 +0000
Subject: [PATCH 41/59] fix: the remaining contents of a partially read file
 can be collected asynchronously

---
 crates/bonsaidb-files/src/direct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 3b6de45..5d99a6f 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -794,8 +794,8 @@ impl<
     /// read, this returns the entire contents.
     #[allow(clippy::missing_panics_doc)] // Not reachable
     pub async fn into_vec(mut self) -> std::io::Result<Vec<u8>> {
-        let mut contents = vec![0; usize::try_from(self.len()).unwrap()];
-        <Self as tokio::io::AsyncReadExt>::read_exact(&mut self, &mut contents).await?;
+        let mut contents = Vec::with_capacity(usize::try_from(self.len()).unwrap());
+        <Self as tokio::io::AsyncReadExt>::read_to_end(&mut self, &mut contents).await?;
         Ok(contents)
     }
 
-- 
2.43.0


From 5e7aa763bf010d27741f11e052eda067578e7dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:23 +0000
Subject: [PATCH 42/59] fix: reading into an empty buffer does not skip the
 rest of the file

---
 crates/bonsaidb-files/src/direct.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 5d99a6f..991e18e 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1014,6 +1014,10 @@ impl<Database: Connection + Clone, Config: FileConfig> Read
     for Contents<Blocking<Database>, Config>
 {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
         loop {
             match self.non_blocking_read(|block| {
                 let bytes_to_read = buf.len().min(block.len());
@@ -1116,6 +1120,10 @@ impl<
         cx: &mut std::task::Context<'_>,
         buf: &mut tokio::io::ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
+        if buf.remaining() == 0 {
+            return Poll::Ready(Ok(()));
+        }
+
         self.spawn_block_fetching_task();
         loop {
             match self.non_blocking_read(|block| {
-- 
2.43.0


From 5f1364c320e4aeadf73e9e02b6898bb9daf8d2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:23 +0000
Subject: [PATCH 43/59] fix: seeking from the end of a file that was read, or
 to before its start, does not panic

---
 crates/bonsaidb-files/src/direct.rs | 34 ++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 991e18e..ea51637 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1032,32 +1032,40 @@ impl<Database: Connection + Clone, Config: FileConfig> Read
     }
 }
 
+fn seek_before_start() -> std::io::Error {
+    std::io::Error::new(
+        ErrorKind::InvalidInput,
+        "invalid seek to a negative position",
+    )
+}
+
 impl<Database: Clone, Config: FileConfig> Seek for Contents<Database, Config> {
     fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
         let seek_to = match pos {
             SeekFrom::Start(offset) => offset,
             SeekFrom::End(from_end) => {
                 if from_end < 0 {
-                    self.len() - u64::try_from(from_end.saturating_abs()).unwrap()
+                    self.len()
+                        .checked_sub(from_end.unsigned_abs())
+                        .ok_or_else(seek_before_start)?
                 } else {
                     // Seek to the end
                     self.len()
                 }
             }
             SeekFrom::Current(from_current) => {
-                if self.blocks.is_empty() {
-                    return Ok(0);
+                let position = match self.blocks.get(self.current_block) {
+                    Some(block) => block.offset + u64::try_from(self.offset).unwrap(),
+                    // Everything has been read.
+                    None => self.len(),
+                };
+                if from_current < 0 {
+                    position
+                        .checked_sub(from_current.unsigned_abs())
+                        .ok_or_else(seek_before_start)?
+                } else {
+                    position.saturating_add(from_current.unsigned_abs())
                 }
-
-                u64::try_from(
-                    i64::try_from(
-                        self.blocks[self.current_block].offset
-                            + u64::try_from(self.offset).unwrap(),
-                    )
-                    .unwrap()
-                        + from_current,
-                )
-                .unwrap()
             }
         };
         if let Some((index, block)) = self
-- 
2.43.0


From 4f098fd7089486c87cf3dc33fd9bb69eeed26eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:23 +0000
Subject: [PATCH 44/59] fix: reading a file that was truncated or deleted
 meanwhile fails instead of never returning

---
 crates/bonsaidb-files/src/direct.rs | 36 +++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index ea51637..f5513e8 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -762,12 +762,13 @@ impl<Database: Connection + Clone, Config: FileConfig> Contents<Blocking<Databas
 
     fn load_blocks(&mut self) -> std::io::Result<()> {
         self.loaded.clear();
-        for (index, (_, contents)) in
-            schema::block::Block::<Config>::load(&self.next_blocks(), &self.database.0)
-                .map_err(|err| std::io::Error::new(ErrorKind::Other, err))?
-                .into_iter()
-                .enumerate()
-        {
+        let block_ids = self.next_blocks();
+        let blocks = schema::block::Block::<Config>::load(&block_ids, &self.database.0)
+            .map_err(|err| std::io::Error::new(ErrorKind::Other, err))?;
+        if blocks.len() != block_ids.len() {
+            return Err(blocks_removed());
+        }
+        for (index, (_, contents)) in blocks.into_iter().enumerate() {
             self.loaded.push_back(LoadedBlock {
                 index: self.current_block + index,
                 contents,
@@ -817,7 +818,7 @@ impl<
         if self.async_blocks.is_none() {
             // Spawn the task
             let (block_sender, block_receiver) = flume::unbounded();
-            let (request_sender, request_receiver) = flume::unbounded();
+            let (request_sender, request_receiver) = flume::unbounded::<Vec<u64>>();
 
             let task_database = self.database.0.clone();
             tokio::task::spawn(async move {
@@ -825,7 +826,14 @@ impl<
                     let blocks =
                         schema::block::Block::<Config>::load_async(&doc_ids, &task_database)
                             .await
-                            .map_err(|err| std::io::Error::new(ErrorKind::Other, err));
+                            .map_err(|err| std::io::Error::new(ErrorKind::Other, err))
+                            .and_then(|blocks| {
+                                if blocks.len() == doc_ids.len() {
+                                    Ok(blocks)
+                                } else {
+                                    Err(blocks_removed())
+                                }
+                            });
                     if block_sender.send(blocks).is_err() {
                         break;
                     }
@@ -863,7 +871,10 @@ impl<
                     }
                     Poll::Ready(Ok(true))
                 }
-                Ok(Err(db_err)) => Poll::Ready(Err(std::io::Error::new(ErrorKind::Other, db_err))),
+                Ok(Err(err)) => {
+                    self.async_blocks.as_mut().unwrap().requested = false;
+                    Poll::Ready(Err(err))
+                }
                 Err(flume_error) => {
                     Poll::Ready(Err(std::io::Error::new(ErrorKind::BrokenPipe, flume_error)))
                 }
@@ -1032,6 +1043,13 @@ impl<Database: Connection + Clone, Config: FileConfig> Read
     }
 }
 
+fn blocks_removed() -> std::io::Error {
+    std::io::Error::new(
+        ErrorKind::UnexpectedEof,
+        "the file was truncated or deleted while it was being read",
+    )
+}
+
 fn seek_before_start() -> std::io::Error {
     std::io::Error::new(
         ErrorKind::InvalidInput,
-- 
2.43.0


From 2929739c62e6990e682efb2a0dfbf19a17e48a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:23 +0000
Subject: [PATCH 45/59] fix: blocks that were requested before seeking are not
 read as those after it

---
 crates/bonsaidb-files/src/direct.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index f5513e8..5e468fd 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -704,7 +704,8 @@ pub struct Contents<Database: Clone, Config: FileConfig> {
 struct AsyncBlockTask {
     block_receiver:
         flume::r#async::RecvFut<'static, Result<BTreeMap<u64, Vec<u8>>, std::io::Error>>,
-    requested: bool,
+    // The index of the first block that is being loaded.
+    requested: Option<usize>,
     request_sender: flume::Sender<Vec<u64>>,
 }
 
@@ -843,7 +844,7 @@ impl<
             self.async_blocks = Some(AsyncBlockTask {
                 block_receiver: block_receiver.into_recv_async(),
                 request_sender,
-                requested: false,
+                requested: None,
             });
         }
     }
@@ -852,7 +853,7 @@ impl<
         &mut self,
         cx: &mut std::task::Context<'_>,
     ) -> Poll<Result<bool, std::io::Error>> {
-        if self.async_blocks.as_mut().unwrap().requested {
+        if let Some(first_block) = self.async_blocks.as_mut().unwrap().requested {
             match ready!(self
                 .async_blocks
                 .as_mut()
@@ -861,10 +862,10 @@ impl<
                 .poll_unpin(cx))
             {
                 Ok(Ok(blocks)) => {
-                    self.async_blocks.as_mut().unwrap().requested = false;
+                    self.async_blocks.as_mut().unwrap().requested = None;
                     for (index, (_, contents)) in blocks.into_iter().enumerate() {
                         let loaded_block = LoadedBlock {
-                            index: self.current_block + index,
+                            index: first_block + index,
                             contents,
                         };
                         self.loaded.push_back(loaded_block);
@@ -872,7 +873,7 @@ impl<
                     Poll::Ready(Ok(true))
                 }
                 Ok(Err(err)) => {
-                    self.async_blocks.as_mut().unwrap().requested = false;
+                    self.async_blocks.as_mut().unwrap().requested = None;
                     Poll::Ready(Err(err))
                 }
                 Err(flume_error) => {
@@ -885,7 +886,7 @@ impl<
                 return Poll::Ready(Ok(false));
             }
             self.loaded.clear();
-            self.async_blocks.as_mut().unwrap().requested = true;
+            self.async_blocks.as_mut().unwrap().requested = Some(self.current_block);
             if let Err(err) = self
                 .async_blocks
                 .as_mut()
-- 
2.43.0


From 1fcab32c0e2fcf5bffcafd06160ba567fa5cc06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:23 +0000
Subject: [PATCH 46/59] fix: files can not be renamed to an empty name

---
 crates/bonsaidb-files/src/direct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 5e468fd..eb07d6d 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -159,7 +159,7 @@ where
 
     /// Renames this file to the new name.
     pub fn rename(&mut self, new_name: String) -> Result<(), Error> {
-        if new_name.as_bytes().contains(&b'/') {
+        if new_name.as_bytes().contains(&b'/') || new_name.is_empty() {
             return Err(Error::InvalidName);
         }
 
@@ -390,7 +390,7 @@ where
 
     /// Renames this file to the new name.
     pub async fn rename(&mut self, new_name: String) -> Result<(), Error> {
-        if new_name.as_bytes().contains(&b'/') {
+        if new_name.as_bytes().contains(&b'/') || new_name.is_empty() {
             return Err(Error::InvalidName);
         }
 
-- 
2.43.0


From 73a82d9a51a96c1747d0e371e6c662d0b890e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:23 +0000
Subject: [PATCH 47/59] fix: files with blocks larger than a megabyte can be
 appended to through a buffer

---
 crates/bonsaidb-files/src/direct.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index eb07d6d..abe2105 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1261,9 +1261,9 @@ impl<'a, Config: FileConfig, Database: Connection + Clone> Write
         if self.buffer.capacity() == 0 {
             const ONE_MEGABYTE: usize = 1024 * 1024;
             // By default, reserve the largest multiple of BLOCK_SIZE that is
-            // less than or equal to 1 megabyte.
+            // less than or equal to 1 megabyte, but at least one block.
             self.buffer
-                .reserve_exact(ONE_MEGABYTE / Config::BLOCK_SIZE * Config::BLOCK_SIZE);
+                .reserve_exact((ONE_MEGABYTE / Config::BLOCK_SIZE).max(1) * Config::BLOCK_SIZE);
         } else if self.buffer.capacity() == self.buffer.len() {
             self.flush()?;
         }
@@ -1335,9 +1335,9 @@ impl<'a, Config: FileConfig, Database: AsyncConnection + Clone + 'static> tokio:
         if self.buffer.capacity() == 0 {
             const ONE_MEGABYTE: usize = 1024 * 1024;
             // By default, reserve the largest multiple of BLOCK_SIZE that is
-            // less than or equal to 1 megabyte.
+            // less than or equal to 1 megabyte, but at least one block.
             self.buffer
-                .reserve_exact(ONE_MEGABYTE / Config::BLOCK_SIZE * Config::BLOCK_SIZE);
+                .reserve_exact((ONE_MEGABYTE / Config::BLOCK_SIZE).max(1) * Config::BLOCK_SIZE);
         }
 
         if self.flush_future.is_some() {
-- 
2.43.0


From 74a223d67000f96ad8b42c70476c498fe431d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:24 +0000
Subject: [PATCH 48/59] fix: a flush that completed at once is not polled again

---
 crates/bonsaidb-files/src/direct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index abe2105..10d11c9 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1385,7 +1385,9 @@ impl<'a, Config: FileConfig, Database: AsyncConnection + Clone + 'static> tokio:
             }
             .boxed();
             let poll_result = flush_task.poll_unpin(cx);
-            self.flush_future = Some(flush_task);
+            if poll_result.is_pending() {
+                self.flush_future = Some(flush_task);
+            }
             poll_result
         }
     }
-- 
2.43.0


From 2179461502c58818a60aaae78964842a38c5bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:30 +0000
Subject: [PATCH 49/59] fix: a file whose deletion fails keeps its contents

---
 crates/bonsaidb-files/src/direct.rs | 39 ++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 10d11c9..22c6297 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -7,9 +7,10 @@ use std::marker::PhantomData;
 use std::task::Poll;
 
 use bonsaidb_core::connection::Connection;
-use bonsaidb_core::document::{CollectionDocument, CollectionHeader};
+use bonsaidb_core::document::{CollectionDocument, CollectionHeader, Header};
 use bonsaidb_core::key::time::TimestampAsNanoseconds;
 use bonsaidb_core::schema::SerializedCollection;
+use bonsaidb_core::transaction::{Operation, Transaction};
 #[cfg(feature = "async")]
 use bonsaidb_core::{circulate::flume, connection::AsyncConnection};
 use derive_where::derive_where;
@@ -173,8 +174,13 @@ where
 
     /// Deletes the file.
     pub fn delete(&self) -> Result<(), Error> {
+        let blocks =
+            schema::block::Block::<Config>::for_file(self.doc.header.id, &self.database.0)?;
+        self.create_delete_transaction(blocks)?
+            .apply(&self.database.0)?;
+        // Remove the blocks appended since. No more can be appended now that
+        // the file doesn't exist.
         schema::block::Block::<Config>::delete_for_file(self.doc.header.id, &self.database.0)?;
-        self.doc.delete(&self.database.0)?;
         Ok(())
     }
 
@@ -404,9 +410,16 @@ where
 
     /// Deletes the file.
     pub async fn delete(&self) -> Result<(), Error> {
+        let blocks =
+            schema::block::Block::<Config>::for_file_async(self.doc.header.id, &self.database.0)
+                .await?;
+        self.create_delete_transaction(blocks)?
+            .apply_async(&self.database.0)
+            .await?;
+        // Remove the blocks appended since. No more can be appended now that
+        // the file doesn't exist.
         schema::block::Block::<Config>::delete_for_file_async(self.doc.header.id, &self.database.0)
             .await?;
-        self.doc.delete_async(&self.database.0).await?;
         Ok(())
     }
 
@@ -565,6 +578,26 @@ where
         &mut self.doc.contents.metadata
     }
 
+    /// Returns a transaction that deletes the file and its blocks, or neither
+    /// if the file was changed by another handle.
+    fn create_delete_transaction(
+        &self,
+        blocks: Vec<BlockInfo>,
+    ) -> Result<Transaction, bonsaidb_core::Error> {
+        let mut tx = Transaction::new();
+        tx.push(Operation::delete(
+            Config::files_name(),
+            Header::try_from(self.doc.header)?,
+        ));
+        for block in blocks {
+            tx.push(Operation::delete(
+                Config::blocks_name(),
+                Header::try_from(block.header)?,
+            ));
+        }
+        Ok(tx)
+    }
+
     fn update_document_for_move(
         &self,
         new_path: &str,
-- 
2.43.0


From 24cfb81f2eb67eeeffe1a8aa05483d39438f5b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:09 +0000
Subject: [PATCH 50/59] fix: asynchronous reads do not lose what they read
 before waiting for more blocks

---
 crates/bonsaidb-files/src/direct.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 22c6297..168d6e0 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1184,6 +1184,7 @@ impl<
             return Poll::Ready(Ok(()));
         }
 
+        let filled = buf.filled().len();
         self.spawn_block_fetching_task();
         loop {
             match self.non_blocking_read(|block| {
@@ -1191,6 +1192,10 @@ impl<
                 buf.put_slice(&block[..bytes_to_read]);
                 bytes_to_read
             }) {
+                // What has been read must be returned before waiting.
+                NonBlockingReadResult::NeedBlocks if buf.filled().len() > filled => {
+                    return Poll::Ready(Ok(()))
+                }
                 NonBlockingReadResult::NeedBlocks => match self.fetch_blocks(cx) {
                     Poll::Ready(Ok(true)) => continue,
                     Poll::Pending => return Poll::Pending,
-- 
2.43.0


From 879cfc6f16600b8cbe789ec4e0d1729124d56b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:25 +0000
Subject: [PATCH 51/59] fix: composite keys with a missing optional value of a
 fixed length can be read back

---
 crates/bonsaidb-core/src/key.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index e16d0c1..42c96a5 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -1366,6 +1366,11 @@ where
             self.encoded_lengths.push(encoded_length);
         }
         self.bytes.extend_from_slice(&encoded);
+        if let Some(missing) = T::LENGTH.and_then(|length| length.checked_sub(encoded.len())) {
+            // `None` is encoded with a single byte, but decoding needs every
+            // value of a fixed length type to occupy all of its bytes.
+            self.bytes.resize(self.bytes.len() + missing, 0);
+        }
         if T::LENGTH.is_none() {
             // With variable length data, we need the key to have a delimiter to
             // ensure that "a" sorts before "aa".
-- 
2.43.0


From d778d3c785a87cc3c471380ede14df23be5514c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:25 +0000
Subject: [PATCH 52/59] fix: times before 1970 are refused as keys instead of
 panicking

---
 crates/bonsaidb-core/src/key/time.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index c3f78ea..18237a6 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -88,7 +88,9 @@ impl KeyEncoding<Self> for SystemTime {
     }
 
     fn as_ord_bytes(&self) -> Result<Cow<'_, [u8]>, Self::Error> {
-        let since_epoch = self.duration_since(UNIX_EPOCH).unwrap();
+        let since_epoch = self
+            .duration_since(UNIX_EPOCH)
+            .map_err(|_| TimeError::DeltaNotRepresentable)?;
         match since_epoch.as_ord_bytes()? {
             Cow::Owned(bytes) => Ok(Cow::Owned(bytes)),
             Cow::Borrowed(_) => unreachable!(),
-- 
2.43.0


From e8359f60297895ad4245a65535178202636af403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:06 +0000
Subject: [PATCH 53/59] fix: keys derived for enums with fields describe
 themselves, so that schemas can use them

---
 crates/bonsaidb-macros/src/lib.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/bonsaidb-macros/src/lib.rs b/crates/bonsaidb-macros/src/lib.rs
index bc93b5d..ab0e01b 100644
--- a/crates/bonsaidb-macros/src/lib.rs
+++ b/crates/bonsaidb-macros/src/lib.rs
@@ -649,6 +649,7 @@ pub fn key_derive(input: proc_macro::TokenStream) -> Result {
                             const_,
                             match fields {
                                 Fields::Named(FieldsNamed { named, .. }) => {
+                                    let field_count = named.len();
                                     let (idents, (encode_fields, (decode_fields, describe))): (
                                         Punctuated<_, Token![,]>,
                                         (TokenStream, (TokenStream, TokenStream)),
@@ -668,6 +669,8 @@ pub fn key_derive(input: proc_macro::TokenStream) -> Result {
                                             )
                                         })
                                         .unzip();
+                                    let describe =
+                                        describe_variant(&core, field_count, &describe);
                                     (
                                         quote! {
                                             Self::#ident{#idents} => {
@@ -684,6 +687,7 @@ pub fn key_derive(input: proc_macro::TokenStream) -> Result {
                                     )
                                 }
                                 Fields::Unnamed(FieldsUnnamed { unnamed, .. }) => {
+                                    let field_count = unnamed.len();
                                     let (idents, (encode_fields, (decode_fields, describe))): (
                                         Punctuated<_, Token![,]>,
                                         (TokenStream, (TokenStream, TokenStream)),
@@ -705,6 +709,8 @@ pub fn key_derive(input: proc_macro::TokenStream) -> Result {
                                             )
                                         })
                                         .unzip();
+                                    let describe =
+                                        describe_variant(&core, field_count, &describe);
                                     (
                                         quote! {
                                             Self::#ident(#idents) => {
@@ -856,6 +862,18 @@ pub fn key_derive(input: proc_macro::TokenStream) -> Result {
     })
 }
 
+/// Each variant of an enum is described as a single field.
+fn describe_variant(core: &Path, field_count: usize, describe: &TokenStream) -> TokenStream {
+    match field_count {
+        0 => quote!(visitor.visit_type(#core::key::KeyKind::Unit);),
+        1 => describe.clone(),
+        _ => quote! {
+            visitor.visit_composite(#core::key::CompositeKind::Tuple, #field_count);
+            #describe
+        },
+    }
+}
+
 #[derive(FromAttr)]
 #[attribute(ident = api)]
 struct ApiAttribute {
-- 
2.43.0


From fc703d0a73ffd36b2437badece3904a2972add82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:49 +0000
Subject: [PATCH 54/59] fix: the id after a missing optional one is the first
 value

---
 crates/bonsaidb-core/src/key.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index 42c96a5..265beb4 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -2168,7 +2168,11 @@ where
     }
 
     fn next_value(&self) -> Result<Self, NextValueError> {
-        self.as_ref().map(T::next_value).transpose()
+        match self {
+            Some(value) => value.next_value().map(Some),
+            // `None` sorts before all other values.
+            None => Self::first_value(),
+        }
     }
 }
 
-- 
2.43.0


From d1bc23bc50faff17e90a856abbd290678a1dfcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:04 +0000
Subject: [PATCH 55/59] fix: mapping a view does not use up transaction ids

---
 crates/bonsaidb-local/src/database.rs         | 59 ++++++++++++++++++-
 .../src/views/integrity_scanner.rs            |  2 +
 crates/bonsaidb-local/src/views/mapper.rs     | 12 +---
 3 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 209c047..8afe690 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1,5 +1,5 @@
 use std::borrow::{Borrow, Cow};
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
 use std::ops::{self, Deref};
 use std::sync::atomic::{AtomicU64, Ordering};
@@ -39,7 +39,7 @@ use nebari::tree::{
     Unversioned, Versioned,
 };
 use nebari::{AbortError, ExecutingTransaction, Roots, Tree};
-use parking_lot::{Mutex, RwLock, RwLockReadGuard};
+use parking_lot::{Condvar, Mutex, RwLock, RwLockReadGuard};
 use serde::{Deserialize, Serialize};
 use watchable::Watchable;
 
@@ -258,6 +258,10 @@ impl Database {
         &self.data.context.tree_files
     }
 
+    pub(crate) fn commits(&self) -> &'_ Commits {
+        &self.data.context.commits
+    }
+
     fn for_each_in_view<F: FnMut(ViewEntry) -> Result<(), bonsaidb_core::Error> + Send + Sync>(
         &self,
         view: &dyn view::Serialized,
@@ -439,7 +443,9 @@ impl Database {
 
         #[cfg(bonsai_verif)]
         crate::verif::point("tx.commit");
+        let commit = self.commits().begin();
         roots_transaction.commit()?;
+        drop(commit);
         #[cfg(bonsai_verif)]
         crate::verif::point("tx.committed");
 
@@ -1785,6 +1791,52 @@ impl Deref for Context {
     }
 }
 
+/// The commits that are running. A transaction is recorded before its changes
+/// can be read, but both have happened once its commit has finished.
+#[derive(Debug, Default)]
+pub(crate) struct Commits {
+    running: Mutex<RunningCommits>,
+    finished: Condvar,
+}
+
+#[derive(Debug, Default)]
+struct RunningCommits {
+    next: u64,
+    ids: BTreeSet<u64>,
+}
+
+impl Commits {
+    /// Notes that a commit is running until the result is dropped.
+    pub fn begin(&self) -> RunningCommit<'_> {
+        let mut running = self.running.lock();
+        let id = running.next;
+        running.next += 1;
+        running.ids.insert(id);
+        RunningCommit { commits: self, id }
+    }
+
+    /// Waits for the commits that are running now.
+    pub fn wait_for_running(&self) {
+        let mut running = self.running.lock();
+        let next = running.next;
+        while running.ids.iter().next().map_or(false, |id| *id < next) {
+            self.finished.wait(&mut running);
+        }
+    }
+}
+
+pub(crate) struct RunningCommit<'a> {
+    commits: &'a Commits,
+    id: u64,
+}
+
+impl<'a> Drop for RunningCommit<'a> {
+    fn drop(&mut self) {
+        self.commits.running.lock().ids.remove(&self.id);
+        self.commits.finished.notify_all();
+    }
+}
+
 #[derive(Debug)]
 pub(crate) struct ContextData {
     id: u64,
@@ -1793,6 +1845,8 @@ pub(crate) struct ContextData {
     /// compacted: compacting replaces a tree's file, which must not happen to a
     /// tree that is being recreated.
     pub(crate) tree_files: RwLock<()>,
+    /// The commits that are invalidating documents of views.
+    pub(crate) commits: Commits,
     /// Whether the database has been deleted. Held for reading while the
     /// database's files are used.
     deleted: RwLock<bool>,
@@ -1825,6 +1879,7 @@ impl Context {
                 id: CONTEXT_IDS.fetch_add(1, Ordering::Relaxed),
                 roots,
                 tree_files: RwLock::default(),
+                commits: Commits::default(),
                 deleted: RwLock::default(),
                 removed_views_forgotten: Mutex::default(),
                 key_value_state,
diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 5269dde..d3cc782 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -109,7 +109,9 @@ impl Job for IntegrityScanner {
                 missing_entries.sort();
                 invalidated_entries.modify(missing_entries, Operation::Set(ArcBytes::default()))?;
             }
+            let commit = self.database.commits().begin();
             transaction.commit()?;
+            drop(commit);
             #[cfg(bonsai_verif)]
             crate::verif::point("scan.committed");
         }
diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index a066dae..c45bda6 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -75,27 +75,19 @@ impl Job for Mapper {
                     view_invalidated_docs_tree_name(&self.map.view_name),
                 )?)?;
 
-        // A transaction's id is recorded before its changes can be read. While
-        // the list of invalidated documents is locked, each transaction that
-        // added to it is either completely visible or hasn't been recorded yet.
-        let lock = self
-            .database
-            .roots()
-            .transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
-                Box::new(invalidated_entries.clone()) as Box<dyn AnyTreeRoot<AnyFile>>
-            ])?;
         let transaction_id = self
             .database
             .roots()
             .transactions()
             .current_transaction_id()
             .expect("no way to have documents without a transaction");
+        // A transaction's id is recorded before its changes can be read.
+        self.database.commits().wait_for_running();
         let invalidated_ids = invalidated_entries
             .get_range(&(..))?
             .into_iter()
             .map(|(key, _)| key)
             .collect::<Vec<_>>();
-        drop(lock);
 
         #[cfg(bonsai_verif)]
         crate::verif::point("mapper.txid");
-- 
2.43.0


From 349e43751ddea596d2dd02b8f9e1e5c8db8bc18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:43 +0000
Subject: [PATCH 56/59] fix: the response to the first request of a connection
 is not lost when it is quick

---
 crates/bonsaidb-client/src/client/quic_worker.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-client/src/client/quic_worker.rs b/crates/bonsaidb-client/src/client/quic_worker.rs
index d75cac0..34a9dc4 100644
--- a/crates/bonsaidb-client/src/client/quic_worker.rs
+++ b/crates/bonsaidb-client/src/client/quic_worker.rs
@@ -91,12 +91,12 @@ async fn connect_and_process(
         custom_apis,
     ));
 
-    if let Err(err) = payload_sender.send(&initial_request.request) {
-        return Err((Some(initial_request), Some(Error::from(err))));
-    }
-
     {
+        // The response must not be processed before the request is inserted.
         let mut outstanding_requests = fast_async_lock!(outstanding_requests);
+        if let Err(err) = payload_sender.send(&initial_request.request) {
+            return Err((Some(initial_request), Some(Error::from(err))));
+        }
         outstanding_requests.insert(
             initial_request
                 .request
-- 
2.43.0


From ef5d69d8002a652b00d56ae9cdfc97fa32917f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:43 +0000
Subject: [PATCH 57/59] fix: the end of a serialized range is deserialized

---
 crates/bonsaidb-core/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/connection.rs b/crates/bonsaidb-core/src/connection.rs
index c4e34e8..3c45bd8 100644
--- a/crates/bonsaidb-core/src/connection.rs
+++ b/crates/bonsaidb-core/src/connection.rs
@@ -2507,7 +2507,7 @@ impl Range<Bytes> {
     ) -> Result<Range<T>, <T as KeyEncoding<T>>::Error> {
         Ok(Range {
             start: self.start.deserialize()?,
-            end: self.start.deserialize()?,
+            end: self.end.deserialize()?,
         })
     }
 }
-- 
2.43.0


From 72e0e7b087ad6e3e13e0e914a45734e9a4adf484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:54 +0000
Subject: [PATCH 58/59] fix: small values in a compressed storage are not
 mistaken for encrypted ones

---
 crates/bonsaidb-local/src/storage.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index ca775ef..4d562f9 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1696,11 +1696,11 @@ impl nebari::Vault for TreeVault {
             compressed.into_owned()
         };
 
+        // Without a header, a payload that isn't encrypted could be mistaken for
+        // one that is.
         let header = self.header(includes_compression);
-        if header != 0 {
-            let header = [b't', b'r', b'v', header];
-            complete.splice(0..0, header);
-        }
+        let header = [b't', b'r', b'v', header];
+        complete.splice(0..0, header);
 
         Ok(complete)
     }
@@ -1813,8 +1813,9 @@ impl nebari::Vault for TreeVault {
                 destination[4..8].copy_from_slice(&uncompressed_length.to_le_bytes());
                 destination
             }
+            // Without a header, a payload could be mistaken for one that has one.
             // TODO this shouldn't copy
-            _ => payload.to_vec(),
+            _ => [&b"trv\0"[..], payload].concat(),
         })
     }
 
-- 
2.43.0


From cb8358e13b215315a692c4131f39a014f7a4640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:29 +0000
Subject: [PATCH 59/59] verif: a point after requests are sent

---
 .../bonsaidb-client/src/client/quic_worker.rs |  4 ++++
 .../src/client/tungstenite_worker.rs          |  4 ++++
 crates/bonsaidb-client/src/lib.rs             |  3 +++
 crates/bonsaidb-client/src/verif.rs           | 24 +++++++++++++++++++
 4 files changed, 35 insertions(+)
 create mode 100644 crates/bonsaidb-client/src/verif.rs

diff --git a/crates/bonsaidb-client/src/client/quic_worker.rs b/crates/bonsaidb-client/src/client/quic_worker.rs
index 34a9dc4..6cac405 100644
--- a/crates/bonsaidb-client/src/client/quic_worker.rs
+++ b/crates/bonsaidb-client/src/client/quic_worker.rs
@@ -97,6 +97,8 @@ async fn connect_and_process(
         if let Err(err) = payload_sender.send(&initial_request.request) {
             return Err((Some(initial_request), Some(Error::from(err))));
         }
+        #[cfg(bonsai_verif)]
+        crate::verif::point("client.sent");
         outstanding_requests.insert(
             initial_request
                 .request
@@ -131,6 +133,8 @@ async fn process_requests(
     while let Ok(client_request) = request_receiver.recv_async().await {
         let mut outstanding_requests = fast_async_lock!(outstanding_requests);
         payload_sender.send(&client_request.request)?;
+        #[cfg(bonsai_verif)]
+        crate::verif::point("client.sent");
         outstanding_requests.insert(
             client_request.request.id.expect("all requests require ids"),
             client_request,
diff --git a/crates/bonsaidb-client/src/client/tungstenite_worker.rs b/crates/bonsaidb-client/src/client/tungstenite_worker.rs
index 93fe75b..c9888d3 100644
--- a/crates/bonsaidb-client/src/client/tungstenite_worker.rs
+++ b/crates/bonsaidb-client/src/client/tungstenite_worker.rs
@@ -78,6 +78,8 @@ pub(super) async fn reconnecting_client_loop(
                 drop(request.responder.send(Err(Error::from(err))));
                 continue;
             }
+            #[cfg(bonsai_verif)]
+            crate::verif::point("client.sent");
             outstanding_requests.insert(
                 request.request.id.expect("all requests must have ids"),
                 request,
@@ -108,6 +110,8 @@ async fn request_sender(
         sender
             .send(Message::Binary(bincode::serialize(&pending.request)?))
             .await?;
+        #[cfg(bonsai_verif)]
+        crate::verif::point("client.sent");
 
         outstanding_requests.insert(
             pending.request.id.expect("all requests must have ids"),
diff --git a/crates/bonsaidb-client/src/lib.rs b/crates/bonsaidb-client/src/lib.rs
index 4c96388..b3f95c8 100644
--- a/crates/bonsaidb-client/src/lib.rs
+++ b/crates/bonsaidb-client/src/lib.rs
@@ -20,6 +20,9 @@ pub use url;
 mod builder;
 mod client;
 mod error;
+/// Hooks for verification harnesses.
+#[cfg(bonsai_verif)]
+pub mod verif;
 
 #[cfg(not(target_arch = "wasm32"))]
 pub use fabruic;
diff --git a/crates/bonsaidb-client/src/verif.rs b/crates/bonsaidb-client/src/verif.rs
new file mode 100644
index 0000000..456052a
--- /dev/null
+++ b/crates/bonsaidb-client/src/verif.rs
@@ -0,0 +1,24 @@
+//! Named points at which a verification harness can delay or observe the
+//! current thread. Only compiled with `--cfg bonsai_verif`.
+#![allow(missing_docs)]
+
+use std::sync::Arc;
+
+use parking_lot::RwLock;
+
+type Hook = Arc<dyn Fn(&'static str) + Send + Sync>;
+
+static HOOK: RwLock<Option<Hook>> = parking_lot::const_rwlock(None);
+
+/// Installs or removes the function called at every point.
+pub fn set_hook(hook: Option<Hook>) {
+    *HOOK.write() = hook;
+}
+
+/// Invokes the installed hook.
+pub fn point(name: &'static str) {
+    let hook = HOOK.read().clone();
+    if let Some(hook) = hook {
+        hook(name);
+    }
+}
-- 
2.43.0

