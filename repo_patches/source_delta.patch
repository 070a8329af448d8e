From ce6b0d89990e564cad0e130a1f8c17fcb510d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:12 +0000
Subject: [PATCH 01/46] fix: resolve the table schema past commits without data
 files

---
 crates/core/src/table/mod.rs    |   9 ++-
 crates/core/src/timeline/mod.rs | 111 ++++++++++++++++++--------------
 2 files changed, 69 insertions(+), 51 deletions(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index e47ff9b..6c7ae1d 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -326,9 +326,12 @@ impl Table {
             .timeline
             .get_replaced_file_groups_as_of(timestamp)
             .await?;
-        let partition_schema = self.get_partition_schema().await?;
-        let partition_pruner =
-            PartitionPruner::new(filters, &partition_schema, self.hudi_configs.as_ref())?;
+        let partition_pruner = if filters.is_empty() {
+            PartitionPruner::empty()
+        } else {
+            let partition_schema = self.get_partition_schema().await?;
+            PartitionPruner::new(filters, &partition_schema, self.hudi_configs.as_ref())?
+        };
         self.file_system_view
             .get_file_slices_as_of(timestamp, &partition_pruner, &excludes)
             .await
diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index ac78903..961da71 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -24,6 +24,7 @@ use crate::error::CoreError;
 use crate::file_group::builder::{build_file_groups, build_replaced_file_groups, FileGroupMerger};
 use crate::file_group::FileGroup;
 use crate::metadata::HUDI_METADATA_DIR;
+use crate::storage::error::StorageError;
 use crate::storage::Storage;
 use crate::timeline::instant::Action;
 use crate::timeline::selector::TimelineSelector;
@@ -211,13 +212,6 @@ impl Timeline {
             .map_err(|e| CoreError::Timeline(format!("Failed to get commit metadata: {}", e)))
     }
 
-    async fn get_latest_commit_metadata(&self) -> Result<Map<String, Value>> {
-        match self.completed_commits.iter().next_back() {
-            Some(instant) => self.get_instant_metadata(instant).await,
-            None => Ok(Map::new()),
-        }
-    }
-
     pub(crate) fn get_latest_commit_timestamp_as_option(&self) -> Option<&str> {
         self.completed_commits
             .iter()
@@ -237,57 +231,78 @@ impl Timeline {
 
     /// Get the latest Avro schema string from the [Timeline].
     pub async fn get_latest_avro_schema(&self) -> Result<String> {
-        let commit_metadata = self.get_latest_commit_metadata().await?;
-        commit_metadata
-            .get("extraMetadata")
-            .and_then(|v| v.as_object())
-            .and_then(|obj| {
-                obj.get("schema")
-                    .and_then(|v| v.as_str())
-                    .map(|s| s.to_string())
-            })
-            .ok_or_else(|| {
-                CoreError::CommitMetadata(
-                    "Failed to resolve the latest schema: no schema found".to_string(),
-                )
-            })
+        // A commit may carry no schema, e.g., when it only deletes partitions.
+        for instant in self.completed_commits.iter().rev() {
+            let commit_metadata = self.get_instant_metadata(instant).await?;
+            let schema = commit_metadata
+                .get("extraMetadata")
+                .and_then(|v| v.as_object())
+                .and_then(|obj| obj.get("schema"))
+                .and_then(|v| v.as_str())
+                .filter(|s| !s.is_empty());
+            if let Some(schema) = schema {
+                return Ok(schema.to_string());
+            }
+        }
+        Err(CoreError::CommitMetadata(
+            "Failed to resolve the latest schema: no schema found".to_string(),
+        ))
     }
 
     /// Get the latest [arrow_schema::Schema] from the [Timeline].
     pub async fn get_latest_schema(&self) -> Result<Schema> {
-        let commit_metadata = self.get_latest_commit_metadata().await?;
-
-        let first_partition = commit_metadata
-            .get("partitionToWriteStats")
-            .and_then(|v| v.as_object());
-
-        let partition_path = first_partition
-            .and_then(|obj| obj.keys().next())
-            .ok_or_else(|| {
-                CoreError::CommitMetadata(
-                    "Failed to resolve the latest schema: no partition path found".to_string(),
-                )
-            })?;
-
-        let first_value = first_partition
-            .and_then(|obj| obj.values().next())
-            .and_then(|value| value.as_array())
-            .and_then(|arr| arr.first());
-
-        let parquet_path = first_value.and_then(|v| v["path"].as_str());
+        // A commit may write no file, e.g., when it only deletes partitions, and the files it
+        // wrote may have been cleaned since.
+        let mut res = Err(CoreError::CommitMetadata(
+            "Failed to resolve the latest schema: no write stats found".to_string(),
+        ));
+        for instant in self.completed_commits.iter().rev() {
+            let commit_metadata = self.get_instant_metadata(instant).await?;
+            let Some(write_stats) = commit_metadata
+                .get("partitionToWriteStats")
+                .and_then(|v| v.as_object())
+            else {
+                continue;
+            };
+            for (partition_path, stats) in write_stats {
+                let Some(stats) = stats.as_array() else {
+                    continue;
+                };
+                for write_stat in stats {
+                    res = self
+                        .get_schema_from_write_stat(partition_path, write_stat)
+                        .await;
+                    if !matches!(
+                        res,
+                        Err(CoreError::Storage(StorageError::ObjectStoreError(
+                            object_store::Error::NotFound { .. }
+                        )))
+                    ) {
+                        return res;
+                    }
+                }
+            }
+        }
+        res
+    }
+
+    async fn get_schema_from_write_stat(
+        &self,
+        partition_path: &str,
+        write_stat: &Value,
+    ) -> Result<Schema> {
+        let parquet_path = write_stat["path"].as_str();
         match parquet_path {
             Some(path) if path.ends_with(".parquet") => {
                 Ok(self.storage.get_parquet_file_schema(path).await?)
             }
             Some(_) => {
                 // TODO: properly handle deltacommit
-                let base_file = first_value
-                    .and_then(|v| v["baseFile"].as_str())
-                    .ok_or_else(|| {
-                        CoreError::CommitMetadata(
-                            "Failed to resolve the latest schema: no file path found".to_string(),
-                        )
-                    })?;
+                let base_file = write_stat["baseFile"].as_str().ok_or_else(|| {
+                    CoreError::CommitMetadata(
+                        "Failed to resolve the latest schema: no file path found".to_string(),
+                    )
+                })?;
                 let parquet_file_path_buf = PathBuf::from_str(partition_path)
                     .map_err(|e| {
                         CoreError::CommitMetadata(format!(
-- 
2.43.0


From 90a058877b21821402321871156bb350d787e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:12 +0000
Subject: [PATCH 02/46] fix: read a table without completed commits as empty at
 any instant

---
 crates/core/src/table/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 6c7ae1d..ad691d9 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -322,6 +322,9 @@ impl Table {
         timestamp: &str,
         filters: &[Filter],
     ) -> Result<Vec<FileSlice>> {
+        if self.timeline.completed_commits.is_empty() {
+            return Ok(Vec::new());
+        }
         let excludes = self
             .timeline
             .get_replaced_file_groups_as_of(timestamp)
-- 
2.43.0


From 48fe19b49281e95ed91fedf989ca744b8513eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:43 +0000
Subject: [PATCH 03/46] fix: order partition schema by the configured partition
 fields

---
 crates/core/src/table/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index ad691d9..c045b10 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -105,7 +105,7 @@ use crate::Result;
 use crate::config::read::HudiReadConfig;
 use arrow::record_batch::RecordBatch;
 use arrow_schema::{Field, Schema};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
@@ -205,19 +205,16 @@ impl Table {
 
     /// Get the latest partition [arrow_schema::Schema] of the table.
     pub async fn get_partition_schema(&self) -> Result<Schema> {
-        let partition_fields: HashSet<String> = self
+        let partition_fields = self
             .hudi_configs
             .get_or_default(PartitionFields)
-            .to::<Vec<String>>()
-            .into_iter()
-            .collect();
+            .to::<Vec<String>>();
 
         let schema = self.get_schema().await?;
-        let partition_fields: Vec<Arc<Field>> = schema
-            .fields()
+        // Partition paths are made of the partition fields in their configured order.
+        let partition_fields: Vec<Arc<Field>> = partition_fields
             .iter()
-            .filter(|field| partition_fields.contains(field.name()))
-            .cloned()
+            .filter_map(|name| schema.fields().find(name).map(|(_, field)| field.clone()))
             .collect();
 
         Ok(Schema::new(partition_fields))
-- 
2.43.0


From d1ac0c3efa764372746504c44a1049bf815cd34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:15 +0000
Subject: [PATCH 04/46] fix: split url-encoded partition paths before decoding
 their values

---
 crates/core/src/table/partition.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index 307b428..f304372 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -119,15 +119,21 @@ impl PartitionPruner {
     }
 
     fn parse_segments(&self, partition_path: &str) -> Result<HashMap<String, Scalar<ArrayRef>>> {
-        let partition_path = if self.is_url_encoded {
-            percent_encoding::percent_decode(partition_path.as_bytes())
+        let decode = |s: &str| -> Result<String> {
+            Ok(percent_encoding::percent_decode(s.as_bytes())
                 .decode_utf8()?
-                .into_owned()
-        } else {
-            partition_path.to_string()
+                .into_owned())
         };
-
-        let parts: Vec<&str> = partition_path.split('/').collect();
+        let mut parts: Vec<String> = partition_path.split('/').map(str::to_string).collect();
+        if self.is_url_encoded {
+            // Only an encoded separator can be part of a value.
+            parts = if parts.len() == self.schema.fields().len() {
+                parts.iter().map(|p| decode(p)).collect::<Result<_>>()?
+            } else {
+                let decoded = decode(partition_path)?;
+                decoded.split('/').map(str::to_string).collect()
+            };
+        }
 
         if parts.len() != self.schema.fields().len() {
             return Err(InvalidPartitionPath(format!(
@@ -155,7 +161,7 @@ impl PartitionPruner {
                     }
                     value
                 } else {
-                    part
+                    part.as_str()
                 };
                 let scalar = SchemableFilter::cast_value(&[value], field.data_type())?;
                 Ok((field.name().to_string(), scalar))
-- 
2.43.0


From 0dc1411859bc496dc7c7d8a253bff65b7451bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 05/46] fix: do not panic on partition filters when path style
 options are absent

---
 crates/core/src/table/partition.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index f304372..a59ddd7 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -70,11 +70,11 @@ impl PartitionPruner {
 
         let schema = Arc::new(partition_schema.clone());
         let is_hive_style: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsHiveStylePartitioning)
-            .to();
+            .try_get(HudiTableConfig::IsHiveStylePartitioning)
+            .is_some_and(|v| v.to());
         let is_url_encoded: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsPartitionPathUrlencoded)
-            .to();
+            .try_get(HudiTableConfig::IsPartitionPathUrlencoded)
+            .is_some_and(|v| v.to());
         Ok(PartitionPruner {
             schema,
             is_hive_style,
-- 
2.43.0


From ea0252ae8f422eea53b6f1b31adf6c01077660cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:29 +0000
Subject: [PATCH 06/46] fix: take an empty list of partition fields as none

---
 crates/core/src/config/table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/config/table.rs b/crates/core/src/config/table.rs
index 149938e..fb36a08 100644
--- a/crates/core/src/config/table.rs
+++ b/crates/core/src/config/table.rs
@@ -204,7 +204,9 @@ impl ConfigParser for HudiTableConfig {
                 .map(HudiConfigValue::Boolean),
             Self::KeyGeneratorClass => get_result.map(|v| HudiConfigValue::String(v.to_string())),
             Self::PartitionFields => get_result
-                .map(|v| HudiConfigValue::List(v.split(',').map(str::to_string).collect())),
+                .map(|v| v.split(',').map(str::to_string))
+                .map(|fields| fields.filter(|name| !name.trim().is_empty()).collect())
+                .map(HudiConfigValue::List),
             Self::PrecombineField => get_result.map(|v| HudiConfigValue::String(v.to_string())),
             Self::PopulatesMetaFields => get_result
                 .and_then(|v| {
-- 
2.43.0


From 6529d16814a2e49da76840892065f7df3135415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 07/46] fix: keep every write stat of a file group in commit
 metadata

---
 crates/core/src/file_group/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/builder.rs b/crates/core/src/file_group/builder.rs
index 9f2d0c3..4aaf6d1 100644
--- a/crates/core/src/file_group/builder.rs
+++ b/crates/core/src/file_group/builder.rs
@@ -103,7 +103,7 @@ pub fn build_file_groups(commit_metadata: &Map<String, Value>) -> Result<HashSet
                 file_group.add_base_file_from_name(file_name)?;
             }
 
-            file_groups.insert(file_group);
+            file_groups.merge([file_group])?;
         }
     }
 
-- 
2.43.0


From 2b2b96d4139ca02f70b0699c8379b750fef19d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 08/46] fix: do not read base files of writes that are not
 completed

---
 crates/core/src/table/builder.rs |  5 +--
 crates/core/src/table/fs_view.rs | 12 ++++++-
 crates/core/src/table/listing.rs | 21 ++++++++++++
 crates/core/src/timeline/mod.rs  | 55 ++++++++++++++++++++++++++++++--
 4 files changed, 88 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 35e805e..24c5de4 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -117,8 +117,9 @@ impl TableBuilder {
         let timeline =
             Timeline::new_from_storage(hudi_configs.clone(), storage_options.clone()).await?;
 
-        let file_system_view =
-            FileSystemView::new(hudi_configs.clone(), storage_options.clone()).await?;
+        let file_system_view = FileSystemView::new(hudi_configs.clone(), storage_options.clone())
+            .await?
+            .with_committed_instants(timeline.committed_instants.clone());
 
         Ok(Table {
             hudi_configs,
diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index d25389b..a4e8341 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -27,6 +27,7 @@ use crate::storage::Storage;
 use crate::file_group::file_slice::FileSlice;
 use crate::table::listing::FileLister;
 use crate::table::partition::PartitionPruner;
+use crate::timeline::CommittedInstants;
 use crate::Result;
 use dashmap::DashMap;
 
@@ -38,6 +39,7 @@ pub struct FileSystemView {
     pub(crate) hudi_configs: Arc<HudiConfigs>,
     pub(crate) storage: Arc<Storage>,
     partition_to_file_groups: Arc<DashMap<String, Vec<FileGroup>>>,
+    committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 impl FileSystemView {
@@ -51,15 +53,23 @@ impl FileSystemView {
             hudi_configs,
             storage,
             partition_to_file_groups,
+            committed_instants: None,
         })
     }
 
+    /// Only consider data files written by these instants.
+    pub(crate) fn with_committed_instants(mut self, instants: Arc<CommittedInstants>) -> Self {
+        self.committed_instants = Some(instants);
+        self
+    }
+
     async fn load_file_groups(&self, partition_pruner: &PartitionPruner) -> Result<()> {
         let lister = FileLister::new(
             self.hudi_configs.clone(),
             self.storage.clone(),
             partition_pruner.to_owned(),
-        );
+        )
+        .with_committed_instants(self.committed_instants.clone());
         let file_groups_map = lister.list_file_groups_for_relevant_partitions().await?;
         for (partition_path, file_groups) in file_groups_map {
             self.partition_to_file_groups
diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 08bcac5..986cb61 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -28,6 +28,7 @@ use crate::storage::{get_leaf_dirs, Storage};
 use crate::table::partition::{
     is_table_partitioned, PartitionPruner, EMPTY_PARTITION_PATH, PARTITION_METAFIELD_PREFIX,
 };
+use crate::timeline::CommittedInstants;
 use crate::Result;
 use dashmap::DashMap;
 use futures::{stream, StreamExt, TryStreamExt};
@@ -41,6 +42,7 @@ pub struct FileLister {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
     partition_pruner: PartitionPruner,
+    committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 impl FileLister {
@@ -53,9 +55,25 @@ impl FileLister {
             hudi_configs,
             storage,
             partition_pruner,
+            committed_instants: None,
         }
     }
 
+    /// Only list data files written by these instants.
+    pub(crate) fn with_committed_instants(
+        mut self,
+        instants: Option<Arc<CommittedInstants>>,
+    ) -> Self {
+        self.committed_instants = instants;
+        self
+    }
+
+    fn is_committed(&self, timestamp: &str) -> bool {
+        self.committed_instants
+            .as_ref()
+            .map_or(true, |instants| instants.contains(timestamp))
+    }
+
     fn should_exclude_for_listing(file_name: &str) -> bool {
         file_name.starts_with(PARTITION_METAFIELD_PREFIX) || file_name.ends_with(".crc")
     }
@@ -81,6 +99,9 @@ impl FileLister {
                 // After excluding the unintended files,
                 // we expect a file that has the base file extension to be a valid base file.
                 let base_file = BaseFile::try_from(file_metadata)?;
+                if !self.is_committed(&base_file.commit_timestamp) {
+                    continue;
+                }
                 let file_id = &base_file.file_id;
                 file_id_to_base_files
                     .entry(file_id.to_owned())
diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index 961da71..06d578b 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -25,6 +25,7 @@ use crate::file_group::builder::{build_file_groups, build_replaced_file_groups,
 use crate::file_group::FileGroup;
 use crate::metadata::HUDI_METADATA_DIR;
 use crate::storage::error::StorageError;
+use crate::storage::file_metadata::FileMetadata;
 use crate::storage::Storage;
 use crate::timeline::instant::Action;
 use crate::timeline::selector::TimelineSelector;
@@ -33,7 +34,7 @@ use arrow_schema::Schema;
 use instant::Instant;
 use log::debug;
 use serde_json::{Map, Value};
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 use std::fmt::Debug;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -46,6 +47,44 @@ pub struct Timeline {
     hudi_configs: Arc<HudiConfigs>,
     pub(crate) storage: Arc<Storage>,
     pub completed_commits: Vec<Instant>,
+    pub(crate) committed_instants: Arc<CommittedInstants>,
+}
+
+/// Tells if data written by an instant is committed from the view of a [Timeline].
+#[derive(Clone, Debug, Default)]
+pub(crate) struct CommittedInstants {
+    completed: BTreeSet<String>,
+    pending: HashSet<String>,
+}
+
+impl CommittedInstants {
+    fn new(completed_commits: &[Instant], timeline_files: &[FileMetadata]) -> Self {
+        let completed: BTreeSet<String> = completed_commits
+            .iter()
+            .map(|instant| instant.timestamp.clone())
+            .collect();
+        let pending = timeline_files
+            .iter()
+            .filter_map(|file| file.name.split_once('.'))
+            .filter(|(timestamp, suffix)| {
+                (suffix.ends_with("requested") || suffix.ends_with("inflight"))
+                    && !completed.contains(*timestamp)
+            })
+            .map(|(timestamp, _)| timestamp.to_string())
+            .collect();
+        Self { completed, pending }
+    }
+
+    /// An instant is committed if it is completed on the timeline, or if it is older than all of
+    /// the completed ones without being pending, i.e., archived.
+    pub(crate) fn contains(&self, timestamp: &str) -> bool {
+        self.completed.contains(timestamp)
+            || (!self.pending.contains(timestamp)
+                && self
+                    .completed
+                    .first()
+                    .is_some_and(|earliest| timestamp < earliest.as_str()))
+    }
 }
 
 pub const EARLIEST_START_TIMESTAMP: &str = "19700101000000000";
@@ -60,10 +99,12 @@ impl Timeline {
         completed_commits: Vec<Instant>,
     ) -> Result<Self> {
         let storage = Storage::new(storage_options.clone(), hudi_configs.clone())?;
+        let committed_instants = Arc::new(CommittedInstants::new(&completed_commits, &[]));
         Ok(Self {
             hudi_configs,
             storage,
             completed_commits,
+            committed_instants,
         })
     }
 
@@ -78,11 +119,14 @@ impl Timeline {
             None,
             None,
         )?;
-        let completed_commits = Self::load_instants(&selector, &storage, false).await?;
+        let files = storage.list_files(Some(HUDI_METADATA_DIR)).await?;
+        let completed_commits = Self::select_instants(&selector, &files, false)?;
+        let committed_instants = Arc::new(CommittedInstants::new(&completed_commits, &files));
         Ok(Self {
             hudi_configs,
             storage,
             completed_commits,
+            committed_instants,
         })
     }
 
@@ -92,7 +136,14 @@ impl Timeline {
         desc: bool,
     ) -> Result<Vec<Instant>> {
         let files = storage.list_files(Some(HUDI_METADATA_DIR)).await?;
+        Self::select_instants(selector, &files, desc)
+    }
 
+    fn select_instants(
+        selector: &TimelineSelector,
+        files: &[FileMetadata],
+        desc: bool,
+    ) -> Result<Vec<Instant>> {
         // For most cases, we load completed instants, so we can pre-allocate the vector with a
         // capacity of 1/3 of the total number of listed files,
         // ignoring requested and inflight instants.
-- 
2.43.0


From 88c553497e0199bf7b3d9cae7844a946f305cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 09/46] fix: obey rollback blocks written after the range of
 instants being read

---
 crates/core/src/file_group/log_file/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 901ebfe..7c92282 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -236,7 +236,8 @@ impl<R: Read + Seek> LogFileReader<R> {
         let block_type = self.read_block_type(&format_version)?;
         let header = self.read_block_metadata(BlockMetadataType::Header, &format_version)?;
         let mut skipped = false;
-        if self.should_skip_block(&header, instant_range)? {
+        // A command block acts on blocks within the range, no matter when it was written itself.
+        if block_type != BlockType::Command && self.should_skip_block(&header, instant_range)? {
             skipped = true;
             // TODO skip reading block
         }
-- 
2.43.0


From f73856449ca4c39f28327c10d5c81afdae7a85ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 10/46] fix: do not merge log blocks of writes that are not
 completed

---
 .../core/src/file_group/log_file/scanner.rs   | 21 ++++++++++++++++++-
 crates/core/src/file_group/reader.rs          | 10 +++++++++
 crates/core/src/table/mod.rs                  |  1 +
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/log_file/scanner.rs b/crates/core/src/file_group/log_file/scanner.rs
index d6ef227..0cfc4b3 100644
--- a/crates/core/src/file_group/log_file/scanner.rs
+++ b/crates/core/src/file_group/log_file/scanner.rs
@@ -21,6 +21,7 @@ use crate::file_group::log_file::log_block::LogBlock;
 use crate::file_group::log_file::reader::LogFileReader;
 use crate::storage::Storage;
 use crate::timeline::selector::InstantRange;
+use crate::timeline::CommittedInstants;
 use crate::Result;
 use arrow_array::RecordBatch;
 use std::collections::HashSet;
@@ -30,6 +31,7 @@ use std::sync::Arc;
 pub struct LogFileScanner {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
+    committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 impl LogFileScanner {
@@ -37,9 +39,25 @@ impl LogFileScanner {
         Self {
             hudi_configs,
             storage,
+            committed_instants: None,
         }
     }
 
+    /// Only take data blocks written by these instants.
+    pub(crate) fn with_committed_instants(
+        mut self,
+        instants: Option<Arc<CommittedInstants>>,
+    ) -> Self {
+        self.committed_instants = instants;
+        self
+    }
+
+    fn is_committed(&self, timestamp: &str) -> bool {
+        self.committed_instants
+            .as_ref()
+            .map_or(true, |instants| instants.contains(timestamp))
+    }
+
     pub async fn scan(
         &self,
         relative_paths: Vec<String>,
@@ -70,7 +88,8 @@ impl LogFileScanner {
         let mut record_batches: Vec<Vec<RecordBatch>> = Vec::new();
         for blocks in all_blocks {
             for block in blocks {
-                if !rollback_targets.contains(block.instant_time()?) {
+                let instant_time = block.instant_time()?;
+                if !rollback_targets.contains(instant_time) && self.is_committed(instant_time) {
                     record_batches.push(block.record_batches);
                 }
             }
diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index 69f9cf4..c03c60f 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -28,6 +28,7 @@ use crate::merge::record_merger::RecordMerger;
 use crate::metadata::meta_field::MetaField;
 use crate::storage::Storage;
 use crate::timeline::selector::InstantRange;
+use crate::timeline::CommittedInstants;
 use crate::Result;
 use arrow::compute::and;
 use arrow::compute::filter_record_batch;
@@ -41,6 +42,7 @@ use std::sync::Arc;
 pub struct FileGroupReader {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
+    committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 impl FileGroupReader {
@@ -63,9 +65,16 @@ impl FileGroupReader {
         Ok(Self {
             hudi_configs,
             storage,
+            committed_instants: None,
         })
     }
 
+    /// Only read log blocks written by these instants.
+    pub(crate) fn with_committed_instants(mut self, instants: Arc<CommittedInstants>) -> Self {
+        self.committed_instants = Some(instants);
+        self
+    }
+
     /// Creates a new reader with the given base URI and options.
     ///
     /// # Arguments
@@ -215,6 +224,7 @@ impl FileGroupReader {
             let instant_range = self.create_instant_range_for_log_file_scan();
             let log_record_batches =
                 LogFileScanner::new(self.hudi_configs.clone(), self.storage.clone())
+                    .with_committed_instants(self.committed_instants.clone())
                     .scan(log_file_paths, &instant_range)
                     .await?;
             for log_record_batch in log_record_batches {
diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index c045b10..3c0d35b 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -403,6 +403,7 @@ impl Table {
             self.hudi_configs.clone(),
             overwriting_options,
         )
+        .map(|reader| reader.with_committed_instants(self.timeline.committed_instants.clone()))
     }
 
     /// Get all the latest records in the table.
-- 
2.43.0


From 84eba431070158028e86d0fe0b310a9f0306d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:26 +0000
Subject: [PATCH 11/46] fix: collect file slices without holding locks and from
 the current listing only

---
 crates/core/src/table/fs_view.rs | 39 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index a4e8341..ea86226 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -63,7 +63,7 @@ impl FileSystemView {
         self
     }
 
-    async fn load_file_groups(&self, partition_pruner: &PartitionPruner) -> Result<()> {
+    async fn load_file_groups(&self, partition_pruner: &PartitionPruner) -> Result<Vec<FileGroup>> {
         let lister = FileLister::new(
             self.hudi_configs.clone(),
             self.storage.clone(),
@@ -71,33 +71,35 @@ impl FileSystemView {
         )
         .with_committed_instants(self.committed_instants.clone());
         let file_groups_map = lister.list_file_groups_for_relevant_partitions().await?;
+        let mut loaded_file_groups = Vec::new();
         for (partition_path, file_groups) in file_groups_map {
+            loaded_file_groups.extend(file_groups.iter().cloned());
             self.partition_to_file_groups
                 .insert(partition_path, file_groups);
         }
-        Ok(())
+        Ok(loaded_file_groups)
     }
 
     async fn collect_file_slices_as_of(
         &self,
+        file_groups: Vec<FileGroup>,
         timestamp: &str,
         partition_pruner: &PartitionPruner,
         excluding_file_groups: &HashSet<FileGroup>,
     ) -> Result<Vec<FileSlice>> {
+        // Take what this call listed: no other call can have changed it, and no lock is held
+        // while waiting for the storage.
         let mut file_slices = Vec::new();
-        for mut partition_entry in self.partition_to_file_groups.iter_mut() {
-            if !partition_pruner.should_include(partition_entry.key()) {
+        for fg in file_groups {
+            if !partition_pruner.should_include(&fg.partition_path)
+                || excluding_file_groups.contains(&fg)
+            {
                 continue;
             }
-            let file_groups = partition_entry.value_mut();
-            for fg in file_groups.iter_mut() {
-                if excluding_file_groups.contains(fg) {
-                    continue;
-                }
-                if let Some(fsl) = fg.get_file_slice_mut_as_of(timestamp) {
-                    fsl.load_metadata_if_needed(&self.storage).await?;
-                    file_slices.push(fsl.clone());
-                }
+            if let Some(fsl) = fg.get_file_slice_as_of(timestamp) {
+                let mut fsl = fsl.clone();
+                fsl.load_metadata_if_needed(&self.storage).await?;
+                file_slices.push(fsl);
             }
         }
         Ok(file_slices)
@@ -109,9 +111,14 @@ impl FileSystemView {
         partition_pruner: &PartitionPruner,
         excluding_file_groups: &HashSet<FileGroup>,
     ) -> Result<Vec<FileSlice>> {
-        self.load_file_groups(partition_pruner).await?;
-        self.collect_file_slices_as_of(timestamp, partition_pruner, excluding_file_groups)
-            .await
+        let file_groups = self.load_file_groups(partition_pruner).await?;
+        self.collect_file_slices_as_of(
+            file_groups,
+            timestamp,
+            partition_pruner,
+            excluding_file_groups,
+        )
+        .await
     }
 }
 
-- 
2.43.0


From 5a3b0e67602454ce6bb0506e2d45154dc47faedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:16 +0000
Subject: [PATCH 12/46] fix: refuse malformed timestamps instead of panicking

---
 crates/core/src/timeline/instant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index e3e191e..c46f5e7 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -148,7 +148,7 @@ impl Instant {
     }
 
     fn validate_timestamp(timestamp: &str) -> Result<()> {
-        if !matches!(timestamp.len(), 14 | 17) {
+        if !matches!(timestamp.len(), 14 | 17) || !timestamp.bytes().all(|b| b.is_ascii_digit()) {
             return Err(CoreError::Timeline(format!(
                 "Timestamp must be in format yyyyMMddHHmmss or yyyyMMddHHmmssSSS, but got: {}",
                 timestamp
@@ -163,6 +163,7 @@ impl Instant {
     }
 
     fn parse_naive_datetime(timestamp: &str) -> Result<NaiveDateTime> {
+        Self::validate_timestamp(timestamp)?;
         let naive_dt = NaiveDateTime::parse_from_str(&timestamp[..14], "%Y%m%d%H%M%S")
             .map_err(|e| CoreError::Timeline(format!("Failed to parse timestamp: {}", e)))?;
 
-- 
2.43.0


From 0bcc3efa3afb0f735b12a2368455c849a3c44c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 13/46] fix: compare timestamps in second and millisecond form
 by time

---
 crates/core/src/file_group/reader.rs |  3 +++
 crates/core/src/table/mod.rs         | 17 ++++++++++++-----
 crates/core/src/timeline/instant.rs  |  7 +++++++
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index c03c60f..a9bfccd 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -27,6 +27,7 @@ use crate::file_group::log_file::scanner::LogFileScanner;
 use crate::merge::record_merger::RecordMerger;
 use crate::metadata::meta_field::MetaField;
 use crate::storage::Storage;
+use crate::timeline::instant::Instant;
 use crate::timeline::selector::InstantRange;
 use crate::timeline::CommittedInstants;
 use crate::Result;
@@ -113,6 +114,7 @@ impl FileGroupReader {
             .hudi_configs
             .try_get(HudiReadConfig::FileGroupStartTimestamp)
             .map(|v| v.to::<String>())
+            .map(|v| Instant::to_millis_form(&v).unwrap_or(v))
         {
             let filter: Filter =
                 Filter::try_from((MetaField::CommitTime.as_ref(), ">", start.as_str()))?;
@@ -129,6 +131,7 @@ impl FileGroupReader {
             .hudi_configs
             .try_get(HudiReadConfig::FileGroupEndTimestamp)
             .map(|v| v.to::<String>())
+            .map(|v| Instant::to_millis_form(&v).unwrap_or(v))
         {
             let filter = Filter::try_from((MetaField::CommitTime.as_ref(), "<=", end.as_str()))?;
             let filter = SchemableFilter::try_from((filter, schema.as_ref()))?;
diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 3c0d35b..b047712 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -99,6 +99,7 @@ use crate::file_group::reader::FileGroupReader;
 use crate::table::builder::TableBuilder;
 use crate::table::fs_view::FileSystemView;
 use crate::table::partition::PartitionPruner;
+use crate::timeline::instant::Instant;
 use crate::timeline::{Timeline, EARLIEST_START_TIMESTAMP};
 use crate::Result;
 
@@ -256,8 +257,9 @@ impl Table {
         timestamp: &str,
         filters: &[(&str, &str, &str)],
     ) -> Result<Vec<Vec<FileSlice>>> {
+        let timestamp = Instant::to_millis_form(timestamp)?;
         let filters = from_str_tuples(filters)?;
-        self.get_file_slices_splits_internal(n, timestamp, &filters)
+        self.get_file_slices_splits_internal(n, &timestamp, &filters)
             .await
     }
 
@@ -310,8 +312,9 @@ impl Table {
         timestamp: &str,
         filters: &[(&str, &str, &str)],
     ) -> Result<Vec<FileSlice>> {
+        let timestamp = Instant::to_millis_form(timestamp)?;
         let filters = from_str_tuples(filters)?;
-        self.get_file_slices_internal(timestamp, &filters).await
+        self.get_file_slices_internal(&timestamp, &filters).await
     }
 
     async fn get_file_slices_internal(
@@ -358,9 +361,10 @@ impl Table {
             return Ok(Vec::new());
         };
 
-        let start = start_timestamp.unwrap_or(EARLIEST_START_TIMESTAMP);
+        let start = Instant::to_millis_form(start_timestamp.unwrap_or(EARLIEST_START_TIMESTAMP))?;
+        let end = Instant::to_millis_form(end)?;
 
-        self.get_file_slices_between_internal(start, end).await
+        self.get_file_slices_between_internal(&start, &end).await
     }
 
     async fn get_file_slices_between_internal(
@@ -429,8 +433,9 @@ impl Table {
         timestamp: &str,
         filters: &[(&str, &str, &str)],
     ) -> Result<Vec<RecordBatch>> {
+        let timestamp = Instant::to_millis_form(timestamp)?;
         let filters = from_str_tuples(filters)?;
-        self.read_snapshot_internal(timestamp, &filters).await
+        self.read_snapshot_internal(&timestamp, &filters).await
     }
 
     async fn read_snapshot_internal(
@@ -468,6 +473,8 @@ impl Table {
         else {
             return Ok(Vec::new());
         };
+        let start_timestamp = &Instant::to_millis_form(start_timestamp)?;
+        let end_timestamp = &Instant::to_millis_form(end_timestamp)?;
 
         let file_slices = self
             .get_file_slices_between_internal(start_timestamp, end_timestamp)
diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index c46f5e7..fda60b8 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -162,6 +162,13 @@ impl Instant {
         Self::convert_to_timezone(naive_dt, timezone)
     }
 
+    /// Convert a valid timestamp to the millisecond form, which sorts by time against instants
+    /// in either form.
+    pub(crate) fn to_millis_form(timestamp: &str) -> Result<String> {
+        Self::parse_naive_datetime(timestamp)?;
+        Ok(format!("{timestamp:0<17}"))
+    }
+
     fn parse_naive_datetime(timestamp: &str) -> Result<NaiveDateTime> {
         Self::validate_timestamp(timestamp)?;
         let naive_dt = NaiveDateTime::parse_from_str(&timestamp[..14], "%Y%m%d%H%M%S")
-- 
2.43.0


From 838b81f759550bf55f4457812ffae3288effc5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 14/46] fix: do not read cdc log files as data log files

---
 crates/core/src/table/listing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 986cb61..3346d15 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -75,7 +75,9 @@ impl FileLister {
     }
 
     fn should_exclude_for_listing(file_name: &str) -> bool {
-        file_name.starts_with(PARTITION_METAFIELD_PREFIX) || file_name.ends_with(".crc")
+        file_name.starts_with(PARTITION_METAFIELD_PREFIX)
+            || file_name.ends_with(".crc")
+            || file_name.ends_with(".cdc")
     }
 
     async fn list_file_groups_for_partition(&self, partition_path: &str) -> Result<Vec<FileGroup>> {
-- 
2.43.0


From a99a94299596474285bd09099b552594d4e9f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 15/46] fix: do not hang on a listing parallelism of zero

---
 crates/core/src/table/listing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 3346d15..9d9c072 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -190,7 +190,8 @@ impl FileLister {
         let parallelism = self
             .hudi_configs
             .get_or_default(ListingParallelism)
-            .to::<usize>();
+            .to::<usize>()
+            .max(1);
         stream::iter(pruned_partition_paths)
             .map(|p| async move {
                 let file_groups = self.list_file_groups_for_partition(&p).await?;
-- 
2.43.0


From bdc54fae34f5637588a296f7d2cd4a9398210699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 16/46] fix: return an error instead of panicking on invalid
 table configs

---
 crates/core/src/table/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 24c5de4..d50d6c2 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -109,7 +109,7 @@ impl TableBuilder {
 
         let hudi_configs = HudiConfigs::new(self.hudi_options.iter());
 
-        Self::validate_configs(&hudi_configs).expect("Hudi configs are not valid.");
+        Self::validate_configs(&hudi_configs)?;
 
         let hudi_configs = Arc::from(hudi_configs);
         let storage_options = Arc::from(self.storage_options.clone());
-- 
2.43.0


From 74dcd4ccefe729ec22a2976bbdb0d93b74a5e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 17/46] fix: do not allocate memory for lengths a damaged log
 block claims

---
 crates/core/src/file_group/log_file/reader.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 7c92282..139bb8f 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -176,8 +176,7 @@ impl<R: Read + Seek> LogFileReader<R> {
         let mut num_entries_buf = [0u8; 4];
         self.reader.read_exact(&mut num_entries_buf)?;
         let num_entries = u32::from_be_bytes(num_entries_buf);
-        let mut metadata: HashMap<BlockMetadataKey, String> =
-            HashMap::with_capacity(num_entries as usize);
+        let mut metadata: HashMap<BlockMetadataKey, String> = HashMap::new();
         for _ in 0..num_entries {
             let mut key_buf = [0u8; 4];
             self.reader.read_exact(&mut key_buf)?;
@@ -185,8 +184,17 @@ impl<R: Read + Seek> LogFileReader<R> {
             let mut value_len_buf = [0u8; 4];
             self.reader.read_exact(&mut value_len_buf)?;
             let value_len = u32::from_be_bytes(value_len_buf);
-            let mut value_buf = vec![0u8; value_len as usize];
-            self.reader.read_exact(&mut value_buf)?;
+            let mut value_buf = Vec::new();
+            let read_len = self
+                .reader
+                .by_ref()
+                .take(value_len as u64)
+                .read_to_end(&mut value_buf)?;
+            if read_len < value_len as usize {
+                return Err(CoreError::LogFormatError(
+                    "Incomplete metadata value".to_string(),
+                ));
+            }
             let value =
                 String::from_utf8(value_buf).map_err(|e| CoreError::Utf8Error(e.utf8_error()))?;
             metadata.insert(key, value);
-- 
2.43.0


From 02452cbb78dbd93c2fac3515d1fd42a1554ff076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 18/46] fix: return an error instead of panicking on
 unsupported Avro types

---
 crates/core/src/avro_to_arrow/schema.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index afb0773..3a3093d 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -61,7 +61,7 @@ fn schema_to_field_with_props(
 ) -> Result<Field> {
     let mut nullable = nullable;
     let field_type: DataType = match schema {
-        AvroSchema::Ref { .. } => todo!("Add support for AvroSchema::Ref"),
+        AvroSchema::Ref { .. } => return Err(unsupported(schema)),
         AvroSchema::Null => DataType::Null,
         AvroSchema::Boolean => DataType::Boolean,
         AvroSchema::Int => DataType::Int32,
@@ -140,9 +140,9 @@ fn schema_to_field_with_props(
         AvroSchema::TimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
         AvroSchema::TimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
         AvroSchema::TimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
-        AvroSchema::LocalTimestampMillis => todo!(),
-        AvroSchema::LocalTimestampMicros => todo!(),
-        AvroSchema::LocalTimestampNanos => todo!(),
+        AvroSchema::LocalTimestampMillis
+        | AvroSchema::LocalTimestampMicros
+        | AvroSchema::LocalTimestampNanos => return Err(unsupported(schema)),
         AvroSchema::Duration => DataType::Duration(TimeUnit::Millisecond),
     };
 
@@ -154,6 +154,10 @@ fn schema_to_field_with_props(
     Ok(field)
 }
 
+fn unsupported(schema: &AvroSchema) -> CoreError {
+    CoreError::Unsupported(format!("Avro schema is not supported: {schema:?}"))
+}
+
 fn default_field_name(dt: &DataType) -> &str {
     match dt {
         DataType::Null => "null",
-- 
2.43.0


From 2a023eab57d9596490bbe398179417b097e5191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 19/46] fix: swap the operator of filters with the literal on
 the left

---
 crates/datafusion/src/util/expr.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index 7eb0eed..de6d547 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -49,16 +49,17 @@ pub fn exprs_to_filters(exprs: &[Expr]) -> Vec<(String, String, String)> {
 /// Converts a binary expression [`Expr::BinaryExpr`] into a [`HudiFilter`].
 fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     // extract the column and literal from the binary expression
-    let (column, literal) = match (&*binary_expr.left, &*binary_expr.right) {
-        (Expr::Column(col), Expr::Literal(lit)) => (col, lit),
-        (Expr::Literal(lit), Expr::Column(col)) => (col, lit),
+    // with the operator that applies when the column is on the left
+    let (column, op, literal) = match (&*binary_expr.left, &*binary_expr.right) {
+        (Expr::Column(col), Expr::Literal(lit)) => (col, binary_expr.op, lit),
+        (Expr::Literal(lit), Expr::Column(col)) => (col, binary_expr.op.swap()?, lit),
         _ => return None,
     };
 
     let field = col(column.name());
     let lit_str = literal.to_string();
 
-    let filter = match binary_expr.op {
+    let filter = match op {
         Operator::Eq => field.eq(lit_str),
         Operator::NotEq => field.ne(lit_str),
         Operator::Lt => field.lt(lit_str),
-- 
2.43.0


From aa3c190aefcfc275168f94a8c0e60434389fbb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 20/46] fix: apply only partition filters when scanning for SQL

---
 crates/datafusion/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 9beb612..7f1e659 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -45,6 +45,7 @@ use datafusion_physical_expr::create_physical_expr;
 use crate::util::expr::exprs_to_filters;
 use hudi_core::config::read::HudiReadConfig::InputPartitions;
 use hudi_core::config::util::empty_options;
+use hudi_core::expr::filter::{Filter as HudiFilter, SchemableFilter};
 use hudi_core::storage::util::{get_scheme_authority, join_url_segments};
 use hudi_core::table::Table as HudiTable;
 use hudi_core::util::StrTupleRef;
@@ -175,8 +176,20 @@ impl TableProvider for HudiDataSource {
     ) -> Result<Arc<dyn ExecutionPlan>> {
         self.table.register_storage(state.runtime_env().clone());
 
-        // Convert Datafusion `Expr` to `Filter`
-        let pushdown_filters = exprs_to_filters(filters);
+        // Convert Datafusion `Expr` to `Filter`, keeping those that apply to partitions
+        let mut pushdown_filters = exprs_to_filters(filters);
+        if !pushdown_filters.is_empty() {
+            let partition_schema = self
+                .table
+                .get_partition_schema()
+                .await
+                .map_err(|e| Execution(format!("Failed to get partition schema: {}", e)))?;
+            pushdown_filters.retain(|(field, op, value)| {
+                HudiFilter::try_from((field.as_str(), op.as_str(), value.as_str()))
+                    .and_then(|filter| SchemableFilter::try_from((filter, &partition_schema)))
+                    .is_ok()
+            });
+        }
         let file_slices = self
             .table
             .get_file_slices_splits(self.get_input_partitions(), &pushdown_filters.as_strs())
-- 
2.43.0


From 09618c0de0b3e7edafcd809e657ac8c7d6606af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:23 +0000
Subject: [PATCH 21/46] fix: do not encode paths of base files twice when
 scanning for SQL

---
 crates/datafusion/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 7f1e659..f5ae2a0 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -28,7 +28,7 @@ use std::thread;
 use arrow_schema::{Schema, SchemaRef};
 use async_trait::async_trait;
 use datafusion::catalog::{Session, TableProviderFactory};
-use datafusion::datasource::listing::PartitionedFile;
+use datafusion::datasource::listing::{ListingTableUrl, PartitionedFile};
 use datafusion::datasource::object_store::ObjectStoreUrl;
 use datafusion::datasource::physical_plan::parquet::ParquetExecBuilder;
 use datafusion::datasource::physical_plan::FileScanConfig;
@@ -208,7 +208,10 @@ impl TableProvider for HudiDataSource {
                 let url = join_url_segments(&base_url, &[relative_path.as_str()])
                     .map_err(|e| Execution(format!("Failed to join URL segments: {e:?}")))?;
                 let size = f.base_file.file_metadata.as_ref().map_or(0, |m| m.size);
-                let partitioned_file = PartitionedFile::new(url.path(), size as u64);
+                let mut partitioned_file = PartitionedFile::new("", size as u64);
+                // The URL path is encoded already
+                partitioned_file.object_meta.location =
+                    ListingTableUrl::parse(url.as_str())?.prefix().clone();
                 parquet_file_group_vec.push(partitioned_file);
             }
             parquet_file_groups.push(parquet_file_group_vec)
-- 
2.43.0


From 35e0b4fad4da10e2e6f68332f2bda2b347bd67be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:51 +0000
Subject: [PATCH 22/46] fix: read log files written while a compaction is
 pending with the slice before it

---
 crates/core/src/table/listing.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 9d9c072..12fce91 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -138,7 +138,18 @@ impl FileLister {
             file_group.add_base_files(base_files)?;
 
             let log_files = file_id_to_log_files.remove(&file_id).unwrap_or_default();
-            file_group.add_log_files(log_files)?;
+            for log_file in log_files {
+                let base_timestamp = log_file.base_commit_timestamp.clone();
+                if self.is_committed(&base_timestamp) {
+                    file_group.add_log_file(log_file)?;
+                } else if let Some(file_slice) =
+                    file_group.get_file_slice_mut_as_of(&base_timestamp)
+                {
+                    // Until the compaction is completed, what is logged after it was scheduled
+                    // still belongs to the file slice being compacted.
+                    file_slice.log_files.insert(log_file);
+                }
+            }
 
             file_groups.push(file_group);
         }
-- 
2.43.0


From c03fb20686862aca3f6910b6558a60fcda46a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 23/46] fix: resolve the table schema past writes to file
 slices without base file

---
 crates/core/src/timeline/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index 06d578b..e921401 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -325,9 +325,10 @@ impl Timeline {
                         .await;
                     if !matches!(
                         res,
-                        Err(CoreError::Storage(StorageError::ObjectStoreError(
-                            object_store::Error::NotFound { .. }
-                        )))
+                        Err(CoreError::CommitMetadata(_)
+                            | CoreError::Storage(StorageError::ObjectStoreError(
+                                object_store::Error::NotFound { .. }
+                            )))
                     ) {
                         return res;
                     }
@@ -349,11 +350,14 @@ impl Timeline {
             }
             Some(_) => {
                 // TODO: properly handle deltacommit
-                let base_file = write_stat["baseFile"].as_str().ok_or_else(|| {
-                    CoreError::CommitMetadata(
-                        "Failed to resolve the latest schema: no file path found".to_string(),
-                    )
-                })?;
+                let base_file = write_stat["baseFile"]
+                    .as_str()
+                    .filter(|name| !name.is_empty())
+                    .ok_or_else(|| {
+                        CoreError::CommitMetadata(
+                            "Failed to resolve the latest schema: no file path found".to_string(),
+                        )
+                    })?;
                 let parquet_file_path_buf = PathBuf::from_str(partition_path)
                     .map_err(|e| {
                         CoreError::CommitMetadata(format!(
-- 
2.43.0


From b8205da42ceb23145152dade31c24a51072ff877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 24/46] fix: scan zero file slices as an empty plan for SQL

---
 crates/datafusion/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index f5ae2a0..c5a02e3 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -35,8 +35,10 @@ use datafusion::datasource::physical_plan::FileScanConfig;
 use datafusion::datasource::TableProvider;
 use datafusion::error::Result;
 use datafusion::logical_expr::Operator;
+use datafusion::physical_plan::empty::EmptyExec;
 use datafusion::physical_plan::ExecutionPlan;
 use datafusion_common::config::TableParquetOptions;
+use datafusion_common::project_schema;
 use datafusion_common::DFSchema;
 use datafusion_common::DataFusionError::Execution;
 use datafusion_expr::{CreateExternalTable, Expr, TableProviderFilterPushDown, TableType};
@@ -217,6 +219,14 @@ impl TableProvider for HudiDataSource {
             parquet_file_groups.push(parquet_file_group_vec)
         }
 
+        // Scanning zero file groups does not have a valid distribution
+        if parquet_file_groups.is_empty() {
+            return Ok(Arc::new(EmptyExec::new(project_schema(
+                &self.schema(),
+                projection,
+            )?)));
+        }
+
         let base_url = self.table.base_url();
         let url = ObjectStoreUrl::parse(get_scheme_authority(&base_url))?;
         let fsc = FileScanConfig::new(url, self.schema())
-- 
2.43.0


From 081590a7898b833347350aed0f6621b7111ead96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 25/46] fix: report log command blocks of unknown type instead
 of ignoring them

A command block whose type is missing or not known (for example because the
block is damaged) was skipped, so that rows it rolls back came back.
---
 crates/core/src/file_group/log_file/scanner.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/file_group/log_file/scanner.rs b/crates/core/src/file_group/log_file/scanner.rs
index 0cfc4b3..deabb9d 100644
--- a/crates/core/src/file_group/log_file/scanner.rs
+++ b/crates/core/src/file_group/log_file/scanner.rs
@@ -17,7 +17,7 @@
  * under the License.
  */
 use crate::config::HudiConfigs;
-use crate::file_group::log_file::log_block::LogBlock;
+use crate::file_group::log_file::log_block::{BlockType, CommandBlock, LogBlock};
 use crate::file_group::log_file::reader::LogFileReader;
 use crate::storage::Storage;
 use crate::timeline::selector::InstantRange;
@@ -73,8 +73,12 @@ impl LogFileScanner {
             let blocks = reader.read_all_blocks(instant_range)?;
 
             for block in &blocks {
-                if block.is_rollback_block() {
-                    rollback_targets.insert(block.target_instant_time()?.to_string());
+                if block.block_type == BlockType::Command {
+                    match block.command_block_type()? {
+                        CommandBlock::Rollback => {
+                            rollback_targets.insert(block.target_instant_time()?.to_string());
+                        }
+                    }
                 }
             }
 
-- 
2.43.0


From d23d190eb17ec61ea2e6a9baea0bf32417f429d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 26/46] fix: report log records that are cut short instead of
 filling them with nulls

---
 crates/core/src/file_group/log_file/avro.rs | 32 +++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/file_group/log_file/avro.rs b/crates/core/src/file_group/log_file/avro.rs
index 8c1d6f1..b78813d 100644
--- a/crates/core/src/file_group/log_file/avro.rs
+++ b/crates/core/src/file_group/log_file/avro.rs
@@ -19,7 +19,26 @@
 use apache_avro::types::Value as AvroValue;
 use apache_avro::AvroResult;
 use apache_avro::{from_avro_datum, Schema as AvroSchema};
-use std::io::Read;
+use std::io::{self, Read};
+
+/// Remembers whether the end was reached while more bytes were asked for.
+///
+/// A nullable field that is missing at the end of a datum decodes as null, so the decoder alone
+/// does not tell a truncated record from a complete one.
+struct EofTracker<R: Read> {
+    reader: R,
+    eof: bool,
+}
+
+impl<R: Read> Read for EofTracker<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let n = self.reader.read(buf)?;
+        if n == 0 && !buf.is_empty() {
+            self.eof = true;
+        }
+        Ok(n)
+    }
+}
 
 pub struct AvroDataBlockContentReader<R: Read> {
     reader: R,
@@ -55,9 +74,18 @@ impl<R: Read> Iterator for AvroDataBlockContentReader<R> {
 
         let record_content_length = u32::from_be_bytes(record_content_length);
 
-        let mut record_reader = (&mut self.reader).take(record_content_length as u64);
+        let mut record_reader = EofTracker {
+            reader: (&mut self.reader).take(record_content_length as u64),
+            eof: false,
+        };
 
         let result = from_avro_datum(&self.writer_schema, &mut record_reader, None);
+        if result.is_ok() && record_reader.eof {
+            return Some(Err(apache_avro::Error::ReadBytes(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "incomplete log record",
+            ))));
+        }
 
         Some(result)
     }
-- 
2.43.0


From a54c97f64bbae6fc9f8db1f1c07c9d605ff6e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 27/46] fix: refuse log block content that is longer than its
 block

A content length that is too large made the content of following blocks part
of the block, which Parquet decoding does not notice as it starts at the end.
---
 crates/core/src/file_group/log_file/content.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/log_file/content.rs b/crates/core/src/file_group/log_file/content.rs
index c6564bc..307d8fc 100644
--- a/crates/core/src/file_group/log_file/content.rs
+++ b/crates/core/src/file_group/log_file/content.rs
@@ -55,7 +55,13 @@ impl Decoder {
         let content_length = if log_format_version.has_content_length() {
             let mut content_length_buf = [0u8; 8];
             reader.read_exact(&mut content_length_buf)?;
-            u64::from_be_bytes(content_length_buf)
+            let content_length = u64::from_be_bytes(content_length_buf);
+            if content_length > fallback_length {
+                return Err(CoreError::LogBlockError(format!(
+                    "Content length {content_length} exceeds block length {fallback_length}"
+                )));
+            }
+            content_length
         } else {
             fallback_length
         };
-- 
2.43.0


From 5b748d0a22c77a0b0bd3fcb13263a9850660cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 28/46] fix: read null and nested lists of log records as they
 were written

---
 .../src/avro_to_arrow/arrow_array_reader.rs   | 77 ++++++-------------
 1 file changed, 24 insertions(+), 53 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 4ada3ad..d31fa28 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -455,23 +455,15 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 let num_bytes = bit_util::ceil(valid_len, 8);
                 let mut bool_values = MutableBuffer::from_len_zeroed(num_bytes);
                 let mut bool_nulls = MutableBuffer::new(num_bytes).with_bitset(num_bytes, true);
-                let mut curr_index = 0;
-                rows.iter().for_each(|v| {
-                    if let Value::Array(vs) = v {
-                        vs.iter().for_each(|value| {
-                            if let Value::Boolean(child) = value {
-                                // if valid boolean, append value
-                                if *child {
-                                    bit_util::set_bit(&mut bool_values, curr_index);
-                                }
-                            } else {
-                                // null slot
-                                bit_util::unset_bit(&mut bool_nulls, curr_index);
-                            }
-                            curr_index += 1;
-                        });
-                    }
-                });
+                flatten_values(rows).iter().enumerate().for_each(
+                    |(i, value)| match resolve_boolean(value) {
+                        // if valid boolean, append value
+                        Some(true) => bit_util::set_bit(&mut bool_values, i),
+                        Some(false) => {}
+                        // null slot
+                        None => bit_util::unset_bit(&mut bool_nulls, i),
+                    },
+                );
                 ArrayData::builder(list_field.data_type().clone())
                     .len(valid_len)
                     .add_buffer(bool_values.into())
@@ -509,7 +501,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 .into_data(),
             DataType::List(field) => {
                 let child = self.build_nested_list_array::<i32>(
-                    parent_field_name,
+                    &format!("{}.{}", parent_field_name, list_field.name()),
                     &flatten_values(rows),
                     field,
                 )?;
@@ -517,50 +509,26 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
             }
             DataType::LargeList(field) => {
                 let child = self.build_nested_list_array::<i64>(
-                    parent_field_name,
+                    &format!("{}.{}", parent_field_name, list_field.name()),
                     &flatten_values(rows),
                     field,
                 )?;
                 child.to_data()
             }
             DataType::Struct(fields) => {
-                // extract list values, with non-lists converted to Value::Null
-                let array_item_count = rows
-                    .iter()
-                    .map(|row| match maybe_resolve_union(row) {
-                        Value::Array(values) => values.len(),
-                        _ => 1,
-                    })
-                    .sum();
-                let num_bytes = bit_util::ceil(array_item_count, 8);
+                // extract list values, with non-records converted to Value::Null
+                let num_bytes = bit_util::ceil(valid_len, 8);
                 let mut null_buffer = MutableBuffer::from_len_zeroed(num_bytes);
-                let mut struct_index = 0;
                 let null_struct_array = vec![("null".to_string(), Value::Null)];
-                let rows: Vec<&Vec<(String, Value)>> = rows
-                    .iter()
-                    .map(|v| maybe_resolve_union(v))
-                    .flat_map(|row| {
-                        if let Value::Array(values) = row {
-                            values
-                                .iter()
-                                .map(maybe_resolve_union)
-                                .map(|v| match v {
-                                    Value::Record(record) => {
-                                        bit_util::set_bit(&mut null_buffer, struct_index);
-                                        struct_index += 1;
-                                        record
-                                    }
-                                    Value::Null => {
-                                        struct_index += 1;
-                                        &null_struct_array
-                                    }
-                                    other => panic!("expected Record, got {other:?}"),
-                                })
-                                .collect::<Vec<&Vec<(String, Value)>>>()
-                        } else {
-                            struct_index += 1;
-                            vec![&null_struct_array]
+                let rows: Vec<&Vec<(String, Value)>> = flatten_values(rows)
+                    .into_iter()
+                    .enumerate()
+                    .map(|(i, v)| match maybe_resolve_union(v) {
+                        Value::Record(record) => {
+                            bit_util::set_bit(&mut null_buffer, i);
+                            record
                         }
+                        _ => &null_struct_array,
                     })
                     .collect();
 
@@ -817,6 +785,9 @@ fn flatten_values<'a>(values: &[&'a Value]) -> Vec<&'a Value> {
             let v = maybe_resolve_union(row);
             if let Value::Array(values) = v {
                 values.iter().collect()
+            } else if let Value::Null = v {
+                // a null list has no values
+                vec![]
             } else {
                 // we interpret a scalar as a single-value list to minimise data loss
                 vec![v]
-- 
2.43.0


From e6b69c20f036ba08d430da0820b02b789af5e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 29/46] fix: read uuid columns of log records instead of
 filling them with nulls

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index d31fa28..a84d1d0 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -882,6 +882,7 @@ fn resolve_fixed(v: &Value, size: usize) -> Option<Vec<u8>> {
                 None
             }
         }
+        Value::Uuid(uuid) if size == 16 => Some(uuid.as_bytes().to_vec()),
         _ => None,
     }
 }
-- 
2.43.0


From d66660323f861964b3836b33c27d21aee2db53da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 30/46] fix: read the global configs from the local file system
 for tables on any storage

---
 crates/core/src/storage/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/storage/mod.rs b/crates/core/src/storage/mod.rs
index ce7695b..a8197f7 100644
--- a/crates/core/src/storage/mod.rs
+++ b/crates/core/src/storage/mod.rs
@@ -27,6 +27,7 @@ use arrow::record_batch::RecordBatch;
 use async_recursion::async_recursion;
 use bytes::Bytes;
 use futures::StreamExt;
+use object_store::local::LocalFileSystem;
 use object_store::path::Path as ObjPath;
 use object_store::{parse_url_opts, ObjectStore};
 use parquet::arrow::async_reader::ParquetObjectReader;
@@ -173,9 +174,10 @@ impl Storage {
         Ok(bytes)
     }
 
+    /// Get the data of a local file, wherever the table is stored.
     pub async fn get_file_data_from_absolute_path(&self, absolute_path: &str) -> Result<Bytes> {
         let obj_path = ObjPath::from_absolute_path(PathBuf::from(absolute_path))?;
-        let result = self.object_store.get(&obj_path).await?;
+        let result = LocalFileSystem::new().get(&obj_path).await?;
         let bytes = result.bytes().await?;
         Ok(bytes)
     }
-- 
2.43.0


From 5ca23a52d5704f5f08a71b063696b8ca1dc59264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 31/46] fix: accept blanks around the separator in the global
 config file

---
 crates/core/src/config/util.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/config/util.rs b/crates/core/src/config/util.rs
index 33921c6..2583050 100644
--- a/crates/core/src/config/util.rs
+++ b/crates/core/src/config/util.rs
@@ -72,7 +72,16 @@ pub fn parse_data_for_options(data: &Bytes, split_chars: &str) -> Result<HashMap
             )))?
             .trim()
             .to_owned();
-        let value = parts.next().unwrap_or("").trim().to_owned();
+        let value = parts.next().unwrap_or("").trim();
+        // When blanks separate as well, a separator may have blanks around it.
+        let separated_by_blank = trimmed_line[key.len()..].starts_with(char::is_whitespace);
+        let value = match value.strip_prefix(|c| split_chars.contains(c)) {
+            Some(rest) if separated_by_blank && split_chars.contains(char::is_whitespace) => {
+                rest.trim_start()
+            }
+            _ => value,
+        }
+        .to_owned();
         options.insert(key, value);
     }
 
-- 
2.43.0


From 179ee32c0903c31f7a3ca20415e354b741a889d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 32/46] fix: do not panic on environment variables that are not
 valid unicode

---
 crates/core/src/table/builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index d50d6c2..22d6f3a 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -168,7 +168,11 @@ impl TableBuilder {
     }
 
     fn resolve_cloud_env_vars(&mut self) {
-        for (key, value) in env::vars() {
+        // variables that are not valid unicode are not meant for cloud storage
+        for (key, value) in env::vars_os() {
+            let (Ok(key), Ok(value)) = (key.into_string(), value.into_string()) else {
+                continue;
+            };
             if Storage::CLOUD_STORAGE_PREFIXES
                 .iter()
                 .any(|prefix| key.starts_with(prefix))
-- 
2.43.0


From eba733e4cddc3bb6f306ea64cecc8ff428af98f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 33/46] fix: let storage options in upper case take effect and
 override lower-precedence ones

---
 crates/core/src/table/builder.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 22d6f3a..c6d95ec 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -164,18 +164,42 @@ impl TableBuilder {
         // Combine generic options (lower precedence) with explicit options.
         // Note that we treat all non-Hudi options as storage options
         Self::extend_if_absent(&mut self.hudi_options, &generic_hudi_opts);
+        // Options for cloud storage may be given in upper or lower case.
+        let generic_other_opts = generic_other_opts
+            .into_iter()
+            .filter(|(k, _)| !Self::contains_key_ignore_case(&self.storage_options, k))
+            .collect();
         Self::extend_if_absent(&mut self.storage_options, &generic_other_opts)
     }
 
+    fn contains_key_ignore_case(options: &HashMap<String, String>, key: &str) -> bool {
+        options.keys().any(|k| k.eq_ignore_ascii_case(key))
+    }
+
     fn resolve_cloud_env_vars(&mut self) {
+        let is_cloud_option = |key: &str| {
+            Storage::CLOUD_STORAGE_PREFIXES
+                .iter()
+                .any(|prefix| key.starts_with(prefix))
+        };
+
+        let (cloud_options, mut storage_options): (HashMap<_, _>, HashMap<_, _>) = self
+            .storage_options
+            .drain()
+            .partition(|(key, _)| is_cloud_option(key));
+        for (key, value) in cloud_options {
+            storage_options
+                .entry(key.to_ascii_lowercase())
+                .or_insert(value);
+        }
+        self.storage_options = storage_options;
+
         // variables that are not valid unicode are not meant for cloud storage
         for (key, value) in env::vars_os() {
             let (Ok(key), Ok(value)) = (key.into_string(), value.into_string()) else {
                 continue;
             };
-            if Storage::CLOUD_STORAGE_PREFIXES
-                .iter()
-                .any(|prefix| key.starts_with(prefix))
+            if is_cloud_option(&key)
                 && !self.storage_options.contains_key(&key.to_ascii_lowercase())
             {
                 self.storage_options.insert(key.to_ascii_lowercase(), value);
-- 
2.43.0


From 6c4e14fd899a04ccc34b6a87ac9924e7a2ddb89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 34/46] fix: accept the times that occur twice when local
 clocks are set back

---
 crates/core/src/timeline/instant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index fda60b8..190f84a 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -191,7 +191,8 @@ impl Instant {
             TimelineTimezoneValue::UTC => Ok(DateTime::from_naive_utc_and_offset(naive_dt, Utc)),
             TimelineTimezoneValue::Local => Ok(Local
                 .from_local_datetime(&naive_dt)
-                .single()
+                // a time that occurs twice, when clocks are set back, is valid too
+                .earliest()
                 .ok_or_else(|| CoreError::Timeline("Invalid local datetime".to_string()))?
                 .to_utc()),
         }
-- 
2.43.0


From 23ad798e6ef5592c3d52343b421b9d58cb7bd869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 35/46] fix: read partitions whose directory also has
 subdirectories

A partition directory with any child directory (a nested partition, or what
an aborted job of another engine left) was not listed, so its rows vanished.
---
 crates/core/src/storage/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/storage/mod.rs b/crates/core/src/storage/mod.rs
index a8197f7..8511f3c 100644
--- a/crates/core/src/storage/mod.rs
+++ b/crates/core/src/storage/mod.rs
@@ -42,6 +42,7 @@ use crate::storage::error::{Result, StorageError};
 use crate::storage::file_metadata::FileMetadata;
 use crate::storage::reader::StorageReader;
 use crate::storage::util::join_url_segments;
+use crate::table::partition::PARTITION_METAFIELD_PREFIX;
 
 pub mod error;
 pub mod file_metadata;
@@ -258,7 +259,8 @@ impl Storage {
     }
 }
 
-/// Get relative paths of leaf directories under a given directory.
+/// Get relative paths of leaf directories under a given directory, and of those directories
+/// that are marked as partitions by a partition metadata file while they have child directories.
 ///
 /// **Example**
 /// - /usr/hudi/table_name
@@ -274,6 +276,15 @@ pub async fn get_leaf_dirs(storage: &Storage, subdir: Option<&str>) -> Result<Ve
     if child_dirs.is_empty() {
         leaf_dirs.push(subdir.unwrap_or_default().to_owned());
     } else {
+        if let Some(curr) = subdir {
+            let files = storage.list_files(Some(curr)).await?;
+            if files
+                .iter()
+                .any(|file| file.name.starts_with(PARTITION_METAFIELD_PREFIX))
+            {
+                leaf_dirs.push(curr.to_owned());
+            }
+        }
         for child_dir in child_dirs {
             let mut next_subdir = PathBuf::new();
             if let Some(curr) = subdir {
-- 
2.43.0


From 3642054401d7ec6597240dc11d536e9861b52dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 36/46] fix: do not take <timestamp>.<action>. as a completed
 instant

---
 crates/core/src/timeline/instant.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 190f84a..85396f0 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -200,6 +200,11 @@ impl Instant {
 
     pub fn parse_action_and_state(action_suffix: &str) -> Result<(Action, State)> {
         match action_suffix.split_once('.') {
+            // the file of a completed instant has no suffix, not even the separator
+            Some((_, "")) => Err(CoreError::Timeline(format!(
+                "Invalid state suffix in: {}",
+                action_suffix
+            ))),
             Some((action_str, state_str)) => {
                 Ok((Action::from_str(action_str)?, State::from_str(state_str)?))
             }
-- 
2.43.0


From 55a1945ba349fe7a01dacb39b6e9e68e3c73dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 37/46] fix: refuse data file names that are not of the format

Base files with further parts, empty parts or without a numeric timestamp,
and log files with another extension, version or timestamp than the format
has, were read as data.
---
 crates/core/src/file_group/base_file.rs    | 28 ++++++++++------------
 crates/core/src/file_group/log_file/mod.rs |  5 +++-
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/crates/core/src/file_group/base_file.rs b/crates/core/src/file_group/base_file.rs
index 4f35b87..c7631c2 100644
--- a/crates/core/src/file_group/base_file.rs
+++ b/crates/core/src/file_group/base_file.rs
@@ -57,22 +57,20 @@ impl BaseFile {
             .rsplit_once('.')
             .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?;
         let parts: Vec<&str> = stem.split('_').collect();
-        let file_id = parts
-            .first()
-            .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-            .to_string();
-        let write_token = parts
-            .get(1)
-            .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-            .to_string();
-        let commit_timestamp = parts
-            .get(2)
-            .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-            .to_string();
+        let [file_id, write_token, commit_timestamp] = parts[..] else {
+            return Err(CoreError::FileGroup(err_msg));
+        };
+        if file_id.is_empty()
+            || write_token.is_empty()
+            || commit_timestamp.is_empty()
+            || !commit_timestamp.bytes().all(|b| b.is_ascii_digit())
+        {
+            return Err(CoreError::FileGroup(err_msg));
+        }
         Ok((
-            file_id,
-            write_token,
-            commit_timestamp,
+            file_id.to_string(),
+            write_token.to_string(),
+            commit_timestamp.to_string(),
             extension.to_string(),
         ))
     }
diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index 30868c1..d71d58b 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -41,6 +41,7 @@ pub struct LogFile {
 }
 
 const LOG_FILE_PREFIX: char = '.';
+const LOG_FILE_EXTENSION: &str = "log";
 
 impl LogFile {
     /// Parse a log file's name into parts.
@@ -79,8 +80,10 @@ impl LogFile {
 
         if file_id.is_empty()
             || base_commit_timestamp.is_empty()
-            || log_file_extension.is_empty()
+            || !base_commit_timestamp.bytes().all(|b| b.is_ascii_digit())
+            || log_file_extension != LOG_FILE_EXTENSION
             || log_file_version.is_empty()
+            || !log_file_version.bytes().all(|b| b.is_ascii_digit())
             || file_write_token.is_empty()
         {
             return Err(CoreError::FileGroup(err_msg.clone()));
-- 
2.43.0


From 0f9c1acd624dd8f97371a8f046e1b1cc5a2c1ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 38/46] fix: refuse log file names with more parts after the
 write token

---
 crates/core/src/file_group/log_file/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index d71d58b..f6a74e5 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -85,6 +85,7 @@ impl LogFile {
             || log_file_version.is_empty()
             || !log_file_version.bytes().all(|b| b.is_ascii_digit())
             || file_write_token.is_empty()
+            || file_write_token.contains('.')
         {
             return Err(CoreError::FileGroup(err_msg.clone()));
         }
-- 
2.43.0


From e46e057d2ac7d8e8d42ef27d1cc879acc68160f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 39/46] fix: validate the hudi options a file group reader is
 created with

---
 crates/core/src/file_group/reader.rs | 29 +++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index a9bfccd..eec164f 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -16,6 +16,7 @@
  * specific language governing permissions and limitations
  * under the License.
  */
+use crate::config::internal::HudiInternalConfig::SkipConfigValidation;
 use crate::config::read::HudiReadConfig;
 use crate::config::table::HudiTableConfig;
 use crate::config::util::split_hudi_options_from_others;
@@ -35,8 +36,10 @@ use arrow::compute::and;
 use arrow::compute::filter_record_batch;
 use arrow_array::{BooleanArray, RecordBatch};
 use futures::TryFutureExt;
+use std::collections::HashMap;
 use std::convert::TryFrom;
 use std::sync::Arc;
+use strum::IntoEnumIterator;
 
 /// The reader that handles all read operations against a file group.
 #[derive(Clone, Debug)]
@@ -59,8 +62,9 @@ impl FileGroupReader {
         let (hudi_opts, others) = split_hudi_options_from_others(options);
 
         let mut final_opts = hudi_configs.as_options();
-        final_opts.extend(hudi_opts);
+        final_opts.extend(hudi_opts.clone());
         let hudi_configs = Arc::new(HudiConfigs::new(final_opts));
+        Self::validate_given_options(&hudi_configs, &hudi_opts)?;
         let storage = Storage::new(Arc::new(others), hudi_configs.clone())?;
 
         Ok(Self {
@@ -70,6 +74,29 @@ impl FileGroupReader {
         })
     }
 
+    /// A given option whose value cannot be parsed must not be taken for an absent one.
+    fn validate_given_options(
+        hudi_configs: &HudiConfigs,
+        given: &HashMap<String, String>,
+    ) -> Result<()> {
+        if hudi_configs
+            .get_or_default(SkipConfigValidation)
+            .to::<bool>()
+        {
+            return Ok(());
+        }
+
+        for conf in HudiTableConfig::iter().filter(|c| given.contains_key(c.as_ref())) {
+            hudi_configs.validate(conf)?
+        }
+
+        for conf in HudiReadConfig::iter().filter(|c| given.contains_key(c.as_ref())) {
+            hudi_configs.validate(conf)?
+        }
+
+        Ok(())
+    }
+
     /// Only read log blocks written by these instants.
     pub(crate) fn with_committed_instants(mut self, instants: Arc<CommittedInstants>) -> Self {
         self.committed_instants = Some(instants);
-- 
2.43.0


From a378398cd591b2f61cbbffe06b4ea3e869a1f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 40/46] fix: read file slices with log files of pending
 compactions in Python

---
 python/src/internal.rs | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/python/src/internal.rs b/python/src/internal.rs
index 86c50e0..7249131 100644
--- a/python/src/internal.rs
+++ b/python/src/internal.rs
@@ -21,13 +21,15 @@ use arrow::pyarrow::ToPyArrow;
 use std::collections::HashMap;
 use std::convert::From;
 use std::path::PathBuf;
+use std::str::FromStr;
 use std::sync::OnceLock;
 use tokio::runtime::Runtime;
 
 use hudi::error::CoreError;
+use hudi::file_group::base_file::BaseFile;
 use hudi::file_group::file_slice::FileSlice;
+use hudi::file_group::log_file::LogFile;
 use hudi::file_group::reader::FileGroupReader;
-use hudi::file_group::FileGroup;
 use hudi::storage::error::StorageError;
 use hudi::table::builder::TableBuilder;
 use hudi::table::Table;
@@ -86,30 +88,16 @@ impl HudiFileGroupReader {
             .to_pyarrow(py)
     }
     fn read_file_slice(&self, file_slice: &HudiFileSlice, py: Python) -> PyResult<PyObject> {
-        let mut file_group = FileGroup::new(
-            file_slice.file_id.clone(),
-            file_slice.partition_path.clone(),
-        );
-        file_group
-            .add_base_file_from_name(&file_slice.base_file_name)
-            .map_err(PythonError::from)?;
+        // The slice tells which log files belong to it: do not work it out again from the
+        // instants of their names, which may be those of compactions that did not complete.
+        let base_file =
+            BaseFile::from_str(&file_slice.base_file_name).map_err(PythonError::from)?;
+        let mut inner_file_slice = FileSlice::new(base_file, file_slice.partition_path.clone());
         for name in file_slice.log_file_names.iter() {
-            file_group
-                .add_log_file_from_name(name)
-                .map_err(PythonError::from)?;
+            let log_file = LogFile::from_str(name).map_err(PythonError::from)?;
+            inner_file_slice.log_files.insert(log_file);
         }
-        let (_, inner_file_slice) = file_group
-            .file_slices
-            .iter()
-            .next()
-            .ok_or_else(|| {
-                CoreError::FileGroup(format!(
-                    "Failed to get file slice from file group: {:?}",
-                    file_group
-                ))
-            })
-            .map_err(PythonError::from)?;
-        rt().block_on(self.inner.read_file_slice(inner_file_slice))
+        rt().block_on(self.inner.read_file_slice(&inner_file_slice))
             .map_err(PythonError::from)?
             .to_pyarrow(py)
     }
-- 
2.43.0


From aad0d2452c3fb9731c73000da01bd7ff61c43f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 41/46] fix: do not let the Python table builder change the
 caller's dictionaries

---
 python/hudi/table/builder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/hudi/table/builder.py b/python/hudi/table/builder.py
index 4ed9b94..5229f02 100644
--- a/python/hudi/table/builder.py
+++ b/python/hudi/table/builder.py
@@ -37,6 +37,12 @@ class HudiTableBuilder:
     storage_options: Dict[str, str] = field(default_factory=dict)
     options: Dict[str, str] = field(default_factory=dict)
 
+    def __post_init__(self) -> None:
+        # The builder adds to its options: keep it from changing the caller's dictionaries.
+        self.hudi_options = dict(self.hudi_options)
+        self.storage_options = dict(self.storage_options)
+        self.options = dict(self.options)
+
     @classmethod
     def from_base_uri(cls, base_uri: str) -> "HudiTableBuilder":
         """
-- 
2.43.0


From a016add1f4f863ba0f948d420b0493394cb76ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 42/46] fix: do not turn resolved options into explicit ones of
 the table builder

---
 crates/core/src/table/builder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index c6d95ec..300ac3d 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -105,14 +105,17 @@ impl TableBuilder {
     }
 
     pub async fn build(&mut self) -> Result<Table> {
-        self.resolve_options().await?;
+        // Resolve on a copy: what is found for this table is not what the user provided,
+        // and it must not take precedence when the builder is used again.
+        let mut resolved = self.clone();
+        resolved.resolve_options().await?;
 
-        let hudi_configs = HudiConfigs::new(self.hudi_options.iter());
+        let hudi_configs = HudiConfigs::new(resolved.hudi_options.iter());
 
         Self::validate_configs(&hudi_configs)?;
 
         let hudi_configs = Arc::from(hudi_configs);
-        let storage_options = Arc::from(self.storage_options.clone());
+        let storage_options = Arc::from(resolved.storage_options);
 
         let timeline =
             Timeline::new_from_storage(hudi_configs.clone(), storage_options.clone()).await?;
-- 
2.43.0


From 48c8e916060fc21a64214df4b0110e7f5700d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 43/46] fix: resolve the schema of a HudiDataSource once and
 report its failure

The schema was read anew by each call, on a thread the caller waited for: on
remote storage the thread could wait for a connection driven by the very
runtime that was blocked, and a failed read gave an empty schema, so that a
query returned rows without columns.
---
 crates/datafusion/src/lib.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index c5a02e3..210a286 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -23,7 +23,6 @@ use std::any::Any;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::Arc;
-use std::thread;
 
 use arrow_schema::{Schema, SchemaRef};
 use async_trait::async_trait;
@@ -81,6 +80,7 @@ use hudi_core::util::StrTupleRef;
 #[derive(Clone, Debug)]
 pub struct HudiDataSource {
     table: Arc<HudiTable>,
+    schema: SchemaRef,
 }
 
 impl HudiDataSource {
@@ -94,9 +94,24 @@ impl HudiDataSource {
         K: AsRef<str>,
         V: Into<String>,
     {
-        match HudiTable::new_with_options(base_uri, options).await {
-            Ok(t) => Ok(Self { table: Arc::new(t) }),
-            Err(e) => Err(Execution(format!("Failed to create Hudi table: {}", e))),
+        let table = HudiTable::new_with_options(base_uri, options)
+            .await
+            .map_err(|e| Execution(format!("Failed to create Hudi table: {}", e)))?;
+        let schema = Self::resolve_schema(&table).await?;
+        Ok(Self {
+            table: Arc::new(table),
+            schema: SchemaRef::from(schema),
+        })
+    }
+
+    /// Get the schema of the table, which is empty only if there is nothing to read.
+    async fn resolve_schema(table: &HudiTable) -> Result<Schema> {
+        match table.get_schema().await {
+            Ok(schema) => Ok(schema),
+            Err(e) => match table.get_file_slices(&[]).await {
+                Ok(file_slices) if file_slices.is_empty() => Ok(Schema::empty()),
+                _ => Err(Execution(format!("Failed to get table schema: {}", e))),
+            },
         }
     }
 
@@ -156,13 +171,7 @@ impl TableProvider for HudiDataSource {
     }
 
     fn schema(&self) -> SchemaRef {
-        let table = self.table.clone();
-        let handle = thread::spawn(move || {
-            let rt = tokio::runtime::Runtime::new().unwrap();
-            rt.block_on(async { table.get_schema().await })
-        });
-        let result = handle.join().unwrap().unwrap_or_else(|_| Schema::empty());
-        SchemaRef::from(result)
+        self.schema.clone()
     }
 
     fn table_type(&self) -> TableType {
-- 
2.43.0


From 4fd2fa91e38742f156ba987aa05ebd307c5c38be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 44/46] fix: align log records with the schema of the base file
 before merging

---
 crates/core/src/file_group/reader.rs | 103 ++++++++++++++++++++++++++-
 1 file changed, 101 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index eec164f..fc369c1 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -34,7 +34,12 @@ use crate::timeline::CommittedInstants;
 use crate::Result;
 use arrow::compute::and;
 use arrow::compute::filter_record_batch;
-use arrow_array::{BooleanArray, RecordBatch};
+use arrow_array::cast::AsArray;
+use arrow_array::{
+    make_array, new_null_array, Array, ArrayRef, BooleanArray, ListArray, MapArray, RecordBatch,
+    StructArray,
+};
+use arrow_schema::{DataType, FieldRef, Fields, Schema, SchemaRef};
 use futures::TryFutureExt;
 use std::collections::HashMap;
 use std::convert::TryFrom;
@@ -243,7 +248,7 @@ impl FileGroupReader {
             let base_record_batch = self
                 .read_file_slice_by_base_file_path(&relative_path)
                 .await?;
-            let schema = base_record_batch.schema();
+            let base_schema = base_record_batch.schema();
             let mut all_record_batches = vec![base_record_batch];
 
             let log_file_paths = file_slice
@@ -261,12 +266,106 @@ impl FileGroupReader {
                 all_record_batches.extend(log_record_batch);
             }
 
+            let (schema, all_record_batches) =
+                align_record_batches(&base_schema, &all_record_batches)?;
             let merger = RecordMerger::new(self.hudi_configs.clone());
             merger.merge_record_batches(&schema, &all_record_batches)
         }
     }
 }
 
+/// Aligns the record batches of a file slice by the names of their columns.
+///
+/// The resulting schema is the one of the base file, followed by the columns that only the log
+/// files have. The writer of the base file and the reader of the log files may label the same data
+/// differently, e.g., the elements of a list.
+fn align_record_batches(
+    base_schema: &SchemaRef,
+    batches: &[RecordBatch],
+) -> Result<(SchemaRef, Vec<RecordBatch>)> {
+    let mut fields: Vec<FieldRef> = base_schema.fields().iter().cloned().collect();
+    for batch in batches {
+        for field in batch.schema_ref().fields() {
+            if !fields.iter().any(|f| f.name() == field.name()) {
+                fields.push(Arc::new(field.as_ref().clone().with_nullable(true)));
+            }
+        }
+    }
+    let schema = Arc::new(Schema::new_with_metadata(
+        fields,
+        base_schema.metadata().clone(),
+    ));
+    let batches = batches
+        .iter()
+        .map(|batch| {
+            let columns = schema
+                .fields()
+                .iter()
+                .map(|field| match batch.column_by_name(field.name()) {
+                    Some(column) => relabel_array(column, field.data_type()),
+                    None => Ok(new_null_array(field.data_type(), batch.num_rows())),
+                })
+                .collect::<Result<Vec<ArrayRef>>>()?;
+            Ok(RecordBatch::try_new(schema.clone(), columns)?)
+        })
+        .collect::<Result<Vec<RecordBatch>>>()?;
+    Ok((schema, batches))
+}
+
+/// Gives the array a data type that only differs in how it labels the same values.
+fn relabel_array(array: &ArrayRef, data_type: &DataType) -> Result<ArrayRef> {
+    let relabel_struct = |array: &StructArray, fields: &Fields| -> Result<StructArray> {
+        let columns = array
+            .columns()
+            .iter()
+            .zip(fields)
+            .map(|(column, field)| relabel_array(column, field.data_type()))
+            .collect::<Result<Vec<ArrayRef>>>()?;
+        Ok(StructArray::try_new(
+            fields.clone(),
+            columns,
+            array.nulls().cloned(),
+        )?)
+    };
+    match (array.data_type(), data_type) {
+        (from, to) if from == to => Ok(array.clone()),
+        (DataType::Timestamp(from, _), DataType::Timestamp(to, _)) if from == to => {
+            let data = array.to_data().into_builder().data_type(data_type.clone());
+            Ok(make_array(data.build()?))
+        }
+        (DataType::List(_), DataType::List(field)) => {
+            let array = array.as_list::<i32>();
+            Ok(Arc::new(ListArray::try_new(
+                field.clone(),
+                array.offsets().clone(),
+                relabel_array(array.values(), field.data_type())?,
+                array.nulls().cloned(),
+            )?))
+        }
+        (DataType::Struct(from), DataType::Struct(to))
+            if from.len() == to.len() && from.iter().zip(to).all(|(f, t)| f.name() == t.name()) =>
+        {
+            Ok(Arc::new(relabel_struct(array.as_struct(), to)?))
+        }
+        (DataType::Map(_, _), DataType::Map(field, ordered)) => {
+            let array = array.as_map();
+            let DataType::Struct(fields) = field.data_type() else {
+                return Err(ReadFileSliceError(format!("Invalid type {data_type}")));
+            };
+            Ok(Arc::new(MapArray::try_new(
+                field.clone(),
+                array.offsets().clone(),
+                relabel_struct(array.entries(), fields)?,
+                array.nulls().cloned(),
+                *ordered,
+            )?))
+        }
+        (from, to) => Err(ReadFileSliceError(format!(
+            "Cannot merge a log file column of type {from} into one of type {to}"
+        ))),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From dc585932513a1da4d9e818bb7110ff7019133a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 45/46] fix: resolve columns that were added since the latest
 base file

---
 crates/core/src/timeline/mod.rs | 48 ++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index e921401..63e8c5d 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -19,6 +19,7 @@
 pub mod instant;
 pub(crate) mod selector;
 
+use crate::avro_to_arrow::to_arrow_schema;
 use crate::config::HudiConfigs;
 use crate::error::CoreError;
 use crate::file_group::builder::{build_file_groups, build_replaced_file_groups, FileGroupMerger};
@@ -30,7 +31,8 @@ use crate::storage::Storage;
 use crate::timeline::instant::Action;
 use crate::timeline::selector::TimelineSelector;
 use crate::Result;
-use arrow_schema::Schema;
+use apache_avro::Schema as AvroSchema;
+use arrow_schema::{Field, Schema};
 use instant::Instant;
 use log::debug;
 use serde_json::{Map, Value};
@@ -285,13 +287,7 @@ impl Timeline {
         // A commit may carry no schema, e.g., when it only deletes partitions.
         for instant in self.completed_commits.iter().rev() {
             let commit_metadata = self.get_instant_metadata(instant).await?;
-            let schema = commit_metadata
-                .get("extraMetadata")
-                .and_then(|v| v.as_object())
-                .and_then(|obj| obj.get("schema"))
-                .and_then(|v| v.as_str())
-                .filter(|s| !s.is_empty());
-            if let Some(schema) = schema {
+            if let Some(schema) = Self::avro_schema_from_commit(&commit_metadata) {
                 return Ok(schema.to_string());
             }
         }
@@ -300,6 +296,15 @@ impl Timeline {
         ))
     }
 
+    fn avro_schema_from_commit(commit_metadata: &Map<String, Value>) -> Option<&str> {
+        commit_metadata
+            .get("extraMetadata")
+            .and_then(|v| v.as_object())
+            .and_then(|obj| obj.get("schema"))
+            .and_then(|v| v.as_str())
+            .filter(|s| !s.is_empty())
+    }
+
     /// Get the latest [arrow_schema::Schema] from the [Timeline].
     pub async fn get_latest_schema(&self) -> Result<Schema> {
         // A commit may write no file, e.g., when it only deletes partitions, and the files it
@@ -307,8 +312,12 @@ impl Timeline {
         let mut res = Err(CoreError::CommitMetadata(
             "Failed to resolve the latest schema: no write stats found".to_string(),
         ));
+        // Columns added since the base file, e.g., by a delta commit, are in the Avro schema only.
+        let mut avro_schema = None;
         for instant in self.completed_commits.iter().rev() {
             let commit_metadata = self.get_instant_metadata(instant).await?;
+            avro_schema = avro_schema
+                .or_else(|| Self::avro_schema_from_commit(&commit_metadata).map(String::from));
             let Some(write_stats) = commit_metadata
                 .get("partitionToWriteStats")
                 .and_then(|v| v.as_object())
@@ -330,7 +339,7 @@ impl Timeline {
                                 object_store::Error::NotFound { .. }
                             )))
                     ) {
-                        return res;
+                        return Self::add_missing_fields(res?, avro_schema.as_deref());
                     }
                 }
             }
@@ -338,6 +347,27 @@ impl Timeline {
         res
     }
 
+    /// Add the fields that are only in the Avro schema.
+    fn add_missing_fields(schema: Schema, avro_schema: Option<&str>) -> Result<Schema> {
+        let Some(mut avro_schema) = avro_schema.and_then(|s| AvroSchema::parse_str(s).ok()) else {
+            return Ok(schema);
+        };
+        if let AvroSchema::Record(record) = &mut avro_schema {
+            record.fields.retain(|f| schema.index_of(&f.name).is_err());
+        }
+        let missing = to_arrow_schema(&avro_schema)?;
+        let fields = schema.fields().iter().cloned().chain(
+            missing
+                .fields()
+                .iter()
+                .map(|f| Arc::new(Field::new(f.name(), f.data_type().clone(), true))),
+        );
+        Ok(Schema::new_with_metadata(
+            fields.collect::<Vec<_>>(),
+            schema.metadata().clone(),
+        ))
+    }
+
     async fn get_schema_from_write_stat(
         &self,
         partition_path: &str,
-- 
2.43.0


From aecb2954560e9cc2ebbb057fe752c997f5d350c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 46/46] fix: read partitions named like the metadata directory
 of another format

---
 crates/core/src/table/listing.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 12fce91..3123455 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -23,7 +23,7 @@ use crate::error::CoreError;
 use crate::file_group::base_file::BaseFile;
 use crate::file_group::log_file::LogFile;
 use crate::file_group::FileGroup;
-use crate::metadata::LAKE_FORMAT_METADATA_DIRS;
+use crate::metadata::{HUDI_METADATA_DIR, LAKE_FORMAT_METADATA_DIRS};
 use crate::storage::{get_leaf_dirs, Storage};
 use crate::table::partition::{
     is_table_partitioned, PartitionPruner, EMPTY_PARTITION_PATH, PARTITION_METAFIELD_PREFIX,
@@ -156,6 +156,13 @@ impl FileLister {
         Ok(file_groups)
     }
 
+    async fn is_marked_as_partition(&self, dir: &str) -> Result<bool> {
+        let files = self.storage.list_files(Some(dir)).await?;
+        Ok(files
+            .iter()
+            .any(|file| file.name.starts_with(PARTITION_METAFIELD_PREFIX)))
+    }
+
     async fn list_relevant_partition_paths(&self) -> Result<Vec<String>> {
         if !is_table_partitioned(&self.hudi_configs) {
             return Ok(vec![EMPTY_PARTITION_PATH.to_string()]);
@@ -166,12 +173,22 @@ impl FileLister {
             .list_dirs(None)
             .await?
             .into_iter()
-            .filter(|dir| !LAKE_FORMAT_METADATA_DIRS.contains(&dir.as_str()))
+            .filter(|dir| dir != HUDI_METADATA_DIR)
             .collect();
 
         let mut partition_paths = Vec::new();
         for dir in top_level_dirs {
-            partition_paths.extend(get_leaf_dirs(&self.storage, Some(&dir)).await?);
+            let leaf_dirs = get_leaf_dirs(&self.storage, Some(&dir)).await?;
+            if LAKE_FORMAT_METADATA_DIRS.contains(&dir.as_str()) {
+                // A partition may be named like the metadata directory of another format.
+                for leaf_dir in leaf_dirs {
+                    if self.is_marked_as_partition(&leaf_dir).await? {
+                        partition_paths.push(leaf_dir);
+                    }
+                }
+            } else {
+                partition_paths.extend(leaf_dirs);
+            }
         }
 
         if partition_paths.is_empty() || self.partition_pruner.is_empty() {
-- 
2.43.0

