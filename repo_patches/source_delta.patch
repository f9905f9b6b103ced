From f56874be3bffdb1055f437918d16bfd4a6f7ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 01/41] verif hook: optional object-store wrapper in
 Storage::new (cfg hudi_verif)

---
 crates/core/src/storage/mod.rs        | 21 +++++++++----
 crates/core/src/storage/verif_hook.rs | 45 +++++++++++++++++++++++++++
 2 files changed, 60 insertions(+), 6 deletions(-)
 create mode 100644 crates/core/src/storage/verif_hook.rs

diff --git a/crates/core/src/storage/mod.rs b/crates/core/src/storage/mod.rs
index ce7695b..ba38244 100644
--- a/crates/core/src/storage/mod.rs
+++ b/crates/core/src/storage/mod.rs
@@ -17,6 +17,8 @@
  * under the License.
  */
 //! This module is responsible for interacting with the storage layer.
+// `hudi_verif` is only set by the instrumented builds of the verification framework.
+#![allow(unexpected_cfgs)]
 
 use std::collections::HashMap;
 use std::path::PathBuf;
@@ -46,6 +48,8 @@ pub mod error;
 pub mod file_metadata;
 pub mod reader;
 pub mod util;
+#[cfg(hudi_verif)]
+pub mod verif_hook;
 
 #[allow(dead_code)]
 #[derive(Clone, Debug)]
@@ -74,12 +78,17 @@ impl Storage {
         };
 
         match parse_url_opts(&base_url, options.as_ref()) {
-            Ok((object_store, _)) => Ok(Arc::new(Storage {
-                base_url: Arc::new(base_url),
-                object_store: Arc::new(object_store),
-                options,
-                hudi_configs,
-            })),
+            Ok((object_store, _)) => {
+                let object_store: Arc<dyn ObjectStore> = Arc::new(object_store);
+                #[cfg(hudi_verif)]
+                let object_store = verif_hook::wrap(&base_url, object_store);
+                Ok(Arc::new(Storage {
+                    base_url: Arc::new(base_url),
+                    object_store,
+                    options,
+                    hudi_configs,
+                }))
+            }
             Err(e) => Err(Creation(format!("Failed to create storage: {}", e))),
         }
     }
diff --git a/crates/core/src/storage/verif_hook.rs b/crates/core/src/storage/verif_hook.rs
new file mode 100644
index 0000000..73f9227
--- /dev/null
+++ b/crates/core/src/storage/verif_hook.rs
@@ -0,0 +1,45 @@
+/*
+ * Licensed to the Apache Software Foundation (ASF) under one
+ * or more contributor license agreements.  See the NOTICE file
+ * distributed with this work for additional information
+ * regarding copyright ownership.  The ASF licenses this file
+ * to you under the Apache License, Version 2.0 (the
+ * "License"); you may not use this file except in compliance
+ * with the License.  You may obtain a copy of the License at
+ *
+ *   http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing,
+ * software distributed under the License is distributed on an
+ * "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+ * KIND, either express or implied.  See the License for the
+ * specific language governing permissions and limitations
+ * under the License.
+ */
+//! Instrumentation hook, compiled only with `--cfg hudi_verif`.
+//!
+//! A monitor may install a function that replaces or wraps the object store of every
+//! [crate::storage::Storage] created afterwards, to record operations, delay them or make them fail.
+
+use std::sync::{Arc, RwLock};
+
+use object_store::ObjectStore;
+use url::Url;
+
+pub type StoreWrapper =
+    dyn Fn(&Url, Arc<dyn ObjectStore>) -> Arc<dyn ObjectStore> + Send + Sync + 'static;
+
+static WRAPPER: RwLock<Option<Arc<StoreWrapper>>> = RwLock::new(None);
+
+/// Installs (or with `None` removes) the wrapper.
+pub fn set_store_wrapper(wrapper: Option<Arc<StoreWrapper>>) {
+    *WRAPPER.write().unwrap() = wrapper;
+}
+
+pub(crate) fn wrap(base_url: &Url, store: Arc<dyn ObjectStore>) -> Arc<dyn ObjectStore> {
+    let wrapper = WRAPPER.read().unwrap().clone();
+    match wrapper {
+        Some(w) => w(base_url, store),
+        None => store,
+    }
+}
-- 
2.43.0


From 7ca304d583cb94a3012f1a5fbbdfcd4db3d27bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 02/41] fix: treat an empty hoodie.table.partition.fields as no
 partition fields

---
 crates/core/src/config/table.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/config/table.rs b/crates/core/src/config/table.rs
index 149938e..5779c76 100644
--- a/crates/core/src/config/table.rs
+++ b/crates/core/src/config/table.rs
@@ -203,8 +203,15 @@ impl ConfigParser for HudiTableConfig {
                 })
                 .map(HudiConfigValue::Boolean),
             Self::KeyGeneratorClass => get_result.map(|v| HudiConfigValue::String(v.to_string())),
-            Self::PartitionFields => get_result
-                .map(|v| HudiConfigValue::List(v.split(',').map(str::to_string).collect())),
+            Self::PartitionFields => get_result.map(|v| {
+                // Non-partitioned tables may carry an empty value.
+                HudiConfigValue::List(
+                    v.split(',')
+                        .filter(|f| !f.is_empty())
+                        .map(str::to_string)
+                        .collect(),
+                )
+            }),
             Self::PrecombineField => get_result.map(|v| HudiConfigValue::String(v.to_string())),
             Self::PopulatesMetaFields => get_result
                 .and_then(|v| {
-- 
2.43.0


From 74bda0ec7f57647cbb0e0d6806975f349b80b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 03/41] fix: keep the configured order of partition fields in
 the partition schema

---
 crates/core/src/table/mod.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index e47ff9b..656fadf 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -105,7 +105,7 @@ use crate::Result;
 use crate::config::read::HudiReadConfig;
 use arrow::record_batch::RecordBatch;
 use arrow_schema::{Field, Schema};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
@@ -205,19 +205,17 @@ impl Table {
 
     /// Get the latest partition [arrow_schema::Schema] of the table.
     pub async fn get_partition_schema(&self) -> Result<Schema> {
-        let partition_fields: HashSet<String> = self
+        let partition_fields: Vec<String> = self
             .hudi_configs
             .get_or_default(PartitionFields)
-            .to::<Vec<String>>()
-            .into_iter()
-            .collect();
+            .to::<Vec<String>>();
 
+        // Partition paths are laid out in the configured order of the fields, which may differ
+        // from their order in the table schema.
         let schema = self.get_schema().await?;
-        let partition_fields: Vec<Arc<Field>> = schema
-            .fields()
+        let partition_fields: Vec<Arc<Field>> = partition_fields
             .iter()
-            .filter(|field| partition_fields.contains(field.name()))
-            .cloned()
+            .filter_map(|name| schema.fields().find(name).map(|(_, field)| field.clone()))
             .collect();
 
         Ok(Schema::new(partition_fields))
-- 
2.43.0


From 4d6863617298b4265c4809fbfc9ea2ca1a71905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 04/41] fix: split partition paths before URL-decoding, so
 values may contain '/'

---
 crates/core/src/table/partition.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index 307b428..5cac2e5 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -119,15 +119,27 @@ impl PartitionPruner {
     }
 
     fn parse_segments(&self, partition_path: &str) -> Result<HashMap<String, Scalar<ArrayRef>>> {
-        let partition_path = if self.is_url_encoded {
-            percent_encoding::percent_decode(partition_path.as_bytes())
+        let decode = |text: &str| -> Result<String> {
+            Ok(percent_encoding::percent_decode(text.as_bytes())
                 .decode_utf8()?
-                .into_owned()
-        } else {
-            partition_path.to_string()
+                .into_owned())
         };
 
-        let parts: Vec<&str> = partition_path.split('/').collect();
+        let mut parts: Vec<String> = partition_path.split('/').map(str::to_string).collect();
+        if self.is_url_encoded {
+            // A decoded value may contain the path separator, so split before decoding.
+            if parts.len() == self.schema.fields().len() {
+                parts = parts
+                    .iter()
+                    .map(|part| decode(part))
+                    .collect::<Result<Vec<_>>>()?;
+            } else {
+                parts = decode(partition_path)?
+                    .split('/')
+                    .map(str::to_string)
+                    .collect();
+            }
+        }
 
         if parts.len() != self.schema.fields().len() {
             return Err(InvalidPartitionPath(format!(
@@ -140,7 +152,7 @@ impl PartitionPruner {
         self.schema
             .fields()
             .iter()
-            .zip(parts)
+            .zip(parts.iter())
             .map(|(field, part)| {
                 let value = if self.is_hive_style {
                     let (name, value) = part.split_once('=').ok_or(InvalidPartitionPath(
@@ -155,7 +167,7 @@ impl PartitionPruner {
                     }
                     value
                 } else {
-                    part
+                    part.as_str()
                 };
                 let scalar = SchemableFilter::cast_value(&[value], field.data_type())?;
                 Ok((field.name().to_string(), scalar))
-- 
2.43.0


From 80565fcac89e780a7add5102dd054a930947ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 05/41] fix: resolve the schema from the latest commit that
 wrote files

---
 crates/core/src/timeline/mod.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index ac78903..299580e 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -218,6 +218,26 @@ impl Timeline {
         }
     }
 
+    /// Get the metadata of the latest commit that wrote files.
+    ///
+    /// Some commits write none, e.g., a partition drop or a write of no records. When no commit
+    /// wrote files, the latest commit's metadata is returned.
+    async fn get_latest_commit_metadata_with_write_stats(&self) -> Result<Map<String, Value>> {
+        let mut latest = None;
+        for instant in self.completed_commits.iter().rev() {
+            let metadata = self.get_instant_metadata(instant).await?;
+            let has_write_stats = metadata
+                .get("partitionToWriteStats")
+                .and_then(|v| v.as_object())
+                .is_some_and(|obj| !obj.is_empty());
+            if has_write_stats {
+                return Ok(metadata);
+            }
+            latest.get_or_insert(metadata);
+        }
+        Ok(latest.unwrap_or_default())
+    }
+
     pub(crate) fn get_latest_commit_timestamp_as_option(&self) -> Option<&str> {
         self.completed_commits
             .iter()
@@ -255,7 +275,7 @@ impl Timeline {
 
     /// Get the latest [arrow_schema::Schema] from the [Timeline].
     pub async fn get_latest_schema(&self) -> Result<Schema> {
-        let commit_metadata = self.get_latest_commit_metadata().await?;
+        let commit_metadata = self.get_latest_commit_metadata_with_write_stats().await?;
 
         let first_partition = commit_metadata
             .get("partitionToWriteStats")
-- 
2.43.0


From 48c0d1c8f4d196de54ecb35d8d16c076a65f9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 06/41] fix: keep all write stats of a file group within one
 commit

---
 crates/core/src/file_group/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/builder.rs b/crates/core/src/file_group/builder.rs
index 9f2d0c3..f8533e9 100644
--- a/crates/core/src/file_group/builder.rs
+++ b/crates/core/src/file_group/builder.rs
@@ -103,7 +103,8 @@ pub fn build_file_groups(commit_metadata: &Map<String, Value>) -> Result<HashSet
                 file_group.add_base_file_from_name(file_name)?;
             }
 
-            file_groups.insert(file_group);
+            // A commit may have several write stats for one file group, e.g., one per log file.
+            file_groups.merge([file_group])?;
         }
     }
 
-- 
2.43.0


From 87f4f0656ebd4ea0d3ea62c2da927ce4bd21ea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 07/41] fix: order log files by numeric version, consistently
 with equality

---
 crates/core/src/file_group/log_file/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index 30868c1..b49643b 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -167,12 +167,17 @@ impl PartialOrd for LogFile {
 
 impl Ord for LogFile {
     fn cmp(&self, other: &Self) -> Ordering {
-        // Compare fields in order: base_commit_timestamp, version, write_token
+        // Compare fields in order: base_commit_timestamp, version (as number), write_token.
+        // The rest keeps the ordering consistent with equality.
         // TODO support `.cdc` suffix
+        let version = |f: &Self| f.version.parse::<u64>().unwrap_or(u64::MAX);
         self.base_commit_timestamp
             .cmp(&other.base_commit_timestamp)
-            .then(self.version.cmp(&other.version))
-            .then(self.write_token.cmp(&other.write_token))
+            .then_with(|| version(self).cmp(&version(other)))
+            .then_with(|| self.version.cmp(&other.version))
+            .then_with(|| self.write_token.cmp(&other.write_token))
+            .then_with(|| self.extension.cmp(&other.extension))
+            .then_with(|| self.file_id.cmp(&other.file_id))
     }
 }
 
-- 
2.43.0


From 7e3c9fd56e301e9eb7d45dc05274e2c2e8a96657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 08/41] fix: time-travel reads of a table without commits
 return nothing instead of failing

---
 crates/core/src/table/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 656fadf..5e72269 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -320,6 +320,11 @@ impl Table {
         timestamp: &str,
         filters: &[Filter],
     ) -> Result<Vec<FileSlice>> {
+        if self.timeline.completed_commits.is_empty() {
+            // There is nothing to see in a table without completed commits.
+            return Ok(Vec::new());
+        }
+
         let excludes = self
             .timeline
             .get_replaced_file_groups_as_of(timestamp)
-- 
2.43.0


From 52058a8f2c509c12594fb9be6a7047a7e853915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 09/41] fix: hold no file-group map guard across await points
 when collecting file slices

---
 crates/core/src/table/fs_view.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index d25389b..06d457a 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -75,21 +75,24 @@ impl FileSystemView {
         excluding_file_groups: &HashSet<FileGroup>,
     ) -> Result<Vec<FileSlice>> {
         let mut file_slices = Vec::new();
-        for mut partition_entry in self.partition_to_file_groups.iter_mut() {
+        // Clone the file slices out of the map before loading their metadata: holding a map guard
+        // across an await point can deadlock with other calls that use the same view.
+        for partition_entry in self.partition_to_file_groups.iter() {
             if !partition_pruner.should_include(partition_entry.key()) {
                 continue;
             }
-            let file_groups = partition_entry.value_mut();
-            for fg in file_groups.iter_mut() {
+            for fg in partition_entry.value() {
                 if excluding_file_groups.contains(fg) {
                     continue;
                 }
-                if let Some(fsl) = fg.get_file_slice_mut_as_of(timestamp) {
-                    fsl.load_metadata_if_needed(&self.storage).await?;
+                if let Some(fsl) = fg.get_file_slice_as_of(timestamp) {
                     file_slices.push(fsl.clone());
                 }
             }
         }
+        for fsl in file_slices.iter_mut() {
+            fsl.load_metadata_if_needed(&self.storage).await?;
+        }
         Ok(file_slices)
     }
 
-- 
2.43.0


From 20880b771dfdc8b6e37c015540d578daf6da16c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 10/41] fix: report schema errors from the DataFusion source
 instead of using an empty schema

---
 crates/datafusion/src/lib.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 9beb612..1e657fb 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -23,7 +23,6 @@ use std::any::Any;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::Arc;
-use std::thread;
 
 use arrow_schema::{Schema, SchemaRef};
 use async_trait::async_trait;
@@ -78,6 +77,7 @@ use hudi_core::util::StrTupleRef;
 #[derive(Clone, Debug)]
 pub struct HudiDataSource {
     table: Arc<HudiTable>,
+    schema: SchemaRef,
 }
 
 impl HudiDataSource {
@@ -91,10 +91,21 @@ impl HudiDataSource {
         K: AsRef<str>,
         V: Into<String>,
     {
-        match HudiTable::new_with_options(base_uri, options).await {
-            Ok(t) => Ok(Self { table: Arc::new(t) }),
-            Err(e) => Err(Execution(format!("Failed to create Hudi table: {}", e))),
-        }
+        let table = HudiTable::new_with_options(base_uri, options)
+            .await
+            .map_err(|e| Execution(format!("Failed to create Hudi table: {}", e)))?;
+        let schema = if table.get_timeline().completed_commits.is_empty() {
+            Schema::empty()
+        } else {
+            table
+                .get_schema()
+                .await
+                .map_err(|e| Execution(format!("Failed to get Hudi table schema: {}", e)))?
+        };
+        Ok(Self {
+            table: Arc::new(table),
+            schema: SchemaRef::from(schema),
+        })
     }
 
     fn get_input_partitions(&self) -> usize {
@@ -153,13 +164,7 @@ impl TableProvider for HudiDataSource {
     }
 
     fn schema(&self) -> SchemaRef {
-        let table = self.table.clone();
-        let handle = thread::spawn(move || {
-            let rt = tokio::runtime::Runtime::new().unwrap();
-            rt.block_on(async { table.get_schema().await })
-        });
-        let result = handle.join().unwrap().unwrap_or_else(|_| Schema::empty());
-        SchemaRef::from(result)
+        self.schema.clone()
     }
 
     fn table_type(&self) -> TableType {
-- 
2.43.0


From 5806e4cf6d45dfb9daff507ffdaa4018b9c72195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 11/41] fix: decode nullable boolean arrays and elements of
 Avro log records

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 4ada3ad..e69c336 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -457,11 +457,11 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 let mut bool_nulls = MutableBuffer::new(num_bytes).with_bitset(num_bytes, true);
                 let mut curr_index = 0;
                 rows.iter().for_each(|v| {
-                    if let Value::Array(vs) = v {
+                    if let Value::Array(vs) = maybe_resolve_union(v) {
                         vs.iter().for_each(|value| {
-                            if let Value::Boolean(child) = value {
+                            if let Some(child) = resolve_boolean(value) {
                                 // if valid boolean, append value
-                                if *child {
+                                if child {
                                     bit_util::set_bit(&mut bool_values, curr_index);
                                 }
                             } else {
-- 
2.43.0


From 537b7d123dabf65974fcb35ed11418ee1ddc8445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 12/41] fix: null lists of lists or structs in Avro log records
 take no child values

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index e69c336..bb02510 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -529,6 +529,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     .iter()
                     .map(|row| match maybe_resolve_union(row) {
                         Value::Array(values) => values.len(),
+                        Value::Null => 0,
                         _ => 1,
                     })
                     .sum();
@@ -557,6 +558,9 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                                     other => panic!("expected Record, got {other:?}"),
                                 })
                                 .collect::<Vec<&Vec<(String, Value)>>>()
+                        } else if let Value::Null = row {
+                            // a null list has no values
+                            vec![]
                         } else {
                             struct_index += 1;
                             vec![&null_struct_array]
@@ -817,6 +821,9 @@ fn flatten_values<'a>(values: &[&'a Value]) -> Vec<&'a Value> {
             let v = maybe_resolve_union(row);
             if let Value::Array(values) = v {
                 values.iter().collect()
+            } else if let Value::Null = v {
+                // a null list has no values
+                vec![]
             } else {
                 // we interpret a scalar as a single-value list to minimise data loss
                 vec![v]
-- 
2.43.0


From 7509b32c6c6c60fe2037a58bb38edf22d51cb8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 13/41] fix: look up struct fields inside nested lists of Avro
 log records by their full path

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index bb02510..d6149eb 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -509,7 +509,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 .into_data(),
             DataType::List(field) => {
                 let child = self.build_nested_list_array::<i32>(
-                    parent_field_name,
+                    &format!("{}.{}", parent_field_name, list_field.name()),
                     &flatten_values(rows),
                     field,
                 )?;
@@ -517,7 +517,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
             }
             DataType::LargeList(field) => {
                 let child = self.build_nested_list_array::<i64>(
-                    parent_field_name,
+                    &format!("{}.{}", parent_field_name, list_field.name()),
                     &flatten_values(rows),
                     field,
                 )?;
-- 
2.43.0


From a4212131330147d74d18a35664424036996c11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 14/41] fix: decode local-timestamp values of Avro log records
 instead of panicking

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 6 +++++-
 crates/core/src/avro_to_arrow/schema.rs             | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index d6149eb..05a5348 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -966,7 +966,11 @@ where
             Value::Long(l)
             | Value::TimeMicros(l)
             | Value::TimestampMillis(l)
-            | Value::TimestampMicros(l) => NumCast::from(*l),
+            | Value::TimestampMicros(l)
+            | Value::TimestampNanos(l)
+            | Value::LocalTimestampMillis(l)
+            | Value::LocalTimestampMicros(l)
+            | Value::LocalTimestampNanos(l) => NumCast::from(*l),
             Value::Float(f) => NumCast::from(*f),
             Value::Double(f) => NumCast::from(*f),
             Value::Duration(_d) => unimplemented!(), // shenanigans type
diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index afb0773..342184c 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -140,9 +140,9 @@ fn schema_to_field_with_props(
         AvroSchema::TimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
         AvroSchema::TimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
         AvroSchema::TimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
-        AvroSchema::LocalTimestampMillis => todo!(),
-        AvroSchema::LocalTimestampMicros => todo!(),
-        AvroSchema::LocalTimestampNanos => todo!(),
+        AvroSchema::LocalTimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
+        AvroSchema::LocalTimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
+        AvroSchema::LocalTimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
         AvroSchema::Duration => DataType::Duration(TimeUnit::Millisecond),
     };
 
-- 
2.43.0


From 2285a1345f79a2b0b4bf76317dc942a1b0571b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 15/41] fix: refuse Avro schema references with an error
 instead of panicking

---
 crates/core/src/avro_to_arrow/schema.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index 342184c..d76d659 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -61,7 +61,11 @@ fn schema_to_field_with_props(
 ) -> Result<Field> {
     let mut nullable = nullable;
     let field_type: DataType = match schema {
-        AvroSchema::Ref { .. } => todo!("Add support for AvroSchema::Ref"),
+        AvroSchema::Ref { name } => {
+            return Err(CoreError::Unsupported(format!(
+                "Avro schema reference to {name:?} is not supported"
+            )))
+        }
         AvroSchema::Null => DataType::Null,
         AvroSchema::Boolean => DataType::Boolean,
         AvroSchema::Int => DataType::Int32,
-- 
2.43.0


From 1e5c12d954c4561aefe53abc22f405fb394343ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 16/41] fix: decode uuid values of Avro log records instead of
 returning null

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 05a5348..3299cd4 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -918,6 +918,7 @@ fn resolve_fixed(v: &Value, size: usize) -> Option<Vec<u8>> {
                 None
             }
         }
+        Value::Uuid(uuid) if size == 16 => Some(uuid.as_bytes().to_vec()),
         _ => None,
     }
 }
-- 
2.43.0


From afea494fa917bb7ad775947587aa2e2ad12d4963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:16 +0000
Subject: [PATCH 17/41] fix: do not allocate by unchecked counts and lengths of
 log block headers

---
 crates/core/src/file_group/log_file/reader.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 901ebfe..a12ac0c 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -176,8 +176,8 @@ impl<R: Read + Seek> LogFileReader<R> {
         let mut num_entries_buf = [0u8; 4];
         self.reader.read_exact(&mut num_entries_buf)?;
         let num_entries = u32::from_be_bytes(num_entries_buf);
-        let mut metadata: HashMap<BlockMetadataKey, String> =
-            HashMap::with_capacity(num_entries as usize);
+        // the count and lengths are not trusted for allocations: they may be damaged
+        let mut metadata: HashMap<BlockMetadataKey, String> = HashMap::new();
         for _ in 0..num_entries {
             let mut key_buf = [0u8; 4];
             self.reader.read_exact(&mut key_buf)?;
@@ -185,8 +185,16 @@ impl<R: Read + Seek> LogFileReader<R> {
             let mut value_len_buf = [0u8; 4];
             self.reader.read_exact(&mut value_len_buf)?;
             let value_len = u32::from_be_bytes(value_len_buf);
-            let mut value_buf = vec![0u8; value_len as usize];
-            self.reader.read_exact(&mut value_buf)?;
+            let mut value_buf = Vec::new();
+            self.reader
+                .by_ref()
+                .take(value_len as u64)
+                .read_to_end(&mut value_buf)?;
+            if value_buf.len() < value_len as usize {
+                return Err(CoreError::ReadLogFileError(
+                    io::ErrorKind::UnexpectedEof.into(),
+                ));
+            }
             let value =
                 String::from_utf8(value_buf).map_err(|e| CoreError::Utf8Error(e.utf8_error()))?;
             metadata.insert(key, value);
-- 
2.43.0


From 62e0a2f7887148222c74d07de346096ef1b7b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 18/41] fix: reject malformed instant timestamps instead of
 panicking or misreading them

---
 crates/core/src/timeline/instant.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index e3e191e..2257caa 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -148,7 +148,8 @@ impl Instant {
     }
 
     fn validate_timestamp(timestamp: &str) -> Result<()> {
-        if !matches!(timestamp.len(), 14 | 17) {
+        let all_digits = timestamp.bytes().all(|b| b.is_ascii_digit());
+        if !all_digits || !matches!(timestamp.len(), 14 | 17) {
             return Err(CoreError::Timeline(format!(
                 "Timestamp must be in format yyyyMMddHHmmss or yyyyMMddHHmmssSSS, but got: {}",
                 timestamp
@@ -163,6 +164,7 @@ impl Instant {
     }
 
     fn parse_naive_datetime(timestamp: &str) -> Result<NaiveDateTime> {
+        Self::validate_timestamp(timestamp)?;
         let naive_dt = NaiveDateTime::parse_from_str(&timestamp[..14], "%Y%m%d%H%M%S")
             .map_err(|e| CoreError::Timeline(format!("Failed to parse timestamp: {}", e)))?;
 
-- 
2.43.0


From 637213282efe1d625eed37e0b5548814bba051ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 19/41] fix: keep instants whose local time occurs twice at a
 daylight-saving change

---
 crates/core/src/timeline/instant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 2257caa..015458f 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -185,7 +185,7 @@ impl Instant {
             TimelineTimezoneValue::UTC => Ok(DateTime::from_naive_utc_and_offset(naive_dt, Utc)),
             TimelineTimezoneValue::Local => Ok(Local
                 .from_local_datetime(&naive_dt)
-                .single()
+                .earliest()
                 .ok_or_else(|| CoreError::Timeline("Invalid local datetime".to_string()))?
                 .to_utc()),
         }
-- 
2.43.0


From b80c4fc2e874ee1cd04e93006200bcae87cdada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 20/41] fix: order instants consistently with their equality

---
 crates/core/src/timeline/instant.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 015458f..311b175 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -118,6 +118,8 @@ impl Ord for Instant {
         self.epoch_millis
             .cmp(&other.epoch_millis)
             .then_with(|| self.state.cmp(&other.state))
+            .then_with(|| self.action.as_ref().cmp(other.action.as_ref()))
+            .then_with(|| self.timestamp.cmp(&other.timestamp))
     }
 }
 
-- 
2.43.0


From 8baed1b792a632fb2bf8b1a74c66b3ee7882e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 21/41] fix: fail on log command blocks that cannot be
 interpreted instead of ignoring them

---
 crates/core/src/file_group/log_file/scanner.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/file_group/log_file/scanner.rs b/crates/core/src/file_group/log_file/scanner.rs
index d6ef227..f8956b1 100644
--- a/crates/core/src/file_group/log_file/scanner.rs
+++ b/crates/core/src/file_group/log_file/scanner.rs
@@ -17,7 +17,7 @@
  * under the License.
  */
 use crate::config::HudiConfigs;
-use crate::file_group::log_file::log_block::LogBlock;
+use crate::file_group::log_file::log_block::{BlockType, CommandBlock, LogBlock};
 use crate::file_group::log_file::reader::LogFileReader;
 use crate::storage::Storage;
 use crate::timeline::selector::InstantRange;
@@ -55,8 +55,13 @@ impl LogFileScanner {
             let blocks = reader.read_all_blocks(instant_range)?;
 
             for block in &blocks {
-                if block.is_rollback_block() {
-                    rollback_targets.insert(block.target_instant_time()?.to_string());
+                if block.block_type == BlockType::Command {
+                    // an unusable command must not be ignored
+                    match block.command_block_type()? {
+                        CommandBlock::Rollback => {
+                            rollback_targets.insert(block.target_instant_time()?.to_string());
+                        }
+                    }
                 }
             }
 
-- 
2.43.0


From d624d88f1c10409b3b8e9d9126996301269b62d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:45 +0000
Subject: [PATCH 22/41] fix: report a log file cut within a block's magic bytes
 instead of ending the scan

---
 crates/core/src/file_group/log_file/reader.rs | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index a12ac0c..e55e18a 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -86,17 +86,19 @@ impl<R: Read + Seek> LogFileReader<R> {
     ///
     /// Returns an error if the magic bytes are invalid or an I/O error occurs.
     fn read_magic(&mut self) -> Result<bool> {
-        let mut magic = [0u8; 6];
-        match self.reader.read_exact(&mut magic) {
-            Ok(_) => {
-                if magic != MAGIC {
-                    return Err(CoreError::LogFormatError("Invalid magic".to_string()));
-                }
-                Ok(true)
-            }
-            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => Ok(false),
-            Err(e) => Err(CoreError::ReadLogFileError(e)),
+        let mut magic = Vec::with_capacity(MAGIC.len());
+        self.reader
+            .by_ref()
+            .take(MAGIC.len() as u64)
+            .read_to_end(&mut magic)
+            .map_err(CoreError::ReadLogFileError)?;
+        if magic.is_empty() {
+            return Ok(false);
+        }
+        if magic != MAGIC {
+            return Err(CoreError::LogFormatError("Invalid magic".to_string()));
         }
+        Ok(true)
     }
 
     /// Read 8 bytes for the log block's length excluding the magic.
-- 
2.43.0


From ca296ab533f9c0a9535f4a8da1431f3761d9e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:40 +0000
Subject: [PATCH 23/41] fix: reject instant file names that do not round-trip
 and second 60

---
 crates/core/src/timeline/instant.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 311b175..01722e8 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -169,6 +169,13 @@ impl Instant {
         Self::validate_timestamp(timestamp)?;
         let naive_dt = NaiveDateTime::parse_from_str(&timestamp[..14], "%Y%m%d%H%M%S")
             .map_err(|e| CoreError::Timeline(format!("Failed to parse timestamp: {}", e)))?;
+        // chrono reads second 60 as a leap second, which no instant time has.
+        if naive_dt.nanosecond() >= 1_000_000_000 {
+            return Err(CoreError::Timeline(format!(
+                "Failed to parse timestamp: invalid second in {}",
+                timestamp
+            )));
+        }
 
         if timestamp.len() == 17 {
             let millis: u32 = timestamp[14..]
@@ -196,7 +203,15 @@ impl Instant {
     pub fn parse_action_and_state(action_suffix: &str) -> Result<(Action, State)> {
         match action_suffix.split_once('.') {
             Some((action_str, state_str)) => {
-                Ok((Action::from_str(action_str)?, State::from_str(state_str)?))
+                let action = Action::from_str(action_str)?;
+                let state = State::from_str(state_str)?;
+                // Completed instants have no state suffix, and an inflight commit has no action.
+                match (&action, &state) {
+                    (_, State::Completed) | (Action::Commit, State::Inflight) => Err(
+                        CoreError::Timeline(format!("Invalid action suffix: {}", action_suffix)),
+                    ),
+                    _ => Ok((action, state)),
+                }
             }
             None => match action_suffix {
                 "inflight" => Ok((Action::Commit, State::Inflight)),
-- 
2.43.0


From 7e3221b6263c70b15514c2c8b6215bd642687c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:40 +0000
Subject: [PATCH 24/41] fix: reject malformed base and log file names, and skip
 CDC log files as intended

---
 crates/core/src/file_group/base_file.rs    | 28 ++++++++++------------
 crates/core/src/file_group/log_file/mod.rs |  3 +++
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/crates/core/src/file_group/base_file.rs b/crates/core/src/file_group/base_file.rs
index 4f35b87..388fc38 100644
--- a/crates/core/src/file_group/base_file.rs
+++ b/crates/core/src/file_group/base_file.rs
@@ -57,22 +57,20 @@ impl BaseFile {
             .rsplit_once('.')
             .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?;
         let parts: Vec<&str> = stem.split('_').collect();
-        let file_id = parts
-            .first()
-            .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-            .to_string();
-        let write_token = parts
-            .get(1)
-            .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-            .to_string();
-        let commit_timestamp = parts
-            .get(2)
-            .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-            .to_string();
+        let [file_id, write_token, commit_timestamp] = parts[..] else {
+            return Err(CoreError::FileGroup(err_msg));
+        };
+        if file_id.is_empty()
+            || write_token.is_empty()
+            || commit_timestamp.is_empty()
+            || extension.is_empty()
+        {
+            return Err(CoreError::FileGroup(err_msg));
+        }
         Ok((
-            file_id,
-            write_token,
-            commit_timestamp,
+            file_id.to_string(),
+            write_token.to_string(),
+            commit_timestamp.to_string(),
             extension.to_string(),
         ))
     }
diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index b49643b..4eeed5f 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -82,6 +82,9 @@ impl LogFile {
             || log_file_extension.is_empty()
             || log_file_version.is_empty()
             || file_write_token.is_empty()
+            || base_commit_timestamp.contains('_')
+            || !log_file_version.bytes().all(|b| b.is_ascii_digit())
+            || file_write_token.contains('.')
         {
             return Err(CoreError::FileGroup(err_msg.clone()));
         }
-- 
2.43.0


From 960d6a6c841be5b5e3af0282302217db44d3d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 25/41] fix: return an error instead of panicking when table
 configs are not valid

---
 crates/core/src/table/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 35e805e..8d59133 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -109,7 +109,7 @@ impl TableBuilder {
 
         let hudi_configs = HudiConfigs::new(self.hudi_options.iter());
 
-        Self::validate_configs(&hudi_configs).expect("Hudi configs are not valid.");
+        Self::validate_configs(&hudi_configs)?;
 
         let hudi_configs = Arc::from(hudi_configs);
         let storage_options = Arc::from(self.storage_options.clone());
-- 
2.43.0


From 986865ac1529d975b16fb0e9319302069e1cdd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 26/41] fix: list partitions one at a time, rather than hang,
 when listing parallelism is 0

---
 crates/core/src/table/listing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 08bcac5..fd44f25 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -167,7 +167,8 @@ impl FileLister {
         let parallelism = self
             .hudi_configs
             .get_or_default(ListingParallelism)
-            .to::<usize>();
+            .to::<usize>()
+            .max(1); // nothing would ever be polled with 0
         stream::iter(pruned_partition_paths)
             .map(|p| async move {
                 let file_groups = self.list_file_groups_for_partition(&p).await?;
-- 
2.43.0


From 9bbcb2d19a42a4427a4f8aeed3bc65d092530cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:25 +0000
Subject: [PATCH 27/41] fix: caller's storage options in any case take
 precedence over env vars and generic options

---
 crates/core/src/table/builder.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 8d59133..bf74709 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -163,15 +163,27 @@ impl TableBuilder {
         // Combine generic options (lower precedence) with explicit options.
         // Note that we treat all non-Hudi options as storage options
         Self::extend_if_absent(&mut self.hudi_options, &generic_hudi_opts);
-        Self::extend_if_absent(&mut self.storage_options, &generic_other_opts)
+        // `object_store` ignores the case of storage option keys.
+        for (key, value) in generic_other_opts {
+            if !Self::contains_key_ignore_case(&self.storage_options, &key) {
+                self.storage_options.insert(key, value);
+            }
+        }
+    }
+
+    fn contains_key_ignore_case(options: &HashMap<String, String>, key: &str) -> bool {
+        options.keys().any(|k| k.eq_ignore_ascii_case(key))
     }
 
     fn resolve_cloud_env_vars(&mut self) {
-        for (key, value) in env::vars() {
+        // `env::vars()` would panic on any variable that is not valid unicode.
+        let env_vars = env::vars_os()
+            .filter_map(|(k, v)| Some((k.into_string().ok()?, v.into_string().ok()?)));
+        for (key, value) in env_vars {
             if Storage::CLOUD_STORAGE_PREFIXES
                 .iter()
                 .any(|prefix| key.starts_with(prefix))
-                && !self.storage_options.contains_key(&key.to_ascii_lowercase())
+                && !Self::contains_key_ignore_case(&self.storage_options, &key)
             {
                 self.storage_options.insert(key.to_ascii_lowercase(), value);
             }
-- 
2.43.0


From a4254a7f2fd2b4f8080164a7e63c2251e9a0b8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:51 +0000
Subject: [PATCH 28/41] fix: accept whitespace around '=' in the global
 defaults file

---
 crates/core/src/config/util.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/config/util.rs b/crates/core/src/config/util.rs
index 33921c6..82f6ec6 100644
--- a/crates/core/src/config/util.rs
+++ b/crates/core/src/config/util.rs
@@ -64,16 +64,18 @@ pub fn parse_data_for_options(data: &Bytes, split_chars: &str) -> Result<HashMap
             continue;
         }
         let mut parts = trimmed_line.splitn(2, |c| split_chars.contains(c));
-        let key = parts
-            .next()
-            .ok_or(ParseLine(format!(
-                "Missing key in config line: {}",
-                trimmed_line
-            )))?
-            .trim()
-            .to_owned();
-        let value = parts.next().unwrap_or("").trim().to_owned();
-        options.insert(key, value);
+        let key = parts.next().ok_or(ParseLine(format!(
+            "Missing key in config line: {}",
+            trimmed_line
+        )))?;
+        let mut value = parts.next().unwrap_or("").trim();
+        // Whitespace that split off the key may be followed by the actual separator.
+        let split_char = trimmed_line[key.len()..].chars().next();
+        if split_char.is_some_and(char::is_whitespace) {
+            let is_separator = |c: char| !c.is_whitespace() && split_chars.contains(c);
+            value = value.strip_prefix(is_separator).unwrap_or(value).trim();
+        }
+        options.insert(key.trim().to_owned(), value.to_owned());
     }
 
     Ok(options)
-- 
2.43.0


From d82ab1b770d403af85f3b0cf51381bf593ed2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 29/41] fix: resolve the escapes of Java properties in
 hoodie.properties

---
 crates/core/src/config/util.rs   | 38 ++++++++++++++++++++++++++++++++
 crates/core/src/table/builder.rs |  6 +++--
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/config/util.rs b/crates/core/src/config/util.rs
index 82f6ec6..dd33302 100644
--- a/crates/core/src/config/util.rs
+++ b/crates/core/src/config/util.rs
@@ -81,6 +81,44 @@ pub fn parse_data_for_options(data: &Bytes, split_chars: &str) -> Result<HashMap
     Ok(options)
 }
 
+/// Resolves the backslash escapes that `java.util.Properties` writes into keys and values.
+pub fn unescape_java_property(s: &str) -> String {
+    let mut unescaped = String::with_capacity(s.len());
+    let mut utf16_units = Vec::new();
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        if c == '\\' {
+            if let Some(unit) = chars
+                .as_str()
+                .strip_prefix('u')
+                .and_then(|hex| hex.get(..4))
+                .filter(|hex| hex.bytes().all(|b| b.is_ascii_hexdigit()))
+                .and_then(|hex| u16::from_str_radix(hex, 16).ok())
+            {
+                utf16_units.push(unit);
+                chars.nth(4);
+                continue;
+            }
+        }
+        // A character may take two escaped UTF-16 units.
+        unescaped.push_str(&String::from_utf16_lossy(&utf16_units));
+        utf16_units.clear();
+        unescaped.push(match c {
+            '\\' => match chars.next() {
+                Some('t') => '\t',
+                Some('n') => '\n',
+                Some('r') => '\r',
+                Some('f') => '\u{c}',
+                Some(escaped) => escaped,
+                None => break,
+            },
+            _ => c,
+        });
+    }
+    unescaped.push_str(&String::from_utf16_lossy(&utf16_units));
+    unescaped
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index bf74709..56a69e5 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -31,7 +31,9 @@ use crate::config::table::HudiTableConfig;
 use crate::config::table::HudiTableConfig::{
     DropsPartitionFields, TableVersion, TimelineLayoutVersion,
 };
-use crate::config::util::{parse_data_for_options, split_hudi_options_from_others};
+use crate::config::util::{
+    parse_data_for_options, split_hudi_options_from_others, unescape_java_property,
+};
 use crate::config::{HudiConfigs, HUDI_CONF_DIR};
 use crate::error::CoreError;
 use crate::merge::record_merger::RecordMerger;
@@ -217,7 +219,7 @@ impl TableBuilder {
         // We currently treat all table properties as the highest precedence, which is valid for most cases.
         // TODO: handle the case where the same key is present in both table properties and options
         for (k, v) in table_properties {
-            options.insert(k.to_string(), v.to_string());
+            options.insert(unescape_java_property(&k), unescape_java_property(&v));
         }
 
         Ok(())
-- 
2.43.0


From d489611aa4765bab60cb7ae2f996927891a90aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 30/41] fix: reject log file names with surplus underscores

---
 crates/core/src/file_group/log_file/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index 4eeed5f..bd338e5 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -82,7 +82,7 @@ impl LogFile {
             || log_file_extension.is_empty()
             || log_file_version.is_empty()
             || file_write_token.is_empty()
-            || base_commit_timestamp.contains('_')
+            || middle.contains('_')
             || !log_file_version.bytes().all(|b| b.is_ascii_digit())
             || file_write_token.contains('.')
         {
-- 
2.43.0


From 355b07e8ee1f32ef2423040f0da5947bdabbc1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 31/41] fix: push only partition filters down to file slices in
 the DataFusion source

---
 crates/datafusion/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 1e657fb..faf3512 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -181,7 +181,19 @@ impl TableProvider for HudiDataSource {
         self.table.register_storage(state.runtime_env().clone());
 
         // Convert Datafusion `Expr` to `Filter`
-        let pushdown_filters = exprs_to_filters(filters);
+        // Only filters on partition columns select file slices; DataFusion applies all of them to
+        // the records.
+        let mut pushdown_filters = exprs_to_filters(filters);
+        if !pushdown_filters.is_empty() {
+            let partition_schema = self.table.get_partition_schema().await.map_err(|e| {
+                Execution(format!(
+                    "Failed to get partition schema from Hudi table: {}",
+                    e
+                ))
+            })?;
+            pushdown_filters
+                .retain(|(field, _, _)| partition_schema.column_with_name(field).is_some());
+        }
         let file_slices = self
             .table
             .get_file_slices_splits(self.get_input_partitions(), &pushdown_filters.as_strs())
-- 
2.43.0


From 610f4d0f663277cef5c532204e331bbbe1ab15ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:31 +0000
Subject: [PATCH 32/41] fix: swap the operator of comparisons with the literal
 on the left when pushing them down

---
 crates/datafusion/src/util/expr.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index 7eb0eed..2ec9bce 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -49,16 +49,16 @@ pub fn exprs_to_filters(exprs: &[Expr]) -> Vec<(String, String, String)> {
 /// Converts a binary expression [`Expr::BinaryExpr`] into a [`HudiFilter`].
 fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     // extract the column and literal from the binary expression
-    let (column, literal) = match (&*binary_expr.left, &*binary_expr.right) {
-        (Expr::Column(col), Expr::Literal(lit)) => (col, lit),
-        (Expr::Literal(lit), Expr::Column(col)) => (col, lit),
+    let (column, op, literal) = match (&*binary_expr.left, &*binary_expr.right) {
+        (Expr::Column(col), Expr::Literal(lit)) => (col, binary_expr.op, lit),
+        (Expr::Literal(lit), Expr::Column(col)) => (col, binary_expr.op.swap()?, lit),
         _ => return None,
     };
 
     let field = col(column.name());
     let lit_str = literal.to_string();
 
-    let filter = match binary_expr.op {
+    let filter = match op {
         Operator::Eq => field.eq(lit_str),
         Operator::NotEq => field.ne(lit_str),
         Operator::Lt => field.lt(lit_str),
-- 
2.43.0


From 9b635dd7259105c03d61a72d6a3343197889bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 33/41] fix: do not percent-encode file paths twice in the
 DataFusion source

---
 crates/datafusion/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index faf3512..a9e7185 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -27,7 +27,7 @@ use std::sync::Arc;
 use arrow_schema::{Schema, SchemaRef};
 use async_trait::async_trait;
 use datafusion::catalog::{Session, TableProviderFactory};
-use datafusion::datasource::listing::PartitionedFile;
+use datafusion::datasource::listing::{ListingTableUrl, PartitionedFile};
 use datafusion::datasource::object_store::ObjectStoreUrl;
 use datafusion::datasource::physical_plan::parquet::ParquetExecBuilder;
 use datafusion::datasource::physical_plan::FileScanConfig;
@@ -212,7 +212,10 @@ impl TableProvider for HudiDataSource {
                 let url = join_url_segments(&base_url, &[relative_path.as_str()])
                     .map_err(|e| Execution(format!("Failed to join URL segments: {e:?}")))?;
                 let size = f.base_file.file_metadata.as_ref().map_or(0, |m| m.size);
-                let partitioned_file = PartitionedFile::new(url.path(), size as u64);
+                let mut partitioned_file = PartitionedFile::new(String::new(), size as u64);
+                // The path of a URL is percent-encoded already, so it must not be encoded again.
+                partitioned_file.object_meta.location =
+                    ListingTableUrl::parse(url.as_str())?.prefix().clone();
                 parquet_file_group_vec.push(partitioned_file);
             }
             parquet_file_groups.push(parquet_file_group_vec)
-- 
2.43.0


From e5ef24c45d3d69bf53823c7fee7321d023ef2baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:36 +0000
Subject: [PATCH 34/41] fix: plan an empty scan when no file slice is selected
 in the DataFusion source

---
 crates/datafusion/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index a9e7185..221b527 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -34,6 +34,7 @@ use datafusion::datasource::physical_plan::FileScanConfig;
 use datafusion::datasource::TableProvider;
 use datafusion::error::Result;
 use datafusion::logical_expr::Operator;
+use datafusion::physical_plan::empty::EmptyExec;
 use datafusion::physical_plan::ExecutionPlan;
 use datafusion_common::config::TableParquetOptions;
 use datafusion_common::DFSchema;
@@ -199,6 +200,15 @@ impl TableProvider for HudiDataSource {
             .get_file_slices_splits(self.get_input_partitions(), &pushdown_filters.as_strs())
             .await
             .map_err(|e| Execution(format!("Failed to get file slices from Hudi table: {}", e)))?;
+        if file_slices.is_empty() {
+            // A scan without any file group has no partition, which plans do not allow for.
+            let schema = match projection {
+                Some(projection) => SchemaRef::from(self.schema.project(projection)?),
+                None => self.schema(),
+            };
+            return Ok(Arc::new(EmptyExec::new(schema)));
+        }
+
         let base_url = self.table.base_url();
         let mut parquet_file_groups: Vec<Vec<PartitionedFile>> = Vec::new();
         for file_slice_vec in file_slices {
-- 
2.43.0


From 280cdc7bc6cf4d4d538a5076940ae20fdf0a6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:29 +0000
Subject: [PATCH 35/41] fix: release the GIL in every Python call that waits
 for storage

---
 python/src/internal.rs | 70 +++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/python/src/internal.rs b/python/src/internal.rs
index 86c50e0..f2e170b 100644
--- a/python/src/internal.rs
+++ b/python/src/internal.rs
@@ -81,9 +81,11 @@ impl HudiFileGroupReader {
         relative_path: &str,
         py: Python,
     ) -> PyResult<PyObject> {
-        rt().block_on(self.inner.read_file_slice_by_base_file_path(relative_path))
-            .map_err(PythonError::from)?
-            .to_pyarrow(py)
+        py.allow_threads(|| {
+            rt().block_on(self.inner.read_file_slice_by_base_file_path(relative_path))
+        })
+        .map_err(PythonError::from)?
+        .to_pyarrow(py)
     }
     fn read_file_slice(&self, file_slice: &HudiFileSlice, py: Python) -> PyResult<PyObject> {
         let mut file_group = FileGroup::new(
@@ -109,7 +111,7 @@ impl HudiFileGroupReader {
                 ))
             })
             .map_err(PythonError::from)?;
-        rt().block_on(self.inner.read_file_slice(inner_file_slice))
+        py.allow_threads(|| rt().block_on(self.inner.read_file_slice(inner_file_slice)))
             .map_err(PythonError::from)?
             .to_pyarrow(py)
     }
@@ -254,12 +256,15 @@ impl HudiTable {
     fn new_with_options(
         base_uri: &str,
         options: Option<HashMap<String, String>>,
+        py: Python,
     ) -> PyResult<Self> {
-        let inner: Table = rt()
-            .block_on(Table::new_with_options(
-                base_uri,
-                options.unwrap_or_default(),
-            ))
+        let inner: Table = py
+            .allow_threads(|| {
+                rt().block_on(Table::new_with_options(
+                    base_uri,
+                    options.unwrap_or_default(),
+                ))
+            })
             .map_err(PythonError::from)?;
         Ok(HudiTable { inner })
     }
@@ -302,13 +307,13 @@ impl HudiTable {
     }
 
     fn get_schema(&self, py: Python) -> PyResult<PyObject> {
-        rt().block_on(self.inner.get_schema())
+        py.allow_threads(|| rt().block_on(self.inner.get_schema()))
             .map_err(PythonError::from)?
             .to_pyarrow(py)
     }
 
     fn get_partition_schema(&self, py: Python) -> PyResult<PyObject> {
-        rt().block_on(self.inner.get_partition_schema())
+        py.allow_threads(|| rt().block_on(self.inner.get_partition_schema()))
             .map_err(PythonError::from)?
             .to_pyarrow(py)
     }
@@ -438,7 +443,7 @@ impl HudiTable {
     ) -> PyResult<PyObject> {
         let filters = filters.unwrap_or_default();
 
-        rt().block_on(self.inner.read_snapshot(&filters.as_strs()))
+        py.allow_threads(|| rt().block_on(self.inner.read_snapshot(&filters.as_strs())))
             .map_err(PythonError::from)?
             .to_pyarrow(py)
     }
@@ -452,10 +457,12 @@ impl HudiTable {
     ) -> PyResult<PyObject> {
         let filters = filters.unwrap_or_default();
 
-        rt().block_on(
-            self.inner
-                .read_snapshot_as_of(timestamp, &filters.as_strs()),
-        )
+        py.allow_threads(|| {
+            rt().block_on(
+                self.inner
+                    .read_snapshot_as_of(timestamp, &filters.as_strs()),
+            )
+        })
         .map_err(PythonError::from)?
         .to_pyarrow(py)
     }
@@ -467,10 +474,12 @@ impl HudiTable {
         end_timestamp: Option<&str>,
         py: Python,
     ) -> PyResult<PyObject> {
-        rt().block_on(
-            self.inner
-                .read_incremental_records(start_timestamp, end_timestamp),
-        )
+        py.allow_threads(|| {
+            rt().block_on(
+                self.inner
+                    .read_incremental_records(start_timestamp, end_timestamp),
+            )
+        })
         .map_err(PythonError::from)?
         .to_pyarrow(py)
     }
@@ -566,7 +575,7 @@ impl HudiTimeline {
     }
 
     pub fn get_latest_schema(&self, py: Python) -> PyResult<PyObject> {
-        rt().block_on(self.inner.get_latest_schema())
+        py.allow_threads(|| rt().block_on(self.inner.get_latest_schema()))
             .map_err(PythonError::from)?
             .to_pyarrow(py)
     }
@@ -588,15 +597,18 @@ pub fn build_hudi_table(
     hudi_options: Option<HashMap<String, String>>,
     storage_options: Option<HashMap<String, String>>,
     options: Option<HashMap<String, String>>,
+    py: Python,
 ) -> PyResult<HudiTable> {
-    let inner = rt()
-        .block_on(
-            TableBuilder::from_base_uri(&base_uri)
-                .with_hudi_options(hudi_options.unwrap_or_default())
-                .with_storage_options(storage_options.unwrap_or_default())
-                .with_options(options.unwrap_or_default())
-                .build(),
-        )
+    let inner = py
+        .allow_threads(|| {
+            rt().block_on(
+                TableBuilder::from_base_uri(&base_uri)
+                    .with_hudi_options(hudi_options.unwrap_or_default())
+                    .with_storage_options(storage_options.unwrap_or_default())
+                    .with_options(options.unwrap_or_default())
+                    .build(),
+            )
+        })
         .map_err(PythonError::from)?;
     Ok(HudiTable { inner })
 }
-- 
2.43.0


From d44bd5be1a4d89a4664e8c8d2c71494afee930bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:08 +0000
Subject: [PATCH 36/41] fix: storage options given in upper or mixed case were
 ignored by the object store

---
 crates/core/src/storage/mod.rs   | 4 +++-
 crates/core/src/table/builder.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/storage/mod.rs b/crates/core/src/storage/mod.rs
index ba38244..3d882df 100644
--- a/crates/core/src/storage/mod.rs
+++ b/crates/core/src/storage/mod.rs
@@ -77,7 +77,9 @@ impl Storage {
             }
         };
 
-        match parse_url_opts(&base_url, options.as_ref()) {
+        // `object_store` only recognizes option keys in lower case.
+        let store_options = options.iter().map(|(k, v)| (k.to_ascii_lowercase(), v));
+        match parse_url_opts(&base_url, store_options) {
             Ok((object_store, _)) => {
                 let object_store: Arc<dyn ObjectStore> = Arc::new(object_store);
                 #[cfg(hudi_verif)]
diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 56a69e5..b525ff0 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -165,7 +165,7 @@ impl TableBuilder {
         // Combine generic options (lower precedence) with explicit options.
         // Note that we treat all non-Hudi options as storage options
         Self::extend_if_absent(&mut self.hudi_options, &generic_hudi_opts);
-        // `object_store` ignores the case of storage option keys.
+        // The case of storage option keys is ignored when the storage is created.
         for (key, value) in generic_other_opts {
             if !Self::contains_key_ignore_case(&self.storage_options, &key) {
                 self.storage_options.insert(key, value);
-- 
2.43.0


From b98ee77d40e2340fe33350469caa4dc6adaa83ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 37/41] fix: skip the directory marker object of a listed
 directory

---
 crates/core/src/storage/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/src/storage/mod.rs b/crates/core/src/storage/mod.rs
index 3d882df..a846f52 100644
--- a/crates/core/src/storage/mod.rs
+++ b/crates/core/src/storage/mod.rs
@@ -258,6 +258,10 @@ impl Storage {
         let mut file_metadata = Vec::new();
         for obj_meta in list_res.objects {
             let location = obj_meta.location;
+            if location == prefix_path {
+                // a directory marker object of the listed directory itself
+                continue;
+            }
             let name = location
                 .filename()
                 .ok_or_else(|| InvalidPath(format!("Failed to get file name from {location:?}")))?;
-- 
2.43.0


From 1200e8ec80496ebe5a88ce43f3b7f9ca37cda09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:37 +0000
Subject: [PATCH 38/41] fix: an Avro record that ends before its length or uses
 other than its length was read with nulls

---
 crates/core/src/file_group/log_file/avro.rs | 41 ++++++++++++++++++++-
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/file_group/log_file/avro.rs b/crates/core/src/file_group/log_file/avro.rs
index 8c1d6f1..5dae7ed 100644
--- a/crates/core/src/file_group/log_file/avro.rs
+++ b/crates/core/src/file_group/log_file/avro.rs
@@ -19,7 +19,7 @@
 use apache_avro::types::Value as AvroValue;
 use apache_avro::AvroResult;
 use apache_avro::{from_avro_datum, Schema as AvroSchema};
-use std::io::Read;
+use std::io::{ErrorKind, Read};
 
 pub struct AvroDataBlockContentReader<R: Read> {
     reader: R,
@@ -55,10 +55,47 @@ impl<R: Read> Iterator for AvroDataBlockContentReader<R> {
 
         let record_content_length = u32::from_be_bytes(record_content_length);
 
-        let mut record_reader = (&mut self.reader).take(record_content_length as u64);
+        let mut content = Vec::new();
+        match (&mut self.reader)
+            .take(record_content_length as u64)
+            .read_to_end(&mut content)
+        {
+            Ok(n) if n == record_content_length as usize => {}
+            Ok(_) => {
+                return Some(Err(apache_avro::Error::ReadBytes(
+                    ErrorKind::UnexpectedEof.into(),
+                )))
+            }
+            Err(e) => return Some(Err(apache_avro::Error::ReadBytes(e))),
+        }
 
+        let mut record_reader = RecordContentReader {
+            content: &content,
+            overrun: false,
+        };
         let result = from_avro_datum(&self.writer_schema, &mut record_reader, None);
+        if result.is_ok() && (record_reader.overrun || !record_reader.content.is_empty()) {
+            return Some(Err(apache_avro::Error::ReadBytes(std::io::Error::new(
+                ErrorKind::InvalidData,
+                "Record content does not match its length",
+            ))));
+        }
 
         Some(result)
     }
 }
+
+/// Reads one record's content. Avro decoding takes some values that end early for nulls,
+/// so attempts to read past the end are recorded.
+struct RecordContentReader<'a> {
+    content: &'a [u8],
+    overrun: bool,
+}
+
+impl Read for RecordContentReader<'_> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        let n = self.content.read(buf)?;
+        self.overrun |= n == 0 && !buf.is_empty();
+        Ok(n)
+    }
+}
-- 
2.43.0


From 89c13c41225b90ac0314f074951e7cbc037fb40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 39/41] fix: a documented field nested in an Avro record kept
 its doc in the type and could not be read with its base file

---
 crates/core/src/avro_to_arrow/schema.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index d76d659..cd2204c 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -119,14 +119,9 @@ fn schema_to_field_with_props(
             let fields: Result<_> = fields
                 .iter()
                 .map(|field| {
-                    let mut props = HashMap::new();
-                    if let Some(doc) = &field.doc {
-                        props.insert("avro::doc".to_string(), doc.clone());
-                    }
-                    /*if let Some(aliases) = fields.aliases {
-                        props.insert("aliases", aliases);
-                    }*/
-                    schema_to_field_with_props(&field.schema, Some(&field.name), false, Some(props))
+                    // No metadata here: it would be part of the struct's data type, which then
+                    // differs from the data type that base files have for the same struct.
+                    schema_to_field_with_props(&field.schema, Some(&field.name), false, None)
                 })
                 .collect();
             DataType::Struct(fields?)
-- 
2.43.0


From 803329aaa901e63c6172cf01a65a739906896e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 40/41] fix: a separator escaped in the key of a properties
 line split the key

---
 crates/core/src/config/util.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/config/util.rs b/crates/core/src/config/util.rs
index dd33302..186562b 100644
--- a/crates/core/src/config/util.rs
+++ b/crates/core/src/config/util.rs
@@ -63,14 +63,20 @@ pub fn parse_data_for_options(data: &Bytes, split_chars: &str) -> Result<HashMap
         if trimmed_line.is_empty() || trimmed_line.starts_with('#') {
             continue;
         }
-        let mut parts = trimmed_line.splitn(2, |c| split_chars.contains(c));
-        let key = parts.next().ok_or(ParseLine(format!(
-            "Missing key in config line: {}",
-            trimmed_line
-        )))?;
-        let mut value = parts.next().unwrap_or("").trim();
+        // A separator escaped with a backslash is part of the key.
+        let mut escaped = false;
+        let key_len = trimmed_line
+            .find(|c| {
+                let is_split_char = !escaped && split_chars.contains(c);
+                escaped = c == '\\' && !escaped;
+                is_split_char
+            })
+            .unwrap_or(trimmed_line.len());
+        let (key, rest) = trimmed_line.split_at(key_len);
+        let mut rest = rest.chars();
         // Whitespace that split off the key may be followed by the actual separator.
-        let split_char = trimmed_line[key.len()..].chars().next();
+        let split_char = rest.next();
+        let mut value = rest.as_str().trim();
         if split_char.is_some_and(char::is_whitespace) {
             let is_separator = |c: char| !c.is_whitespace() && split_chars.contains(c);
             value = value.strip_prefix(is_separator).unwrap_or(value).trim();
-- 
2.43.0


From cb9a1853c03f9109d737ed8452150cdf3e04a0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 41/41] fix: commit metadata with unusable write statistics was
 skipped when resolving the schema

---
 crates/core/src/timeline/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index 299580e..6a679e3 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -226,12 +226,14 @@ impl Timeline {
         let mut latest = None;
         for instant in self.completed_commits.iter().rev() {
             let metadata = self.get_instant_metadata(instant).await?;
-            let has_write_stats = metadata
-                .get("partitionToWriteStats")
-                .and_then(|v| v.as_object())
-                .is_some_and(|obj| !obj.is_empty());
-            if has_write_stats {
-                return Ok(metadata);
+            match metadata.get("partitionToWriteStats") {
+                Some(Value::Object(obj)) if !obj.is_empty() => return Ok(metadata),
+                Some(Value::Object(_)) | Some(Value::Null) | None => {}
+                Some(_) => {
+                    return Err(CoreError::CommitMetadata(
+                        "Invalid partitionToWriteStats object".to_string(),
+                    ))
+                }
             }
             latest.get_or_insert(metadata);
         }
-- 
2.43.0

