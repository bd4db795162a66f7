From eede79b8ad736929c8b3a39955763310c552276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 01/27] fix: reload storage metadata before adding or removing
 a reference

---
 python/src/space/core/storage.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 7eb32fa..9cad014 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -257,6 +257,10 @@ class Storage(paths.StoragePathsMixin):
                      ref_type: meta.SnapshotReference.ReferenceType.ValueType,
                      snapshot_id: Optional[int] = None) -> None:
     """Add reference to a snapshot"""
+    # Start from the latest metadata, otherwise commits made by other writers
+    # are overwritten.
+    self.reload()
+
     if snapshot_id is None:
       snapshot_id = self._metadata.current_snapshot_id
 
@@ -298,6 +302,10 @@ class Storage(paths.StoragePathsMixin):
   def _remove_reference(
       self, ref_name: str,
       ref_type: meta.SnapshotReference.ReferenceType.ValueType) -> None:
+    # Start from the latest metadata, otherwise commits made by other writers
+    # are overwritten.
+    self.reload()
+
     if (ref_name not in self._metadata.refs or
         self._metadata.refs[ref_name].type != ref_type):
       raise errors.VersionNotFoundError(
-- 
2.43.0


From a83acb5b4e0bd437eb51175e423d0269cb2380e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 02/27] fix: never reuse the snapshot IDs of a removed branch

---
 python/src/space/core/storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 9cad014..8a11649 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -85,9 +85,9 @@ class Storage(paths.StoragePathsMixin):
 
     self._primary_keys = set(self._metadata.schema.primary_keys)
     self._current_branch = current_branch or _MAIN_BRANCH
+    # Snapshots of removed branches are kept, their IDs must not be reused.
     self._max_snapshot_id = max(
-        [ref.snapshot_id for ref in self._metadata.refs.values()] +
-        [self._metadata.current_snapshot_id])
+        list(self._metadata.snapshots) + [self._metadata.current_snapshot_id])
 
   @property
   def metadata(self) -> meta.StorageMetadata:
-- 
2.43.0


From 3bb44d65d8b9543a52a025d90b030079b10303c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 03/27] fix: keep unmodified files when a delete removes whole
 files of a manifest

---
 python/src/space/core/ops/append.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index 6672323..e49c1c3 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -152,7 +152,9 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
       self._patch.addition.record_manifest_files.append(
           self.short_path(record_manifest_path))
 
-    if self._patch.storage_statistics_update.num_rows == 0:
+    # External index manifest data may be carried over without adding any row.
+    if (self._patch.storage_statistics_update.num_rows == 0 and
+        not self._patch.addition.index_manifest_files):
       return None
 
     return self._patch
-- 
2.43.0


From 12a5679022f7bee337d142a3c1aa669a202942d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 04/27] fix: do not delete rows that the filter evaluates to
 null

---
 python/src/space/core/ops/delete.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 18a2be1..eda79c2 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -73,8 +73,9 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
           f"Invalid input file set for delete op:\n{file_set}")
 
     self._file_set = file_set
-    # Rows not matching not filter will be reinserted.
-    self._reinsert_filter = ~filter_
+    # Rows not matching filter will be reinserted, including the rows that the
+    # filter evaluates to null.
+    self._reinsert_filter = ~filter_ | filter_.is_null()
 
     self._append_op = LocalAppendOp(location,
                                     metadata,
-- 
2.43.0


From 1925b7ebaef1fd34169dce0faa51f2fec6d518dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 05/27] fix: deleting from an empty file set is a no-op

---
 python/src/space/core/ops/delete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index eda79c2..ea08e44 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -68,7 +68,7 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
                file_options: FileOptions):
     StoragePathsMixin.__init__(self, location)
 
-    if not _validate_files(file_set):
+    if file_set.index_files and not _validate_files(file_set):
       raise errors.SpaceRuntimeError(
           f"Invalid input file set for delete op:\n{file_set}")
 
-- 
2.43.0


From 5c5c1fffc3156ef77c63f82cff8bdd33a388e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 06/27] fix: count only modified files in the statistics update
 of a delete

---
 python/src/space/core/ops/delete.py | 32 +++++++----------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index ea08e44..c50f255 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -92,9 +92,6 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
     deleted_rows = 0
     stats_before_delete = meta.StorageStatistics()
     for file in self._file_set.index_files:
-      utils.update_index_storage_stats(stats_before_delete,
-                                       file.storage_statistics)
-
       # TODO: this can be down at row group level.
       index_data = pq.read_table(self.full_path(file.path))
       index_data = index_data.append_column(
@@ -107,7 +104,9 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
       if index_data.num_rows == file.storage_statistics.num_rows:
         continue
 
-      # Collect statistics.
+      # Collect statistics, of modified files only.
+      utils.update_index_storage_stats(stats_before_delete,
+                                       file.storage_statistics)
       deleted_rows += (file.storage_statistics.num_rows - index_data.num_rows)
       all_deleted = index_data.num_rows == 0
 
@@ -161,17 +160,13 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
       patch.deletion.index_manifest_files.append(f)
 
     # Compute storage statistics update.
-    survivor_stats = _read_index_statistics(survivor_index_manifests)
     reinsert_stats = (reinsert_patch.storage_statistics_update if reinsert_patch
                       is not None else meta.StorageStatistics())
 
-    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes +
-                                survivor_stats.index_compressed_bytes
-                               ) - stats_before_delete.index_compressed_bytes
-    deleted_uncompressed_bytes = (
-        reinsert_stats.index_uncompressed_bytes +
-        survivor_stats.index_uncompressed_bytes
-    ) - stats_before_delete.index_uncompressed_bytes
+    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes -
+                                stats_before_delete.index_compressed_bytes)
+    deleted_uncompressed_bytes = (reinsert_stats.index_uncompressed_bytes -
+                                  stats_before_delete.index_uncompressed_bytes)
 
     patch.storage_statistics_update.CopyFrom(
         meta.StorageStatistics(
@@ -188,19 +183,6 @@ def _build_file_path_filter(field_name: str, file_paths: List[str]):
   return filter_
 
 
-def _read_index_statistics(manifest_data: pa.Table) -> meta.StorageStatistics:
-  """Read storage statistics of unmodified index files from manifests."""
-
-  def sum_bytes(field_name: str) -> int:
-    return sum(manifest_data.column(
-        field_name).combine_chunks().to_pylist())  # type: ignore[arg-type]
-
-  return meta.StorageStatistics(index_compressed_bytes=sum_bytes(
-      constants.INDEX_COMPRESSED_BYTES_FIELD),
-                                index_uncompressed_bytes=sum_bytes(
-                                    constants.INDEX_UNCOMPRESSED_BYTES_FIELD))
-
-
 def _validate_files(file_set: rt.FileSet) -> bool:
   """Return false if the file set does not contain sufficient information for
   deletion.
-- 
2.43.0


From c3616be3d04b39b78d47e1f4e711db77f85ecf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 07/27] fix: locate primary key columns by name when collecting
 and using column stats

---
 .../space/core/manifests/falsifiable_filters.py    |  5 +++++
 python/src/space/core/manifests/index.py           | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index ffb8e14..1bc10b3 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -87,6 +87,11 @@ def _substrait_expr(schema: pa.Schema,
 
   expr = ExtendedExpression()
   expr.ParseFromString(buf.to_pybytes())
+
+  # Field references are positions in top level fields, but Substrait names
+  # also contain the nested fields.
+  del expr.base_schema.names[:]
+  expr.base_schema.names.extend(schema.names)
   return expr
 
 
diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 12fdb98..d673178 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -129,9 +129,13 @@ class IndexManifestWriter:
     # Key is column ID.
     self._field_stats_dict: Dict[int, _FieldStats] = {}
 
+    # Key is column ID.
+    self._stats_column_names: Dict[int, str] = {}
+
     column_id_dict = field_id_to_column_id_dict(schema)
     for field_id_, type_ in self._stats_fields:
       column_id = column_id_dict[field_id_]
+      self._stats_column_names[column_id] = schema.names[column_id]
       self._stats_column_ids.append(column_id)
       self._field_stats_dict[column_id] = _FieldStats(type_)
 
@@ -159,10 +163,18 @@ class IndexManifestWriter:
     index_compressed_bytes = 0
     index_uncompressed_bytes = 0
 
+    # Parquet columns are the leaves of (nested) fields, and the field order of
+    # an external file may be different.
+    parquet_column_ids = {
+        parquet_metadata.schema.column(i).path: i
+        for i in range(parquet_metadata.num_columns)
+    }
+
     for rg in range(parquet_metadata.num_row_groups):
       rg_metadata = parquet_metadata.row_group(rg)
       for column_id, field_stats in self._field_stats_dict.items():
-        column_stats = rg_metadata.column(column_id)
+        column_stats = rg_metadata.column(
+            parquet_column_ids[self._stats_column_names[column_id]])
         field_stats.merge(column_stats.statistics)
         index_compressed_bytes += column_stats.total_compressed_size
         index_uncompressed_bytes += column_stats.total_uncompressed_size
-- 
2.43.0


From 14e6474dba07ffcc8c7e0d8606c2b1ef03dc5072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 08/27] fix: handle index files without column stats of primary
 keys

---
 python/src/space/core/manifests/index.py | 27 ++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index d673178..789f7f3 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -69,18 +69,29 @@ class _FieldStats:
   """A local cache for merging stats from row groups."""
 
   def __init__(self, type_: pa.DataType):
+    self._type = type_
     self._fields = _stats_subfields(type_)
 
     self._min: Any = None
     self._max: Any = None
+    # True if any row group of the current file has values but no stats.
+    self._unknown = False
 
     # _min and _max cache the stats of one file; after finalizing they are
     # moved to _min_list and _max_list that cache stats of all files.
     self._min_list: List[Any] = []
     self._max_list: List[Any] = []
 
-  def merge(self, stats: pq.Statistics) -> None:
+  def merge(self, stats: Optional[pq.Statistics]) -> None:
     """Merge the cached stats with a new stats."""
+    if stats is None or not stats.has_min_max:
+      # Min and max are absent when all values are null; or they are not
+      # collected, e.g., the values are too large.
+      if stats is None or stats.num_values > 0:
+        self._unknown = True
+
+      return
+
     if self._min is None or stats.min < self._min:
       self._min = stats.min
 
@@ -89,16 +100,20 @@ class _FieldStats:
 
   def finish(self) -> None:
     """Finialize the stats for the current file."""
-    self._min_list.append(self._min)
-    self._max_list.append(self._max)
+    self._min_list.append(None if self._unknown else self._min)
+    self._max_list.append(None if self._unknown else self._max)
 
     self._min = None
     self._max = None
+    self._unknown = False
 
   def to_arrow(self) -> pa.Array:
     """Return the Arrow format of the stats."""
     return pa.StructArray.from_arrays(
-        [self._min_list, self._max_list],  # type: ignore[arg-type]
+        [
+            pa.array(self._min_list, self._type),
+            pa.array(self._max_list, self._type)
+        ],
         fields=self._fields)
 
 
@@ -245,6 +260,10 @@ def read_index_manifests(manifest_path: str,
   Returns:
     A file set of data files in the manifest file.
   """
+  if filter_ is not None:
+    # Files without column stats can't be pruned.
+    filter_ = filter_ | filter_.is_null()
+
   table = pq.read_table(manifest_path,
                         filters=filter_)  # type: ignore[arg-type]
 
-- 
2.43.0


From 44ccb6808fa8a17fcb37a3af255b3ca34c9c1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 09/27] fix: keep schema field order when record fields are not
 the last fields

---
 python/src/space/core/ops/append.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index e49c1c3..fbf5aaa 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -181,7 +181,6 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
 
     # Write record fields into files.
     # TODO: to parallelize it.
-    # TODO: to preserve the field order in schema.
     if self._record_address_input:
       for f in self._record_fields:
         index_data = index_data.append_column(f.name, data.column(
@@ -196,6 +195,9 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
         # TODO: the field/column added must have field ID.
         index_data = index_data.append_column(field_name, address_column)
 
+    # Record fields are appended above, restore the field order in schema.
+    index_data = index_data.select(self._physical_schema.names)
+
     # Write index fields into files.
     self._cached_index_file_bytes += index_data.nbytes
 
-- 
2.43.0


From d7d7d838381eb98aac6565135fccf5fee000540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 10/27] fix: do not prune matching files for a not equal filter
 on two fields

---
 python/src/space/core/manifests/falsifiable_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 1bc10b3..7d2e50a 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -234,7 +234,7 @@ def _falsifiable_condition_fields(
   elif fn == "equal":
     return (l_max < r_min) | (r_max < l_min)
   elif fn == "not_equal":
-    return (l_max >= r_min) & (r_max >= l_min)
+    return (l_min == l_max) & (r_min == r_max) & (l_min == r_min)
 
   raise _ExpressionException(f"Unsupported fn: {fn}")
 
-- 
2.43.0


From 7a9ea2c26e9532aa727b134fc5e5b5b6910b470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 11/27] fix: skip manifest pruning for filters that can't be
 converted

---
 .../src/space/core/manifests/falsifiable_filters.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 7d2e50a..bb74788 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -59,9 +59,8 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   Returns:
     Falsifiable filter, or None if not supported.
   """
-  expr = _substrait_expr(schema, filter_)
-
   try:
+    expr = _substrait_expr(schema, filter_)
     ff = _falsifiable_filter(expr, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
@@ -82,8 +81,12 @@ def _substrait_expr(schema: pa.Schema,
   PyArrow does not expose enough methods for processing expressions, thus we
   convert it to Substrait format for processing.
   """
-  buf = ps.serialize_expressions(  # type: ignore[attr-defined]
-      [arrow_expr], ["expr"], schema)
+  try:
+    buf = ps.serialize_expressions(  # type: ignore[attr-defined]
+        [arrow_expr], ["expr"], schema)
+  except (pa.ArrowNotImplementedError, pa.ArrowInvalid) as e:
+    raise _ExpressionException(
+        f"Expression can't be converted to Substrait: {e}") from None
 
   expr = ExtendedExpression()
   expr.ParseFromString(buf.to_pybytes())
@@ -128,6 +131,8 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
       raise _ExpressionException(
           f"Single arg expression is not supported: {expr}")
 
+    raise _ExpressionException(f"Unsupported expression: {expr}")
+
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
                                   base_schema, primary_keys, field_name_ids)
   min_max_fn = partial(_min_max, base_schema, primary_keys, field_name_ids)
-- 
2.43.0


From 049151b751707c863ef208e702395890cc116f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 12/27] fix: record the rows added by append_parquet in change
 log

---
 python/src/space/core/loaders/parquet.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 71e5101..347018f 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -55,20 +55,21 @@ class LocalParquetLoadOp(StoragePathsMixin):
     patch = rt.Patch()
 
     for f in self._input_files:
-      stats = _write_index_manifest(index_manifest_writer, f)
+      metadata = pq.read_metadata(f)
+      if metadata.num_rows == 0:
+        continue
+
+      # TODO: to verify that file schemas are compatible with dataset.
+      stats = index_manifest_writer.write(f, metadata)
       utils.update_index_storage_stats(base=patch.storage_statistics_update,
                                        update=stats)
+      patch.change_log.added_rows.append(
+          meta.RowBitmap(file=f, all_rows=True, num_rows=stats.num_rows))
 
     index_manifest_full_path = index_manifest_writer.finish()
-    if index_manifest_full_path is not None:
-      patch.addition.index_manifest_files.append(
-          self.short_path(index_manifest_full_path))
+    if index_manifest_full_path is None:
+      return None
 
+    patch.addition.index_manifest_files.append(
+        self.short_path(index_manifest_full_path))
     return patch
-
-
-def _write_index_manifest(manifest_writer: IndexManifestWriter,
-                          file_path: str) -> meta.StorageStatistics:
-  # TODO: to verify that file schemas are compatible with dataset.
-  metadata = pq.read_metadata(file_path)
-  return manifest_writer.write(file_path, metadata)
-- 
2.43.0


From 6a35d9151798425c2cf65b19d3b06c5b8902838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 13/27] fix: delete all files of a manifest in the same Ray
 task

---
 python/src/space/ray/ops/delete.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/src/space/ray/ops/delete.py b/python/src/space/ray/ops/delete.py
index ee85a33..cad9921 100644
--- a/python/src/space/ray/ops/delete.py
+++ b/python/src/space/ray/ops/delete.py
@@ -15,7 +15,7 @@
 """Distributed delete operation using Ray."""
 
 from __future__ import annotations
-from typing import Optional
+from typing import Dict, List, Optional
 
 import pyarrow.compute as pc
 import ray
@@ -45,11 +45,18 @@ class RayDeleteOp(BaseDeleteOp, StoragePathsMixin):
     metadata = self._storage.metadata
     matched_file_set = self._storage.data_files(self._filter)
 
-    remote_delete_patches = []
+    # Files of the same manifest must be processed together, because modifying
+    # any of them replaces the manifest.
+    manifest_index_files: Dict[int, List[rt.DataFile]] = {}
     for index_file in matched_file_set.index_files:
+      manifest_index_files.setdefault(index_file.manifest_file_id,
+                                      []).append(index_file)
+
+    remote_delete_patches = []
+    for index_files in manifest_index_files.values():
       # Deletion only needs index file information (no record file information).
       file_set = rt.FileSet(
-          index_files=[index_file],
+          index_files=index_files,
           # TODO: attach all manifest files here, to select related manifests.
           index_manifest_files=matched_file_set.index_manifest_files)
 
-- 
2.43.0


From e2270d69bb890f38d7ff2b003a42c1bcc7eaec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 14/27] fix: keep materialized views aligned with source
 snapshots when refreshing

A refresh started from a stale handle, or after a source snapshot that does
not change the view or was committed to a branch, re-applied or skipped source
changes.
---
 python/src/space/core/storage.py | 37 +++++++++++++++++++++++++++-----
 python/src/space/ray/runners.py  | 36 +++++++++++++++++++++++++------
 2 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 8a11649..d2fabdd 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -320,7 +320,10 @@ class Storage(paths.StoragePathsMixin):
     self._metadata = new_metadata
     self._metadata_file = new_metadata_path
 
-  def commit(self, patch: rt.Patch, branch: str) -> None:
+  def commit(self,
+             patch: rt.Patch,
+             branch: str,
+             snapshot_id: Optional[int] = None) -> None:
     """Commit changes to the storage.
 
     TODO: only support a single writer; to ensure atomicity in commit by
@@ -329,10 +332,11 @@ class Storage(paths.StoragePathsMixin):
     Args:
       patch: a patch describing changes made to the storage.
       branch: the branch this commit is writing to.
+      snapshot_id: the ID of the new snapshot, use the next ID if not specified.
     """
     new_metadata = meta.StorageMetadata()
     new_metadata.CopyFrom(self._metadata)
-    new_snapshot_id = self._next_snapshot_id()
+    new_snapshot_id = self._new_snapshot_id(snapshot_id)
     if branch != _MAIN_BRANCH:
       branch_snapshot = self.lookup_reference(branch)
       # To block the case delete branch and add a tag during commit
@@ -504,6 +508,17 @@ class Storage(paths.StoragePathsMixin):
     self._max_snapshot_id = self._max_snapshot_id + 1
     return self._max_snapshot_id
 
+  def _new_snapshot_id(self, snapshot_id: Optional[int]) -> int:
+    if snapshot_id is None:
+      return self._next_snapshot_id()
+
+    if snapshot_id <= self._max_snapshot_id:
+      raise errors.SpaceRuntimeError(
+          f"Snapshot ID {snapshot_id} must be higher than existing IDs")
+
+    self._max_snapshot_id = snapshot_id
+    return snapshot_id
+
   def _write_metadata(
       self,
       metadata_path: str,
@@ -561,8 +576,20 @@ class Transaction:
     self._branch = storage.current_branch
     self._result: Optional[JobResult] = None
 
-  def commit(self, patch: Optional[rt.Patch]) -> None:
-    """Commit the transaction."""
+  @property
+  def snapshot_id(self) -> Optional[int]:
+    """Return the storage snapshot ID when the transaction starts."""
+    return self._snapshot_id
+
+  def commit(self,
+             patch: Optional[rt.Patch],
+             snapshot_id: Optional[int] = None) -> None:
+    """Commit the transaction.
+
+    Args:
+      patch: the changes to commit, nothing is committed if None.
+      snapshot_id: the ID of the new snapshot, use the next ID if not specified.
+    """
     assert self._result is None
 
     # Check that no other commit has taken place.
@@ -580,7 +607,7 @@ class Transaction:
       self._result = JobResult(JobResult.State.SKIPPED)
       return
 
-    self._storage.commit(patch, self._branch)
+    self._storage.commit(patch, self._branch, snapshot_id)
     self._result = JobResult(JobResult.State.SUCCEEDED,
                              patch.storage_statistics_update)
 
diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index 0cfa206..815d4b8 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -34,6 +34,7 @@ from space.core.ops.change_data import ChangeData, ChangeType
 from space.core.ops.delete import FileSetDeleteOp
 from space.core.ops.insert import InsertOptions
 from space.core.options import FileOptions, JoinOptions, ReadOptions
+import space.core.proto.metadata_pb2 as meta
 import space.core.proto.runtime_pb2 as rt
 from space.core.utils import errors
 from space.ray.ops.append import RayAppendOp
@@ -179,6 +180,7 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     TODO: refreshing from a large source is slow, to save refresh state and
     resume from saved state, if any failure happens.
     """
+    self._source_storage.reload()
     source_snapshot_id = self._source_storage.metadata.current_snapshot_id
     if target_version is None:
       end_snapshot_id = source_snapshot_id
@@ -190,29 +192,36 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
             f"Target snapshot ID {end_snapshot_id} higher than source dataset "
             f"version {source_snapshot_id}")
 
-    start_snapshot_id = self._storage.metadata.current_snapshot_id
-
     job_results: List[JobResult] = []
     patches: List[Optional[rt.Patch]] = []
     previous_snapshot_id: Optional[int] = None
 
+    # The storage is reloaded when a transaction starts. A snapshot of the
+    # materialized view has the same ID as the source snapshot it is at.
     txn = self._start_txn()
+    start_snapshot_id = txn.snapshot_id
+    assert start_snapshot_id is not None
+
     for change in self.diff_ray(start_snapshot_id, end_snapshot_id, batch_size):
       assert isinstance(change.data, list)
 
       # Commit when changes from the same snapshot end.
       if (previous_snapshot_id is not None and
           change.snapshot_id != previous_snapshot_id):
-        txn.commit(utils.merge_patches(patches))
+        r = self._commit(txn, patches, previous_snapshot_id)
         patches.clear()
 
         # Stop early when something is wrong.
-        r = txn.result()
         if r.state == JobResult.State.FAILED:
           return job_results + [r]
 
         job_results.append(r)
         txn = self._start_txn()
+        if txn.snapshot_id != previous_snapshot_id:
+          r = JobResult(
+              JobResult.State.FAILED, None,
+              "Abort refresh because the materialized view has been modified.")
+          return job_results + [r]
 
       try:
         # TODO: to avoid creating a new delete/append op for each batch. The
@@ -229,12 +238,25 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
 
       previous_snapshot_id = change.snapshot_id
 
-    if patches:
-      txn.commit(utils.merge_patches(patches))
-      job_results.append(txn.result())
+    if previous_snapshot_id is not None:
+      job_results.append(self._commit(txn, patches, previous_snapshot_id))
 
     return job_results
 
+  def _commit(self, txn: Transaction, patches: List[Optional[rt.Patch]],
+              snapshot_id: int) -> JobResult:
+    """Commit the changes of a source snapshot.
+
+    A snapshot is added even when the view does not change, so the next refresh
+    starts from the next source snapshot.
+    """
+    patch = utils.merge_patches(patches)
+    if patch is None:
+      patch = rt.Patch(change_log=meta.ChangeLog())
+
+    txn.commit(patch, snapshot_id)
+    return txn.result()
+
   def _process_delete(self, data: List[ray.data.Dataset]) -> Optional[rt.Patch]:
     # Deletion does not use parallel read streams.
     assert len(data) == 1
-- 
2.43.0


From 557713653e06d2915cf447b6ac2ea841aa4db9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 15/27] fix: treat an oversized maximum in Parquet statistics
 as unknown

---
 python/src/space/core/manifests/index.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 789f7f3..0edb36a 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -92,6 +92,13 @@ class _FieldStats:
 
       return
 
+    if stats.max in ("", b""):
+      # Parquet drops a single bound when only its value is too large. A dropped
+      # min reads as an empty value that is still a lower bound, but a dropped
+      # max is not an upper bound.
+      self._unknown = True
+      return
+
     if self._min is None or stats.min < self._min:
       self._min = stats.min
 
-- 
2.43.0


From 184ea83428fc0ef06d30e4d1870a15f93a34bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 16/27] fix: do not consume a snapshot ID when a commit fails

---
 python/src/space/core/storage.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index d2fabdd..c8d0b96 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -377,6 +377,7 @@ class Storage(paths.StoragePathsMixin):
     self._write_metadata(new_metadata_path, new_metadata)
     self._metadata = new_metadata
     self._metadata_file = new_metadata_path
+    self._max_snapshot_id = new_snapshot_id
 
   def data_files(self,
                  filter_: Optional[pc.Expression] = None,
@@ -505,8 +506,7 @@ class Storage(paths.StoragePathsMixin):
       raise errors.StorageExistError(str(e)) from None
 
   def _next_snapshot_id(self) -> int:
-    self._max_snapshot_id = self._max_snapshot_id + 1
-    return self._max_snapshot_id
+    return self._max_snapshot_id + 1
 
   def _new_snapshot_id(self, snapshot_id: Optional[int]) -> int:
     if snapshot_id is None:
@@ -516,7 +516,6 @@ class Storage(paths.StoragePathsMixin):
       raise errors.SpaceRuntimeError(
           f"Snapshot ID {snapshot_id} must be higher than existing IDs")
 
-    self._max_snapshot_id = snapshot_id
     return snapshot_id
 
   def _write_metadata(
-- 
2.43.0


From 4a78a7b602d4472ff191ae152ad5f357553e65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 17/27] fix: load ArrayRecord files without rows

The record address column of an empty file had type null instead of string.
---
 python/src/space/core/ops/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/utils.py b/python/src/space/core/ops/utils.py
index 82244be..e3d7526 100644
--- a/python/src/space/core/ops/utils.py
+++ b/python/src/space/core/ops/utils.py
@@ -47,7 +47,8 @@ def address_column(file_path: str, start_row: int,
   """Construct an record address column by a file path and row ID range."""
   return pa.StructArray.from_arrays(
       [
-          [file_path] * num_rows,  # type: ignore[arg-type]
+          # The type can't be inferred when there are no rows.
+          pa.array([file_path] * num_rows, type=pa.string()),
           np.arange(start_row, start_row + num_rows, dtype=np.int32)
       ],
       fields=arrow.record_address_types())  # type: ignore[arg-type]
-- 
2.43.0


From 803939a82e0cd906b2e387b59bb017c4b1b5ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:21 +0000
Subject: [PATCH 18/27] fix: join sources without key statistics and views with
 other field IDs

The key range of a join failed with a TypeError when a source had a file
without column statistics, and looked up the statistics with the field ID of
the view instead of the one of the storage.
---
 python/src/space/ray/ops/join.py | 45 ++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 867fe64..8dba2cb 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -20,6 +20,7 @@ from typing import List, Optional, TYPE_CHECKING
 
 import pyarrow as pa
 import pyarrow.compute as pc
+import pyarrow.parquet as pq
 import ray
 
 from space.core.options import JoinOptions, Range, ReadOptions
@@ -147,27 +148,43 @@ def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
 
 def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
   schema = input_.view.schema
-  field_name_ids = arrow.field_name_to_id_dict(schema)
-  if field_name not in field_name_ids:
+  if field_name not in schema.names:
     raise errors.UserInputError(
         f"Join key {field_name} not found in schema: {schema}")
 
-  field_id = field_name_ids[field_name]
+  # Column stats use the field IDs of the storage, the ID in the view schema may
+  # be different.
+  storage = singleton_storage(input_.view)
+  field_id = arrow.field_name_to_id_dict(storage.logical_schema)[field_name]
 
   stats_field = stats_field_name(field_id)
   min_, max_ = None, None
-  for manifest in singleton_storage(input_.view).index_manifest():
+  for manifest in storage.index_manifest():
     stats = manifest.column(stats_field).combine_chunks()
-
-    batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
-        stats.field(constants.MIN_FIELD)).as_py()  # type: ignore[arg-type]
-    min_ = batch_min if min_ is None else min(  # type: ignore[call-overload]
-        min_, batch_min)
-
-    batch_max = pc.max(  # type: ignore[attr-defined] # pylint: disable=no-member
-        stats.field(constants.MAX_FIELD)).as_py()  # type: ignore[arg-type]
-    max_ = batch_max if max_ is None else max(  # type: ignore[call-overload]
-        max_, batch_max)
+    mins = [stats.field(constants.MIN_FIELD)]
+    maxs = [stats.field(constants.MAX_FIELD)]
+
+    # Read the join keys of files without column stats.
+    for file_path, file_min in zip(
+        manifest.column(constants.FILE_PATH_FIELD).to_pylist(),
+        mins[0].to_pylist()):
+      if file_min is None:
+        keys = pq.read_table(storage.full_path(file_path),
+                             columns=[field_name]).column(field_name)
+        mins.append(keys)
+        maxs.append(keys)
+
+    for values in mins:
+      batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
+          values).as_py()
+      if min_ is None or (batch_min is not None and batch_min < min_):
+        min_ = batch_min
+
+    for values in maxs:
+      batch_max = pc.max(  # type: ignore[attr-defined] # pylint: disable=no-member
+          values).as_py()
+      if max_ is None or (batch_max is not None and batch_max > max_):
+        max_ = batch_max
 
   if min_ is None and max_ is None:
     return None
-- 
2.43.0


From 39f931a8dfefe7582c0f5bcd6c1e775e6e8809e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 19/27] fix: apply the filter of a read to joins

A join ignored filter_ and returned all rows.
---
 python/src/space/core/transform/join.py |  3 ++-
 python/src/space/ray/ops/join.py        | 13 +++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/src/space/core/transform/join.py b/python/src/space/core/transform/join.py
index 7586e0b..fd0232b 100644
--- a/python/src/space/core/transform/join.py
+++ b/python/src/space/core/transform/join.py
@@ -123,7 +123,8 @@ class JoinTransform(View):
       raise errors.UserInputError("`reference_read` is not supported for join")
 
     return RayJoinOp(self.left, self.right, self.join_keys, self.schema,
-                     join_options, ray_options).ray_dataset()
+                     join_options, ray_options,
+                     read_options.filter_).ray_dataset()
 
   def to_relation(self, builder: LogicalPlanBuilder) -> Rel:
     raise NotImplementedError("Materialized view of join is not supported")
diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 8dba2cb..75e204f 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -53,7 +53,8 @@ class RayJoinOp:
   # pylint: disable=too-many-arguments
   def __init__(self, left: JoinInput, right: JoinInput, join_keys: List[str],
                schema: pa.Schema, join_options: JoinOptions,
-               ray_options: RayOptions):
+               ray_options: RayOptions,
+               filter_: Optional[pc.Expression] = None):
     assert len(join_keys) == 1
     self._join_key = join_keys[0]
 
@@ -61,6 +62,8 @@ class RayJoinOp:
     self._schema = schema
     self._join_options = join_options
     self._ray_options = ray_options
+    # Applied on the join result.
+    self._filter = filter_
 
     self._left_record_fields = _selected_record_fields(left)
     self._right_record_fields = _selected_record_fields(right)
@@ -97,7 +100,7 @@ class RayJoinOp:
                                  self._left_record_fields),
               _JoinInputInternal(right_ds, self._right.reference_read,
                                  self._right_record_fields), self._join_key,
-              self._schema.names))
+              self._schema.names, self._filter))
 
     return ray.data.from_arrow_refs(results)
 
@@ -111,7 +114,8 @@ class _JoinInputInternal:
 
 @ray.remote
 def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
-          output_fields: List[str]) -> Optional[pa.Table]:
+          output_fields: List[str],
+          filter_: Optional[pc.Expression]) -> Optional[pa.Table]:
   left_data, right_data = _read_all(left.ds), _read_all(right.ds)
   if left_data is None or right_data is None:
     return None
@@ -135,7 +139,8 @@ def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
     result = _fold_addresses(result, right.record_fields)
 
   # output_fields is used for re-ordering fields.
-  return result.select(output_fields)
+  result = result.select(output_fields)
+  return result if filter_ is None else result.filter(filter_)
 
 
 def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
-- 
2.43.0


From 2612186334980d81a7d0b0f60c83b94c92aa202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 20/27] fix: loading external files by a relative path pattern

The relative paths were stored as they are, but readers resolve them in the
storage location, so the rows could not be read.
---
 python/src/space/core/loaders/array_record.py | 4 +++-
 python/src/space/core/loaders/parquet.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/loaders/array_record.py b/python/src/space/core/loaders/array_record.py
index be02221..a1861a6 100644
--- a/python/src/space/core/loaders/array_record.py
+++ b/python/src/space/core/loaders/array_record.py
@@ -15,6 +15,7 @@
 """Load ArrayRecord files into Space datasets."""
 
 from typing import Any, Callable, Dict, List, Optional, Tuple
+from os import path
 import glob
 
 import pyarrow as pa
@@ -66,7 +67,8 @@ class LocalArrayRecordLoadOp(StoragePathsMixin):
     self._record_field = self._record_fields[0]
 
     self._serializer = DictSerializer.create(logical_schema)
-    self._input_files = glob.glob(pattern)
+    # A relative path would be resolved in the storage location by readers.
+    self._input_files = [path.abspath(f) for f in glob.glob(pattern)]
 
   def write(self) -> Optional[rt.Patch]:
     """Write index files to load ArrayRecord files to Space dataset."""
diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 347018f..e875cef 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -15,6 +15,7 @@
 """Load Parquet files into Space datasets."""
 
 from typing import Optional
+from os import path
 import glob
 
 import pyarrow.parquet as pq
@@ -45,7 +46,8 @@ class LocalParquetLoadOp(StoragePathsMixin):
     self._physical_schema = arrow.arrow_schema(self._metadata.schema.fields,
                                                set(),
                                                physical=True)
-    self._input_files = glob.glob(pattern)
+    # A relative path would be resolved in the storage location by readers.
+    self._input_files = [path.abspath(f) for f in glob.glob(pattern)]
 
   def write(self) -> Optional[rt.Patch]:
     """Write metadata files to load Parquet files to Space dataset."""
-- 
2.43.0


From a28b37380b02b012f63cb4fff7c3d741162f1c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 21/27] fix: random access lost records whose address occurs
 more than once

A record can be referenced by several rows, when its file is loaded twice or
the addresses are the output of a join. Equal row IDs were merged into one
range of the ArrayRecord file, so the data source had fewer records than
addresses.
---
 python/src/space/core/random_access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/random_access.py b/python/src/space/core/random_access.py
index 243412f..b646a26 100644
--- a/python/src/space/core/random_access.py
+++ b/python/src/space/core/random_access.py
@@ -271,7 +271,7 @@ def build_file_instructions(
       if i == len(indexes) - 1:
         file_instructions.append(
             _file_instruction(full_file_path, start, idx, num_records))
-      elif indexes[i + 1] > idx + 1:
+      elif indexes[i + 1] != idx + 1:
         file_instructions.append(
             _file_instruction(full_file_path, start, idx, num_records))
         start = indexes[i + 1]
-- 
2.43.0


From fb40ca712ad6f1a2d3727c0e90c80638c9fc7382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 22/27] fix: an insert or upsert of a few dozen rows did not
 finish

The filter of the primary keys to insert was a chain as deep as the number of
rows. The time and memory of its conversion to Substrait are exponential in the
depth: 20 rows took seconds, 30 rows all memory. Build a balanced tree.
---
 python/src/space/core/ops/utils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/src/space/core/ops/utils.py b/python/src/space/core/ops/utils.py
index e3d7526..f0ef3f4 100644
--- a/python/src/space/core/ops/utils.py
+++ b/python/src/space/core/ops/utils.py
@@ -64,7 +64,7 @@ def primary_key_filter(primary_keys: List[str],
   for key in primary_keys:
     columns.append(data.column(key).combine_chunks())
 
-  filter_ = None
+  filters: List[pc.Expression] = []
   filter_strs: Set[str] = set()
   for i_row in range(data.num_rows):
     row_filter = None
@@ -84,12 +84,17 @@ def primary_key_filter(primary_keys: List[str],
 
     filter_strs.add(filter_str)
 
-    if filter_ is None:
-      filter_ = row_filter
-    else:
-      filter_ |= row_filter
+    filters.append(row_filter)
 
-  return filter_
+  # Combine the filters as a balanced tree. The cost of converting an expression
+  # to Substrait is exponential in its depth.
+  while len(filters) > 1:
+    filters = [
+        filters[i] | filters[i + 1] if i + 1 < len(filters) else filters[i]
+        for i in range(0, len(filters), 2)
+    ]
+
+  return filters[0] if filters else None
 
 
 def merge_patches(patches: List[Optional[rt.Patch]]) -> Optional[rt.Patch]:
-- 
2.43.0


From a302415ccb5beda676afb13fcb0bdbaf3722cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 23/27] fix: rewrite manifests of a storage in a directory like
 "key=value"

---
 python/src/space/core/ops/delete.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index c50f255..8ddd438 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -143,8 +143,10 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
     # Survivor stands for unmodified files.
     survivor_files_filter = ~_build_file_path_filter(constants.FILE_PATH_FIELD,
                                                      deleted_files)
+    # Directories like "key=value" in the location are not partitions.
     survivor_index_manifests = pq.ParquetDataset(
         [self.full_path(f) for f in deleted_manifest_files],
+        partitioning=None,
         filters=survivor_files_filter).read()
     if survivor_index_manifests.num_rows > 0:
       self._append_op.append_index_manifest(survivor_index_manifests)
-- 
2.43.0


From 2d7d3fadec574d76e656ec80bc78ca486d2ab76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 24/27] fix: record fields with a slash in their name

---
 python/src/space/core/utils/paths.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/utils/paths.py b/python/src/space/core/utils/paths.py
index 9bba268..bb3f13e 100644
--- a/python/src/space/core/utils/paths.py
+++ b/python/src/space/core/utils/paths.py
@@ -34,7 +34,9 @@ def new_index_file_path(data_dir_: str):
 
 def new_record_file_path(data_dir_: str, field_name: str):
   """Return a random record file path in a given data directory.."""
-  return path.join(data_dir_, f"{field_name}_{uuid_()}.array_record")
+  # A field name may contain path separators.
+  file_name = field_name.replace("/", "_")
+  return path.join(data_dir_, f"{file_name}_{uuid_()}.array_record")
 
 
 def new_index_manifest_path(metadata_dir_: str):
-- 
2.43.0


From b425b0de73140453f24b94b6719e89b39a3bcc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 25/27] fix: read record fields whose name starts with a dot or
 is empty

---
 python/src/space/core/ops/read.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/python/src/space/core/ops/read.py b/python/src/space/core/ops/read.py
index 9094b91..574f884 100644
--- a/python/src/space/core/ops/read.py
+++ b/python/src/space/core/ops/read.py
@@ -166,15 +166,19 @@ def read_record_column(paths: StoragePathsMixin,
   num_rows = addresses.num_rows
   # _RECORD_KEY_FIELD is the row index of addresses used for retrieving rows
   # after group by. It is not in the read result.
-  addresses = addresses.flatten().append_column(
+  addresses = addresses.flatten()
+  if field is not None:
+    # Field names with a special meaning in Arrow, e.g., starting with a dot,
+    # can't be used for grouping.
+    addresses = addresses.select([
+        f"{field}.{FILE_PATH_FIELD}", f"{field}.{ROW_ID_FIELD}"
+    ]).rename_columns([FILE_PATH_FIELD, ROW_ID_FIELD])
+
+  addresses = addresses.append_column(
       _RECORD_KEY_FIELD, [np.arange(num_rows)])  # type: ignore[arg-type]
 
-  if field is None:
-    file_path_field = f"{FILE_PATH_FIELD}"
-    row_id_field = f"{ROW_ID_FIELD}"
-  else:
-    file_path_field = f"{field}.{FILE_PATH_FIELD}"
-    row_id_field = f"{field}.{ROW_ID_FIELD}"
+  file_path_field = f"{FILE_PATH_FIELD}"
+  row_id_field = f"{ROW_ID_FIELD}"
 
   # Record row IDs and records key co-grouped by file path, for processing
   # one file at a time to minimize file reads.
-- 
2.43.0


From 8c0c72cc64a2303b081ae4c93154ac3b41078228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:02 +0000
Subject: [PATCH 26/27] fix: column statistics of a key field named like a
 nested column

A Parquet column of a nested field has a dotted path, e.g. "r._FILE" of the
record address of field r, that may equal the name of a key field. The writer
of index manifests then collected the statistics of the wrong column.
---
 python/src/space/core/manifests/index.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 0edb36a..aac9ed5 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -186,11 +186,13 @@ class IndexManifestWriter:
     index_uncompressed_bytes = 0
 
     # Parquet columns are the leaves of (nested) fields, and the field order of
-    # an external file may be different.
-    parquet_column_ids = {
-        parquet_metadata.schema.column(i).path: i
-        for i in range(parquet_metadata.num_columns)
-    }
+    # an external file may be different. The path of a nested leaf may equal the
+    # name of another field, e.g., "a.b"; only top level leaves are used.
+    parquet_column_ids = {}
+    for i in range(parquet_metadata.num_columns):
+      column_schema = parquet_metadata.schema.column(i)
+      if column_schema.path == column_schema.name:
+        parquet_column_ids[column_schema.name] = i
 
     for rg in range(parquet_metadata.num_row_groups):
       rg_metadata = parquet_metadata.row_group(rg)
-- 
2.43.0


From e766af2b215134c0b7f939052096c6aa56858306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:45 +0000
Subject: [PATCH 27/27] fix: Row counts of Ray datasets read with a filter

The metadata of a read task said that its block has all rows of the index
file (or row range), so count() of a Ray dataset with a filter was wrong.
---
 python/src/space/core/storage.py     |  3 ++-
 python/src/space/ray/data_sources.py | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index c8d0b96..51d2ae5 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -465,7 +465,8 @@ class Storage(paths.StoragePathsMixin):
                                   parallelism=ray_options.max_parallelism)
 
     if (not ray_options.enable_row_range_block and read_options.batch_size):
-      return ds.repartition(math.ceil(ds.count() / read_options.batch_size))
+      return ds.repartition(
+          max(1, math.ceil(ds.count() / read_options.batch_size)))
 
     return ds
 
diff --git a/python/src/space/ray/data_sources.py b/python/src/space/ray/data_sources.py
index b5c45c9..0501c65 100644
--- a/python/src/space/ray/data_sources.py
+++ b/python/src/space/ray/data_sources.py
@@ -98,9 +98,11 @@ class _SpaceDataSourceReader(Reader):
             ReadTask(self._read_fn(index_file), _block_metadata(None)))
         continue
 
+      # The number of rows to read is unknown before applying a filter.
       # TODO: to compute num rows from bitmap.
-      has_bitmap = (index_file.HasField("row_bitmap") and
-                    not index_file.row_bitmap.all_rows)
+      unknown_rows = (self._read_options.filter_ is not None or
+                      (index_file.HasField("row_bitmap") and
+                       not index_file.row_bitmap.all_rows))
 
       if (self._ray_options.enable_row_range_block and
           self._read_options.batch_size):
@@ -120,14 +122,14 @@ class _SpaceDataSourceReader(Reader):
           rows.start = i * batch_size
           rows.end = min((i + 1) * batch_size, num_rows)
 
-          slice_num_rows = None if has_bitmap else (rows.end - rows.start)
+          slice_num_rows = None if unknown_rows else (rows.end - rows.start)
           read_tasks.append(
               ReadTask(self._read_fn(index_file_slice),
                        _block_metadata(slice_num_rows)))
       else:
         read_tasks.append(
             ReadTask(self._read_fn(index_file),
-                     _block_metadata(None if has_bitmap else num_rows)))
+                     _block_metadata(None if unknown_rows else num_rows)))
 
     return read_tasks
 
-- 
2.43.0

