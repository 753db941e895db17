From 2182dc536ac43ab74d41d8cd71c643ec95380c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 01/25] fix: delete must not drop rows for which the filter
 evaluates to null

---
 python/src/space/core/ops/delete.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 18a2be1..1c256b9 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -73,8 +73,9 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
           f"Invalid input file set for delete op:\n{file_set}")
 
     self._file_set = file_set
-    # Rows not matching not filter will be reinserted.
-    self._reinsert_filter = ~filter_
+    # Only rows for which the filter is true are deleted; rows for which it is
+    # false or null will be reinserted.
+    self._reinsert_filter = ~filter_ | filter_.is_null()
 
     self._append_op = LocalAppendOp(location,
                                     metadata,
-- 
2.43.0


From dd88d37fcebfa98d508858f469f60a2d9dbb8821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 02/25] fix: delete must account index bytes of the replaced
 files only

---
 python/src/space/core/ops/delete.py | 31 +++++++----------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 1c256b9..729697b 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -92,9 +92,6 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
     deleted_rows = 0
     stats_before_delete = meta.StorageStatistics()
     for file in self._file_set.index_files:
-      utils.update_index_storage_stats(stats_before_delete,
-                                       file.storage_statistics)
-
       # TODO: this can be down at row group level.
       index_data = pq.read_table(self.full_path(file.path))
       index_data = index_data.append_column(
@@ -107,7 +104,9 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
       if index_data.num_rows == file.storage_statistics.num_rows:
         continue
 
-      # Collect statistics.
+      # Collect statistics, only the modified files are replaced.
+      utils.update_index_storage_stats(stats_before_delete,
+                                       file.storage_statistics)
       deleted_rows += (file.storage_statistics.num_rows - index_data.num_rows)
       all_deleted = index_data.num_rows == 0
 
@@ -161,17 +160,14 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
       patch.deletion.index_manifest_files.append(f)
 
     # Compute storage statistics update.
-    survivor_stats = _read_index_statistics(survivor_index_manifests)
     reinsert_stats = (reinsert_patch.storage_statistics_update if reinsert_patch
                       is not None else meta.StorageStatistics())
 
-    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes +
-                                survivor_stats.index_compressed_bytes
-                               ) - stats_before_delete.index_compressed_bytes
+    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes -
+                                stats_before_delete.index_compressed_bytes)
     deleted_uncompressed_bytes = (
-        reinsert_stats.index_uncompressed_bytes +
-        survivor_stats.index_uncompressed_bytes
-    ) - stats_before_delete.index_uncompressed_bytes
+        reinsert_stats.index_uncompressed_bytes -
+        stats_before_delete.index_uncompressed_bytes)
 
     patch.storage_statistics_update.CopyFrom(
         meta.StorageStatistics(
@@ -188,19 +184,6 @@ def _build_file_path_filter(field_name: str, file_paths: List[str]):
   return filter_
 
 
-def _read_index_statistics(manifest_data: pa.Table) -> meta.StorageStatistics:
-  """Read storage statistics of unmodified index files from manifests."""
-
-  def sum_bytes(field_name: str) -> int:
-    return sum(manifest_data.column(
-        field_name).combine_chunks().to_pylist())  # type: ignore[arg-type]
-
-  return meta.StorageStatistics(index_compressed_bytes=sum_bytes(
-      constants.INDEX_COMPRESSED_BYTES_FIELD),
-                                index_uncompressed_bytes=sum_bytes(
-                                    constants.INDEX_UNCOMPRESSED_BYTES_FIELD))
-
-
 def _validate_files(file_set: rt.FileSet) -> bool:
   """Return false if the file set does not contain sufficient information for
   deletion.
-- 
2.43.0


From a9ff17d20f939586c04c9b1f23e9add57d2f5187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 03/25] fix: delete must keep the unmodified files of a
 manifest when no row is reinserted

---
 python/src/space/core/ops/append.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index 6672323..f92aceb 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -152,7 +152,9 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
       self._patch.addition.record_manifest_files.append(
           self.short_path(record_manifest_path))
 
-    if self._patch.storage_statistics_update.num_rows == 0:
+    # Manifests may only carry over existing files, without any new row.
+    if (self._patch.storage_statistics_update.num_rows == 0 and
+        not self._patch.addition.index_manifest_files):
       return None
 
     return self._patch
-- 
2.43.0


From 7ecc30d289f581f27b6ebbe2a19f52fc18cf0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 04/25] fix: field != field must only prune files where both
 fields are one same value

---
 python/src/space/core/manifests/falsifiable_filters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index ffb8e14..f2b0913 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -229,7 +229,8 @@ def _falsifiable_condition_fields(
   elif fn == "equal":
     return (l_max < r_min) | (r_max < l_min)
   elif fn == "not_equal":
-    return (l_max >= r_min) & (r_max >= l_min)
+    # Both fields must have the same single value.
+    return (l_min == l_max) & (r_min == r_max) & (l_min == r_min)
 
   raise _ExpressionException(f"Unsupported fn: {fn}")
 
-- 
2.43.0


From ec1cfcf32bfbb685e7a49b288a825b85c4805914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 05/25] fix: append must follow the schema field order when a
 record field is not last

---
 python/src/space/core/ops/append.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index f92aceb..6fc40e1 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -181,7 +181,6 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
 
     # Write record fields into files.
     # TODO: to parallelize it.
-    # TODO: to preserve the field order in schema.
     if self._record_address_input:
       for f in self._record_fields:
         index_data = index_data.append_column(f.name, data.column(
@@ -196,6 +195,9 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
         # TODO: the field/column added must have field ID.
         index_data = index_data.append_column(field_name, address_column)
 
+    # Preserve the field order in schema.
+    index_data = index_data.select(self._physical_schema.names)
+
     # Write index fields into files.
     self._cached_index_file_bytes += index_data.nbytes
 
-- 
2.43.0


From 39f6d251f3cdefc9087d25e13bef35868444b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 06/25] fix: do not reuse the ID of a snapshot that is no
 longer referenced

---
 python/src/space/core/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 7eb32fa..7253a00 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -87,7 +87,7 @@ class Storage(paths.StoragePathsMixin):
     self._current_branch = current_branch or _MAIN_BRANCH
     self._max_snapshot_id = max(
         [ref.snapshot_id for ref in self._metadata.refs.values()] +
-        [self._metadata.current_snapshot_id])
+        list(self._metadata.snapshots) + [self._metadata.current_snapshot_id])
 
   @property
   def metadata(self) -> meta.StorageMetadata:
-- 
2.43.0


From 86350302d65d6c523731bbf8b5eae644156fc090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 07/25] fix: adding or removing a tag or branch must not
 discard commits of other writers

---
 python/src/space/core/storage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 7253a00..7339209 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -257,6 +257,8 @@ class Storage(paths.StoragePathsMixin):
                      ref_type: meta.SnapshotReference.ReferenceType.ValueType,
                      snapshot_id: Optional[int] = None) -> None:
     """Add reference to a snapshot"""
+    # Never overwrite the commits of other writers by stale metadata.
+    self.reload()
     if snapshot_id is None:
       snapshot_id = self._metadata.current_snapshot_id
 
@@ -298,6 +300,8 @@ class Storage(paths.StoragePathsMixin):
   def _remove_reference(
       self, ref_name: str,
       ref_type: meta.SnapshotReference.ReferenceType.ValueType) -> None:
+    # Never overwrite the commits of other writers by stale metadata.
+    self.reload()
     if (ref_name not in self._metadata.refs or
         self._metadata.refs[ref_name].type != ref_type):
       raise errors.VersionNotFoundError(
-- 
2.43.0


From 9afcae1b5d8fc2acc6c99a91886d44c213621e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 08/25] fix: manifest pruning must not confuse fields when the
 schema has nested fields

---
 .../core/manifests/falsifiable_filters.py     | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index f2b0913..dc0e158 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -30,7 +30,6 @@ import pyarrow.substrait as ps
 from substrait.algebra_pb2 import Expression
 from substrait.extensions.extensions_pb2 import SimpleExtensionDeclaration
 from substrait.extended_expression_pb2 import ExtendedExpression
-from substrait.type_pb2 import NamedStruct
 
 from space.core.schema import utils as schema_utils
 from space.core.schema import constants
@@ -62,7 +61,7 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   expr = _substrait_expr(schema, filter_)
 
   try:
-    ff = _falsifiable_filter(expr, primary_keys, field_name_ids)
+    ff = _falsifiable_filter(expr, schema.names, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
       return None
@@ -95,7 +94,8 @@ class _ExpressionException(Exception):
 
 
 def _falsifiable_filter(
-    filter_: ExtendedExpression, primary_keys: Set[str],
+    filter_: ExtendedExpression, field_names: List[str],
+    primary_keys: Set[str],
     field_name_ids: Dict[str, int]) -> Optional[pc.Expression]:
   if len(filter_.referred_expr) != 1:
     raise _ExpressionException(
@@ -103,7 +103,7 @@ def _falsifiable_filter(
 
   return _falsifiable_filter_internal(
       filter_.extensions,  # type: ignore[arg-type]
-      filter_.base_schema,
+      field_names,
       primary_keys,
       field_name_ids,
       filter_.referred_expr[0].expression)
@@ -111,7 +111,7 @@ def _falsifiable_filter(
 
 # pylint: disable=too-many-locals,too-many-return-statements,too-many-branches,too-many-statements
 def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
-                                 base_schema: NamedStruct,
+                                 field_names: List[str],
                                  primary_keys: Set[str],
                                  field_name_ids: Dict[str, int],
                                  expr: Expression) -> Optional[pc.Expression]:
@@ -124,8 +124,8 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
           f"Single arg expression is not supported: {expr}")
 
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
-                                  base_schema, primary_keys, field_name_ids)
-  min_max_fn = partial(_min_max, base_schema, primary_keys, field_name_ids)
+                                  field_names, primary_keys, field_name_ids)
+  min_max_fn = partial(_min_max, field_names, primary_keys, field_name_ids)
 
   scalar_fn = expr.scalar_function
   fn = extensions[scalar_fn.function_reference].extension_function.name
@@ -296,10 +296,12 @@ def _value(v: Expression):
               v.literal.WhichOneof("literal_type")))  # type: ignore[arg-type]
 
 
-def _min_max(base_schema, primary_keys, field_name_ids,
+def _min_max(field_names: List[str], primary_keys, field_name_ids,
              v: Expression) -> Tuple[pc.Expression, pc.Expression, bool]:
   field_index = v.selection.direct_reference.struct_field.field
-  field_name = base_schema.names[field_index]
+  # The index is a position in the top level fields. Substrait base schema names
+  # can't be used because they also have the names of nested fields.
+  field_name = field_names[field_index]
   field_id = field_name_ids[field_name]
 
   # Only primary key supports falsifiable filter because of column stats.
-- 
2.43.0


From 6d2a2d1eb16dbc0d733e6cc51964eb7f7373512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 09/25] fix: collect primary key column stats from the right
 Parquet column

---
 python/src/space/core/manifests/index.py | 29 ++++++++++++++----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 12fdb98..ae37f29 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -27,7 +27,7 @@ import space.core.proto.metadata_pb2 as meta
 import space.core.proto.runtime_pb2 as rt
 from space.core.schema import constants
 from space.core.schema import utils as schema_utils
-from space.core.schema.arrow import field_id, field_id_to_column_id_dict
+from space.core.schema.arrow import field_id, field_id_to_name_dict
 from space.core.utils import paths
 
 
@@ -125,15 +125,13 @@ class IndexManifestWriter:
     self._index_uncompressed_bytes: List[int] = []
 
     # Caches for column stats.
-    self._stats_column_ids: List[int] = []
-    # Key is column ID.
-    self._field_stats_dict: Dict[int, _FieldStats] = {}
+    # Key is field name, i.e., the Parquet column path because primary keys are
+    # top level fields of primitive types.
+    self._field_stats_dict: Dict[str, _FieldStats] = {}
 
-    column_id_dict = field_id_to_column_id_dict(schema)
+    field_name_dict = field_id_to_name_dict(schema)
     for field_id_, type_ in self._stats_fields:
-      column_id = column_id_dict[field_id_]
-      self._stats_column_ids.append(column_id)
-      self._field_stats_dict[column_id] = _FieldStats(type_)
+      self._field_stats_dict[field_name_dict[field_id_]] = _FieldStats(type_)
 
     self._cached_manifest_data: List[pa.Table] = []
 
@@ -159,10 +157,17 @@ class IndexManifestWriter:
     index_compressed_bytes = 0
     index_uncompressed_bytes = 0
 
+    # Parquet columns are the leaf fields, so positions in the schema can't be
+    # used as column IDs when there are nested fields.
+    column_ids = {
+        parquet_metadata.schema.column(i).path: i
+        for i in range(parquet_metadata.num_columns)
+    }
+
     for rg in range(parquet_metadata.num_row_groups):
       rg_metadata = parquet_metadata.row_group(rg)
-      for column_id, field_stats in self._field_stats_dict.items():
-        column_stats = rg_metadata.column(column_id)
+      for field_name, field_stats in self._field_stats_dict.items():
+        column_stats = rg_metadata.column(column_ids[field_name])
         field_stats.merge(column_stats.statistics)
         index_compressed_bytes += column_stats.total_compressed_size
         index_uncompressed_bytes += column_stats.total_uncompressed_size
@@ -191,8 +196,8 @@ class IndexManifestWriter:
           self._index_uncompressed_bytes
       ]
 
-      for column_id in self._stats_column_ids:
-        arrays.append(self._field_stats_dict[column_id].to_arrow())
+      for field_stats in self._field_stats_dict.values():
+        arrays.append(field_stats.to_arrow())
 
       self._cached_manifest_data.append(
           pa.Table.from_arrays(
-- 
2.43.0


From 1974a93980c0598a24948eabe454e066bead5c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 10/25] fix: support primary key types that are not the default
 Arrow type of the stats

---
 python/src/space/core/manifests/index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index ae37f29..340ea2b 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -98,7 +98,10 @@ class _FieldStats:
   def to_arrow(self) -> pa.Array:
     """Return the Arrow format of the stats."""
     return pa.StructArray.from_arrays(
-        [self._min_list, self._max_list],  # type: ignore[arg-type]
+        [
+            pa.array(values, f.type) for values, f in zip(
+                [self._min_list, self._max_list], self._fields)
+        ],
         fields=self._fields)
 
 
-- 
2.43.0


From 558ecd3eb9aeaa9b44e75d0cdaf56c5ca5c8d2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 11/25] fix: files without min and max column stats must be
 appendable and must not be pruned

---
 python/src/space/core/manifests/index.py | 15 ++++++++++++---
 python/src/space/core/storage.py         |  3 +++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 340ea2b..154a7c1 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -73,14 +73,22 @@ class _FieldStats:
 
     self._min: Any = None
     self._max: Any = None
+    # True if the min and max of any row group are not available.
+    self._unknown = False
 
     # _min and _max cache the stats of one file; after finalizing they are
     # moved to _min_list and _max_list that cache stats of all files.
     self._min_list: List[Any] = []
     self._max_list: List[Any] = []
 
-  def merge(self, stats: pq.Statistics) -> None:
+  def merge(self, stats: Optional[pq.Statistics]) -> None:
     """Merge the cached stats with a new stats."""
+    # Parquet does not store min or max when all values are null, or the value
+    # is too long. A missing max may be returned as an empty string or bytes.
+    if stats is None or not stats.has_min_max or stats.max in ("", b""):
+      self._unknown = True
+      return
+
     if self._min is None or stats.min < self._min:
       self._min = stats.min
 
@@ -89,11 +97,12 @@ class _FieldStats:
 
   def finish(self) -> None:
     """Finialize the stats for the current file."""
-    self._min_list.append(self._min)
-    self._max_list.append(self._max)
+    self._min_list.append(None if self._unknown else self._min)
+    self._max_list.append(None if self._unknown else self._max)
 
     self._min = None
     self._max = None
+    self._unknown = False
 
   def to_arrow(self) -> pa.Array:
     """Return the Arrow format of the stats."""
diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 7339209..ff01adc 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -392,6 +392,9 @@ class Storage(paths.StoragePathsMixin):
       manifest_filter = build_manifest_filter(self._physical_schema,
                                               self._primary_keys,
                                               self._field_name_ids, filter_)
+      if manifest_filter is not None:
+        # Never prune the files whose column stats are unavailable.
+        manifest_filter = manifest_filter | manifest_filter.is_null()
 
     for manifest_file in manifest_files.index_manifest_files:
       result_per_manifest = read_index_manifests(self.full_path(manifest_file),
-- 
2.43.0


From b59ff11c62f8f5251b19b5c1adad27961ee080b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 12/25] fix: append_parquet must write a change log, and not
 commit when no file is loaded

---
 python/src/space/core/loaders/parquet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 71e5101..02ecdcb 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -58,12 +58,17 @@ class LocalParquetLoadOp(StoragePathsMixin):
       stats = _write_index_manifest(index_manifest_writer, f)
       utils.update_index_storage_stats(base=patch.storage_statistics_update,
                                        update=stats)
+      patch.change_log.added_rows.append(
+          meta.RowBitmap(file=f, all_rows=True, num_rows=stats.num_rows))
 
     index_manifest_full_path = index_manifest_writer.finish()
     if index_manifest_full_path is not None:
       patch.addition.index_manifest_files.append(
           self.short_path(index_manifest_full_path))
 
+    if not patch.addition.index_manifest_files:
+      return None
+
     return patch
 
 
-- 
2.43.0


From 51295e0e92a5965a2b996f43ba05477bd9b8b3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 13/25] fix: load external files by absolute paths when the
 input pattern is relative

---
 python/src/space/core/loaders/array_record.py | 4 +++-
 python/src/space/core/loaders/parquet.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/loaders/array_record.py b/python/src/space/core/loaders/array_record.py
index be02221..f9f7205 100644
--- a/python/src/space/core/loaders/array_record.py
+++ b/python/src/space/core/loaders/array_record.py
@@ -16,6 +16,7 @@
 
 from typing import Any, Callable, Dict, List, Optional, Tuple
 import glob
+from os import path
 
 import pyarrow as pa
 from typing_extensions import TypeAlias
@@ -66,7 +67,8 @@ class LocalArrayRecordLoadOp(StoragePathsMixin):
     self._record_field = self._record_fields[0]
 
     self._serializer = DictSerializer.create(logical_schema)
-    self._input_files = glob.glob(pattern)
+    # Relative paths in a storage are relative to its location.
+    self._input_files = [path.abspath(f) for f in glob.glob(pattern)]
 
   def write(self) -> Optional[rt.Patch]:
     """Write index files to load ArrayRecord files to Space dataset."""
diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 02ecdcb..89fa160 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -16,6 +16,7 @@
 
 from typing import Optional
 import glob
+from os import path
 
 import pyarrow.parquet as pq
 
@@ -45,7 +46,8 @@ class LocalParquetLoadOp(StoragePathsMixin):
     self._physical_schema = arrow.arrow_schema(self._metadata.schema.fields,
                                                set(),
                                                physical=True)
-    self._input_files = glob.glob(pattern)
+    # Relative paths in a storage are relative to its location.
+    self._input_files = [path.abspath(f) for f in glob.glob(pattern)]
 
   def write(self) -> Optional[rt.Patch]:
     """Write metadata files to load Parquet files to Space dataset."""
-- 
2.43.0


From d5e9361a3b9daff5aefeea4cf03ae43c828704e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 14/25] fix: distributed delete must process the files of a
 manifest together

---
 python/src/space/ray/ops/delete.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/python/src/space/ray/ops/delete.py b/python/src/space/ray/ops/delete.py
index ee85a33..e67a418 100644
--- a/python/src/space/ray/ops/delete.py
+++ b/python/src/space/ray/ops/delete.py
@@ -15,7 +15,7 @@
 """Distributed delete operation using Ray."""
 
 from __future__ import annotations
-from typing import Optional
+from typing import Dict, Optional
 
 import pyarrow.compute as pc
 import ray
@@ -45,14 +45,21 @@ class RayDeleteOp(BaseDeleteOp, StoragePathsMixin):
     metadata = self._storage.metadata
     matched_file_set = self._storage.data_files(self._filter)
 
-    remote_delete_patches = []
+    # Files in the same manifest must be processed together, because a manifest
+    # is rewritten as a whole.
+    file_sets: Dict[int, rt.FileSet] = {}
     for index_file in matched_file_set.index_files:
-      # Deletion only needs index file information (no record file information).
-      file_set = rt.FileSet(
-          index_files=[index_file],
-          # TODO: attach all manifest files here, to select related manifests.
-          index_manifest_files=matched_file_set.index_manifest_files)
+      manifest_file_id = index_file.manifest_file_id
+      if manifest_file_id not in file_sets:
+        file_sets[manifest_file_id] = rt.FileSet(
+            # TODO: attach all manifest files here, to select related manifests.
+            index_manifest_files=matched_file_set.index_manifest_files)
+
+      file_sets[manifest_file_id].index_files.append(index_file)
 
+    remote_delete_patches = []
+    for file_set in file_sets.values():
+      # Deletion only needs index file information (no record file information).
       result = _delete.options(  # type: ignore[attr-defined]
           num_returns=1).remote(self._storage.location, metadata, file_set,
                                 self._filter, self._file_options)
-- 
2.43.0


From acc3d93e41cb17265ac02344e816a83d80ba0e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 15/25] fix: store custom types by their storage types in the
 physical schema

---
 python/src/space/core/schema/arrow.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/schema/arrow.py b/python/src/space/core/schema/arrow.py
index d66e67b..91068e9 100644
--- a/python/src/space/core/schema/arrow.py
+++ b/python/src/space/core/schema/arrow.py
@@ -144,7 +144,11 @@ def _user_defined_arrow_type(type_: Type, physical: bool) -> pa.DataType:
   serialized = type_.user_defined.type_parameters[1].string
 
   if type_name == TfFeatures.EXTENSION_NAME:
-    # Physical type has been handled when checking record fields.
+    # Physical type of record fields has been handled when checking record
+    # fields; index fields store the serialized bytes.
+    if physical:
+      return pa.binary()
+
     return TfFeatures.__arrow_ext_deserialize__(
         None, serialized)  # type: ignore[arg-type]
 
@@ -235,6 +239,10 @@ def logical_to_physical_schema(logical_schema: pa.Schema,
               f.name,
               pa.struct(record_address_types()),  # type: ignore[arg-type]
               metadata=f.metadata))
+    elif isinstance(f.type, pa.ExtensionType):
+      # Custom types are stored by their underlying storage types.
+      fields.append(
+          pa.field(f.name, f.type.storage_type, metadata=f.metadata))
     else:
       fields.append(f)
 
-- 
2.43.0


From 669ab451b31605936e339a24ab36f3019aa827e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 16/25] fix: address column of an empty record file

---
 python/src/space/core/ops/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/utils.py b/python/src/space/core/ops/utils.py
index 82244be..1e87ec5 100644
--- a/python/src/space/core/ops/utils.py
+++ b/python/src/space/core/ops/utils.py
@@ -47,7 +47,7 @@ def address_column(file_path: str, start_row: int,
   """Construct an record address column by a file path and row ID range."""
   return pa.StructArray.from_arrays(
       [
-          [file_path] * num_rows,  # type: ignore[arg-type]
+          pa.array([file_path] * num_rows, pa.string()),
           np.arange(start_row, start_row + num_rows, dtype=np.int32)
       ],
       fields=arrow.record_address_types())  # type: ignore[arg-type]
-- 
2.43.0


From 2eaa0e24f60b628d3808a55a2d3c86ab43760562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 17/25] fix: skip Parquet files without rows in append_parquet

---
 python/src/space/core/loaders/parquet.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 89fa160..3ab179d 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -58,6 +58,9 @@ class LocalParquetLoadOp(StoragePathsMixin):
 
     for f in self._input_files:
       stats = _write_index_manifest(index_manifest_writer, f)
+      if stats is None:
+        continue
+
       utils.update_index_storage_stats(base=patch.storage_statistics_update,
                                        update=stats)
       patch.change_log.added_rows.append(
@@ -75,7 +78,11 @@ class LocalParquetLoadOp(StoragePathsMixin):
 
 
 def _write_index_manifest(manifest_writer: IndexManifestWriter,
-                          file_path: str) -> meta.StorageStatistics:
+                          file_path: str) -> Optional[meta.StorageStatistics]:
   # TODO: to verify that file schemas are compatible with dataset.
   metadata = pq.read_metadata(file_path)
+  # Mutations require that all index files have rows.
+  if metadata.num_rows == 0:
+    return None
+
   return manifest_writer.write(file_path, metadata)
-- 
2.43.0


From 931890628807efc1018c4f663e28a85ffbbf21c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 18/25] fix: refreshing a materialized view must start from its
 latest version

---
 python/src/space/ray/runners.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index 0cfa206..3bceada 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -179,6 +179,10 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     TODO: refreshing from a large source is slow, to save refresh state and
     resume from saved state, if any failure happens.
     """
+    # Both the source and the view may have been updated by other writers.
+    self._source_storage.reload()
+    self._storage.reload()
+
     source_snapshot_id = self._source_storage.metadata.current_snapshot_id
     if target_version is None:
       end_snapshot_id = source_snapshot_id
-- 
2.43.0


From ef7d0ded3809a06a3e726eef48e8488128822035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 19/25] fix: refresh must not fail when the rows deleted in the
 source are not in the view

---
 python/src/space/ray/runners.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index 3bceada..b4abbe1 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -249,9 +249,13 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     if filter_ is None:
       return None
 
+    # The rows deleted in the source may not exist in the view.
+    data_files = self._storage.data_files(filter_)
+    if not data_files.index_files:
+      return None
+
     op = FileSetDeleteOp(self._storage.location, self._storage.metadata,
-                         self._storage.data_files(filter_), filter_,
-                         self._file_options)
+                         data_files, filter_, self._file_options)
     return op.delete()
 
   def _process_append(self, data: List[ray.data.Dataset]) -> Optional[rt.Patch]:
-- 
2.43.0


From b95e65fd2d68605cdf5e1354397047ed29313a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 20/25] fix: refresh must record source changes that do not
 modify the view

---
 python/src/space/ray/runners.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index b4abbe1..3db3e32 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -34,6 +34,7 @@ from space.core.ops.change_data import ChangeData, ChangeType
 from space.core.ops.delete import FileSetDeleteOp
 from space.core.ops.insert import InsertOptions
 from space.core.options import FileOptions, JoinOptions, ReadOptions
+import space.core.proto.metadata_pb2 as meta
 import space.core.proto.runtime_pb2 as rt
 from space.core.utils import errors
 from space.ray.ops.append import RayAppendOp
@@ -207,7 +208,7 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
       # Commit when changes from the same snapshot end.
       if (previous_snapshot_id is not None and
           change.snapshot_id != previous_snapshot_id):
-        txn.commit(utils.merge_patches(patches))
+        txn.commit(self._merge_patches(patches))
         patches.clear()
 
         # Stop early when something is wrong.
@@ -234,11 +235,17 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
       previous_snapshot_id = change.snapshot_id
 
     if patches:
-      txn.commit(utils.merge_patches(patches))
+      txn.commit(self._merge_patches(patches))
       job_results.append(txn.result())
 
     return job_results
 
+  def _merge_patches(self, patches: List[Optional[rt.Patch]]) -> rt.Patch:
+    # Commit source changes that do not modify the view as well, otherwise the
+    # view falls behind the source and the next refresh repeats the changes.
+    patch = utils.merge_patches(patches)
+    return rt.Patch(change_log=meta.ChangeLog()) if patch is None else patch
+
   def _process_delete(self, data: List[ray.data.Dataset]) -> Optional[rt.Patch]:
     # Deletion does not use parallel read streams.
     assert len(data) == 1
-- 
2.43.0


From d3e63e78f53c0fc7ec5ff39cc7af8f88b8f2e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 21/25] fix: inserting many rows must not take exponential
 memory

---
 python/src/space/core/ops/insert.py |  3 ++-
 python/src/space/core/ops/utils.py  | 24 ++++++++++++++++++++++++
 python/src/space/ray/runners.py     |  3 ++-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/ops/insert.py b/python/src/space/core/ops/insert.py
index b954bff..49fdd5f 100644
--- a/python/src/space/core/ops/insert.py
+++ b/python/src/space/core/ops/insert.py
@@ -83,7 +83,8 @@ class LocalInsertOp(BaseInsertOp, StoragePathsMixin):
     filter_ = utils.primary_key_filter(self._storage.primary_keys, data)
     assert filter_ is not None
 
-    data_files = self._storage.data_files(filter_)
+    data_files = self._storage.data_files(
+        utils.primary_key_range_filter(self._storage.primary_keys, data))
 
     mode = self._options.mode
     patches: List[Optional[rt.Patch]] = []
diff --git a/python/src/space/core/ops/utils.py b/python/src/space/core/ops/utils.py
index 1e87ec5..f6f16d6 100644
--- a/python/src/space/core/ops/utils.py
+++ b/python/src/space/core/ops/utils.py
@@ -91,6 +91,30 @@ def primary_key_filter(primary_keys: List[str],
   return filter_
 
 
+def primary_key_range_filter(primary_keys: List[str],
+                             data: pa.Table) -> pc.Expression:
+  """Return a filter on the ranges of the given primary keys in the input data.
+
+  It selects the files that may contain the primary keys. Unlike
+  `primary_key_filter`, its size does not depend on the number of rows. The
+  Substrait form of a filter, used for pruning files, grows exponentially with
+  the number of nested conditions.
+  """
+  filter_ = None
+  for key in primary_keys:
+    column = data.column(key)
+    if column.null_count > 0:
+      raise errors.UserInputError(f"Primary key {key} must not be null")
+
+    min_max = pc.min_max(column)  # type: ignore[attr-defined] # pylint: disable=no-member
+    key_filter = ((pc.field(key) >= min_max["min"]) &
+                  (pc.field(key) <= min_max["max"]))
+    filter_ = key_filter if filter_ is None else filter_ & key_filter
+
+  assert filter_ is not None
+  return filter_
+
+
 def merge_patches(patches: List[Optional[rt.Patch]]) -> Optional[rt.Patch]:
   """Merge multiple patches into one."""
   patch = rt.Patch()
diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index 3db3e32..1833e4a 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -257,7 +257,8 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
       return None
 
     # The rows deleted in the source may not exist in the view.
-    data_files = self._storage.data_files(filter_)
+    data_files = self._storage.data_files(
+        utils.primary_key_range_filter(self._storage.primary_keys, arrow_data))
     if not data_files.index_files:
       return None
 
-- 
2.43.0


From c0ddc1664c797175aa4d450c3be7a1a0636270ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 22/25] fix: join must support ranges without data on one side

---
 python/src/space/ray/ops/join.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 867fe64..019331a 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -96,7 +96,7 @@ class RayJoinOp:
                                  self._left_record_fields),
               _JoinInputInternal(right_ds, self._right.reference_read,
                                  self._right_record_fields), self._join_key,
-              self._schema.names))
+              self._schema))
 
     return ray.data.from_arrow_refs(results)
 
@@ -110,10 +110,11 @@ class _JoinInputInternal:
 
 @ray.remote
 def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
-          output_fields: List[str]) -> Optional[pa.Table]:
+          output_schema: pa.Schema) -> pa.Table:
   left_data, right_data = _read_all(left.ds), _read_all(right.ds)
   if left_data is None or right_data is None:
-    return None
+    # A Ray block must be a table.
+    return output_schema.empty_table()
 
   # PyArrow does not support joining struct, so tables are flattened.
   # TODO: we only flatten/fold record addresses field. If any other fields are
@@ -133,8 +134,8 @@ def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
   if right.reference_read:
     result = _fold_addresses(result, right.record_fields)
 
-  # output_fields is used for re-ordering fields.
-  return result.select(output_fields)
+  # output_schema is used for re-ordering fields.
+  return result.select(output_schema.names)
 
 
 def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
-- 
2.43.0


From 897a6cdd6973d32d70ea5a49fee232825c821064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 23/25] fix: join key range must be read by the field ID of the
 source storage

---
 python/src/space/ray/ops/join.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 019331a..bf0f107 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -147,7 +147,9 @@ def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
 
 
 def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
-  schema = input_.view.schema
+  # The manifests use field IDs of the source storage, not of the view.
+  storage = singleton_storage(input_.view)
+  schema = storage.logical_schema
   field_name_ids = arrow.field_name_to_id_dict(schema)
   if field_name not in field_name_ids:
     raise errors.UserInputError(
@@ -157,7 +159,7 @@ def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
 
   stats_field = stats_field_name(field_id)
   min_, max_ = None, None
-  for manifest in singleton_storage(input_.view).index_manifest():
+  for manifest in storage.index_manifest():
     stats = manifest.column(stats_field).combine_chunks()
 
     batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
-- 
2.43.0


From 9b1e7b88dfc9dfd1c85389058645b9980cce03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 24/25] fix: join must not fail or drop rows when the key range
 of a file is unknown

---
 python/src/space/ray/ops/join.py | 53 +++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index bf0f107..0ed39fe 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -69,17 +69,19 @@ class RayJoinOp:
     left_range = _join_key_range(self._left, self._join_key)
     right_range = _join_key_range(self._right, self._join_key)
 
-    ranges: List[Range] = []
+    # A range of None does not restrict the join keys.
+    ranges: List[Optional[Range]] = []
     if not (left_range is None or right_range is None):
-      join_range = Range(min_=max(left_range.min_, right_range.min_),
-                         max_=min(left_range.max_, right_range.max_),
-                         include_max=True)
-      ranges = ([join_range] if self._join_options.partition_fn is None else
-                self._join_options.partition_fn(join_range))
+      join_range = _intersect_ranges(left_range, right_range)
+      if join_range is None or self._join_options.partition_fn is None:
+        ranges = [join_range]
+      else:
+        ranges = list(self._join_options.partition_fn(join_range))
 
     results = []
     for range_ in ranges:
-      filter_ = _range_to_filter(self._join_key, range_)
+      filter_ = (None if range_ is None else _range_to_filter(
+          self._join_key, range_))
       left_ds = transform_utils.ray_dataset(
           self._left.view, self._ray_options,
           ReadOptions(filter_,
@@ -147,6 +149,9 @@ def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
 
 
 def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
+  """Return the range of join keys, or None if there is no data. The bounds are
+  None if they are unknown.
+  """
   # The manifests use field IDs of the source storage, not of the view.
   storage = singleton_storage(input_.view)
   schema = storage.logical_schema
@@ -159,26 +164,52 @@ def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
 
   stats_field = stats_field_name(field_id)
   min_, max_ = None, None
+  empty, unknown = True, False
   for manifest in storage.index_manifest():
+    if manifest.num_rows == 0:
+      continue
+
+    empty = False
     stats = manifest.column(stats_field).combine_chunks()
+    batch_mins = stats.field(constants.MIN_FIELD)
+    batch_maxs = stats.field(constants.MAX_FIELD)
+    if batch_mins.null_count > 0 or batch_maxs.null_count > 0:
+      # The values in a file without column stats are unknown.
+      unknown = True
+      break
 
     batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
-        stats.field(constants.MIN_FIELD)).as_py()  # type: ignore[arg-type]
+        batch_mins).as_py()  # type: ignore[arg-type]
     min_ = batch_min if min_ is None else min(  # type: ignore[call-overload]
         min_, batch_min)
 
     batch_max = pc.max(  # type: ignore[attr-defined] # pylint: disable=no-member
-        stats.field(constants.MAX_FIELD)).as_py()  # type: ignore[arg-type]
+        batch_maxs).as_py()  # type: ignore[arg-type]
     max_ = batch_max if max_ is None else max(  # type: ignore[call-overload]
         max_, batch_max)
 
-  if min_ is None and max_ is None:
+  if empty:
     return None
 
-  assert min_ is not None and max_ is not None
+  if unknown:
+    return Range(min_=None, max_=None, include_max=True)
+
   return Range(min_=min_, max_=max_, include_max=True)
 
 
+def _intersect_ranges(left: Range, right: Range) -> Optional[Range]:
+  """Return the common range of join keys, or None if it is unknown."""
+  if left.min_ is None:
+    return None if right.min_ is None else right
+
+  if right.min_ is None:
+    return left
+
+  return Range(min_=max(left.min_, right.min_),
+               max_=min(left.max_, right.max_),
+               include_max=True)
+
+
 def _range_to_filter(field_name: str, range_: Range) -> pc.Expression:
   field = pc.field(field_name)
   if range_.include_max:
-- 
2.43.0


From f8da513ca9b2e78f6816930d95180c8cf5b905a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 25/25] fix: random access must serve a record once for every
 row that refers to it

---
 python/src/space/core/random_access.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/random_access.py b/python/src/space/core/random_access.py
index 243412f..ad5ddcb 100644
--- a/python/src/space/core/random_access.py
+++ b/python/src/space/core/random_access.py
@@ -271,7 +271,8 @@ def build_file_instructions(
       if i == len(indexes) - 1:
         file_instructions.append(
             _file_instruction(full_file_path, start, idx, num_records))
-      elif indexes[i + 1] > idx + 1:
+      # A gap, or a record that is referenced by more than one row.
+      elif indexes[i + 1] != idx + 1:
         file_instructions.append(
             _file_instruction(full_file_path, start, idx, num_records))
         start = indexes[i + 1]
-- 
2.43.0

