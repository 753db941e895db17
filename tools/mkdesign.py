"""Rewrites the per-property part (section 4) of DESIGN.md from the units."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

# How the contracts of the functions make up the property, and what is left to
# the bounded stand-in.
ARG = {
 "C01": (
  "`Storage.commit`: the new metadata has every old snapshot unchanged plus one; "
  "every file it writes has a fresh name (uuid), the entry point excepted, so no "
  "file an old snapshot names is rewritten (frame: the effects of a commit). "
  "`_patch_manifests` and the operations only produce lists of the new snapshot. "
  "Lookups return the snapshot named. Runners read the snapshot of the version "
  "asked for.",
  "the content of Arrow files read back (library), histories as a whole"),
 "C02": (
  "`Storage.commit`: exactly one snapshot is added, its ID is larger than all IDs, "
  "its parent is the head of the branch committed to at the time of the commit, "
  "only that branch is moved. `Transaction`: a conflict of the same branch is "
  "an error, other branches are left alone. `Storage.reload`: the branch in use "
  "is kept.", "-"),
 "C03": (
  "Environment model: before each read of the entry point any number of other "
  "writers may have published (World(others=True): arbitrary well-formed "
  "metadata). `Transaction.commit` commits only if the head of its branch is "
  "the one it started from, on the metadata just reloaded; each mutating runner "
  "method commits exactly the patch of its operation, once, through it; "
  "references are added/removed on reloaded metadata.",
  "a second process between reload and the write of the entry point (no lock: "
  "section 6)"),
 "C04": (
  "Every effect on storage is a step of a recorded sequence that may fail: "
  "`write_proto` writes to a fresh name and moves it; `commit` writes the entry "
  "point last, after the metadata file it names; writers close files before "
  "returning paths. So each prefix of the effects leaves the entry point naming "
  "complete metadata.", "byte-level torn writes (assumed: move is atomic)"),
 "C05": (
  "`LocalAppendOp` keeps the invariant: concatenation of finished files, open "
  "file and cache = rows given so far, record addresses point at the record "
  "written for that row (proved for any state and any batch; bounded "
  "histories for refutation). `FileSetReadOp` yields the rows of each file with "
  "record columns resolved through addresses. Composition: rows written = rows "
  "of files listed in the manifest (C09) = rows read.",
  "array_record and Parquet round trip"),
 "C06": (
  "`FileSetDeleteOp`: for an arbitrary file, rows kept are those for which the "
  "filter is not true (null included), in order, addresses kept; files "
  "without matches keep their manifest entry; the patch removes exactly the "
  "manifests rewritten.", "Arrow's evaluation of expressions"),
 "C07": (
  "`primary_key_filter` is true of exactly the rows whose key is among the keys "
  "(for 1 to 3 key columns and any number of rows), repeated keys are rejected; "
  "`primary_key_range_filter` is implied by it; `LocalInsertOp`/`RayInsertOp`: "
  "nothing is written unless no file has a matching row (insert) / the matching "
  "rows are deleted and the rows appended in one patch (upsert).",
  "floating point keys"),
 "C08": (
  "`_falsifiable_filter_internal` by structural induction over expressions (its "
  "own contract at the recursive calls): if the produced filter is true of the "
  "statistics of a file, the filter is not true of any row whose fields lie "
  "within them. `build_manifest_filter` keeps rows of manifests for which it is "
  "not true; unsupported expressions prune nothing. `data_files` passes it.",
  "the two recorded findings (negation, NaN)"),
 "C09": (
  "`_FieldStats`: the interval covers every row group's interval, unknown if any "
  "is unknown; `IndexManifestWriter.write`: number of rows and statistics of the "
  "file given; `finish`: one row per file; `read_index_manifests` lists each "
  "row once; delete/append/load pass each file once.", "-"),
 "C10": (
  "`update_index_storage_stats`, `update_record_stats_bytes`, `merge_patches`: "
  "sums; each operation's statistics equal rows added minus rows removed; "
  "`commit`: new statistics = parent's + the patch's.", "-"),
 "C11": (
  "`ordered_snapshot_ids` (loop invariant: the IDs collected are the parent chain "
  "from the end), `read_change_data`: deletions then additions per version, all "
  "change log entries, each with its bitmap mask; `_bitmap_mask` exact.",
  "content of roaring bitmaps (library)"),
 "C12": (
  "`FileSetReadOp`, `read_record_column` (for any addresses: the i-th value is "
  "the record at the i-th address), `read_record_file`: projection of the same "
  "rows; batch size passed to the scan.", "pyarrow's scan"),
 "C13": (
  "`FieldIdManager` (induction over types: IDs in a half-open interval, "
  "disjoint), `substrait_fields`/`arrow_schema` inverse on types up to depth 2, "
  "extension types round trip, validation rejects exactly the invalid schemas.",
  "types of greater depth (sampled)"),
 "C14": (
  "`build_file_instructions`: each addressed record is served exactly as often "
  "as it is addressed; the data sources return the record at the index.", "-"),
 "C15": ("Every path written in metadata is the relative path of the file; "
         "`full_path` inverts it for the current location; the change log is "
         "found at the current location.", "-"),
 "C16": ("`Storage.create`/`load`, `DirCatalog`: entry point must not exist, is "
         "written last; a listing names exactly the directories with an entry "
         "point.", "names that are not plain directory names (rejected: fix)"),
 "C17": ("`DictSerializer` inverse by field given inverse codecs; `create` takes "
         "the serializer of each field's own type; `TfFeatures` inverse.",
         "tensorflow_datasets (trusted)"),
 "C18": ("Load operations: the files are those of the pattern, each once; the "
         "index of each file is built over all its records with their own row "
         "IDs; manifests and statistics are those of the files; external paths "
         "stay absolute.", "-"),
 "C19": ("Each worker's input by index: shards of `RayAppendOp.write` tile the "
         "table, read tasks tile the files, sources are dealt to actors once; "
         "the merged patch is the sum of all.", "real scheduling (ray trusted)"),
 "C20": ("The plan built by `to_relation` and read by `from_relation`, the UDF "
         "files written and read, compared transform by transform with the view "
         "given.", "cloudpickle"),
 "C21": ("`refresh`: changes in order, deletions and additions of one source "
         "version in one commit, labelled by the source version; per change the "
         "delete filter is that of the keys (C07) and the additions are the "
         "transformed rows.", "the recorded findings"),
 "C22": ("`_intersect_ranges`, `_range_to_filter`, `_join_key_range`: every key "
         "present on both sides is inside a range, ranges do not overlap "
         "(given a complete partition); `_join` reads both sides completely and "
         "joins on the key.", "pyarrow's join"),
 "C23": ("add/remove/lookup of references: exact effect on the map of "
         "references, all error cases.", "-"),
}


def table():
  import engine.main as m
  m.boot()
  from engine.unit import UNITS
  out = []
  for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    us = [u for u in UNITS if p["id"] in u.pids]
    fs = {f for u in us for f in u.functions}
    arg, rest = ARG[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"{arg}\n")
    out.append(f"*Why tests cannot:* {p['why_tests_cant']}\n")
    out.append(f"*Units ({len(us)}, naming {len(fs)} functions):* " + "; ".join(
        f"`{u.name}`" + (f" [bounded: {u.bounded}]" if u.bounded else "")
        for u in us) + ".\n")
    if rest != "-":
      out.append(f"*Left to the replay or to trust:* {rest}.\n")
  return "\n".join(out)


def main():
  path = os.path.join(ROOT, "DESIGN.md")
  s = open(path).read()
  a, b = "<!-- units: written by tools/mkdesign.py -->", "<!-- end -->"
  i, j = s.index(a) + len(a), s.index(b)
  s = s[:i] + "\n" + table() + "\n" + s[j:]
  open(path, "w").write(s)


if __name__ == "__main__":
  main()
