"""Concrete contract replay: C13-C18 (schemas, random access, catalogs...)."""
from __future__ import annotations

import collections
import os
import shutil

from lib import *  # noqa: F401,F403
import lib
from world import World
from cases_core import check_feed, check_manifests, check_stats, op_delta


# ---------------------------------------------------------------------------
# C13
# ---------------------------------------------------------------------------
def _gen_type(rng, depth=2):
  k = rng.random()
  if depth > 0 and k < 0.25:
    return pa.list_(_gen_type(rng, depth - 1))
  if depth > 0 and k < 0.5:
    names = rng.sample(["a", "b", "k", "x", "rec", "é"], rng.randrange(1, 4))
    return pa.struct([(n, _gen_type(rng, depth - 1)) for n in names])
  return rng.choice([pa.int64(), pa.int32(), pa.string(), pa.binary(),
                     pa.bool_(), pa.float32(), pa.float64()])


def _strip(t):
  """A type as a plain structure, without field metadata."""
  if pa.types.is_list(t):
    return ("list", _strip(t.value_type))
  if pa.types.is_struct(t):
    return ("struct",) + tuple((t.field(i).name, _strip(t.field(i).type))
                               for i in range(t.num_fields))
  if isinstance(t, pa.ExtensionType):
    return ("ext", t.extension_name, t.__arrow_ext_serialize__())
  return str(t)


def _strip_schema(s):
  return [(f.name, _strip(f.type)) for f in s]


def _proto_ids(fields):
  """All field IDs of the stored (Substrait) schema, depth first."""
  out = []

  def walk(t):
    kind = t.WhichOneof("kind")
    m = getattr(t, kind)
    out.append(m.type_variation_reference)
    if kind == "list":
      walk(m.type)
    elif kind == "struct":
      for x in m.types:
        walk(x)
  for t in fields.struct.types:
    walk(t)
  return out


def _top_ids(fields):
  return [getattr(t, t.WhichOneof("kind")).type_variation_reference
          for t in fields.struct.types]


def c13(rng, d, tier):
  from space.core.schema.arrow import field_name_to_id_dict
  Dataset, _ = lib.modules()
  names = rng.sample(["k", "a", "b", "c", "rec", "x y", "é", "d1"],
                     rng.randrange(1, 7))
  pks, recs, fields = [], [], []
  for i, n in enumerate(names):
    k = rng.random()
    if i == 0 or k < 0.15:
      fields.append((n, rng.choice(lib.PK_TYPES)))
      pks.append(n)
    elif k < 0.35:
      fields.append((n, pa.binary()))
      recs.append(n)
    elif k < 0.45:
      from space import File
      fields.append((n, File(directory=rng.choice(["", "/x/y", "é"]))))
    else:
      fields.append((n, _gen_type(rng)))
  rng.shuffle(fields)
  rng.shuffle(pks)
  rng.shuffle(recs)
  nonnull = [pa.field(n, t) for n, t in fields]
  schema = pa.schema(nonnull)
  loc = os.path.join(d, "ds")
  ds = Dataset.create(loc, schema, list(pks), list(recs))
  kw = {"schema": repr(_strip_schema(schema))[:800], "pks": pks, "recs": recs}
  ids0 = _proto_ids(lib.raw_metadata(loc).schema.fields)
  check(len(set(ids0)) == len(ids0), "field IDs are not unique", ids=ids0, **kw)
  check(all(i >= 0 for i in ids0), "a field has no ID", ids=ids0, **kw)
  ops = []
  for rnd in range(rng.randrange(1, 3)):
    for who, x in (("created", ds), ("loaded", Dataset.load(loc))):
      check(_strip_schema(x.schema) == _strip_schema(schema),
            f"the schema of the {who} dataset differs",
            got=repr(_strip_schema(x.schema))[:800], **kw)
      check(list(x.primary_keys) == pks, f"primary keys of the {who} dataset "
            "differ", got=list(x.primary_keys), **kw)
      check(list(x.record_fields) == recs, f"record fields of the {who} "
            "dataset differ", got=list(x.record_fields), **kw)
      idd = field_name_to_id_dict(x.schema)
      check([idd[f.name] for f in schema] == _top_ids(
          lib.raw_metadata(loc).schema.fields),
            "field IDs in memory differ from the stored ones", got=idd, **kw)
    if rng.random() < 0.6:
      simple = not any(isinstance(t, pa.ExtensionType) for _, t in fields)
      if simple:
        rows = [{n: lib.gen_value(rng, t) for n, t in fields}
                for _ in range(3)]
        for r in rows:
          for f in recs:
            r[f] = b"v"
        t = pa.Table.from_pylist(rows, schema=schema)
        res = ds.local().append(t)
        check(res.state.name == "SUCCEEDED", "append failed",
              error=res.error_message, **kw)
        lib.check_same_rows(rows * (ops.count("append") + 1) if False else
                            lib.read_rows(ds), lib.read_rows(Dataset.load(loc)),
                            "a loaded dataset reads differently", **kw)
        got = lib.read_rows(Dataset.load(loc))
        lib.check_same_rows(rows, got[-3:], "values do not survive the schema",
                            ordered=True, **kw)
        # The index files carry the same IDs.
        m = lib.raw_metadata(loc)
        for _, r in lib.raw_manifest_rows(
            loc, m.snapshots[m.current_snapshot_id])[-1:]:
          fs = lib.pq.read_schema(os.path.join(loc, r["_FILE"]))
          check(fs.names == [n for n, _ in fields],
                "field order of an index file differs", got=fs.names, **kw)
          pid = [int(fs.field(n).metadata[b"PARQUET:field_id"])
                 for n in fs.names]
          check(pid == _top_ids(m.schema.fields),
                "field IDs of an index file differ", got=pid, **kw)
        ops.append("append")
    else:
      ds.add_tag(f"t{rnd}")
      ds.add_branch(f"b{rnd}")
      ops.append("refs")
    ids1 = _proto_ids(lib.raw_metadata(loc).schema.fields)
    check(ids1 == ids0, "field IDs changed", before=ids0, after=ids1, **kw)
  return {"schema": repr(_strip_schema(schema))[:400], "pks": pks,
          "recs": recs, "ops": ops}


def c13_invalid(rng, d, tier):
  from space.core.utils import errors
  Dataset, _ = lib.modules()
  loc = os.path.join(d, "ds")
  base = [("k", pa.int64()), ("x", pa.string()), ("r", pa.binary())]
  kind = rng.choice(["no_pk", "unknown_pk", "list_pk", "struct_pk",
                     "unknown_rec", "rec_is_pk", "rec_type", "type",
                     "nested_type"])
  pks, recs, fields = ["k"], ["r"], list(base)
  if kind == "no_pk":
    pks = []
  elif kind == "unknown_pk":
    pks = rng.choice([["z"], ["k", "z"], ["K"], [""]])
  elif kind == "list_pk":
    fields.append(("l", pa.list_(pa.int64())))
    pks = rng.choice([["l"], ["k", "l"]])
  elif kind == "struct_pk":
    fields.append(("s", pa.struct([("a", pa.int64())])))
    pks = rng.choice([["s"], ["k", "s"]])
  elif kind == "unknown_rec":
    recs = rng.choice([["z"], ["r", "z"]])
  elif kind == "rec_is_pk":
    pks = rng.choice([["r"], ["k", "r"]])
  elif kind == "rec_type":
    recs = rng.choice([["x"], ["r", "x"]])
  elif kind == "type":
    fields.append(("u", rng.choice([
        pa.date32(), pa.timestamp("us"), pa.int8(), pa.uint64(),
        pa.decimal128(5, 2), pa.map_(pa.string(), pa.int64()),
        pa.dictionary(pa.int32(), pa.string())])))
  elif kind == "nested_type":
    fields.append(("u", rng.choice([
        pa.list_(pa.int16()), pa.struct([("a", pa.date64())]),
        pa.list_(pa.struct([("q", pa.uint8())]))])))
  rng.shuffle(fields)
  kw = {"kind": kind, "pks": pks, "recs": recs,
        "fields": [(n, str(t)) for n, t in fields]}
  try:
    Dataset.create(loc, pa.schema(fields), pks, recs)
  except (errors.UserInputError, TypeError, NotImplementedError):
    pass
  else:
    raise Violation("an invalid schema was accepted", **kw)
  left = [os.path.join(a, f) for a, _, fs in os.walk(loc) for f in fs]
  check(not left, "a rejected schema left files behind", files=left, **kw)
  try:
    Dataset.load(loc)
  except Exception:  # noqa
    pass
  else:
    raise Violation("a dataset with an invalid schema was created", **kw)
  # The location is still usable.
  Dataset.create(loc, pa.schema(base), ["k"], ["r"])
  return kw


def _tf(rng):
  import numpy as np
  from tensorflow_datasets import features as f
  from space import TfFeatures
  kinds = [{"image_id": np.int64, "s": f.Text()},
           {"a": f.Tensor(shape=(None,), dtype=np.float32)},
           {"n": {"x": np.int64, "y": np.float32}, "s": f.Text()}]
  k = rng.randrange(len(kinds))
  vals = [
      lambda i: {"image_id": i, "s": f"v{i}".encode()},
      lambda i: {"a": np.arange(i % 4, dtype=np.float32)},
      lambda i: {"n": {"x": i, "y": np.float32(i / 2)}, "s": b"t%d" % i}]
  return TfFeatures(f.FeaturesDict(kinds[k])), vals[k]


def _np_eq(a, b):
  import numpy as np
  if isinstance(a, dict) or isinstance(b, dict):
    return (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and
            all(_np_eq(a[k], b[k]) for k in a))
  return np.array_equal(np.asarray(a), np.asarray(b))


# ---------------------------------------------------------------------------
# C17
# ---------------------------------------------------------------------------
def c17_tf(rng, d, tier):
  """TfFeatures round trip through serializer, storage and a loaded dataset."""
  Dataset, _ = lib.modules()
  tf1, gen1 = _tf(rng)
  two = rng.random() < 0.5
  fields = [("id", pa.int64()), ("feat", tf1), ("x", pa.string())]
  recs = ["feat"] if rng.random() < 0.7 else []
  gens = {"feat": gen1}
  if two:
    tf2, gen2 = _tf(rng)
    fields.append(("feat2", tf2))
    gens["feat2"] = gen2
    recs = recs + ["feat2"]
  rng.shuffle(fields)
  schema = pa.schema(fields)
  loc = os.path.join(d, "ds")
  ds = Dataset.create(loc, schema, ["id"], recs)
  n = rng.randrange(1, 9)
  data = {"id": list(range(n)), "x": [f"s{i}" for i in range(n)]}
  for k, g in gens.items():
    data[k] = [g(i) for i in range(n)]
  data = {k: data[k] for k in rng.sample(list(data), len(data))}
  kw = {"fields": [x for x, _ in fields], "records": recs, "n": n}
  for who, x in (("created", ds), ("loaded", Dataset.load(loc))):
    ser = x.serializer() if hasattr(x, "serializer") else x.storage.serializer()
    enc = ser.serialize(data)
    check(list(enc) == list(data), f"fields changed by serializing ({who})",
          got=list(enc), **kw)
    for f in gens:
      check(all(isinstance(v, bytes) for v in enc[f]) and len(enc[f]) == n,
            f"a field is not serialized ({who})", field=f, **kw)
    for f in ("id", "x"):
      check(enc[f] == data[f], f"a plain field changed ({who})", field=f, **kw)
    dec = ser.deserialize(enc)
    check(set(dec) == set(data) and all(
        len(dec[f]) == n and all(_np_eq(a, b) for a, b in zip(dec[f], data[f]))
        for f in data), f"deserializing does not invert serializing ({who})",
          got=repr(dec)[:400], **kw)
  r = ds.local(lib.gen_file_options(rng)).append(
      ds.storage.serializer().serialize(data))
  check(r.state.name == "SUCCEEDED", "append failed", error=r.error_message,
        **kw)
  x = Dataset.load(loc)
  got = {f: [] for f in data}
  for t in x.local().read(batch_size=rng.choice([1, 3, 16])):
    dec = x.storage.serializer().deserialize(t.to_pydict())
    for f in got:
      got[f].extend(dec[f])
  check(all(len(got[f]) == n and all(_np_eq(a, b)
                                     for a, b in zip(got[f], data[f]))
            for f in data), "values read back differ from those serialized",
        got=repr(got)[:500], **kw)
  from space import RandomAccessDataSource
  if len(recs) >= 1:
    src = RandomAccessDataSource({f: loc for f in recs}, deserialize=True,
                                 use_array_record_data_source=False)
    check(len(src) == n, "wrong length of a data source", got=len(src), **kw)
    for i in range(n):
      v = src[i]
      v = {recs[0]: v} if len(recs) == 1 else v
      check(all(_np_eq(v[f], data[f][i]) for f in recs),
            "a data source deserializes wrongly", index=i, **kw)
  return kw


def c17(rng, d, tier):
  """DictSerializer with arbitrary invertible field serializers."""
  from space.core.serializers import DictSerializer, FieldSerializer

  class Ser(FieldSerializer):
    def __init__(self, tag):
      self.tag = tag

    def serialize(self, value):
      return b"%d|" % self.tag + repr(value).encode()

    def deserialize(self, value_bytes):
      t, v = value_bytes.split(b"|", 1)
      if int(t) != self.tag:
        raise Violation("a value is deserialized by the serializer of another "
                        "field", tag=self.tag, value=repr(value_bytes))
      import ast
      return ast.literal_eval(v.decode())

  names = [f"f{i}" for i in range(rng.randrange(1, 7))]
  ser = {n: Ser(i) for i, n in enumerate(names) if rng.random() < 0.6}
  ser["absent"] = Ser(99)
  ds = DictSerializer(dict(ser))
  n = rng.randrange(0, 6)
  data = {f: [rng.choice([None, i, f"{f}{i}", {"a": i}, [i, i + 1], b"x"])
              for i in range(n)] for f in rng.sample(names, rng.randrange(
                  0, len(names) + 1))}
  import copy
  orig = copy.deepcopy(data)
  enc = ds.serialize(data)
  kw = {"fields": list(data), "serializers": sorted(ser), "n": n}
  check(data == orig, "serializing changed its input", **kw)
  check(list(enc) == list(data), "serializing changed the fields", **kw)
  for f in data:
    if f in ser:
      check(enc[f] == [ser[f].serialize(v) for v in data[f]],
            "a field is not serialized by its serializer", field=f, **kw)
    else:
      check(enc[f] == data[f], "a field without serializer changed", field=f,
            **kw)
    check((ds.field_serializer(f) is ser.get(f)), "wrong field serializer",
          field=f, **kw)
  dec = ds.deserialize(enc)
  check(dec == orig and list(dec) == list(orig),
        "deserializing does not invert serializing", got=repr(dec)[:300], **kw)
  return {**kw, "data": repr(orig)[:200]}


# ---------------------------------------------------------------------------
# C14
# ---------------------------------------------------------------------------
def c14(rng, d, tier):
  from space import RandomAccessDataSource
  from space.core.utils import errors
  s = lib.gen_schema(rng, n_records=rng.choice([1, 1, 2]), max_extra=2)
  w = World(rng, os.path.join(d, "ds"), s, domain=rng.choice([4, 12]),
            kinds={"append": 1, "append_from": 3, "delete": 2, "upsert": 1.5})
  w.step("append_from")
  if len(s.records) == 1 and rng.random() < 0.25:
    # External files; loading one twice makes rows that share a record.
    ext = os.path.join(d, "ext")
    os.makedirs(ext)
    for i in range(rng.choice([1, 2])):
      aw = lib.array_record().ArrayRecordWriter(
          os.path.join(ext, f"e{i}.array_record"), "group_size:1")
      for j in range(rng.randrange(1, 6)):
        aw.write(b"e%d-%d" % (i, j))
      aw.close()
    rowgen = iter(w.new_rows(60, null_pk=False))

    def index_fn(_):
      r = dict(next(rowgen))
      r.pop(s.records[0])
      return r
    for _ in range(rng.choice([1, 2, 2])):
      w.handles[0].local().append_array_record(
          os.path.join(ext, "*.array_record"), index_fn)
  for _ in range(rng.randrange(0, 5)):
    w.step()
  rows = w.live(w.meta(), "main")
  fields = rng.sample(s.records, rng.randrange(1, len(s.records) + 1))
  mode = rng.choice(["ar", "arrow", "addr"])
  kw = {"fields": fields, "mode": mode, "log": w.log, "schema": s.describe()}
  spec = {f: (w.loc if rng.random() < 0.5 else
              lib.modules()[0].load(w.loc).storage) for f in fields}
  if len(set(map(type, spec.values()))) > 1:
    spec = {f: w.loc for f in fields}
  one = len(fields) == 1
  ar_addr = rng.random() < 0.4
  if mode == "addr" and ar_addr:
    kw["use_array_record"] = True

  def rec(row):
    return row[fields[0]] if one else {f: row[f] for f in fields}

  exp = [rec(r) for r in rows]
  addresses = None
  if mode == "addr":
    addresses = w.handles[0].local().read_all(fields=fields,
                                              reference_read=True)
    if addresses is None:
      raise Skip("empty")
    take = [rng.randrange(addresses.num_rows)
            for _ in range(rng.randrange(1, 2 * addresses.num_rows + 1))]
    if rng.random() < 0.5:
      take = rng.sample(range(addresses.num_rows), rng.randrange(
          1, addresses.num_rows + 1))
    addresses = addresses.take(take)
    exp = [exp[i] for i in take]
  try:
    src = RandomAccessDataSource(
        spec, addresses=addresses, use_array_record_data_source=(
            mode == "ar" or (mode == "addr" and ar_addr)))
  except errors.UserInputError:
    check(not rows, "a data source cannot be created", **kw)
    return {"trivial": True}
  check(len(src) == len(exp), "a data source has a wrong number of elements",
        expected=len(exp), got=len(src), **kw)
  by_index = [src[i] for i in range(len(src))]
  by_iter = list(iter(src))
  key = lambda v: repr(v)
  check(collections.Counter(map(key, by_index)) == collections.Counter(
      map(key, exp)), "a data source does not serve exactly the live records",
        expected=repr(exp)[:300], got=repr(by_index)[:300], **kw)
  if not one or not (mode == "ar" or (mode == "addr" and ar_addr)):
    check(by_index == exp, "elements are not in address order", **kw)
  check(by_index == by_iter, "iteration differs from access by index", **kw)
  for _ in range(3):
    idx = [rng.randrange(len(src)) for _ in range(rng.randrange(1, 6))]
    want = [by_index[i] for i in idx]
    for got in (src[idx], src.__getitems__(idx)):
      if not one and isinstance(got, dict):
        got = [{f: got[f][j] for f in fields} for j in range(len(idx))]
      check(list(got) == want, "access by a list of indices differs from "
            "access by index", indices=idx, expected=repr(want)[:200],
            got=repr(got)[:200], **kw)
  return {"fields": fields, "mode": mode, "rows": len(exp), "log": w.log}


def c14_instructions(rng, d, tier):
  """build_file_instructions covers exactly the addresses it is given."""
  from space.core.random_access import build_file_instructions
  from space.core.utils.paths import StoragePathsMixin
  want = collections.Counter()
  pairs = set()
  for _ in range(rng.randrange(0, 25)):
    pairs.add((f"f{rng.randrange(3)}.ar", rng.randrange(rng.choice([4, 30]))))
  pairs = sorted(pairs)
  if rng.random() < 0.4 and pairs:  # records referenced by several rows
    pairs += [rng.choice(pairs) for _ in range(rng.randrange(1, 5))]
  rng.shuffle(pairs)
  for p in pairs:
    want[p] += 1
  fi = build_file_instructions(
      StoragePathsMixin(d), pa.chunked_array([pa.array([p[0] for p in pairs],
                                                       pa.string())]),
      pa.chunked_array([pa.array([p[1] for p in pairs], pa.int32())]))
  got = collections.Counter()
  for x in fi:
    name = os.path.relpath(x.filename, d)
    check(x.take > 0 and x.skip >= 0, "an empty file instruction",
          instruction=repr(x))
    check(x.skip + x.take <= x.examples_in_shard,
          "an instruction exceeds its shard", instruction=repr(x))
    for i in range(x.skip, x.skip + x.take):
      got[(name, i)] += 1
  check(got == want, "file instructions do not cover exactly the addresses",
        missing=repr(list((want - got))[:5]), extra=repr(list(got - want)[:5]),
        addresses=sorted(pairs))
  return {"addresses": sorted(pairs)[:10], "n": len(pairs)}


# ---------------------------------------------------------------------------
# C15
# ---------------------------------------------------------------------------
def c15(rng, d, tier):
  Dataset, _ = lib.modules()
  s = lib.gen_schema(rng, n_records=rng.choice([0, 1, 2]))
  old_cwd = os.getcwd()
  rel = rng.random() < 0.35
  base = os.path.join(d, rng.choice(["a", "a b", "é", "x.y"]))
  os.makedirs(base)
  loc = os.path.join(base, "ds")
  try:
    if rel:
      os.chdir(base)
      loc = rng.choice(["ds", "./ds", "sub/../ds" if False else "ds"])
    w = World(rng, loc, s, domain=rng.choice([4, 12]), kinds={
        "append": 2, "append_from": 3, "delete": 2, "upsert": 2,
        "add_tag": 1, "add_branch": .7, "switch": .5,
        "load": 0 if rel else 0.7})
    deltas = {}
    for _ in range(rng.randrange(2, 7)):
      ev = w.step()
      for sid in ev.committed():
        deltas[sid] = op_delta(w, ev)
    absloc = os.path.abspath(loc)
    kw = {"log": w.log, "schema": s.describe(), "location": loc}
    for dd, _, fs in os.walk(absloc):
      for f in fs:
        p = os.path.join(dd, f)
        if f.endswith(".txtpb"):
          txt = open(p, "rb").read()
          check(os.path.abspath(base).encode() + b"/ds/" not in txt,
                "metadata contains the absolute location", file=f, **kw)
    dst = os.path.join(d, "moved", "deep", "ds2")
    os.makedirs(os.path.dirname(dst))
    before = lib.tree_digest(absloc)
    keep = rng.random() < 0.5
    if keep:
      shutil.copytree(absloc, dst)
    else:
      shutil.move(absloc, dst)
    if rel and rng.random() < 0.7:
      os.chdir(d)
    m = lib.raw_metadata(dst)
    ds2 = Dataset.load(dst)
    w2 = World.__new__(World)
    w2.__dict__.update(w.__dict__)
    w2.loc, w2.handles = dst, [ds2]
    # Versions, tags and rows are the same.
    for sid, snap in m.snapshots.items():
      exp = w2.rows_of(snap)
      lib.check_same_rows(exp, lib.read_rows(ds2, version=sid),
                          "a moved dataset reads differently", version=sid,
                          **kw)
    for sid, (removed, added) in deltas.items():
      check_feed(w2, ds2, m, m.snapshots[sid].parent_snapshot_id, sid, deltas,
                 w.log)
    pre = w2.live(m, "main")
    for _ in range(rng.randrange(1, 4)):
      kind = rng.choice(["append", "delete", "upsert"])
      ev = w2.step(kind)
      if ev.committed():
        removed, added = op_delta(w2, ev)
        exp = collections.Counter(lib.canon_rows(pre))
        exp.subtract(collections.Counter(lib.canon_rows(removed)))
        exp.update(lib.canon_rows(added))
        got = lib.multiset(w2.live(ev.post, "main"))
        check(+exp == got, "a moved dataset is modified wrongly",
              **lib.diff_ms(+exp, got), **kw)
        lib.check_same_rows(w2.live(ev.post, "main"), lib.read_rows(ds2),
                            "a moved and modified dataset reads differently",
                            **kw)
        check_manifests(w2, ev.post, ev.post.snapshots[ev.committed()[0]],
                        w2.log)
      pre = w2.live(w2.meta(), "main")
    if keep:
      check(lib.tree_digest(absloc) == before,
            "modifying the copy changed the original", **kw)
    else:
      check(not os.path.exists(absloc), "the old place was touched", **kw)
    return {"schema": s.describe(), "log": w2.log, "relative": rel}
  finally:
    os.chdir(old_cwd)


def c15_paths(rng, d, tier):
  """short_path and full_path are inverse for files below the location."""
  from space.core.utils.paths import StoragePathsMixin
  parts = ["a", "b c", "é", ".h", "d.e"]
  for _ in range(30):
    loc = "/".join([rng.choice(["", "/r", "rel", "."])] +
                   rng.sample(parts, rng.randrange(1, 3)))
    if rng.random() < 0.3:
      loc += "/"
    p = StoragePathsMixin(loc)
    sub = "/".join(rng.sample(parts, rng.randrange(1, 4)))
    full = os.path.join(loc, sub)
    check(os.path.normpath(p.short_path(full)) == os.path.normpath(sub),
          "short_path is not the path below the location", location=loc,
          path=full, got=p.short_path(full))
    check(os.path.abspath(p.full_path(p.short_path(full))) ==
          os.path.abspath(full), "full_path does not invert short_path",
          location=loc, path=full)
    out = "/ext/" + sub
    check(p.full_path(out) == out, "an external path changes", path=out,
          got=p.full_path(out))
    for new in (p.new_metadata_path(), p.new_change_log_path()):
      check(not os.path.isabs(p.short_path(new)) and ".." not in
            p.short_path(new).split("/"), "a new file is not below the "
            "location", path=new, location=loc)
  return {"location": loc, "sub": sub}


# ---------------------------------------------------------------------------
# C16
# ---------------------------------------------------------------------------
def c16(rng, d, tier):
  import fakeray
  fakeray.install()
  fakeray.reset(rng)
  from space.catalogs.directory import DirCatalog
  from space.core.utils import errors
  from space.core.views import MaterializedView
  Dataset, _ = lib.modules()
  root = os.path.join(d, "cat")
  os.makedirs(root)
  cat = DirCatalog(root)
  junk = {"junk": "dir", "file.txt": "file", "empty_meta": "meta"}
  for n, k in junk.items():
    if rng.random() < 0.6:
      p = os.path.join(root, n)
      if k == "file":
        open(p, "w").write("x")
      else:
        os.makedirs(os.path.join(p, "metadata") if k == "meta" else p)
  model, log = {}, []
  names = ["a", "b", "c d", "é", "x.y", "nested"]
  for _ in range(rng.randrange(3, 11)):
    op = rng.choice(["create", "create", "create", "mv", "load", "write",
                     "unknown"])
    name = rng.choice(names)
    digests = {n: lib.tree_digest(os.path.join(root, n)) for n in model}
    kw = {"log": log, "op": op, "name": name}
    touched = set()
    if op in ("create", "mv") and name in model:
      err = None
      s2 = lib.gen_schema(rng, nested=False)
      try:
        if op == "create":
          cat.create_dataset(name, s2.arrow, list(s2.pks), list(s2.records))
        else:
          src = rng.choice(list(model))
          if model[src]["kind"] != "ds":
            continue
          cat.materialize(name, cat.dataset(src).filter(lambda r: True))
      except errors.UserInputError as e:
        err = e
      check(err is not None, "creating an existing name is not an error", **kw)
      before = digests[name]
      after = lib.tree_digest(os.path.join(root, name))
      # Additional unreferenced files are allowed, changed ones are not.
      check(all(after.get(k) == v for k, v in before.items()),
            "creating an existing name changed the dataset", **kw)
      touched.add(name)
    elif op == "create":
      s = lib.gen_schema(rng, nested=False)
      ds = cat.create_dataset(name, s.arrow, list(s.pks), list(s.records))
      rows = [s.gen_row(rng, i) for i in range(rng.randrange(0, 4))]
      if rows:
        r = ds.local().append(s.table(rows))
        check(r.state.name == "SUCCEEDED", "append failed", **kw)
      model[name] = {"kind": "ds", "schema": s, "rows": rows}
    elif op == "mv":
      srcs = [n for n in model if model[n]["kind"] == "ds"]
      if not srcs:
        continue
      src = rng.choice(srcs)
      view = cat.dataset(src).filter(lambda r: True)
      cat.materialize(name, view)
      model[name] = {"kind": "mv", "schema": model[src]["schema"], "src": src}
    elif op == "write":
      srcs = [n for n in model if model[n]["kind"] == "ds"]
      if not srcs:
        continue
      name = rng.choice(srcs)
      s = model[name]["schema"]
      rows = [s.gen_row(rng, 50 + i) for i in range(2)]
      r = cat.dataset(name).local().append(s.table(rows))
      check(r.state.name == "SUCCEEDED", "append failed", **kw)
      model[name]["rows"] = model[name]["rows"] + rows
      touched.add(name)
    elif op == "unknown":
      n = rng.choice(["zz", "A", "junk", "file.txt", "nope/x", "empty_meta"])
      before = sorted(os.listdir(root))
      try:
        cat.dataset(n)
        raise Violation("an unknown name was loaded", unknown=n, **kw)
      except errors.StorageNotFoundError:
        pass
      except NotADirectoryError:
        pass
      check(sorted(os.listdir(root)) == before,
            "loading an unknown name created something", unknown=n, **kw)
    log.append((op, name))
    infos = cat.datasets()
    got = collections.Counter(i.name for i in infos)
    check(got == collections.Counter(list(model)), "the listing is wrong",
          expected=sorted(model), got=sorted(got.elements()), **kw)
    for i in infos:
      check(os.path.abspath(i.location) == os.path.abspath(
          os.path.join(root, i.name)), "a listed location is wrong",
            location=i.location, **kw)
    for n, dg in digests.items():
      if n not in touched:
        check(lib.tree_digest(os.path.join(root, n)) == dg,
              "another dataset changed", other=n, **kw)
    for n, md in model.items():
      if rng.random() < 0.5:
        x = DirCatalog(root).dataset(n)
        check(isinstance(x, MaterializedView if md["kind"] == "mv" else
                         Dataset), "a name loads with a wrong kind", other=n,
              **kw)
        dsx = x.dataset if md["kind"] == "mv" else x
        s = md["schema"]
        check(_strip_schema(dsx.schema) == _strip_schema(s.arrow) and
              list(dsx.primary_keys) == s.pks and
              list(dsx.record_fields) == s.records,
              "a name loads with a wrong schema", other=n, **kw)
        if md["kind"] == "ds":
          lib.check_same_rows(md["rows"], lib.read_rows(dsx),
                              "a name loads with wrong content", other=n, **kw)
        else:
          check(list(x.view.sources) == [os.path.join(root, md["src"])],
                "a view loads with a wrong source", other=n, **kw)
  return {"log": log, "names": sorted(model)}


# ---------------------------------------------------------------------------
# C18
# ---------------------------------------------------------------------------
def _follow_up(rng, w, kw):
  """Loaded rows take part in later operations."""
  for _ in range(rng.randrange(0, 4)):
    kind = rng.choice(["delete", "upsert", "append"])
    before = w.live(w.meta(), "main")
    ev = w.step(kind)
    if ev.committed():
      removed, added = op_delta(w, ev)
      exp = lib.multiset(before)
      exp.subtract(lib.multiset(removed))
      exp.update(lib.multiset(added))
      got = lib.multiset(w.live(ev.post, "main"))
      check(+exp == got, "an operation on loaded rows is wrong",
            **lib.diff_ms(+exp, got), **kw)
      lib.check_same_rows(w.live(ev.post, "main"),
                          lib.read_rows(w.handles[0]),
                          "rows read back after loading are wrong", **kw)
      check_stats(w, ev, w.log)
      check_manifests(w, ev.post, ev.post.snapshots[ev.committed()[0]], w.log)
      lo = ev.post.snapshots[ev.committed()[0]].parent_snapshot_id
      check_feed(w, w.handles[0], ev.post, lo, ev.committed()[0],
                 {ev.committed()[0]: (removed, added)}, w.log)


class _Ev:
  def __init__(self, pre, post, result):
    self.pre, self.post, self.result = pre, post, result

  def committed(self):
    return [i for i in self.post.snapshots if i not in self.pre.snapshots]


def _check_load(w, pre, res, rows, ext, ext_digest, kw):
  post = w.meta()
  ev = _Ev(pre, post, res)
  new = ev.committed()
  before = w.live(pre, "main")
  if not rows:
    check(not new, "loading no rows created a version", **kw)
    check(res.state.name != "SUCCEEDED", "nothing was loaded but "
          "the operation reports success", **kw)
    return ev
  check(res.state.name == "SUCCEEDED" and len(new) == 1, "loading failed",
        error=res.error_message, **kw)
  lib.check_same_rows(before + rows, w.live(post, "main"),
                      "stored rows after loading are wrong", **kw)
  lib.check_same_rows(before + rows, lib.read_rows(w.handles[0]),
                      "rows read after loading are wrong", **kw)
  check(lib.tree_digest(ext) == ext_digest, "external files were modified",
        **kw)
  check_stats(w, ev, w.log)
  check_feed(w, w.handles[0], post, post.snapshots[new[0]].parent_snapshot_id,
             new[0], {new[0]: ([], rows)}, w.log)
  return ev


def c18(rng, d, tier):
  s = lib.gen_schema(rng, n_records=0)
  w = World(rng, os.path.join(d, "ds"), s, domain=rng.choice([4, 12]),
            kinds={"append": 1, "delete": 1, "upsert": 1})
  if rng.random() < 0.5:
    w.step("append")
  ext = os.path.join(d, "ext dir")
  os.makedirs(ext)
  rows, n = [], rng.randrange(0, 4)
  nested = rng.random() < 0.4  # equal names in different directories
  for i in range(n):
    part = w.new_rows(rng.randrange(1, 8) if rng.random() < .85 else 0)
    rows += part
    t = s.table(part)
    if nested:
      os.makedirs(os.path.join(ext, f"d{i}"))
    lib.pq.write_table(t, os.path.join(ext, f"d{i}/p.parquet" if nested else
                                       f"p{i}.parquet"),
                       row_group_size=rng.choice([1, 2, 3, 100]),
                       write_statistics=rng.random() < 0.85,
                       compression=rng.choice(["snappy", "none"]))
  if rng.random() < 0.5:  # not matched by the pattern
    lib.pq.write_table(s.table(w.new_rows(2)), os.path.join(ext, "other.pq"))
  dg = lib.tree_digest(ext)
  pre, cwd = w.meta(), os.getcwd()
  relative = rng.random() < 0.3
  try:
    if relative:
      os.chdir(d)
    res = w.handles[0].local().append_parquet(
        ("" if relative else d + os.sep) + "ext dir/" + (
            "*/" if nested else "") + "*.parquet")
  finally:
    os.chdir(cwd)
  kw = {"files": n, "relative": relative, "nested": nested, "schema": s.describe(),
        "before": w.log[:2]}
  ev = _check_load(w, pre, res, rows, ext, dg, kw)
  for sid in ev.committed():
    check_manifests(w, ev.post, ev.post.snapshots[sid], w.log)
  _follow_up(rng, w, kw)
  check(lib.tree_digest(ext) == dg, "external files were modified", **kw)
  return {**kw, "rows": len(rows), "log": w.log}


def c18_array_record(rng, d, tier):
  s = lib.gen_schema(rng, n_records=1, nested=False)
  w = World(rng, os.path.join(d, "ds"), s, domain=rng.choice([4, 12]),
            kinds={"append": 1, "delete": 1, "upsert": 1})
  if rng.random() < 0.4:
    w.step("append")
  ext = os.path.join(d, "ext")
  os.makedirs(ext)
  field = s.records[0]
  ar = lib.array_record()
  rows, table, n = [], {}, rng.randrange(0, 4)
  nested = rng.random() < 0.4  # equal names in different directories
  for i in range(n):
    if nested:
      os.makedirs(os.path.join(ext, f"d{i}"))
    wr = ar.ArrayRecordWriter(os.path.join(
        ext, f"d{i}/r.array_record" if nested else f"r{i}.array_record"),
                              "group_size:1")
    for r in w.new_rows(rng.randrange(0, 7)):
      if r[field] in table:
        continue
      table[r[field]] = r
      rows.append(r)
      wr.write(r[field])
    wr.close()
  dg = lib.tree_digest(ext)
  seen = []

  def index_fn(record):
    v = record[field]
    v = v[0] if isinstance(v, list) else v
    seen.append(v)
    return {k: x for k, x in table[v].items() if k != field}

  pre, cwd = w.meta(), os.getcwd()
  relative = rng.random() < 0.3
  try:
    if relative:
      os.chdir(d)
    res = w.handles[0].local(lib.gen_file_options(rng)).append_array_record(
        ("" if relative else d + os.sep) + "ext/" + (
            "*/" if nested else "") + "*.array_record", index_fn)
  finally:
    os.chdir(cwd)
  kw = {"files": n, "relative": relative, "nested": nested,
        "schema": s.describe()}
  check(collections.Counter(seen) == collections.Counter(list(table)),
        "the index function is not called once per record", **kw)
  post = w.meta()
  new = [i for i in post.snapshots if i not in pre.snapshots]
  before = w.live(pre, "main")
  if not rows:
    check(not new, "loading no rows created a version", **kw)
    return {"trivial": True}
  check(res.state.name == "SUCCEEDED" and len(new) == 1, "loading failed",
        error=res.error_message, **kw)
  lib.check_same_rows(before + rows, w.live(post, "main"),
                      "stored rows after loading are wrong", **kw)
  lib.check_same_rows(before + rows, lib.read_rows(w.handles[0]),
                      "rows read after loading are wrong", **kw)
  check_feed(w, w.handles[0], post, post.snapshots[new[0]].parent_snapshot_id,
             new[0], {new[0]: ([], rows)}, w.log)
  st, par = (post.snapshots[i].storage_statistics for i in
             (new[0], post.snapshots[new[0]].parent_snapshot_id))
  check(st.num_rows == len(before) + len(rows), "wrong number of rows",
        recorded=st.num_rows, actual=len(before) + len(rows), **kw)
  check(st.record_uncompressed_bytes - par.record_uncompressed_bytes ==
        sum(len(r[field]) for r in rows), "wrong record bytes",
        recorded=st.record_uncompressed_bytes - par.record_uncompressed_bytes,
        actual=sum(len(r[field]) for r in rows), **kw)
  for _ in range(rng.randrange(0, 3)):
    before = w.live(w.meta(), "main")
    ev = w.step(rng.choice(["delete", "upsert", "append"]))
    if ev.committed():
      removed, added = op_delta(w, ev)
      exp = lib.multiset(before)
      exp.subtract(lib.multiset(removed))
      exp.update(lib.multiset(added))
      got = lib.multiset(lib.read_rows(w.handles[0]))
      check(+exp == got, "an operation on loaded rows is wrong",
            **lib.diff_ms(+exp, got), **kw)
  check(lib.tree_digest(ext) == dg, "external files were modified", **kw)
  return {**kw, "rows": len(rows), "log": w.log}
