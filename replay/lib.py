"""Shared helpers of the concrete contract replay (runs under /opt/venv).

Everything here exercises the real code of /repo through its public interface
and compares with oracles that do not use /repo's code: a Python model of the
dataset content, and a raw reader built directly on pyarrow/array_record.
"""
from __future__ import annotations

import collections
import contextlib
import json
import os
import random
import shutil
import sys
import tempfile
import traceback
import warnings

os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/python/src")
sys.dont_write_bytecode = True
if REPO_SRC not in sys.path:
  sys.path.insert(0, REPO_SRC)
warnings.simplefilter("ignore")

from absl import logging as _absl_logging  # noqa: E402
_absl_logging.set_verbosity(_absl_logging.FATAL)

import pyarrow as pa  # noqa: E402
import pyarrow.compute as pc  # noqa: E402
import pyarrow.parquet as pq  # noqa: E402


class Violation(Exception):
  """The property is broken: message and structured detail."""

  def __init__(self, msg, **detail):
    super().__init__(msg)
    self.msg = msg
    self.detail = detail


class Skip(Exception):
  """The case cannot be evaluated (not a verdict)."""


def check(cond, msg, **detail):
  if not cond:
    raise Violation(msg, **detail)


# ----------------------------------------------------------------------------
# canonical values
# ----------------------------------------------------------------------------
def canon(v):
  """Hashable canonical form of a Python value."""
  if isinstance(v, float):
    if v != v:
      return ("nan",)
    return ("f", v)
  if isinstance(v, bool):
    return ("b", v)
  if isinstance(v, dict):
    return ("d",) + tuple((k, canon(v[k])) for k in sorted(v))
  if isinstance(v, (list, tuple)):
    return ("l",) + tuple(canon(x) for x in v)
  return v


def canon_row(row, fields=None):
  keys = sorted(row if fields is None else fields)
  return tuple((k, canon(row[k])) for k in keys)


def canon_rows(rows, fields=None):
  return [canon_row(r, fields) for r in rows]


def multiset(rows, fields=None):
  return collections.Counter(canon_rows(rows, fields))


def diff_ms(exp, got):
  missing = list((exp - got).elements())[:4]
  extra = list((got - exp).elements())[:4]
  return {"missing": repr(missing)[:600], "unexpected": repr(extra)[:600]}


def check_same_rows(exp_rows, got_rows, msg, ordered=False, fields=None, **kw):
  e, g = canon_rows(exp_rows, fields), canon_rows(got_rows, fields)
  if ordered:
    if e != g:
      ce, cg = collections.Counter(e), collections.Counter(g)
      d = diff_ms(ce, cg) if ce != cg else {"order": "rows are reordered"}
      raise Violation(msg, expected=len(e), got=len(g), **d, **kw)
  else:
    ce, cg = collections.Counter(e), collections.Counter(g)
    if ce != cg:
      raise Violation(msg, expected=len(e), got=len(g), **diff_ms(ce, cg), **kw)


# ----------------------------------------------------------------------------
# datasets
# ----------------------------------------------------------------------------
def modules():
  """Import the code under test lazily (an import failure is not a verdict)."""
  import space  # noqa: F401
  from space import Dataset
  from space.core import options
  return Dataset, options


PK_TYPES = [pa.int64(), pa.int32(), pa.string(), pa.float64(), pa.float32(),
            pa.bool_(), pa.binary()]


def gen_value(rng, t, domain=12, nullable=False):
  if nullable and rng.random() < 0.2:
    return None
  if pa.types.is_int64(t) or pa.types.is_int32(t):
    return rng.randrange(-domain // 4, domain)
  if pa.types.is_string(t):
    return rng.choice(["", "a", "b", "ab", "B", "é", "zz", "k%d" %
                       rng.randrange(domain)])
  if pa.types.is_floating(t):
    return rng.choice([0.0, 0.5, -1.25, 2.0, float(rng.randrange(domain))])
  if pa.types.is_boolean(t):
    return rng.random() < 0.5
  if pa.types.is_binary(t):
    return rng.choice([b"", b"\xff", b"a", b"k%d" % rng.randrange(domain)])
  if pa.types.is_list(t):
    return [gen_value(rng, t.value_type, domain) for _ in range(rng.randrange(3))]
  if pa.types.is_struct(t):
    return {t.field(i).name: gen_value(rng, t.field(i).type, domain)
            for i in range(t.num_fields)}
  raise NotImplementedError(t)


class Schema:
  """A random dataset schema description."""

  def __init__(self, fields, pks, records):
    self.fields = fields  # [(name, type)]
    self.pks = pks
    self.records = records
    self.arrow = pa.schema(fields)
    self.index_fields = [n for n, _ in fields if n not in records]

  def describe(self):
    return {"fields": [(n, str(t)) for n, t in self.fields], "pks": self.pks,
            "records": self.records}

  def gen_row(self, rng, seq, domain=12, null_pk=False, big=False):
    row = {}
    for n, t in self.fields:
      if n in self.records:
        row[n] = b"r%d:%s:" % (seq, n.encode()) + bytes([65 + seq % 26]) * (
            rng.randrange(0, 60) if big else rng.randrange(0, 6))
      else:
        row[n] = gen_value(rng, t, domain,
                           nullable=(n not in self.pks) or null_pk)
    return row

  def table(self, rows, chunks=None):
    t = pa.Table.from_pylist(rows, schema=self.arrow)
    if chunks and len(rows) > 1:
      parts, o = [], 0
      while o < len(rows):
        parts.append(t.slice(o, chunks))
        o += chunks
      t = pa.concat_tables(parts)
    return t


def gen_schema(rng, n_records=None, pk_types=None, nested=True, n_pk=None,
               max_extra=3):
  fields = []
  n_pk = n_pk or rng.choice([1, 1, 1, 2])
  pk_types = pk_types or PK_TYPES
  for i in range(n_pk):
    t = rng.choice(pk_types if i else [x for x in pk_types
                                       if not pa.types.is_boolean(x)] or
                   pk_types)
    fields.append((f"k{i}", t))
  pks = [f[0] for f in fields]
  extra = [pa.int64(), pa.float64(), pa.string(), pa.bool_(), pa.int32()]
  if nested:
    extra += [pa.list_(pa.int64()),
              pa.struct([("k0", pa.int64()), ("b", pa.string())]),
              pa.list_(pa.struct([("z", pa.int64())]))]
  for i in range(rng.randrange(0, max_extra)):
    fields.append((f"x{i}", rng.choice(extra)))
  if n_records is None:
    n_records = rng.choice([0, 1, 1, 2])
  records = [f"rec{i}" for i in range(n_records)]
  for r in records:
    fields.append((r, pa.binary()))
  rng.shuffle(fields)
  rng.shuffle(pks)
  return Schema(fields, pks, records)


def gen_file_options(rng, tiny=None):
  _, options = modules()
  tiny = rng.random() < 0.75 if tiny is None else tiny
  if not tiny:
    return options.FileOptions()
  fo = options.FileOptions()
  fo.parquet_options.max_uncompressed_row_group_bytes = rng.choice(
      [0, 1, 60, 200, 100 * 1024])
  fo.parquet_options.max_uncompressed_file_bytes = rng.choice(
      [0, 1, 150, 400, 1024 * 1024])
  fo.array_record_options.max_uncompressed_file_bytes = rng.choice(
      [0, 1, 20, 60, 1024 * 1024])
  return fo


def fo_desc(fo):
  return {"row_group": fo.parquet_options.max_uncompressed_row_group_bytes,
          "file": fo.parquet_options.max_uncompressed_file_bytes,
          "array_record": fo.array_record_options.max_uncompressed_file_bytes}


def create(location, schema: Schema):
  Dataset, _ = modules()
  return Dataset.create(str(location), schema.arrow, list(schema.pks),
                        list(schema.records))


def read_rows(ds, **kw):
  """All rows through the public local runner, as a list of dicts."""
  t = ds.local().read_all(**kw)
  return [] if t is None else t.to_pylist()


def state_name(result):
  return result.state.name


# ----------------------------------------------------------------------------
# raw reader: metadata -> manifests -> parquet -> array_record, no repo code
# ----------------------------------------------------------------------------
def raw_metadata(location):
  from google.protobuf import text_format
  from space.core.proto import metadata_pb2 as meta
  ep = text_format.Parse(
      open(os.path.join(location, "metadata", "entrypoint.txtpb")).read(),
      meta.EntryPoint())
  return text_format.Parse(
      open(os.path.join(location, ep.metadata_file)).read(),
      meta.StorageMetadata())


def raw_manifest_rows(location, snapshot, record=False):
  out = []
  files = (snapshot.manifest_files.record_manifest_files if record else
           snapshot.manifest_files.index_manifest_files)
  for m in files:
    for r in pq.ParquetFile(os.path.join(location, m)).read().to_pylist():
      out.append((m, r))
  return out


_AR = None


def array_record():
  global _AR
  if _AR is None:
    from array_record.python import array_record_module as ar
    _AR = ar
  return _AR


def raw_record_file(path):
  r = array_record().ArrayRecordReader(path)
  v = r.read_all()
  r.close()
  return v


def raw_rows(location, snapshot, records=()):
  """Rows of a snapshot, read without the code under test."""
  rows, cache = [], {}
  for _, m in raw_manifest_rows(location, snapshot):
    t = pq.ParquetFile(os.path.join(location, m["_FILE"])).read()
    for r in t.to_pylist():
      for f in records:
        a = r[f]
        p = os.path.join(location, a["_FILE"])
        if p not in cache:
          cache[p] = raw_record_file(p)
        r[f] = cache[p][a["_ROW_ID"]]
      rows.append(r)
  return rows


# ----------------------------------------------------------------------------
# random filters, with independent evaluation
# ----------------------------------------------------------------------------
OPS = ["==", "!=", "<", "<=", ">", ">="]


def _cmp(op, a, b):
  return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b,
          "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()


class Filter:
  """A filter with its Arrow expression and a Python three-valued evaluator."""

  def __init__(self, expr, ev, text):
    self.expr, self.ev, self.text = expr, ev, text

  def matches(self, row):
    return self.ev(row) is True


def _arrow_cmp(op, a, b):
  return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b,
          "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()


def gen_filter(rng, schema: Schema, depth=2, allow_not=False, fields=None,
               domain=12):
  prim = [(n, t) for n, t in schema.fields if n in schema.index_fields and
          not pa.types.is_nested(t)]
  if fields:
    prim = [(n, t) for n, t in prim if n in fields]
  k = rng.random()
  if depth > 0 and k < 0.55:
    a = gen_filter(rng, schema, depth - 1, allow_not, fields, domain)
    b = gen_filter(rng, schema, depth - 1, allow_not, fields, domain)
    if rng.random() < 0.5:
      def ev_and(r):
        x, y = a.ev(r), b.ev(r)
        if x is False or y is False:
          return False
        return None if x is None or y is None else True
      return Filter(a.expr & b.expr, ev_and, f"({a.text} and {b.text})")

    def ev_or(r):
      x, y = a.ev(r), b.ev(r)
      if x is True or y is True:
        return True
      return None if x is None or y is None else False
    return Filter(a.expr | b.expr, ev_or, f"({a.text} or {b.text})")
  if allow_not and depth > 0 and k < 0.65:
    a = gen_filter(rng, schema, depth - 1, allow_not, fields, domain)

    def ev_not(r):
      x = a.ev(r)
      return None if x is None else not x
    return Filter(~a.expr, ev_not, f"not({a.text})")
  n, t = rng.choice(prim)
  op = rng.choice(OPS)
  if pa.types.is_boolean(t):
    op = rng.choice(["==", "!="])
  same = [m for m, u in prim if u == t and m != n]
  if same and rng.random() < 0.3:
    m = rng.choice(same)

    def ev_ff(r):
      if r[n] is None or r[m] is None:
        return None
      return _cmp(op, r[n], r[m])
    return Filter(_arrow_cmp(op, pc.field(n), pc.field(m)), ev_ff,
                  f"{n} {op} {m}")
  v = gen_value(rng, t, domain)

  def ev_fl(r):
    return None if r[n] is None else _cmp(op, r[n], v)

  def ev_lf(r):
    return None if r[n] is None else _cmp(op, v, r[n])
  if rng.random() < 0.25:
    return Filter(_arrow_cmp(op, pc.scalar(v), pc.field(n)), ev_lf,
                  f"{v!r} {op} {n}") if not isinstance(v, bool) else Filter(
                      _arrow_cmp(op, pc.field(n), pc.scalar(v)), ev_fl,
                      f"{n} {op} {v!r}")
  return Filter(_arrow_cmp(op, pc.field(n), pc.scalar(v)), ev_fl,
                f"{n} {op} {v!r}")


# ----------------------------------------------------------------------------
# scratch directories
# ----------------------------------------------------------------------------
@contextlib.contextmanager
def scratch(base):
  d = tempfile.mkdtemp(prefix="case_", dir=base)
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


def from_repo(tb):
  """True if the exception was raised inside the code under test (or below)."""
  inside = False
  while tb is not None:
    fn = tb.tb_frame.f_code.co_filename
    if os.path.realpath(fn).startswith(os.path.realpath(REPO_SRC)):
      inside = True
    tb = tb.tb_next
  return inside


def tree_digest(location, exclude=()):
  """path -> content hash of all files below a location."""
  import hashlib
  out = {}
  for d, _, fs in os.walk(location):
    for f in fs:
      p = os.path.join(d, f)
      rel = os.path.relpath(p, location)
      if rel in exclude:
        continue
      with open(p, "rb") as h:
        out[rel] = hashlib.sha1(h.read()).hexdigest()
  return out
