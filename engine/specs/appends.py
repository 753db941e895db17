"""core/ops/append.py: LocalAppendOp, by induction over the batches written."""
from __future__ import annotations

import sys

import z3

from engine import core, proto, stubs
from engine.core import (cx, VList, SymStr, SymNum, SymBool, And, Or, Not,
                         Implies, sym_str, sym_int, sym_bool, vc_eq, term, I,
                         B, Str, Comp, ufun, wrap)
from engine.specs.deletes import IntRange, arange
from engine.specs.manifests import RT, M
from engine.specs.runners import Token
from engine.stubs import patched, NS
from engine.unit import unit, call, Raised, error_name


def A():
  return sys.modules["space.core.ops.append"]


# ----------------------------------------------------------------------------
# contracts: tables are ranges of the rows written so far, in order
# ----------------------------------------------------------------------------
def size(x, what="nbytes"):
  if not hasattr(x, "_" + what):
    n = cx.fresh(what, I)
    cx.assume(n >= 0)
    if cx.ghost.get("small") is not None:
      cx.assume(n <= term(cx.ghost["small"]))
    setattr(x, "_" + what, wrap(n))
  return getattr(x, "_" + what)


class Tab:
  """pa.Table: rows of the input (ranges of row numbers) and columns; a column
  not in `given` has the values of the input."""
  vc_constant = True

  def __init__(self, ranges, names, given=()):
    self.ranges = [(a, b) for a, b in ranges]
    self.names, self.given = names, dict(given)

  @property
  def num_rows(self):
    return wrap(z3.simplify(sum((b - a for a, b in self.ranges),
                                z3.IntVal(0))))

  def vc_len(self):
    return self.num_rows

  @property
  def nbytes(self):
    return size(self)

  get_total_buffer_size = None

  @property
  def column_names(self):
    return self.names

  def has(self, x):
    return core.contains(self.names, x)

  def select(self, names):
    names = core.b_list(names)
    cx.ghost.setdefault("$selects", []).append(1)
    check_each(names, lambda n: cx.prove("a column selected exists",
                                         self.has(n)))
    return Tab(self.ranges, names, self.given)

  def column(self, name):
    cx.prove("a column read exists", self.has(name))
    if isinstance(name, str) and name in self.given:
      return self.given[name]
    return Column(self, name)

  __getitem__ = column

  def append_column(self, name, col):
    if isinstance(col, Column):
      cx.record("a column keeps its name and rows", col.name == name and
                col.tab.ranges == self.ranges, f"{col} as {name}")
    elif isinstance(col, Addresses):
      addresses_ok(self, name, col)
    else:
      raise core.Unsupported(f"a column {col}")
    g = dict(self.given)
    g[name] = col
    return Tab(self.ranges, VList(self.names) + VList([name]), g)

  def slice(self, offset=0, length=None):
    if len(self.ranges) != 1:
      raise core.Unsupported("a slice of rows of several batches")
    a, b = self.ranges[0]
    o = term(offset)
    cx.prove("a slice starts in the table", z3.And(o >= 0, o <= b - a))
    e = b if length is None else z3.If(a + o + term(length) < b,
                                       a + o + term(length), b)
    return Tab([(z3.simplify(a + o), z3.simplify(e))], self.names, self.given)

  @staticmethod
  def from_pydict(d, **kw):
    return d.table

  @staticmethod
  def concat(tabs, *a, **k):
    ts = core.b_list(tabs).need("concat")
    rs = []
    for t in ts:
      rs = joined(rs + t.ranges)
    cx.record("tables put together have the same columns",
              all(names_eq(t.names, ts[0].names) for t in ts))
    return Tab(rs, ts[0].names, ts[0].given)


def joined(rs):
  out = []
  for a, b in rs:
    if out and cx.entails(out[-1][1] == a):
      out[-1] = (out[-1][0], b)
    else:
      out.append((a, b))
  return out


def check_each(names, fn):
  c = names.concrete()
  if c is not None:
    for n in c:
      fn(n)
    return
  for s in names.segs:
    if isinstance(s, list):
      for n in s:
        fn(n)
      continue

    @cx.case
    def _(s=s):
      i = cx.fresh("anyname", I)
      cx.assume(s.domain.member(i))
      s.domain.note(i)
      for g, ys in s.at(i):
        @cx.case
        def _(g=g, ys=ys):
          cx.assume(g)
          for y in ys:
            fn(y)


class Column:
  """The values of a field of the input."""
  vc_constant = True

  def __init__(self, tab, name):
    self.tab, self.name = tab, name
    self.a, self.b = tab.ranges[0]
    if len(tab.ranges) != 1:
      raise core.Unsupported("a column of rows of several batches")

  def length(self):
    return self.tab.num_rows
  vc_len = length

  @property
  def nbytes(self):
    k = "$colbytes"
    m = cx.ghost.setdefault(k, {})
    key = (self.name, self.a.sexpr())
    if key not in m:
      n = cx.fresh("colbytes", I)
      cx.assume(n >= 0)
      m[key] = wrap(n)
    return m[key]

  @property
  def chunks(self):
    m = cx.ghost.setdefault("$chunks", {})
    key = (self.name, self.a.sexpr())
    if key not in m:
      n = cx.fresh("chunks", I)
      cx.assume(n >= 0)
      dom = core.Domain("chunks", n=n)
      dom.fact(lambda g: chunk_rows(self, g) >= 0)
      m[key] = core.symbolic_list("chunks", lambda g: Chunk(self, g),
                                  dom=dom) + (dom,)
    return VList(m[key][0])

  def values(self):
    return core.symbolic_list(
        "values", lambda g: Value(self.name, self.a + g),
        dom=core.index_domain(term(self.length())))[0]
  vc_list = to_pylist = values

  def combine_chunks(self):
    return self

  @property
  def num_chunks(self):
    return self.chunks.vc_len()

  def chunk(self, i):
    return Chunk(self, term(i))


def chunk_rows(col, g):
  return ufun("chunk.rows", Str, I, I, I)(cx.lit(col.name), col.a, g)


class Chunk:
  """A chunk of a column; the chunks together are the column, in order."""
  vc_constant = True

  def __init__(self, col, g):
    self.col, self.g = col, g

  def vc_subst(self, sub):
    return Chunk(self.col, sub(self.g))

  def vc_list(self):
    n = chunk_rows(self.col, self.g)
    return core.symbolic_list(
        "chunk", lambda j: Value(self.col.name, (self.col, self.g, j)),
        dom=core.index_domain(n))[0]
  to_pylist = vc_list


class Value:
  vc_constant = True

  def __init__(self, field, row):
    self.field, self.row = field, row

  def vc_subst(self, sub):
    if isinstance(self.row, tuple):
      return Value(self.field, (self.row[0], sub(self.row[1]),
                                sub(self.row[2])))
    return Value(self.field, sub(self.row))

  def as_py(self):
    return self


class Addresses:
  """Record addresses: file, and consecutive record numbers."""
  vc_constant = True

  def __init__(self, file, start, n):
    self.file, self.start, self.n = file, start, n


def from_arrays(arrays, fields=None, names=None, **kw):
  p, r = core.b_list(arrays).need("arrays")
  if isinstance(p, core.Arr):
    p = p.vc_list()
  if isinstance(p, core.VList):
    one = core.one_each(p)
    c = p.concrete()
    if c is not None:
      if c:
        raise core.Unsupported("addresses")
      f, n = None, z3.IntVal(0)
    else:
      f, n = one[1](z3.IntVal(0)), one[0].n
  else:
    raise core.Unsupported("paths of addresses")
  cx.prove("an address has a record number", SymBool(
      n == term(r.hi) - term(r.lo)))
  cx.record("addresses are a file and a record number", fields is ADDRESS,
            str(fields))
  return Addresses(f, term(r.lo), n)


ADDRESS = Token("address fields")


def addresses_ok(tab, name, col):
  """Each address is that of the record of its row."""
  n = term(tab.num_rows)
  cx.prove("there is an address for each row", col.n == n)
  ws = cx.ghost["$records"]
  if len(tab.ranges) != 1:
    raise core.Unsupported("addresses for rows of several batches")
  a = tab.ranges[0][0]

  @cx.case
  def _():
    k = cx.fresh("anyrow", I)
    cx.assume(z3.And(k >= 0, k < n))
    ok = []
    for w in ws:
      lay = w.layout()
      if lay is None:
        cx.mark_imprecise("records written that are not those of a column")
        continue
      for pos, f, r0, m in lay:
        at = col.start + k
        ok.append(And(vc_eq(col.file, w.short), SymBool(z3.And(
            z3.BoolVal(f == name), at >= pos, at < pos + m,
            r0 + (at - pos) == a + k))))
    cx.prove("the address of a row is that of its record", Or(*ok))


class PqWriter:
  vc_mutable = ("ranges", "closed", "names")

  def __init__(self, path, schema, earlier=()):
    self.path, self.schema = path, schema
    self.ranges, self.closed = list(earlier), False
    cx.ghost["$files"].append(self)

  def write_table(self, t, row_group_size=None):
    cx.record("a file is not written after it is closed", not self.closed)
    names = self.schema.names
    cx.record("rows are written with the columns of the schema, in order",
              names_eq(t.names, names), str(t.names))
    if not cx.ghost["address input"]:
      for f in cx.ghost["record fields"]:
        cx.record("record fields are stored as addresses", isinstance(
            t.given.get(f), Addresses), str(t.given))
    self.ranges = joined(self.ranges + t.ranges)
  write = write_table

  def close(self):
    self.closed = True

  @property
  def writer(self):
    return NS(metadata=FileMeta(self))

  @property
  def rows(self):
    return sum((b - a for a, b in self.ranges), z3.IntVal(0))

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()


def names_eq(a, b):
  if a is b or (a.concrete() is not None and a.concrete() == b.concrete()):
    return True
  x, y = core.one_each(a), core.one_each(b)
  return x is not None and y is not None and x[0] is y[0] and cx.entails(
      core.as_bool(core.forall(x[0], lambda t: core.as_bool(
          vc_eq(x[1](t), y[1](t))))))


class FileMeta:
  vc_constant = True

  def __init__(self, w):
    self.w = w

  @property
  def num_rows(self):
    return wrap(self.w.rows)


class ArWriter:
  vc_mutable = ("records", "closed")

  def __init__(self, path, options=None, earlier=()):
    self.path = path
    self.records, self.closed = VList(), False
    self.earlier = list(earlier)
    cx.ghost["$records"].append(self)

  @property
  def short(self):
    return stubs.Path.relpath(self.path, cx.ghost["location"])

  def write(self, v):
    self.records.append(v)

  def close(self):
    self.closed = True

  def layout(self):
    """[(position, field, first row, number of rows)], or None."""
    pos, out = z3.IntVal(0), []
    for f, a, n in self.earlier:
      out.append((pos, f, a, n))
      pos = pos + n
    for s in self.records.segs:
      if isinstance(s, list):
        for v in s:
          if not isinstance(v, Value) or isinstance(v.row, tuple):
            return None
          out.append((pos, v.field, v.row, z3.IntVal(1)))
          pos = pos + 1
        continue
      if not isinstance(s, Comp) or len(s.alts) != 1:
        return None
      g, ys = s.alts[0]
      v, d = ys[0] if len(ys) == 1 else None, s.domain
      if not isinstance(v, Value) or not always(s):
        return None
      fl = getattr(d, "flat", None)
      if fl is not None and isinstance(v.row, tuple):
        col, o, i = v.row
        want = cx.ghost["$chunks"].get((v.field, col.a.sexpr()))
        t = z3.Const(cx.name("flat"), I)
        w = s.at(t)[0][1][0]
        if want is None or fl.outer is not want[2] or not (
            w.row[1].eq(fl.o(t)) and w.row[2].eq(fl.i(t))):
          return None
        a, n = col.a, term(col.length())
      elif not isinstance(v.row, tuple) and d.n is not None:
        t = z3.Const(cx.name("at"), I)
        a, n = s.at(z3.IntVal(0))[0][1][0].row, d.n
        if not cx.entails(s.at(t)[0][1][0].row == a + t):
          return None
      else:
        return None
      out.append((pos, v.field, a, n))
      pos = pos + n
    return out

  def count(self):
    lay = self.layout()
    if lay is None:
      return None
    return sum((n for _, _, _, n in lay), z3.IntVal(0))


def always(s):
  """Each index of the segment has its element."""
  ok = []

  @cx.case
  def _():
    t = cx.fresh("at", I)
    cx.assume(s.domain.member(t))
    s.domain.note(t)
    ok.append(cx.entails(core.as_bool(s.at(t)[0][0])))
  return ok == [True]


class IndexManifests:
  """Contract of IndexManifestWriter (units IndexManifestWriter.*)."""
  vc_mutable = ("written", "tables")

  def __init__(self, metadata_dir, schema, keys, *a, **k):
    self.dir, self.schema, self.keys = metadata_dir, schema, keys
    self.written, self.tables, self.finished = [], [], None
    self.before = False
    cx.ghost["$im"].append(self)

  def write(self, path, metadata):
    w = metadata.w
    cx.record("a file is listed when it is complete", w.closed)
    st = M().StorageStatistics(
        num_rows=wrap(w.rows), index_compressed_bytes=sym_int("compressed"),
        index_uncompressed_bytes=sym_int("uncompressed"))
    self.written = self.written + [(path, w, st)]
    return st.copy()

  def write_arrow(self, t):
    self.tables = self.tables + [t]

  def finish(self):
    cx.record("the manifest is finished once", self.finished is None)
    if not self.written and not self.tables and not self.before:
      return None
    self.finished = manifest_path(self.dir, "index_manifest_")
    return self.finished


def manifest_path(d, prefix):
  p = stubs.Path.join(d, core.fstr(prefix, stubs.uuid_(), ".parquet"))
  cx.defs.append(p.t != cx.lit(""))
  return p


class RecordManifests:
  """Contract of RecordManifestWriter (unit RecordManifestWriter)."""
  vc_mutable = ("written",)

  def __init__(self, metadata_dir, *a, **k):
    self.dir = metadata_dir
    self.written, self.finished = [], None
    self.before = False
    cx.ghost["$rm"].append(self)

  def write(self, path, field_id, stats):
    self.written = self.written + [(path, field_id, stats.copy())]

  def finish(self):
    cx.record("the manifest is finished once", self.finished is None)
    if not self.written and not self.before:
      return None
    self.finished = manifest_path(self.dir, "record_manifest_")
    return self.finished


class Setup:
  """An append operation over the contracts."""

  def __init__(self, fields, address_input=False):
    g = cx.ghost
    for k in ("$files", "$records", "$im", "$rm"):
      g[k] = []
    g["record fields"], g["address input"] = fields, address_input
    self.fields = fields
    self.loc = g["location"] = sym_str("location")
    a = A()
    F = sys.modules["space.core.schema.utils"].Field
    self.metadata = M().StorageMetadata()
    self.metadata.schema.primary_keys.extend(["key"])
    if fields:
      self.metadata.schema.record_fields.extend(fields)
      names = VList(["k1", fields[0], "k2"] + fields[1:])
      index = VList([F("k1", 1), F("k2", 3)])
      self.record = VList([F(f, 10 + i) for i, f in enumerate(fields)])
      self.dom = None
    else:
      dom = core.Domain("fields", n=cx.fresh("fields", I))
      name = ufun("field.name", I, Str)
      names = core.symbolic_list("names", lambda t: SymStr(name(t)),
                                 dom=dom)[0]
      index = core.symbolic_list("index", lambda t: F(
          SymStr(name(t)), SymNum(ufun("field.id", I, I)(t))), dom=dom)[0]
      self.record = VList()
      self.dom = dom
    self.schema = NS(names=names)
    self.names = names
    self.row_group, self.file = sym_int("row_group"), sym_int("file")
    self.rec = sym_int("record_file")
    self.options = NS(
        parquet_options=NS(max_uncompressed_row_group_bytes=self.row_group,
                           max_uncompressed_file_bytes=self.file),
        array_record_options=NS(max_uncompressed_file_bytes=self.rec,
                                options="options"))
    self.patches = [
        patched(a, pq=NS(ParquetWriter=PqWriter),
                pa=NS(Table=Tab, concat_tables=Tab.concat),
                ar=NS(ArrayRecordWriter=ArWriter),
                arrow=NS(arrow_schema=self.arrow_schema,
                         classify_fields=lambda s, r, selected_fields=None: (
                             index, self.record)),
                IndexManifestWriter=IndexManifests,
                RecordManifestWriter=RecordManifests),
        patched(sys.modules["space.core.ops.utils"],
                pa=NS(StructArray=NS(from_arrays=from_arrays),
                      array=lambda x, *a, **k: x, string=lambda: "string"),
                np=NS(arange=arange, int32="int32"),
                arrow=NS(record_address_types=lambda: ADDRESS))]
    with self:
      self.op = a.LocalAppendOp(self.loc, self.metadata, self.options,
                                address_input)
    self.im, = g["$im"]
    self.rm, = g["$rm"]
    self.n = z3.IntVal(0)
    self.listed = False

  def arrow_schema(self, fields, record_fields, physical):
    cx.record("files have the physical schema", physical is True)
    return self.schema

  def __enter__(self):
    for p in self.patches:
      p.__enter__()

  def __exit__(self, *a):
    for p in reversed(self.patches):
      p.__exit__(*a)

  def batch(self):
    """The next rows of the input."""
    m = cx.fresh("batch", I)
    cx.assume(m >= 0)
    a, self.n = self.n, self.n + m
    return Tab([(a, self.n)], VList(self.names))

  def write(self, t):
    with self:
      r = call(self.op.write, t)
    cx.record("writing rows succeeds", not isinstance(r, Raised), str(r))
    if isinstance(r, Raised):
      raise core.PathEnd

  def finish(self):
    with self:
      r = call(self.op.finish)
    cx.record("finishing succeeds", not isinstance(r, Raised), str(r))
    if isinstance(r, Raised):
      raise core.PathEnd
    return r

  # -- postconditions of finish ----------------------------------------------------
  def check(self, r, base=None, tables=0):
    """base: statistics and lists of the part written before, by invariant."""
    files, recs = cx.ghost["$files"], cx.ghost["$records"]
    done = base["rows"] if base else z3.IntVal(0)

    @cx.case
    def _():
      x = cx.fresh("anyrow", I)
      cx.assume(z3.And(x >= done, x < self.n))
      spots = [z3.And(x >= a, x < b) for w in files for a, b in w.ranges]
      cx.prove("no row is lost", z3.Or(*spots, z3.BoolVal(False)))
      if spots:
        cx.prove("a row is stored once", z3.AtMost(*spots, 1))
    cx.record("the files are listed once, in order",
              [id(w) for _, w, _ in self.im.written] == [id(w)
                                                         for w in files],
              str(self.im.written))
    for p, w, st in self.im.written:
      cx.prove("a file is listed under its path in the dataset", vc_eq(
          p, stubs.Path.relpath(w.path, self.loc)))
      cx.prove("index files are in the data directory", vc_eq(
          stubs.Path.dirname(w.path), stubs.Path.join(self.loc, "data")))
      # a delete rejects a file that has none
      cx.prove("a file that is listed has rows", wrap(w.rows) > 0)
    cx.record("a file has its own path",
              len({str(term(w.path)) for w in files}) == len(files))
    if r is None:
      cx.prove("something is returned if rows were written", self.n == 0)
      cx.record("nothing that is listed is dropped",
                not self.im.written and not self.im.tables)
      return
    cx.record("a patch is made only if there is anything to add",
              bool(self.im.written) or bool(self.im.tables) or
              self.im.before)
    add = r.addition.index_manifest_files.concrete()
    cx.record("the index manifest is added", add is not None and
              len(add) == (self.im.finished is not None), str(add))
    if add:
      cx.prove("the index manifest is added by its path", vc_eq(
          stubs.Path.join(self.loc, add[0]), self.im.finished))
    radd = r.addition.record_manifest_files.concrete()
    cx.record("the record manifest is added", radd is not None and
              len(radd) == (self.rm.finished is not None), str(radd))
    if radd:
      cx.prove("the record manifest is added by its path", vc_eq(
          stubs.Path.join(self.loc, radd[0]), self.rm.finished))
    cx.prove("manifests are in the metadata directory", And(
        vc_eq(self.im.dir, stubs.Path.join(self.loc, "metadata")),
        vc_eq(self.rm.dir, stubs.Path.join(self.loc, "metadata"))))
    up = r.storage_statistics_update
    sts = [st for _, _, st in self.im.written]
    b = base["stats"] if base else M().StorageStatistics()
    cx.prove("the rows written are counted", vc_eq(up.num_rows,
                                                   wrap(self.n)))
    for k in ("index_compressed_bytes", "index_uncompressed_bytes"):
      cx.prove(f"{k} of the files are counted", vc_eq(
          getattr(up, k), sum([getattr(s, k) for s in sts], getattr(b, k))))
    # change log
    rows = r.change_log.added_rows
    segs = [s for s in rows.segs if s != []]
    if base:
      cx.record("earlier entries of the change log are kept",
                bool(segs) and isinstance(segs[0], Comp) and
                segs[0].domain is base["log"], str(rows))
      segs = segs[1:]
    cx.record("entries of the change log are those of the files",
              all(isinstance(s, list) for s in segs))
    log = [y for s in segs if isinstance(s, list) for y in s]
    cx.record("each file is in the change log once",
              len(log) == len(self.im.written), str(log))
    for e, (p, w, st) in zip(log, self.im.written):
      cx.prove("the change log has the file", vc_eq(e.file, p))
      cx.prove("the change log has all rows of the file", And(
          e.all_rows, vc_eq(e.num_rows, wrap(w.rows))))
    cx.record("an append deletes nothing",
              r.change_log.deleted_rows.concrete() == [] and
              r.deletion.index_manifest_files.concrete() == [] and
              r.deletion.record_manifest_files.concrete() == [])
    self.check_records(up, base)

  def check_records(self, up, base):
    recs = cx.ghost["$records"]
    total = term(base["stats"].record_uncompressed_bytes) if base else (
        z3.IntVal(0))
    total = total + sum((term(s.record_uncompressed_bytes)
                         for _, _, s in self.rm.written), z3.IntVal(0))
    cx.prove("record bytes are counted", vc_eq(
        up.record_uncompressed_bytes, wrap(z3.simplify(total))))
    cx.record("each record file is listed once", len(self.rm.written) == len(
        recs), f"{self.rm.written} {recs}")
    for w in recs:
      cx.record("record files are complete", w.closed)
      mine = [e for e in self.rm.written if cx.entails(core.as_bool(
          vc_eq(e[0], w.short)))]
      cx.record("a record file is listed under its path", len(mine) == 1,
                str(mine))
      lay = w.layout()
      if lay is None:
        cx.mark_imprecise("records written that are not those of a column")
        continue
      names = {f for _, f, _, _ in lay}
      cx.record("a record file has records of one field", len(names) == 1,
                str(names))
      fid = [f.field_id for f in self.record.concrete() if f.name in names]
      n = w.count()
      for e in mine:
        cx.prove("a record file is listed for its field", vc_eq(e[1],
                                                                fid[0]))
        cx.prove("a record file is listed with its records", vc_eq(
            e[2].num_rows, wrap(n)))
    seen = cx.ghost.get("$colbytes", {})
    if not base and seen:
      cx.prove("all bytes of record columns are counted", vc_eq(
          up.record_uncompressed_bytes, sum(seen.values(), 0)))


FUNCTIONS = ["core/ops/append.py:LocalAppendOp.__init__",
             "core/ops/append.py:LocalAppendOp.write",
             "core/ops/append.py:LocalAppendOp._write_arrow",
             "core/ops/append.py:LocalAppendOp.finish",
             "core/ops/append.py:LocalAppendOp.append_index_manifest",
             "core/ops/append.py:LocalAppendOp._maybe_create_index_writer",
             "core/ops/append.py:LocalAppendOp._finish_index_writer",
             "core/ops/utils.py:update_index_storage_stats"]
RECORDS = ["core/ops/append.py:LocalAppendOp._write_record_column",
           "core/ops/append.py:LocalAppendOp._finish_record_writer",
           "core/ops/utils.py:address_column",
           "core/ops/utils.py:update_record_stats_bytes"]


def history(fields, n, address_input=False):
  s = Setup(fields, address_input)
  if fields and not address_input:   # index files: unit LocalAppendOp histories
    cx.ghost["small"] = s.row_group
  for _ in range(n):      # a batch may have no rows
    s.write(s.batch())
  if not fields and cx.choose("files are carried over"):
    with s:
      s.op.append_index_manifest(Token("carried"))
  s.check(s.finish())


@unit("C05 C09 C10 C01", "LocalAppendOp histories", FUNCTIONS, budget=170,
      bounded="up to 3 batches of any rows and sizes")
def histories():
  history([], 3)


@unit("C05 C09 C10 C12", "LocalAppendOp histories with record fields",
      FUNCTIONS + RECORDS, budget=180, paths=2000,
      bounded="up to 3 batches of any rows and sizes, one record field and one row group")
def record_histories():
  history(["rec"], 3)


@unit("C06 C05", "LocalAppendOp address input", FUNCTIONS, budget=100,
      bounded="up to 2 batches of any rows and sizes, two record fields")
def address_histories():
  history(["rec", "doc"], 2, True)


# ----------------------------------------------------------------------------
# induction: one write, and finish, from any state that satisfies the invariant
# ----------------------------------------------------------------------------
def inv(name, cond):
  """An invariant that does not hold says nothing about the property."""
  cx.prove("invariant: " + name, cond)


def any_state(s):
  """An arbitrary state that satisfies the data structure invariant. What does
  not follow from the invariant is not refuted: code may keep another one; the
  units of histories, which know of no state, decide then."""
  a, op = A(), s.op
  cx.mark_imprecise("the state is only known by the invariant")
  for n in ("_index_writer_info", "_cached_index_data", "_patch",
            "_cached_index_file_bytes", "_record_writers"):
    if n not in op.__dict__:
      raise core.Unsupported(f"no invariant for a state without {n}")
  done = cx.fresh("stored", I)
  cx.assume(done >= 0)
  st = op._patch.storage_statistics_update
  st.num_rows = wrap(done)
  for k in ("index_compressed_bytes", "index_uncompressed_bytes",
            "record_uncompressed_bytes"):
    setattr(st, k, sym_int(k))
  log, dom = core.symbolic_list("log", lambda g: M().RowBitmap(
      file=SymStr(ufun("log.file", I, Str)(g)), all_rows=True))
  op._patch.change_log.added_rows.extend(log)
  s.im.before = bool(SymBool(done > 0))
  base = {"rows": done, "stats": st.copy(), "log": dom}
  s.n = done
  if cx.choose("a file is open"):
    m = cx.fresh("filerows", I)
    cx.assume(m >= 0)
    b = done + m
    path = stubs.Path.join(s.loc, "data", core.fstr("index_", stubs.uuid_(),
                                                    ".parquet"))
    w = PqWriter(path, s.schema, [(done, b)])
    op._index_writer_info = a._IndexWriterInfo(w, stubs.Path.relpath(
        path, s.loc))
    s.n = b
    if cx.choose("rows are cached"):
      c = cx.fresh("cachedrows", I)
      cx.assume(c > 0)
      s.n = b + c
      op._cached_index_data = Tab([(b, s.n)], s.names, {
          f: EARLIER for f in s.fields})
    else:
      cx.assume(m > 0)
    op._cached_index_file_bytes = sym_int("file_bytes")
  s.rm.before = bool(cx.choose("record files were listed"))
  for f in s.fields:
    if not cx.choose(f"a record file of {f} is open"):
      continue
    first = cx.fresh("firstrecord", I)
    cx.assume(z3.And(first >= 0, first < s.n))
    path = stubs.Path.join(s.loc, "data", core.fstr(
        f + "_", stubs.uuid_(), ".array_record"))
    w = ArWriter(path, None, [(f, first, s.n - first)])
    info = a._RecordWriterInfo(w, stubs.Path.relpath(path, s.loc))
    info.next_row_id = wrap(s.n - first)
    info.storage_statistics.num_rows = wrap(s.n - first)
    info.storage_statistics.record_uncompressed_bytes = sym_int("recbytes")
    op._record_writers[f] = info
  return base


EARLIER = Addresses(None, None, None)


def step(fields):
  s = Setup(fields)
  base = any_state(s)
  if not fields and cx.choose("files are carried over"):
    with s:
      s.op.append_index_manifest(Token("carried"))
    s.check(s.finish(), base)
    return
  if cx.choose("finish"):
    s.check(s.finish(), base)
    return
  s.write(s.batch())
  op = s.op
  # -- what a write does, whatever the representation
  for p, w, st in s.im.written:
    cx.record("a file is listed when it is complete", w.closed)
  cx.record("a file is listed once", len({id(w) for _, w, _ in s.im.written})
            == len(s.im.written))
  # -- the invariant
  files = cx.ghost["$files"]
  end, closed = base["rows"], [w for w in files if w.closed]
  for w in closed:
    for a, b in w.ranges:
      inv("files have the rows in order", a == end)
      end = b
  inv("complete files are listed", [id(w) for _, w, _ in s.im.written] ==
      [id(w) for w in closed])
  up = op._patch.storage_statistics_update
  inv("the rows of complete files are counted", vc_eq(up.num_rows,
                                                      wrap(end)))
  for k in ("index_compressed_bytes", "index_uncompressed_bytes"):
    inv(f"{k} of complete files are counted", vc_eq(getattr(up, k), sum(
        [getattr(x, k) for _, _, x in s.im.written],
        getattr(base["stats"], k))))
  inv("record bytes of complete files are counted", vc_eq(
      up.record_uncompressed_bytes, sum(
          [e[2].record_uncompressed_bytes for e in s.rm.written],
          base["stats"].record_uncompressed_bytes)))
  log = [x for x in op._patch.change_log.added_rows.segs if x != []]
  ok = bool(log) and isinstance(log[0], Comp) and log[0].domain is (
      base["log"]) and all(isinstance(x, list) for x in log[1:])
  inv("the change log is kept", ok)
  if ok:
    new = [y for x in log[1:] for y in x]
    inv("complete files are in the change log", len(new) == len(
        s.im.written) and And(*[And(vc_eq(e.file, p), vc_eq(
            e.num_rows, wrap(w.rows)), e.all_rows)
                                for e, (p, w, _) in zip(new, s.im.written)],
                              True, True))
  wi, cached = op._index_writer_info, op._cached_index_data
  if wi is None:
    inv("without an open file no row is cached", cached is None)
  else:
    w = wi.writer
    inv("the open file is the last one", w is files[-1] and not w.closed)
    inv("the path of the open file", vc_eq(wi.file_path, stubs.Path.relpath(
        w.path, s.loc)))
    for a, b in w.ranges:
      inv("the open file has the next rows", a == end)
      end = b
    if cached is not None:
      inv("the rows cached have the columns of the schema",
          names_eq(cached.names, s.names))
      for a, b in cached.ranges:
        inv("the rows cached follow", a == end)
        end = b
      inv("rows are cached", core.as_bool(cached.num_rows > 0))
    else:
      inv("the open file has rows", core.as_bool(wrap(w.rows) > 0))
  inv("open files", all(w.closed or wi is not None and wi.writer is w
                        for w in files))
  inv("no row is lost", end == s.n)
  inv("the patch has no manifests before it is finished",
      op._patch.addition.index_manifest_files.concrete() == [] and
      op._patch.addition.record_manifest_files.concrete() == [])
  recs = cx.ghost["$records"]
  open_ = []
  for f in s.fields:
    if f not in op._record_writers:
      continue
    i = op._record_writers[f]
    open_.append(i.writer)
    lay = i.writer.layout()
    inv("the records of an open file are known", lay is not None)
    if lay is None:
      continue
    at = lay[0][2]
    for _, g, r, m in lay:
      inv("records of a file are rows in order", z3.And(
          z3.BoolVal(g == f), r == at))
      at = r + m
    inv("records are those of the last rows", at == s.n)
    inv("the next record number", vc_eq(i.next_row_id, wrap(
        i.writer.count())))
    inv("the records are counted", vc_eq(i.storage_statistics.num_rows, wrap(
        i.writer.count())))
    inv("the path of an open record file", vc_eq(i.file_path,
                                                 i.writer.short))
    inv("an open record file is open", not i.writer.closed)
  for w in recs:
    if any(w is o for o in open_):
      continue
    cx.record("a record file that is not open is complete", w.closed)
    mine = [e for e in s.rm.written if cx.entails(core.as_bool(
        vc_eq(e[0], w.short)))]
    cx.record("a complete record file is listed once", len(mine) == 1)
    n = w.count()
    if n is None:
      inv("the records of a file are known", False)
      continue
    for e in mine:
      cx.prove("a record file is listed with its records", vc_eq(
          e[2].num_rows, wrap(n)))
      inv("a record file is listed for its field", vc_eq(e[1], [
          f.field_id for f in s.record.concrete()
          if f.name == w.layout()[0][1]][0]))


@unit("C05 C09 C10 C01", "LocalAppendOp [invariant]", FUNCTIONS, budget=150)
def step_index():
  step([])


@unit("C05 C09 C10 C12", "LocalAppendOp [invariant, record fields]",
      FUNCTIONS + RECORDS, budget=170,
      bounded="one record field and two index fields, any state and batch")
def step_records():
  step(["rec"])
