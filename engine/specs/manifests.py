"""core/manifests/index.py, core/manifests/record.py, Storage.data_files."""
from __future__ import annotations

import sys

import z3

from engine import core, proto, stubs
from engine.core import (cx, VList, SymStr, SymNum, And, Or, Not, Implies,
                         sym_str, sym_int, sym_bool, vc_eq, term, I, Str, Comp,
                         ufun, wrap)
from engine.arrow import Expr
from engine.specs.runners import Token, E
from engine.specs.storage import S, M, World, open_storage, no_effect
from engine.stubs import patched, NS
from engine.unit import unit, call, Raised, error_name


def RT():
  return stubs.rt_stub()


def only(lst):
  """The single symbolic segment of a list, or None when it is empty."""
  segs = [s for s in lst.segs if s != []]
  return segs


class ManifestReads:
  """Contract of read_index_manifests (unit read_index_manifests): the files
  a manifest lists that the filter does not exclude, in order, under the given
  manifest ID; equal paths and filters give equal results."""

  def __init__(self):
    self.calls = []

  def __call__(self, path, mid, filter_=None):
    self.calls.append((path, mid, filter_))
    p = term(path)
    n = ufun("files.n", Str, I)(p)
    cx.assume(n >= 0)
    lst, dom = core.symbolic_list(cx.name("files"), lambda g: self.file(
        p, g, mid), n=n)
    r = RT().FileSet()
    r.index_files.extend(lst)
    return r

  @staticmethod
  def stats(p, g):
    fs = {}
    for k in ("num_rows", "index_compressed_bytes",
              "index_uncompressed_bytes"):
      fs[k] = SymNum(ufun("files." + k, Str, I, I)(p, g))
    return M().StorageStatistics(**fs)

  def file(self, p, g, mid):
    return RT().DataFile(path=SymStr(ufun("files.path", Str, I, Str)(p, g)),
                         manifest_file_id=mid,
                         storage_statistics=self.stats(p, g))


@unit("C08 C09 C06 C12", "Storage.data_files",
      ["core/storage.py:Storage.data_files"], budget=150)
def data_files():
  s = S()
  world = World(others=False)
  st = open_storage(world, sym_str("current_branch"))
  sid = sym_int("version")
  sn = st._metadata.snapshots.peek(sid)
  reads = ManifestReads()
  filt = Token("filter") if cx.choose("a filter is given") else None
  made = []
  mf = Expr("field", "stats") > 1

  def build(schema, keys, ids, f):
    made.append((schema, keys, ids, f))
    if cx.choose("the filter cannot prune"):
      return None
    return mf
  with patched(s, read_index_manifests=reads, build_manifest_filter=build):
    r = call(st.data_files, filt, sid)
  if sn is None:
    cx.record("a version that does not exist has no files",
              error_name(r) == "VersionNotFoundError", str(r))
    return
  cx.record("listing the files of a version succeeds",
            not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  no_effect("listing files")
  if filt is not None:
    cx.record("the manifest filter is made for this filter and schema",
              len(made) == 1 and made[0][3] is filt and
              made[0][0] is st.physical_schema)
    if made:
      x = sym_str("anykey")
      cx.prove("the manifest filter is made for the primary keys", vc_eq(
          core.contains(made[0][1], x), core.contains(st.primary_keys, x)))
  else:
    cx.record("nothing is pruned without a filter", not made)
  lst = sn.manifest_files.index_manifest_files
  ls = only(lst)
  cx.record("the manifests of a version are a list", len(ls) == 1, str(ls))
  ms = ls[0]
  dom = ms.domain
  path_of = lambda g: stubs.Path.join(st.location, ms.at(g)[0][1][0])  # noqa
  for p, mid, f in reads.calls:
    if f is None:
      cx.record("a filter that can prune may be ignored", True)
      continue
    cx.record("a manifest filter is only used with a filter",
              filt is not None)
    v, n = z3.Real("stat"), z3.Bool("statnull")
    env = lambda names: (v, n)  # noqa
    t, _ = f.ev(env)
    ot, on = mf.ev(env)
    cx.prove("a file whose statistics are unknown is not pruned",
             z3.Implies(on, t))
    cx.prove("a file is only pruned by the manifest filter",
             z3.Implies(ot, t))
  files = only(r.index_files)
  nfiles = lambda g: ufun("files.n", Str, I)(term(path_of(g)))  # noqa

  @cx.case
  def _():
    """Any file of any manifest is listed, with its own values."""
    g, j = cx.fresh("anymanifest", I), cx.fresh("anyfile", I)
    dom.note(g)
    cx.assume(z3.And(dom.member(g), j >= 0, j < nfiles(g)))
    if not files:
      cx.prove("a file is not lost", False)
      return
    cx.record("one list of files", len(files) == 1 and hasattr(
        files[0].domain, "flat") and files[0].domain.flat.outer is dom,
              str(files))
    fl = files[0].domain.flat
    t = fl.at(g, j)
    alts = [(c, i) for c, i in files[0].at(t)]
    cx.record("a file is listed once per manifest entry",
              all(len(i) == 1 for _, i in alts))
    p = term(path_of(g))
    cx.prove("a file of a manifest of the version is listed",
             Or(*[And(c, vc_eq(i[0].path, SymStr(ufun(
                 "files.path", Str, I, Str)(p, j))),
                 vc_eq(i[0].storage_statistics, reads.stats(p, j)))
                 for c, i in alts if len(i) == 1], False))
    for c, i in alts:
      if len(i) == 1 and not cx.entails(z3.Not(core.as_bool(c))):
        @cx.case
        def _(c=c, i=i):
          cx.assume(c)
          mid = i[0].manifest_file_id
          cx.prove("manifest IDs start at 1", mid >= 1)
          got = r.index_manifest_files.peek(mid)
          cx.record("the manifest of a listed file is known",
                    got is not None)
          if got is not None:
            cx.prove("the manifest ID of a file names the manifest that "
                     "lists it", vc_eq(got, ms.at(g)[0][1][0]))

  @cx.case
  def _():
    if not files:
      return
    fl = files[0].domain.flat
    t = cx.fresh("anylisted", I)
    cx.assume(fl.domain.member(t))
    fl.domain.note(t)
    a, b = fl.o(t), fl.i(t)
    dom.note(a)
    cx.prove("every listed file is one of a manifest of the version",
             z3.And(dom.member(a), b >= 0, b < nfiles(a)))
    cx.prove("manifest read at its full path", Or(*[
        vc_eq(i[0].path, SymStr(ufun("files.path", Str, I, Str)(
            term(path_of(a)), b))) for c, i in files[0].at(t)], False))


# ----------------------------------------------------------------------------
# index manifests
# ----------------------------------------------------------------------------
def X():
  return sys.modules["space.core.manifests.index"]


class Cell:
  vc_constant = True

  def __init__(self, v):
    self.v = v

  def as_py(self):
    return self.v


class Column:
  """One column of a table: a function of the row."""
  vc_constant = True

  def __init__(self, table, name, fn):
    self.table, self.name, self.fn = table, name, fn

  def combine_chunks(self):
    return self

  def vc_len(self):
    return self.table.num_rows

  def __getitem__(self, i):
    cx.prove("a row that is read exists",
             And(i >= 0, i < self.table.num_rows))
    return Cell(self.fn(term(i)))


class SymTable:
  """A table read from a file: any number of rows."""
  vc_constant = True

  def __init__(self, name, columns):
    self.n = cx.fresh("rows:" + name, I)
    cx.assume(self.n >= 0)
    self.num_rows = wrap(self.n)
    self.columns = {k: Column(self, k, f) for k, f in columns.items()}

  def column(self, name):
    if name not in self.columns:
      raise core.Unsupported(f"column {name}")
    return self.columns[name]

  __getitem__ = column


@unit("C09 C05 C12", "read_index_manifests",
      ["core/manifests/index.py:read_index_manifests",
       "core/manifests/index.py:_index_manifests"])
def read_manifests():
  x = X()
  k = x.constants
  cells = {n: (lambda g, n=n: SymNum(ufun("cell." + n, I, I)(g)))
           for n in (k.NUM_ROWS_FIELD, k.INDEX_COMPRESSED_BYTES_FIELD,
                     k.INDEX_UNCOMPRESSED_BYTES_FIELD)}
  cells[k.FILE_PATH_FIELD] = lambda g: SymStr(ufun("cell.path", I, Str)(g))
  t = SymTable("manifest", cells)
  reads = []

  def read_table(path, filters=None, **kw):
    reads.append((path, filters, kw))
    return t
  path, mid, f = sym_str("path"), sym_int("manifest_id"), Token("filter")
  with patched(x, pq=NS(read_table=read_table)):
    r = call(x.read_index_manifests, path, mid, f)
  cx.record("reading a manifest succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.record("the manifest is read once, with the filter",
            len(reads) == 1 and reads[0][0] is path and reads[0][1] is f,
            str(reads))
  files = only(r.index_files)
  if not files:
    cx.prove("no row of a manifest is lost", t.num_rows == 0)
    return
  cx.record("one list of files", len(files) == 1 and isinstance(files[0],
                                                                Comp))
  c = files[0]
  cx.prove("one file for each row of the manifest",
           vc_eq(wrap(c.domain.n), t.num_rows))
  i = cx.fresh("anyrow", I)
  cx.assume(z3.And(i >= 0, i < t.n))
  c.domain.note(i)
  alts = c.at(i)
  cx.record("one file for each row", all(len(y) == 1 for _, y in alts))
  cx.prove("a row of the manifest is not skipped", z3.Or(*[g for g, _ in alts]))
  for g, (y,) in alts:
    @cx.case
    def _(g=g, y=y):
      cx.assume(g)
      cx.prove("the file has the path of its row",
               vc_eq(y.path, cells[k.FILE_PATH_FIELD](i)))
      cx.prove("the file has the manifest ID given",
               vc_eq(y.manifest_file_id, mid))
      st = y.storage_statistics
      cx.prove("the file has the number of rows of its row",
               vc_eq(st.num_rows, cells[k.NUM_ROWS_FIELD](i)))
      cx.prove("the file has the bytes of its row", And(
          vc_eq(st.index_compressed_bytes,
                cells[k.INDEX_COMPRESSED_BYTES_FIELD](i)),
          vc_eq(st.index_uncompressed_bytes,
                cells[k.INDEX_UNCOMPRESSED_BYTES_FIELD](i))))
      cx.prove("a file of a manifest has no row selection", And(
          Not(y.HasField("row_bitmap")), Not(y.HasField("row_slice"))))


class Ordered:
  """A value of a column type: min and max are of a total order."""


@unit("C09 C08", "_FieldStats",
      ["core/manifests/index.py:_FieldStats.merge",
       "core/manifests/index.py:_FieldStats.finish",
       "core/manifests/index.py:_FieldStats.__init__"])
def field_stats():
  """Data structure invariant: unless unknown, min <= v <= max for every
  value v of the row groups merged so far (v, a ghost, is any of them)."""
  x = X()
  with patched(x, pa=NS(field=lambda *a, **k: ("field",) + a)):
    fs = x._FieldStats(Token("type"))
  cx.record("new stats are those of no row group",
            fs._min is None and fs._max is None and fs._unknown is False and
            len(fs._min_list) == 0 and len(fs._max_list) == 0)
  v, w = core.sym_real("oldvalue"), core.sym_real("newvalue")
  merged = cx.choose("row groups were merged before")
  if merged:
    if cx.choose("a value range is known"):
      fs._min, fs._max = core.sym_real("min"), core.sym_real("max")
      fs._unknown = sym_bool("unknown")
      cx.assume(Or(fs._unknown, And(fs._min <= v, v <= fs._max)))
    else:
      fs._unknown = True
  if cx.choose("finish"):
    mn, mx, un = fs._min, fs._max, fs._unknown
    r = call(fs.finish)
    ok = len(fs._min_list) == 1 and len(fs._max_list) == 1
    cx.record("finishing a file adds its range", ok)
    if ok:
      a, b = fs._min_list[0], fs._max_list[0]
      cx.record("the range of a file is known at both ends or not at all",
                (a is None) == (b is None))
      if merged and a is not None and b is not None:
        cx.prove("every value of a file is in its recorded range",
                 And(a <= v, v <= b))
        cx.prove("an unknown range is not recorded", Not(un))
      if a is None and mn is not None:
        cx.prove("a known range is recorded", un)
    cx.record("finishing a file starts over", fs._min is None and
              fs._max is None and fs._unknown is False)
    return
  kind = "known" if cx.choose("stats known") else "unknown"
  if kind == "known":
    lo, hi = core.sym_real("lo"), core.sym_real("hi")
    cx.assume(And(lo <= w, w <= hi))
    # num_values does not count nulls.
    nulls, values = sym_int("nulls"), sym_int("values")
    cx.assume(And(nulls >= 0, values >= 1))
    counted = cx.choose("nulls are counted")
    st = NS(has_min_max=True, min=lo, max=hi, has_null_count=counted,
            null_count=nulls if counted else None, num_values=values,
            has_distinct_count=False, distinct_count=None)
  elif cx.choose("no stats"):
    st = None
  elif cx.choose("no min and max"):
    st = NS(has_min_max=False, min=None, max=None)
  else:
    # Parquet drops a too long max: it is returned as an empty value.
    st = NS(has_min_max=True, min=core.sym_real("lo"),
            max="" if cx.choose("strings") else b"")
  r = call(fs.merge, st)
  cx.record("merging stats succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  if kind == "unknown":
    cx.prove("a row group without a range makes the range unknown",
             vc_eq(fs._unknown, True))
    return
  cx.record("a range is known at both ends or not at all",
            (fs._min is None) == (fs._max is None))
  if fs._min is None:
    cx.prove("a row group is covered", vc_eq(fs._unknown, True))
    return
  cx.prove("the values of the row group are covered",
           Or(fs._unknown, And(fs._min <= w, w <= fs._max)))
  if merged:
    cx.prove("the values of earlier row groups stay covered",
             Or(fs._unknown, And(fs._min <= v, v <= fs._max)))
  cx.record("merging does not record files", len(fs._min_list) == 0)


class StatsSpy:
  """Contract of _FieldStats (unit _FieldStats): what is merged, in order."""
  vc_mutable = ("merged", "finished")

  def __init__(self, type_):
    self.type_ = type_
    self.merged = VList()
    self.finished = VList()

  def merge(self, stats):
    self.merged.append(stats)

  def finish(self):
    self.finished.append(self.merged)
    self.merged = VList()

  def to_arrow(self):
    return ("stats of", self)


class Field:
  vc_constant = True

  def __init__(self, name, type_, fid):
    self.name, self.type, self.fid = name, type_, fid

  def __repr__(self):
    return f"<field {self.name}>"


class ColumnMeta:
  vc_constant = True

  def __init__(self, rg, c):
    f = lambda n: SymNum(ufun(n, I, I, I)(rg, c))  # noqa
    self.total_compressed_size = f("col.compressed")
    self.total_uncompressed_size = f("col.uncompressed")
    self.statistics = StatsOf(rg, c)


class StatsOf:
  vc_constant = True

  def __init__(self, rg, c):
    self.rg, self.c = rg, c

  def vc_subst(self, sub):
    return StatsOf(sub(self.rg), sub(self.c))


class ParquetMeta:
  """Metadata of a Parquet file with any number of columns (leaves of
  distinct paths) and row groups."""
  vc_constant = True

  def __init__(self, names):
    self.num_rows = sym_int("file_rows")
    self.nc, self.nrg = cx.fresh("columns", I), cx.fresh("row_groups", I)
    cx.assume(z3.And(self.nc >= 0, self.nrg >= 0))
    self.num_columns, self.num_row_groups = wrap(self.nc), wrap(self.nrg)
    self.cols = core.index_domain(self.nc)
    self.path = ufun("column.path", I, Str)
    self.col_of = {}
    for n in names:
      c = cx.fresh(f"column of {n}", I)
      self.cols.note(c)
      cx.assume(z3.And(c >= 0, c < self.nc, self.path(c) == term(n)))
      self.col_of[term(n).sexpr()] = c
    inv = ufun("column.at", Str, I)   # paths are distinct
    self.cols.fact(lambda t: inv(self.path(t)) == t)
    self.schema = NS(column=self.column)

  def column(self, i):
    t = term(i)
    cx.prove("a column that is read exists", And(i >= 0, i < wrap(self.nc)))
    return NS(path=SymStr(self.path(t)))

  def row_group(self, i):
    cx.prove("a row group that is read exists",
             And(i >= 0, i < wrap(self.nrg)))
    t = term(i)

    def column(c):
      cx.prove("a column that is read exists", And(c >= 0, c < wrap(self.nc)))
      return ColumnMeta(t, term(c))
    return NS(column=column)


@unit("C09 C10 C05", "IndexManifestWriter.write",
      ["core/manifests/index.py:IndexManifestWriter.write",
       "core/manifests/index.py:IndexManifestWriter.__init__",
       "core/manifests/index.py:_manifest_schema",
       "core/manifests/index.py:_stats_subfields"], budget=120,
      bounded="schemas with one or two primary keys and one other field; any "
      "number of columns and row groups")
def index_writer():
  x = X()
  nk = 1 + int(cx.choose("two primary keys"))
  keys = [Field(sym_str(f"key{i}"), Token(f"type{i}"), sym_int(f"id{i}"))
          for i in range(nk)]
  other = Field(sym_str("other"), Token("othertype"), sym_int("idother"))
  fields = [other] + keys if cx.choose("key last") else keys + [other]
  for i, f in enumerate(fields):
    for g in fields[:i]:
      cx.assume(And(f.name != g.name, f.fid != g.fid))
  spies = []

  def stats(type_):
    s = StatsSpy(type_)
    spies.append(s)
    return s
  pa = NS(field=lambda *a: ("field",) + a, struct=lambda fs: ("struct", fs),
          schema=lambda fs: ("schema", fs), utf8=lambda: "utf8",
          int64=lambda: "int64")
  by_id = core.VDict([(f.fid, f.name) for f in fields])
  with patched(x, pa=pa, field_id=lambda f: f.fid, _FieldStats=stats,
               field_id_to_name_dict=lambda s: by_id):
    w = call(x.IndexManifestWriter, sym_str("dir"), fields,
             [k.name for k in keys])
    cx.record("a writer is made", not isinstance(w, Raised), str(w))
    if isinstance(w, Raised):
      return
    order = [f for f in fields if f is not other]
    cx.record("stats are kept for each primary key, with its type",
              [s.type_ for s in spies] == [f.type for f in order])
    cols = core.b_list(w.manifest_schema[1]).concrete() if isinstance(
        w.manifest_schema[1], VList) else list(w.manifest_schema[1])
    k = x.constants
    cx.record("the manifest has the columns of files",
              [c[0] for c in cols[:4]] == [
                  k.FILE_PATH_FIELD, k.NUM_ROWS_FIELD,
                  k.INDEX_COMPRESSED_BYTES_FIELD,
                  k.INDEX_UNCOMPRESSED_BYTES_FIELD] and len(cols) == 4 + nk,
              str(cols))
    for c, f in zip(cols[4:], order):
      cx.prove("the stats of a key are stored under its field ID", vc_eq(
          c[0], x.schema_utils.stats_field_name(f.fid)))
      cx.record("the stats of a key are min and max of its type", [
          tuple(y) for y in c[1][1]] == [("field", k.MIN_FIELD, f.type),
                                         ("field", k.MAX_FIELD, f.type)],
                str(c))
    pm = ParquetMeta([f.name for f in order])
    path = sym_str("path")
    st = call(w.write, path, pm)
    cx.record("a file is added", not isinstance(st, Raised), str(st))
    if isinstance(st, Raised):
      return
    cx.prove("the number of rows reported is that of the file",
             vc_eq(st.num_rows, pm.num_rows))

    def total(what):
      return core.sum_over(rgs, lambda r: sum(
          [ufun(what, I, I, I)(r, pm.col_of[term(f.name).sexpr()]) for f in order],
          z3.IntVal(0)))
    rgs = None
    for s, f in zip(spies, order):
      fin = s.finished.concrete()
      cx.record("the range of a key is finished once per file",
                fin is not None and len(fin) == 1, str(fin))
      cx.record("nothing is merged after that",
                s.merged.concrete() == [], str(s.merged))
      segs = only(fin[0])
      if not segs:
        cx.prove("the row groups of a file are merged", pm.num_row_groups == 0)
        continue
      cx.record("one list of row groups", len(segs) == 1 and
                isinstance(segs[0], Comp), str(segs))
      c = segs[0]
      rgs = c.domain
      cx.prove("every row group is merged",
               vc_eq(wrap(c.domain.n), pm.num_row_groups))
      r = cx.fresh("anyrowgroup", I)
      c.domain.note(r)
      cx.assume(c.domain.member(r))
      alts = c.at(r)
      cx.prove("no row group is skipped",
               z3.Or(*[g for g, y in alts if y]))
      for g, y in alts:
        cx.prove("the stats of the column of the key are merged, once",
                 z3.Implies(g, z3.And(len(y) == 1, y[0].rg == r,
                                      y[0].c == pm.col_of[term(f.name).sexpr()])))
    one = lambda l: l.concrete() if isinstance(l, VList) else list(l)  # noqa
    row = [one(l) for l in (w._file_paths, w._num_rows,
                            w._index_compressed_bytes,
                            w._index_uncompressed_bytes)]
    cx.record("one row is added for the file", all(
        y is not None and len(y) == 1 for y in row), str(row))
    cx.prove("the row has the path and number of rows of the file",
             And(vc_eq(row[0][0], path), vc_eq(row[1][0], pm.num_rows)))
    cx.prove("the row has the bytes that are reported", And(
        vc_eq(row[2][0], st.index_compressed_bytes),
        vc_eq(row[3][0], st.index_uncompressed_bytes)))
    if rgs is not None:
      cx.prove("the compressed bytes are the sum over the row groups",
               vc_eq(st.index_compressed_bytes, total("col.compressed")))
      cx.prove("the uncompressed bytes are the sum over the row groups",
               vc_eq(st.index_uncompressed_bytes, total("col.uncompressed")))


# ----------------------------------------------------------------------------
# writing manifests
# ----------------------------------------------------------------------------
class Disk:
  """Contract of write_parquet_file (unit write_parquet_file)."""

  def __init__(self):
    self.written = []

  def __call__(self, path, schema, data):
    self.written.append((path, schema, data))
    return Token("metadata")


class ArrowTables:
  """pa.Table.from_arrays, pa.concat_tables, pa.schema."""

  def __init__(self, rows):
    self.rows = rows
    me = self

    class Table:

      @staticmethod
      def from_arrays(arrays=None, schema=None, names=None):
        r = NS(kind="table", arrays=arrays, schema=schema,
               num_rows=len_of(arrays[0]))
        return r
    self.Table = Table

  def concat_tables(self, tables):
    ts = tables.need("concat") if isinstance(tables, VList) else list(tables)
    n = 0
    for t in ts:
      n = n + t.num_rows
    return NS(kind="concat", tables=list(ts), num_rows=n)


def len_of(x):
  return core.b_len(x)


def in_dir(path, d, what):
  cx.prove(f"{what} is in the metadata directory",
           vc_eq(stubs.chain(stubs.parts(term(path))[:-1]), d))
  cx.record(f"{what} gets a fresh name", bool(stubs.uuids_in(path)),
            str(path))


@unit("C09 C01 C10 C05", "IndexManifestWriter.finish",
      ["core/manifests/index.py:IndexManifestWriter.finish",
       "core/manifests/index.py:IndexManifestWriter.write_arrow"],
      bounded="one or two primary keys, at most two carried over manifests; "
      "any number of files")
def index_finish():
  x = X()
  nk = 1 + int(cx.choose("two primary keys"))
  W = x.IndexManifestWriter
  w = object.__new__(W)
  d = sym_str("dir")
  schema = Token("manifest schema")
  n = cx.fresh("files", I)
  cx.assume(n >= 0)

  def lst(name):
    srt = Str if name == "path" else I
    mk = SymStr if srt is Str else SymNum
    return core.symbolic_list(name, lambda g: mk(ufun("f." + name, I, srt)(g)),
                              dom=core.index_domain(n))[0]
  w._metadata_dir, w._manifest_schema = d, schema
  w._file_paths, w._num_rows = lst("path"), lst("rows")
  w._index_compressed_bytes = lst("compressed")
  w._index_uncompressed_bytes = lst("uncompressed")
  spies = [StatsSpy(f"type{i}") for i in range(nk)]
  w._field_stats_dict = core.VDict([(f"k{i}", s) for i, s in enumerate(spies)])
  w._cached_manifest_data = VList()
  w._stats_fields = VList()
  carried = []
  while len(carried) < 2 and cx.choose(f"carried over {len(carried)}"):
    t = NS(kind="carried", num_rows=sym_int("carried_rows"))
    cx.assume(t.num_rows >= 0)
    carried.append(t)
    call(w.write_arrow, t)
  want = [w._file_paths, w._num_rows, w._index_compressed_bytes,
          w._index_uncompressed_bytes]
  disk = Disk()
  with patched(x, pa=ArrowTables(None), write_parquet_file=disk):
    r = call(w.finish)
  cx.record("writing a manifest succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  total = wrap(n)
  for t in carried:
    total = total + t.num_rows
  if r is None:
    cx.record("no manifest is written without a path", not disk.written)
    cx.prove("nothing that is cached is lost", total == 0)
    return
  cx.prove("an empty manifest is not written", total > 0)
  cx.record("one manifest is written", len(disk.written) == 1)
  if len(disk.written) != 1:
    return
  path, sch, data = disk.written[0]
  cx.record("the path of the manifest is returned", path is r or
            bool(vc_eq(path, r)))
  in_dir(path, d, "a manifest")
  cx.record("a manifest has the manifest schema", sch is schema)
  data = data.need("x") if isinstance(data, VList) else data
  cx.record("one table is written", len(data) == 1)
  ts = data[0].tables if data[0].kind == "concat" else [data[0]]
  made = [t for t in ts if t.kind == "table"]
  kept = [t for t in ts if t.kind == "carried"]
  cx.record("every carried over table is written once",
            len(kept) == len(carried) and all(
                any(a is b for b in kept) for a in carried), str(ts))
  if not made:
    cx.prove("the rows of the files are written", n == 0)
    return
  cx.record("the files are written once", len(made) == 1)
  arr = made[0].arrays
  arr = arr.need("x") if isinstance(arr, VList) else list(arr)
  cx.record("the columns are in the order of the manifest schema",
            made[0].schema is schema and len(arr) == 4 + nk and all(
                a is b or (isinstance(a, VList) and isinstance(b, VList) and
                           core.same_value(a, b))
                for a, b in zip(arr, want)) and all(
                a == ("stats of", s) for a, s in zip(arr[4:], spies)),
            str(arr))


@unit("C09 C10 C05", "RecordManifestWriter",
      ["core/manifests/record.py:RecordManifestWriter.__init__",
       "core/manifests/record.py:RecordManifestWriter.write",
       "core/manifests/record.py:RecordManifestWriter.finish",
       "core/manifests/record.py:_manifest_schema"])
def record_writer():
  x = sys.modules["space.core.manifests.record"]
  k = x.constants
  disk = Disk()
  pa = ArrowTables(None)
  pa.schema = lambda fs: ("schema", fs)
  pa.utf8 = pa.int32 = pa.int64 = lambda: "type"
  d = sym_str("dir")
  # Any files, each with its path, field and statistics.
  n = cx.fresh("files", I)
  cx.assume(n >= 0)
  dom = core.index_domain(n)
  path = ufun("f.path", I, Str)
  val = {a: ufun("f." + a, I, I) for a in ("field", "rows", "bytes")}
  with patched(x, pa=pa, write_parquet_file=disk):
    w = call(x.RecordManifestWriter, d)
    cx.record("a writer is made", not isinstance(w, Raised), str(w))
    cx.record("a new writer has no file", len(w._file_paths) == 0)
    it, _ = core.symbolic_list("f", lambda g: SymNum(g), dom=dom)
    add = lambda i: w.write(SymStr(path(term(i))),  # noqa
                            SymNum(val["field"](term(i))),
                            M().StorageStatistics(
                                num_rows=SymNum(val["rows"](term(i))),
                                record_uncompressed_bytes=SymNum(
                                    val["bytes"](term(i)))))
    core.drive(it, add, w)
    r = call(w.finish)
  cx.record("writing a record manifest succeeds", not isinstance(r, Raised),
            str(r))
  if isinstance(r, Raised):
    return
  if r is None:
    cx.record("no manifest is written without a path", not disk.written)
    cx.prove("no file is lost", n == 0)
    return
  cx.prove("an empty manifest is not written", n > 0)
  cx.record("one manifest is written", len(disk.written) == 1)
  if len(disk.written) != 1:
    return
  p, sch, data = disk.written[0]
  cx.prove("the path of the manifest is returned", vc_eq(p, r))
  in_dir(p, d, "a record manifest")
  data = data.need("x") if isinstance(data, VList) else data
  cx.record("one table is written", len(data) == 1 and
            data[0].kind == "table" and data[0].schema is sch)
  arr = data[0].arrays
  arr = arr.need("x") if isinstance(arr, VList) else list(arr)
  names = [c[0] for c in (sch[1].concrete() if isinstance(sch[1], VList)
                          else sch[1])]
  cx.record("the columns of a record manifest", names == [
      k.FILE_PATH_FIELD, k.FIELD_ID_FIELD, k.NUM_ROWS_FIELD,
      k.UNCOMPRESSED_BYTES_FIELD] and len(arr) == 4, str(names))
  for a, f, what in zip(arr, (path, val["field"], val["rows"], val["bytes"]),
                        ("path", "field ID", "number of rows", "bytes")):
    e = core.one_each(a)
    cx.record(f"one {what} for each file", e is not None, str(a))
    if e is None:
      continue
    cx.prove(f"as many {what}s as files", e[0].n == n)
    i = cx.fresh("anyfile", I)
    e[0].note(i)
    cx.prove(f"the {what} of each file is recorded in its row",
             Implies(SymBool_(z3.And(i >= 0, i < n)),
                     vc_eq(e[1](i), SymStr(f(i)) if f is path else
                           SymNum(f(i)))))


def SymBool_(t):
  return core.SymBool(t)


@unit("C09 C05 C04", "write_parquet_file",
      ["core/fs/parquet.py:write_parquet_file"])
def parquet_file():
  x = sys.modules["space.core.fs.parquet"]
  log = []

  class Writer:
    vc_mutable = ("tables",)

    def __init__(self, path, schema, **kw):
      log.append(("open", path, schema, kw))
      self.tables = VList()
      self.closed = False
      self.writer = NS(metadata=Token("metadata"))

    def write_table(self, t, **kw):
      cx.record("nothing is written after close", not self.closed)
      self.tables.append(t)

    def close(self):
      self.closed = True
      log.append(("close", self))

    def __enter__(self):
      return self

    def __exit__(self, *a):
      self.close()
      return False
  path, schema = sym_str("path"), Token("schema")
  ts, dom = core.symbolic_list("tables", lambda g: SymNum(
      ufun("table", I, I)(g)))
  with patched(x, pq=NS(ParquetWriter=Writer)):
    r = call(x.write_parquet_file, path, schema, ts)
  cx.record("writing a file succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.record("one file is written, with the path and schema given, and closed",
            len(log) == 2 and log[0][0] == "open" and log[0][1] is path and
            log[0][2] is schema and log[1][0] == "close", str(log))
  wr = log[-1][1]
  cx.record("the metadata of the file is returned", r is wr.writer.metadata)
  e = core.one_each(wr.tables)
  cx.record("every table is written once", e is not None, str(wr.tables))
  if e is not None:
    cx.prove("every table is written, in order", vc_eq(wr.tables, ts))
