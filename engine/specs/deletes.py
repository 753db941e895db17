"""core/ops/delete.py: FileSetDeleteOp."""
from __future__ import annotations

import sys

import z3

from engine import arrow, core, proto, stubs
from engine.arrow import Expr
from engine.core import (cx, VList, SymStr, SymNum, SymBool, And, Or, Not,
                         Implies, sym_str, sym_int, sym_bool, vc_eq, term, I,
                         B, Str, Comp, ufun, wrap)
from engine.specs.manifests import RT, M
from engine.specs.runners import Token, E
from engine.stubs import patched, NS
from engine.unit import unit, call, Raised, error_name

Row = z3.DeclareSort("Row")


def D():
  return sys.modules["space.core.ops.delete"]


# ----------------------------------------------------------------------------
# contracts: Parquet files of rows, masks, roaring bitmaps
# ----------------------------------------------------------------------------
def rows_of(p):
  """The number of rows of the file at a path."""
  return ufun("rows", Str, I)(p)


def row_of(p, i):
  return ufun("row", Str, I, Row)(p, i)


def kept_of(p):
  """How many rows of the file the delete must keep."""
  return ufun("kept", Str, I)(p)


class IntRange:
  """np.arange"""

  def __init__(self, lo, hi):
    self.lo, self.hi = lo, hi

  def vc_subst(self, sub):
    return IntRange(sub.obj(self.lo), sub.obj(self.hi))


def arange(a, b=None, dtype=None):
  return IntRange(0, a) if b is None else IntRange(a, b)


class FileRows:
  """The rows of one file that satisfy all of `masks`, with `columns` more."""

  def __init__(self, keep, path, masks=(), extra=()):
    self.keep, self.path, self.masks, self.extra = keep, path, masks, extra

  def vc_subst(self, sub):
    return FileRows(self.keep, sub(self.path),
                    tuple(sub.obj(m) for m in self.masks),
                    tuple((c[0], sub.obj(c[1]), c[2])
                          for c in self.extra))

  @property
  def num_rows(self):
    if not self.masks:
      return wrap(rows_of(self.path))
    return wrap(kept_of(self.path))

  def vc_len(self):
    return self.num_rows

  def append_column(self, name, col):
    if type(col) is VList:
      col = col.concrete()[0]
    if isinstance(col, IntRange):
      cx.prove("a column has a value for each row", And(
          vc_eq(col.lo, 0), vc_eq(col.hi, self.num_rows)))
    return FileRows(self.keep, self.path, self.masks,
                    self.extra + ((name, col, bool(self.masks)),))

  def filter(self, mask, *a, **k):
    if not isinstance(mask, Expr):
      raise core.Unsupported("a mask that is no expression")
    r = z3.Const("anyrow", Row)
    t, n = mask.ev(r)
    cx.prove("a row is kept unless the filter is true for it",
             t == z3.Not(self.keep(r)))
    return FileRows(self.keep, self.path, self.masks + (mask,), self.extra)

  def _without(self, names):
    names = [names] if isinstance(names, str) else list(names)
    extra = tuple(c for c in self.extra if c[0] not in names)
    if len(extra) != len(self.extra) - len(names):
      raise core.Unsupported("a column of the data is dropped")
    return FileRows(self.keep, self.path, self.masks, extra)
  drop = drop_columns = _without

  def column(self, name):
    c = [c for c in self.extra if c[0] == name]
    if not c:
      raise core.Unsupported(f"column {name}")
    return RowIds(self, c[0])
  __getitem__ = column


class RowIds:
  """A column of row positions."""

  def __init__(self, table, col):
    self.table, self.col = table, col

  def to_numpy(self, *a, **k):
    return self
  combine_chunks = to_pylist = to_numpy

  def vc_subst(self, sub):
    return RowIds(sub.obj(self.table), self.col)

  def member(self, i):
    t = self.table
    if self.col[2]:     # positions in the filtered table
      return z3.And(i >= 0, i < term(t.num_rows))
    base = z3.And(i >= 0, i < rows_of(t.path))
    return z3.And(base, *[z3.Not(t.keep(row_of(t.path, i)))
                          for _ in t.masks[:1]])


class Bits:
  """pyroaring.BitMap as the set of its members."""

  def __init__(self, x=None, e=None):
    self.e = e or (("none",) if x is None else ("of", x))

  def add_range(self, a, b): self.e = ("or", self.e, ("of", IntRange(a, b)))

  def difference_update(self, *os):
    for o in os:
      self.e = ("minus", self.e, o.e)

  def update(self, o):
    self.e = ("or", self.e, o.e if isinstance(o, Bits) else ("of", o))

  def intersection_update(self, o): self.e = ("and", self.e, o.e)
  def __sub__(self, o): return Bits(e=("minus", self.e, o.e))
  def __or__(self, o): return Bits(e=("or", self.e, o.e))
  def __and__(self, o): return Bits(e=("and", self.e, o.e))
  def __isub__(self, o): return self - o
  def __ior__(self, o): return self | o
  def difference(self, o): return self - o
  def union(self, o): return self | o

  def flip(self, a, b):
    r = ("of", IntRange(a, b))
    return Bits(e=("or", ("minus", self.e, r), ("minus", r, self.e)))

  def serialize(self):
    return Bytes(self.e)

  @staticmethod
  def deserialize(b):
    return Bits(e=b.e)


class Bytes:
  """A serialized bitmap."""

  def __init__(self, e):
    self.e = e

  def vc_subst(self, sub):
    return Bytes(sub.obj(self.e))

  def member(self, i):
    return member(self.e, i)


def member(e, i):
  k = e[0]
  if k == "none":
    return z3.BoolVal(False)
  if k == "of":
    if isinstance(e[1], IntRange):
      return z3.And(i >= term(e[1].lo), i < term(e[1].hi))
    if isinstance(e[1], RowIds):
      return e[1].member(i)
    raise core.Unsupported("a bitmap of unknown values")
  a, b = member(e[1], i), member(e[2], i)
  return {"or": z3.Or(a, b), "and": z3.And(a, b),
          "minus": z3.And(a, z3.Not(b))}[k]


class AppendOp:
  """LocalAppendOp by contract (units LocalAppendOp.*)."""
  vc_mutable = ("writes", "tables")

  def __init__(self, log):
    self.log = log
    self.writes, self.tables = VList(), VList()
    self.patch = None

  def write(self, data):
    self.writes.append(data)

  def append_index_manifest(self, t):
    self.tables.append(t)

  def finish(self):
    self.log.append(self)
    if not self.writes and not self.tables:
      return None
    self.patch = proto.sym_msg(RT().Patch, "reinsert")
    return self.patch


class Survivors:
  """The rows of manifests that a filter selects."""
  vc_constant = True

  def __init__(self, paths, filters):
    self.paths, self.filters = paths, filters
    self.n = cx.fresh("survivors", I)
    cx.assume(self.n >= 0)
    self.num_rows = wrap(self.n)
    self.was_read = False

  def read(self, *a, **k):
    self.was_read = True
    return self


def truthful_files(fs):
  """Precondition (C09): what a file set says about its files is true."""
  dom, at = core.one_each(fs.index_files)

  def facts(t):
    f = at(t)
    p = term(f.path)
    n = term(f.storage_statistics.num_rows)
    return z3.And(rows_of(p) == n, kept_of(p) >= 0, kept_of(p) <= n)
  dom.fact(facts)
  return dom, at


FUNCTIONS = ["core/ops/delete.py:FileSetDeleteOp.__init__",
             "core/ops/delete.py:FileSetDeleteOp.delete",
             "core/ops/delete.py:_build_file_path_filter",
             "core/ops/delete.py:_build_bitmap",
             "core/ops/delete.py:_validate_files",
             "core/ops/utils.py:update_index_storage_stats"]


def run_delete(group):
  d = D()
  fs = proto.sym_msg(RT().FileSet, "files")
  dom, at = truthful_files(fs)
  f = arrow.opaque("filter", Row)
  keep = lambda r: f.ev(r)[0]  # noqa: the filter is true
  loc, meta, opts = sym_str("location"), Token("metadata"), Token("options")
  sets, made, fin = [], [], []

  def read_table(path, **kw):
    if kw:
      raise core.Unsupported(f"options of read_table {list(kw)}")
    ps = stubs.parts(term(path))
    return FileRows(keep, stubs.chain(ps[1:]).t if len(ps) > 1 else
                    term(path)) if cx_prove_at(path, loc) else None

  def dataset(paths, filters=None, **kw):
    s = Survivors(paths, filters)
    sets.append(s)
    return s

  def append_op(location, metadata, file_options, record_address_input=False):
    op = AppendOp(fin)
    made.append((op, location, metadata, file_options, record_address_input))
    return op
  pa = NS(array=lambda x, *a, **k: x, Table=NS())
  with patched(d, pq=NS(read_table=read_table, ParquetDataset=dataset),
               np=NS(arange=arange, int32="int32", int64="int64"), pa=pa,
               BitMap=Bits, LocalAppendOp=append_op):
    op = call(d.FileSetDeleteOp, loc, meta, fs, f, opts)
    if isinstance(op, Raised):
      if group != "changes":
        raise core.PathEnd
      cx.record("files without information are rejected",
                error_name(op) == "SpaceRuntimeError", str(op))

      @cx.case
      def _():
        i = cx.fresh("anyfile", I)
        dom.note(i)
        ok = core.forall(dom, lambda t: z3.And(
            term(at(t).path) != cx.lit(""),
            term(at(t).storage_statistics.num_rows) != 0,
            term(at(t).manifest_file_id) != 0))
        cx.prove("a file set with all information is accepted",
                 Or(Not(ok), vc_eq(fs.index_manifest_files.vc_len(), 0)))
      return
    cx.record("one operation writes the rows that are kept",
              len(made) == 1)
    ap = made[0][0]
    cx.record("the rows kept are written as they are stored",
              made[0][2] is meta and made[0][3] is opts and
              made[0][4] is True, str(made[0][1:]))
    cx.prove("the rows kept are written to the dataset",
             vc_eq(made[0][1], loc))
    # Precondition: the manifest of each file is in the file set.
    dom.fact(lambda t: core.as_bool(fs.index_manifest_files.contains(
        at(t).manifest_file_id)))
    # Different manifests have different IDs.
    base = fs.index_manifest_files.base
    mid_of = ufun("manifest.id", Str, I)
    base.domain.fact(lambda k: mid_of(term(base.value(k))) == k)
    r = call(op.delete)
  touched = lambda i: kept_of(term(at(i).path)) < rows_of(  # noqa
      term(at(i).path))
  cx.record("a delete succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    raise core.PathEnd
  c = NS(fs=fs, dom=dom, at=at, keep=keep, loc=loc, sets=sets, made=made,
         fin=fin, ap=ap, mans=base, r=r, touched=touched)
  if r is None:
    if group == "changes":
      i = cx.fresh("anyfile", I)
      cx.assume(dom.member(i))
      dom.note(i)
      cx.prove("no version is made only if no row matches", Not(touched(i)))
    return
  GROUPS[group](c)


def anyfile(c):
  i = cx.fresh("anyfile", I)
  cx.assume(c.dom.member(i))
  c.dom.note(i)
  return i, term(c.at(i).path)


def g_changes(c):
  cx.prove("a patch is made only if a row matches",
           core.exists(c.dom, c.touched))
  i, p = anyfile(c)
  cx.record("a delete adds no row to the change log",
            c.r.change_log.added_rows.concrete() == [])
  one_if(c.r.change_log.deleted_rows, c.dom, i, c.touched(i),
         "the change log", lambda m: bitmap_ok(m, c.at(i), p, c.keep))


def g_rows(c):
  i, p = anyfile(c)
  one_if(c.ap.writes, c.dom, i, z3.And(c.touched(i), kept_of(p) > 0),
         "the rows kept of a file", lambda t: rows_ok(t, p))
  cx.record("the new files are finished once", c.fin == [c.ap], str(c.fin))
  add = c.r.addition.index_manifest_files
  cx.record("a delete adds no record file",
            c.r.addition.record_manifest_files.concrete() == [] and
            c.r.deletion.record_manifest_files.concrete() == [])
  if c.ap.patch is None:
    cx.record("nothing is added when nothing is written",
              add.concrete() == [], str(add))
  else:
    cx.prove("the manifests written are added",
             vc_eq(add, c.ap.patch.addition.index_manifest_files))


def removed(c):
  mids = c.r.deletion.index_manifest_files
  segs = [s for s in mids.segs if s != []]
  ok = len(segs) == 1 and isinstance(segs[0], Comp)
  cx.record("the manifests removed are a list", ok, str(mids))
  return segs[0] if ok else None


def g_manifests(c):
  i, p = anyfile(c)
  mids = c.r.deletion.index_manifest_files
  m = c.fs.index_manifest_files.peek(c.at(i).manifest_file_id)
  if m is not None:
    cx.prove("the manifest of a changed file is removed",
             Implies(c.touched(i), mids.contains(m)))


def g_removed(c):
  k = removed(c)
  if k is None:
    return
  a, b = cx.fresh("onemanifest", I), cx.fresh("another", I)
  for t in (a, b):
    cx.assume(k.domain.member(t))
    k.domain.note(t)
  cx.assume(a != b)
  cx.record("a manifest is removed once per entry",
            all(len(y) == 1 for _, y in k.alts))
  if not all(len(y) == 1 for _, y in k.alts):
    return
  man = lambda t: c.mans.value(term(c.at(t).manifest_file_id))  # noqa
  for (g, (y,)), (h, (z,)) in zip(k.at(a), k.at(b)):
    cx.prove("a manifest removed is that of a changed file", Implies(
        g, core.exists(c.dom, lambda t, y=y: z3.And(
            c.touched(t), term(man(t)) == term(y)))))
    cx.prove("a manifest is removed once",
             Implies(And(g, h), Not(vc_eq(y, z))))


def g_carried(c):
  k = removed(c)
  if k is None:
    return
  cx.record("the manifests removed are read for other files",
            len(c.sets) == 1 and c.sets[0].was_read, str(c.sets))
  if len(c.sets) != 1:
    return
  s = c.sets[0]
  core.each_of("manifests read", core.b_list(s.paths), k.domain,
               lambda j, y: cx.prove(
                   "each manifest removed is read", Or(*[
                       And(g, vc_eq(y, stubs.Path.join(c.loc, z[0])))
                       for g, z in k.at(j)])))
  q = sym_str("otherfile")
  t, n = s.filters.ev(lambda names: (q.t, z3.BoolVal(False)) if (
      names[0] == D().constants.FILE_PATH_FIELD) else None)
  cx.prove("files that did not change are carried over, others not",
           t == z3.Not(core.exists(c.dom, lambda k: z3.And(
               c.touched(k), term(c.at(k).path) == q.t)).t))
  tab = c.ap.tables.concrete()
  cx.record("the carried over files are added once",
            tab is not None and tab in ([], [s]), str(c.ap.tables))
  if not tab:
    cx.prove("no carried over file is lost", s.n == 0)


def g_statistics(c):
  st = c.ap.patch.storage_statistics_update if c.ap.patch is not None else (
      M().StorageStatistics())
  up = c.r.storage_statistics_update
  at, dom = c.at, c.dom
  cx.prove("the rows deleted are counted", vc_eq(up.num_rows, SymNum(
      -core.sum_over(dom, lambda t: rows_of(term(at(t).path)) - kept_of(
          term(at(t).path))).t)))
  for k in ("index_compressed_bytes", "index_uncompressed_bytes"):
    cx.prove(f"{k}: those of the files written less those replaced",
             vc_eq(getattr(up, k), getattr(st, k) - core.sum_over(
                 dom, lambda t, k=k: z3.If(c.touched(t), term(getattr(
                     at(t).storage_statistics, k)), 0))))
  cx.prove("record bytes do not change", vc_eq(
      up.record_uncompressed_bytes, 0))


GROUPS = {"changes": g_changes, "rows": g_rows, "manifests": g_manifests,
          "removed": g_removed, "carried": g_carried,
          "statistics": g_statistics}
for _g, _p in (("changes", "C06 C11 C03"), ("rows", "C06 C09"),
               ("manifests", "C06 C09"), ("removed", "C06 C09"),
               ("carried", "C06 C09"), ("statistics", "C10")):
  unit(_p, f"FileSetDeleteOp.delete [{_g}]", FUNCTIONS, budget=180)(
      lambda g=_g: run_delete(g))


def cx_prove_at(path, loc):
  ps = stubs.parts(term(path))
  cx.record("files are read below the location", ps[0].eq(term(loc)),
            str(path))
  return True


def one_if(lst, dom, i, cond, what, ok):
  """For index i the list has exactly one element if cond, else none."""
  segs = [s for s in lst.segs if s != []]
  good = len(segs) == 1 and isinstance(segs[0], Comp) and (
      segs[0].domain is dom)
  if not segs:
    cx.prove(f"{what}: none is lost", Not(SymBool(cond)))
    return
  cx.record(f"{what}: elements for the files in order", good, str(lst))
  if not good:
    return
  for g, items in segs[0].at(i):
    cx.record(f"{what}: at most one for a file", len(items) <= 1)
    g = core.as_bool(g)
    cx.prove(f"{what}: exactly for the files it is due for",
             z3.Implies(g, cond if items else z3.Not(cond)))
    for y in items:
      @cx.case
      def _(g=g, y=y):
        cx.assume(g)
        ok(y)
  cx.prove(f"{what}: none is lost", z3.Implies(cond, z3.Or(*[
      core.as_bool(g) for g, items in segs[0].at(i) if items],
      z3.BoolVal(False))))


def bitmap_ok(m, f, p, keep):
  cx.prove("the change log names the file", vc_eq(m.file, f.path))
  cx.prove("the change log has the number of rows of the file",
           vc_eq(m.num_rows, f.storage_statistics.num_rows))
  j = cx.fresh("anyrowid", I)
  cx.assume(z3.And(j >= 0, j < rows_of(p)))
  # A file of which no row is kept: the filter is true for each row.
  hit = keep(row_of(p, j))
  cx.assume(z3.Implies(kept_of(p) == 0, hit))
  if bool(m.all_rows):
    cx.prove("all rows are logged as deleted only if all are",
             kept_of(p) == 0)
    return
  b = m.roaring_bitmap
  cx.record("the rows deleted are in a bitmap", isinstance(b, Bytes), str(b))
  if isinstance(b, Bytes):
    cx.prove("exactly the rows for which the filter is true are logged as "
             "deleted", b.member(j) == hit)
    k = cx.fresh("norow", I)
    cx.assume(z3.Or(k < 0, k >= rows_of(p)))
    cx.prove("only rows of the file are logged", z3.Not(b.member(k)))


def rows_ok(t, p):
  cx.record("the rows written are the rows of the file that are kept",
            isinstance(t, FileRows) and len(t.masks) >= 1)
  if isinstance(t, FileRows):
    cx.prove("the rows written are those of the file", t.path == p)
    cx.record("the rows written have the columns of the file",
              not t.extra, str(t.extra))
