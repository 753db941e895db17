"""core/ops/read.py, core/fs/array_record.py: reading rows and records."""
from __future__ import annotations

import sys

import z3

from engine import core, proto, stubs
from engine.core import (cx, VList, SymStr, SymNum, SymBool, And, Or, Not,
                         Implies, sym_str, sym_int, sym_bool, vc_eq, term, I,
                         B, Str, Comp, ufun, wrap)
from engine.specs.deletes import IntRange, arange
from engine.specs.manifests import RT, M
from engine.specs.runners import Token
from engine.stubs import patched, NS
from engine.unit import unit, call, Raised, error_name


def O():
  return sys.modules["space.core.ops.read"]


def lmap(f, x):
  return core.b_list(core.b_map(f, x))


def record_at(path, i):
  """The record of a file at a position."""
  return ufun("record", Str, I, Str)(path, i)


# ----------------------------------------------------------------------------
# roaring bitmaps as lists of their distinct members
# ----------------------------------------------------------------------------
class Members:
  """BitMap.deserialize(bytes)"""
  vc_constant = True

  def __init__(self, b):
    self.b = term(b)
    self.n = ufun("bitmap.n", Str, I)(self.b)
    self.dom = core.index_domain(self.n)
    cx.assume(self.n >= 0)
    self.dom.fact(lambda t: z3.And(self.has(self.nth(t)),
                                   self.ix(self.nth(t)) == t))

  def nth(self, t):
    return ufun("bitmap.nth", Str, I, I)(self.b, t)

  def ix(self, v):
    return ufun("bitmap.ix", Str, I, I)(self.b, v)

  def has(self, v):
    return ufun("bitmap.has", Str, I, B)(self.b, v)

  def to_array(self):
    return core.symbolic_list("members", lambda t: wrap(self.nth(t)),
                              dom=self.dom)[0]
  vc_list = to_array

  def contains(self, v):
    return SymBool(self.has(term(v)))

  def vc_len(self):
    return wrap(self.n)

  @staticmethod
  def deserialize(b):
    return Members(b)

  def complete(self, v):
    """v, if it is a member, is one of the list."""
    i = self.ix(v)
    self.dom.note(i)
    cx.assume(z3.Implies(self.has(v), z3.And(
        i >= 0, i < self.n, self.nth(i) == v)))


@unit("C11 C12 C19", "_bitmap_mask", ["core/ops/read.py:_bitmap_mask"])
def bitmap_mask():
  o = O()
  b, n = sym_str("bitmap"), sym_int("rows")
  cx.assume(term(n) >= 0)
  rng = None
  if cx.choose("rows are sliced"):
    rng = RT().DataFile.Range(start=sym_int("start"), end=sym_int("end"))
  m = Members(b)
  # Precondition (C11): the members are rows of the file.
  m.dom.fact(lambda t: z3.And(m.nth(t) >= 0, m.nth(t) < term(n)))
  with patched(o, BitMap=Members):
    r = call(o._bitmap_mask, b, n, rng)
  cx.record("a mask is made", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.prove("a mask has a value for each row", vc_eq(core.b_len(r), n))

  @cx.case
  def _():
    k = cx.fresh("anyrow", I)
    cx.assume(z3.And(k >= 0, k < term(n)))
    m.complete(k)
    want = m.has(k)
    if rng is not None:
      want = z3.And(want, k >= term(rng.start), k < term(rng.end))
    v = r[wrap(k)]
    cx.prove("exactly the rows of the bitmap that are in the slice are "
             "selected", core.as_bool(v) == want)


# ----------------------------------------------------------------------------
# addresses and record files
# ----------------------------------------------------------------------------
class AddressTable:
  """A table of one address column; flattened if `flat`."""
  vc_constant = True

  def __init__(self, n, name, flat=False, key=None):
    self.n, self.name, self.flat, self.key = n, name, flat, key

  @property
  def num_rows(self):
    return wrap(self.n)
  vc_len = lambda self: self.num_rows  # noqa

  def path(self, k):
    return ufun("address.path", I, Str)(k)

  def row(self, k):
    return ufun("address.row", I, I)(k)

  def flatten(self):
    return AddressTable(self.n, self.name, True, self.key)

  def append_column(self, name, col):
    if type(col) is VList:
      col, = col.concrete()
    ok = isinstance(col, IntRange)
    cx.record("rows are numbered", ok, str(col))
    if not ok:
      raise core.PathEnd
    cx.prove("each row is numbered by its position", And(
        vc_eq(col.lo, 0), vc_eq(col.hi, wrap(self.n))))
    return AddressTable(self.n, self.name, self.flat, name)

  def names(self):
    p = f"{self.name}." if self.name else ""
    return {p + "_FILE": "path", p + "_ROW_ID": "row", self.key: "key"}

  def group_by(self, name):
    cx.record("records are grouped by file", self.flat and
              self.names().get(name) == "path", str(name))
    return NS(aggregate=lambda aggs: Groups(self, name, aggs))


class Groups:
  """table.group_by(path).aggregate(lists): each row is in the group of its
  path once; the lists of a group are in the same order."""
  vc_constant = True

  def __init__(self, t, by, aggs):
    self.t = t
    self.cols = {by: "path"}
    for c, f in core.b_list(aggs).concrete():
      if f != "list":
        raise core.Unsupported(f"aggregation {f}")
      self.cols[f"{c}_list"] = t.names()[c]
    self.n = cx.fresh("groups", I)
    cx.assume(self.n >= 0)
    self.dom = core.index_domain(self.n)
    nm = lambda s: cx.name("group." + s)  # noqa
    self.path = z3.Function(nm("path"), I, Str)
    self.size = z3.Function(nm("size"), I, I)
    self.key = z3.Function(nm("key"), I, I, I)
    self.of = z3.Function(nm("of"), I, I)
    self.at = z3.Function(nm("at"), I, I)
    self.dom.fact(lambda g: self.size(g) >= 1)

  def complete(self, k):
    cx.assume(z3.And(self.of(k) >= 0, self.of(k) < self.n, self.at(k) >= 0,
                     self.at(k) < self.size(self.of(k)),
                     self.key(self.of(k), self.at(k)) == k,
                     self.path(self.of(k)) == self.t.path(k)))
    self.dom.note(self.of(k))

  def inner(self, g):
    d = core.index_domain(self.size(g))
    if d not in cx.ghost.setdefault("$groups", []):
      cx.ghost["$groups"].append(d)
      d.fact(lambda j: z3.And(
          self.key(g, j) >= 0, self.key(g, j) < self.t.n,
          self.of(self.key(g, j)) == g, self.at(self.key(g, j)) == j,
          self.t.path(self.key(g, j)) == self.path(g)))
    return d

  def column(self, name):
    if name not in self.cols:
      raise KeyError(name)
    return GroupColumn(self, self.cols[name])
  __getitem__ = column

  @property
  def num_rows(self):
    return wrap(self.n)


class GroupColumn:
  vc_constant = True

  def __init__(self, g, what):
    self.g, self.what = g, what

  def combine_chunks(self):
    return self

  def vc_list(self):
    g, what = self.g, self.what
    return core.symbolic_list("groups", lambda t: (
        Scalar(SymStr(g.path(t))) if what == "path" else
        GroupList(g, what, t)), dom=g.dom)[0]
  to_pylist = None

  def vc_len(self):
    return wrap(self.g.n)


class Scalar:
  vc_constant = True

  def __init__(self, v):
    self.v = v

  def as_py(self):
    return self.v

  def vc_subst(self, sub):
    return Scalar(sub.obj(self.v))


class GroupList:
  """A list value of a group: row IDs or keys."""
  vc_constant = True

  def __init__(self, g, what, t, py=False):
    self.g, self.what, self.t, self.py = g, what, t, py

  def vc_subst(self, sub):
    return GroupList(self.g, self.what, sub(self.t), self.py)

  def value(self, j):
    k = self.g.key(self.t, j)
    return wrap(k if self.what == "key" else self.g.t.row(k))

  def vc_list(self):
    box = (lambda v: v) if self.py else Scalar
    return core.symbolic_list(self.what, lambda j: box(self.value(j)),
                              dom=self.g.inner(self.t))[0]

  @property
  def values(self):
    return self

  def as_py(self):
    return GroupList(self.g, self.what, self.t, True)
  to_pylist = as_py

  def vc_len(self):
    return wrap(self.g.size(self.t))


class Records:
  """read_record_file(path, row IDs), by contract (unit read_record_file)."""
  vc_constant = True

  def __init__(self, path, rows):
    self.path, self.rows = path, rows

  def vc_subst(self, sub):
    return Records(sub.obj(self.path), sub.obj(self.rows))

  def vc_list(self):
    return core.symbolic_list("records", lambda j: SymStr(record_at(
        term(self.path), term(self.rows.value(j)))),
                              dom=self.rows.g.inner(self.rows.t))[0]


def read_records(path, positions=None):
  if not isinstance(positions, GroupList) or positions.what != "row":
    raise core.Unsupported("records read at other positions")
  return Records(path, positions)


@unit("C12 C05 C19", "read_record_column",
      ["core/ops/read.py:read_record_column",
       "core/utils/paths.py:StoragePathsMixin.full_path"], budget=100)
def record_column():
  o = O()
  field = "rec" if cx.choose("the addresses are those of a field") else None
  n = cx.fresh("rows", I)
  cx.assume(n >= 0)
  t = AddressTable(n, field, flat=field is None)
  loc = sym_str("location")
  P = sys.modules["space.core.utils.paths"].StoragePathsMixin
  groups = []

  with patched(o, np=NS(arange=arange), pa=NS(
      array=lambda x, *a, **k: x, binary=lambda: "binary",
      Table=AddressTable), read_record_file=read_records,
               FILE_PATH_FIELD="_FILE", ROW_ID_FIELD="_ROW_ID"):
    old = AddressTable.group_by

    def group_by(self, name):
      a = old(self, name).aggregate

      def f(aggs):
        groups.append(a(aggs))
        return groups[-1]
      return NS(aggregate=f)
    AddressTable.group_by = group_by
    try:
      r = call(o.read_record_column, P(loc), t, field)
    finally:
      AddressTable.group_by = old
  cx.record("reading records succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.prove("there is a value for each row", vc_eq(core.b_len(r), wrap(n)))

  @cx.case
  def _():
    k = cx.fresh("anyrow", I)
    cx.assume(z3.And(k >= 0, k < n))
    for g in groups:
      g.complete(k)
      if isinstance(r, core.Arr):
        for s in r.writes.segs:
          fl = getattr(getattr(s, "domain", None), "flat", None)
          if fl is not None:
            fl.at(g.of(k), g.at(k))
    v = r[wrap(k)]
    cx.record("a row has a value", v is not None)
    if v is not None:
      cx.prove("the value of a row is the record at its address", vc_eq(
          v, SymStr(record_at(term(stubs.Path.join(loc, SymStr(t.path(k)))),
                              t.row(k)))))


@unit("C12 C05", "read_record_file",
      ["core/fs/array_record.py:read_record_file"])
def record_file():
  m = sys.modules["space.core.fs.array_record"]
  path = sym_str("path")
  log = []

  class Reader:
    vc_mutable = ("open",)

    def __init__(self, p, options=None):
      self.p, self.open = p, True
      log.append(self)

    def check(self):
      cx.record("a closed file is not read", self.open)

    def read(self, pos):
      self.check()
      return (self.p, pos)

    def read_all(self):
      self.check()
      return (self.p, None)

    def close(self):
      self.open = False

    def __enter__(self):
      return self

    def __exit__(self, *a):
      self.close()
  pos = [None, Token("positions"), VList()][
      0 if cx.choose("all") else 1 + int(cx.choose("no position"))]
  with patched(m, ar=NS(ArrayRecordReader=Reader)):
    r = call(m.read_record_file, path, pos) if pos is not None else (
        call(m.read_record_file, path))
  cx.record("reading succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.record("files are closed", all(not x.open for x in log))
  ok = type(r) is tuple and len(r) == 2
  cx.record("the records of the file are returned", ok, str(r))
  if ok:
    cx.prove("the file is read", vc_eq(r[0], path))
    cx.record("exactly the records asked for are read", r[1] is pos or (
        type(pos) is VList and type(r[1]) is VList and
        r[1].concrete() == []), str(r[1]))


# ----------------------------------------------------------------------------
# reading a file set
# ----------------------------------------------------------------------------
def rows_in(path):
  return ufun("rows", Str, I)(path)


class F:
  """pa.Field, with the field ID of its metadata."""
  vc_constant = True

  def __init__(self, name, fid, type_=None):
    self.name, self.fid, self.type = name, fid, type_

  def vc_subst(self, sub):
    return F(sub.obj(self.name), sub.obj(self.fid), self.type)

  @property
  def metadata(self):
    raise core.Unsupported("metadata of a field")


class Mask:
  """_bitmap_mask(bitmap, rows, slice), by contract (unit _bitmap_mask)."""
  vc_constant = True

  def __init__(self, bitmap, n, rng):
    self.bitmap, self.n, self.rng = bitmap, n, rng


class Rows:
  """Which rows of a file: all but those dropped by `steps`; `part`: the j-th
  batch of them."""
  vc_constant = True

  def __init__(self, path, filter_, steps=(), part=None):
    self.path, self.filter, self.steps = path, filter_, steps
    self.part = part

  def vc_subst(self, sub):
    return Rows(sub.obj(self.path), self.filter,
                tuple((k, *map(sub.obj, a)) for k, *a in self.steps),
                None if self.part is None else sub.obj(self.part))

  def kept(self, k):
    """Is the row at a position of the file among them?"""
    r = z3.BoolVal(True)
    for kind, *a in self.steps:
      if kind == "mask":
        r = z3.And(r, ufun("bitmap.has", Str, I, B)(term(a[0]), k))
      else:
        r = z3.And(r, k >= term(a[0]), k < term(a[1]))
    return r

  @property
  def n(self):
    if not self.steps and self.filter is None:
      return rows_in(term(self.path))
    raise core.Unsupported("number of rows selected")


class Cell:
  """A column: the values of a column of the file, or the records they are
  addresses of."""

  def __init__(self, kind, col, field=None, name=None):
    self.kind, self.col, self.field, self.name = kind, col, field, name

  def vc_subst(self, sub):
    return Cell(self.kind, sub.obj(self.col), sub.obj(self.field),
                sub.obj(self.name))


class FileTable:
  """A table read of a file: its rows and its columns."""

  def __init__(self, rows, schema, cols=None):
    self.rows, self.schema_ = rows, schema
    self.cols = cols if cols is not None else lmap(
        lambda c: Cell("value", c[0]), core.b_enumerate(schema))

  def vc_subst(self, sub):
    return FileTable(sub.obj(self.rows), sub.obj(self.schema_),
                     sub.obj(self.cols))

  def _rows(self, **kw):
    r = self.rows
    d = dict(path=r.path, filter_=r.filter, steps=r.steps, part=r.part)
    d.update(kw)
    return FileTable(Rows(**d), self.schema_, self.cols)

  @property
  def num_rows(self):
    return wrap(self.rows.n)

  def vc_len(self):
    return self.num_rows

  @property
  def schema(self):
    return self.schema_

  def filter(self, mask):
    if not isinstance(mask, Mask):
      raise core.Unsupported("a mask of another kind")
    r = self.rows
    cx.record("rows are selected by their position in the file",
              r.filter is None and not r.steps and r.part is None)
    cx.prove("a mask has a value for each row", vc_eq(mask.n, self.num_rows))
    steps = (("mask", mask.bitmap),)
    if mask.rng is not None:
      steps += (("slice", mask.rng.start, mask.rng.end),)
    return self._rows(steps=steps)

  def slice(self, offset=0, length=None):
    r = self.rows
    cx.record("a slice is of the rows of a file", r.filter is None and
              not r.steps and r.part is None)
    if length is None:
      raise core.Unsupported("a slice without a length")
    return self._rows(steps=(("slice", offset, offset + length),))

  def to_batches(self, max_chunksize=None):
    cx.record("batches are as large as asked for",
              max_chunksize is cx.ghost["batch size"])
    n = ufun("batches", Str, I)(term(self.rows.path))
    return core.symbolic_list("batches", lambda j: self._rows(part=wrap(j)),
                              dom=core.index_domain(n))[0]

  def select(self, ids):
    return FileTable(self.rows, self.schema_, lmap(
        lambda i: Cell("value", i), ids))

  def append_column(self, field, col):
    ok = isinstance(col, Cell) and same_row_set(self.rows, col.kind[1])
    cx.record("a column is of the rows of the table", ok, str(col))
    if not ok:
      raise core.PathEnd
    return FileTable(self.rows, self.schema_, self.cols + VList([
        Cell("record", col.col, field, col.name)]))

  # state of a loop: the columns
  def vc_havoc(self, lp):
    return FileTable(self.rows, self.schema_,
                     VList.of_segs([core.Prefix(object())]))

  @staticmethod
  def vc_fold(h, lp, comp, v0, posts, bad):
    alts = []
    for g, v in posts:
      if v is h:
        alts.append((g, []))
        continue
      if not isinstance(v, FileTable) or v.cols.segs[0] is not h.cols.segs[0]:
        raise core.Unsupported("a table replaced in a loop")
      if not all(type(s) is list for s in v.cols.segs[1:]):
        raise core.Unsupported("a table grows by lists")
      alts.append((g, [x for s in v.cols.segs[1:] for x in s]))
    cols = VList.of_segs(list(v0.cols.segs) + [Comp(comp.domain, lp.index,
                                                    alts)])
    return FileTable(v0.rows, v0.schema_, cols)


def same_row_set(a, b):
  if a is b:
    return True
  return (a.path is b.path and a.steps is b.steps and
          (a.part is b.part or bool(vc_eq(a.part, b.part))))


def record_cells(paths, addresses, field=None):
  """read_record_column, by contract (unit read_record_column)."""
  if not isinstance(addresses, FileTable):
    raise core.Unsupported("addresses of another table")
  c = addresses.cols
  one = c.concrete()
  if one is None or len(one) != 1 or one[0].kind != "value":
    raise core.Unsupported("addresses of several columns")
  return Cell(("records", addresses.rows), one[0].col, None, field)


class Setup:
  """A dataset: a physical schema of any fields, some of them records."""

  def __init__(self):
    n = cx.fresh("fields", I)
    cx.assume(n >= 1)
    self.dom = core.Domain("fields", n=n)
    self.name = ufun("field.name", I, Str)
    self.id = ufun("field.id", I, I)
    self.rec = ufun("is record", Str, B)
    self.by_id = ufun("field.by id", I, I)
    self.by_name = ufun("field.by name", Str, I)
    # Precondition (C13): names and IDs are unique.
    self.dom.fact(lambda t: z3.And(
        self.by_id(self.id(t)) == t, self.by_name(self.name(t)) == t,
        self.id(t) >= 0))
    self.schema = core.symbolic_list("fields", lambda t: F(
        SymStr(self.name(t)), SymNum(self.id(t))), dom=self.dom)[0]
    self.record_fields = Names(self.rec)
    m = M()
    self.metadata = NS(schema=NS(
        fields=Token("fields"), record_fields=self.record_fields))

  def patches(self):
    a = sys.modules["space.core.schema.arrow"]

    def schema(fields, record_fields, physical):
      cx.record("the schema of the dataset is used",
                fields is self.metadata.schema.fields and
                isinstance(record_fields, Names) and physical is True)
      return self.schema
    return patched(a, arrow_schema=schema, field_id=lambda f: f.fid,
                   field_metadata=lambda i: i, pa=NS(
                       field=lambda n, t, metadata=None: F(n, metadata, t),
                       binary=lambda: "binary"))


def check_read(su, r, files, dom, file, loc, filt, ref, column, columns_of):
  """The tables of `r` are the rows selected of the files, with the columns
  selected."""
  segs = [x for x in r.segs if x != []]
  if not segs:
    cx.prove("no file is skipped", dom.n == 0)
    return
  ok = len(segs) == 1 and isinstance(segs[0], Comp)
  cx.record("tables are read file by file", ok, str(r))
  if not ok:
    return
  c = segs[0]
  fl = getattr(c.domain, "flat", None)
  cx.record("tables are read file by file", (
      fl.outer if fl else c.domain) is dom, str(r))

  # No file is skipped.
  @cx.case
  def _():
    t = cx.fresh("anyfile", I)
    dom.note(t)
    cx.assume(dom.member(t))
    nb = ufun("batches", Str, I)(term(stubs.Path.join(loc, file(t).path)))
    zero = z3.IntVal(0)
    if fl:
      cx.prove("no file is skipped", z3.Or(fl.member(t, zero), nb <= 0))
      k = fl.at(t, zero)
      cx.prove("a table is given of each", Or(z3.Or(*[
          g for g, y in c.at(k) if y], z3.BoolVal(False)), nb <= 0))
    else:
      cx.prove("no file is skipped", z3.Or(*[
          g for g, y in c.at(t) if len(y) == 1]))

  @cx.case
  def _():
    k = cx.fresh("anytable", I)
    c.domain.note(k)
    cx.assume(c.domain.member(k))
    t = fl.o(k) if fl else k
    dom.note(t)
    cx.assume(dom.member(t))
    for g, ys in c.at(k):
      if not ys:
        continue

      @cx.case
      def _(g=g, ys=ys):
        cx.assume(g)
        ok = len(ys) == 1 and isinstance(ys[0], FileTable)
        cx.record("one table at a time", ok, str(ys))
        if ok:
          check_table(su, ys[0], fl, k, t, file(t), loc, filt, ref, column, columns_of)


def check_table(su, y, fl, k, t, f, loc, filt, ref, column, columns_of):
  path = stubs.Path.join(loc, f.path)
  rows = y.rows
  cx.prove("a table is read of its file", vc_eq(rows.path, path))
  cx.record("the rows are those of the filter", rows.filter is filt)
  nb = ufun("batches", Str, I)(term(path))
  b = cx.fresh("anypart", I)
  whole = rows.part is None
  if fl:
    cx.prove("all rows are given, once", fl.member(t, b) == (
        b == 0 if whole else z3.And(b >= 0, b < nb)))
    if not whole:
      cx.prove("batches are given in order", vc_eq(rows.part,
                                                   wrap(fl.i(k))))
  else:
    cx.record("all rows are given, once", whole)
  # Which rows.
  row = cx.fresh("anyrow", I)
  want = z3.And(
      z3.Implies(core.as_bool(And(f.HasField("row_bitmap"),
                                  Not(f.row_bitmap.all_rows))),
                 ufun("bitmap.has", Str, I, B)(
                     term(f.row_bitmap.roaring_bitmap), row)),
      z3.Implies(core.as_bool(f.HasField("row_slice")), z3.And(
          row >= term(f.row_slice.start), row < term(f.row_slice.end))))
  cx.prove("the rows are exactly those selected of the file",
           rows.kept(row) == want)
  # Which columns.
  p = term(path)
  d = columns_of(p)
  n = d.n

  def is_record(q):
    return z3.And(z3.Not(z3.BoolVal(ref)), q.fid.t != -1,
                  su.record_fields.has(q.name.t))
  # Each column of the file is given ...
  col = cx.fresh("anycolumn", I)
  d.note(col)

  @cx.case
  def _():
    cx.assume(z3.And(col >= 0, col < n))
    found = []
    for s in y.cols.segs:
      if s == []:
        continue
      if type(s) is list:
        found += [term(x.col) == col for x in s]
        continue
      if s.domain.n is not None and s.domain.n.eq(n):
        s.domain.note(col)
        found.append(z3.Or(*[z3.And(g, term(x.col) == col)
                             for g, xs in s.at(col) for x in xs],
                           z3.BoolVal(False)))
        continue
      found.append(core.exists(s.domain, lambda e, s=s: z3.Or(*[
          z3.And(g, term(x.col) == col) for g, xs in s.at(e) for x in xs],
                                                            z3.BoolVal(False))))
    cx.prove("no column selected is lost", Or(*[x if isinstance(x, SymBool) else SymBool(x)
                                              for x in found]))
  # ... and what is given is a column of the file.
  kinds = []
  for j, s in enumerate(y.cols.segs):
    if s == []:
      continue
    cx.record("columns are given by rule", isinstance(s, Comp), str(s))
    if not isinstance(s, Comp):
      continue

    @cx.case
    def _(s=s):
      e = cx.fresh("anycell", I)
      s.domain.note(e)
      cx.assume(s.domain.member(e))
      for g, xs in s.at(e):
        @cx.case
        def _(g=g, xs=xs):
          cx.assume(g)
          for x in xs:
            q = column(p, term(x.col))
            cx.prove("a column given is one of the file", z3.And(
                term(x.col) >= 0, term(x.col) < n))
            d.note(term(x.col))
            cx.prove("record fields, and no others, are read of their files",
                     is_record(q) == z3.BoolVal(x.kind == "record"))
            if x.kind == "record":
              cx.prove("a record column has its name", And(
                  vc_eq(x.field.name, q.name), vc_eq(x.field.fid, q.fid)))
              cx.prove("the addresses are those of the field",
                       vc_eq(x.name, q.name))


class Names:
  """A list of names, known by what it contains."""
  vc_constant = True

  def __init__(self, has):
    self.has = has

  def contains(self, x):
    return SymBool(self.has(term(x)))


def file_set_read(filtered=None, ref=None, chosen=None):
  o = O()
  su = Setup()
  loc = sym_str("location")
  nf = cx.fresh("files", I)
  cx.assume(nf >= 0)
  if filtered is None:
    filtered = cx.choose("rows are filtered")
  filt = Token("filter") if filtered else None
  if ref is None:
    ref = cx.choose("references are read")
  size = Token("batch size")
  cx.ghost["batch size"] = size
  if chosen is None:
    chosen = cx.choose("fields are selected")
  if not chosen:
    chosen = None
  else:
    chosen = Names(ufun("selected", Str, B))
  Opt = sys.modules["space.core.options"].ReadOptions
  opts = Opt(filter_=filt, fields=chosen, reference_read=ref,
             batch_size=size)

  def file(t):
    f = proto.sym_msg(RT().DataFile, "file", (t,))
    return f
  files, dom = core.symbolic_list("files", file, n=nf)

  def sizes(t):
    p = term(stubs.Path.join(loc, file(t).path))
    return z3.And(ufun("columns", Str, I)(p) >= 0,
                  ufun("batches", Str, I)(p) >= 0)
  dom.fact(sizes)
  if filtered:
    # Precondition: rows are selected by position only without a filter.
    dom.fact(lambda t: z3.And(
        z3.Not(core.as_bool(file(t).HasField("row_bitmap"))),
        z3.Not(core.as_bool(file(t).HasField("row_slice")))))
  fs = NS(index_files=files)

  # Columns of the file at a path: its fields that are selected.
  def column(p, c):
    return F(SymStr(ufun("column.name", Str, I, Str)(p, c)),
             SymNum(ufun("column.id", Str, I, I)(p, c)))

  def columns_of(p):
    """The columns of the file at a path: their indices."""
    d = core.index_domain(ufun("columns", Str, I)(p))
    if d not in cx.ghost_const.setdefault("$columns", []):
      cx.ghost_const["$columns"].append(d)

      def fact(c):
        f = column(p, c)
        i = ufun("column.field", Str, I, I)(p, c)
        su.dom.note(i)
        return z3.And(
            # A field of the dataset, or one of an external file.
            z3.Or(f.fid.t == -1, z3.And(
                su.dom.member(i), su.id(i) == f.fid.t,
                su.name(i) == f.name.t)),
            selected(f.name.t))
      d.fact(fact)
    return d

  asked = []

  def read_table(path, columns=None, filters=None):
    p = term(path)
    cx.record("the filter of the user is applied", filters is filt)
    ok = type(columns) is VList or columns is chosen
    cx.record("columns are named", ok, str(columns))
    if not ok:
      raise core.PathEnd
    asked.append(columns)
    return FileTable(Rows(path, filters), core.symbolic_list(
        "columns", lambda c: column(p, c), dom=columns_of(p))[0])

  def selected(name):
    if chosen is None:
      return z3.BoolVal(True)
    return chosen.has(name)

  with su.patches(), patched(o, pq=NS(read_table=read_table),
                             pa=NS(table=lambda x: x, Table=FileTable),
                             _bitmap_mask=Mask,
                             set=lambda x=(): x if isinstance(
                                 x, Names) else core.b_set(x),
                             read_record_column=record_cells):
    r = call(lambda: core.b_list(iter(o.FileSetReadOp(
        loc, su.metadata, fs, opts))))
  cx.record("reading succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  for columns in asked:
    if chosen is not None:
      cx.record("the fields selected are read", columns is chosen)
    else:
      core.each_of("all fields are read", columns, su.dom, lambda i, y:
                   cx.prove("a field is read by its name", vc_eq(
                       y, SymStr(su.name(i)))))
  check_read(su, r, files, dom, file, loc, filt, ref, column, columns_of)


for _name, _kw in (
    ("references", dict(ref=True)),
    ("filter", dict(ref=False, filtered=True)),
    ("rows", dict(ref=False, filtered=False, chosen=False)),
    ("rows and fields", dict(ref=False, filtered=False, chosen=True))):
  unit("C12 C11 C05 C01", f"FileSetReadOp [{_name}]",
       ["core/ops/read.py:FileSetReadOp.__init__",
        "core/ops/read.py:FileSetReadOp.__iter__",
        "core/ops/read.py:FileSetReadOp._read_index_and_record",
        "core/schema/arrow.py:classify_fields",
        "core/schema/arrow.py:binary_field"], budget=170)(
            lambda kw=_kw: file_set_read(**kw))
