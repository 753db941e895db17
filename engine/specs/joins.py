"""Joins: ray/ops/join.py, core/transform/join.py"""
from __future__ import annotations

import sys

import z3

from engine import core
from engine.core import (cx, VList, And, Or, Not, sym_str, sym_int, vc_eq,
                         term, as_bool, I)
from engine.specs.rays import mod, number
from engine.specs.rayruns import E
from engine.specs.runners import Token
from engine.specs.schemas import Type, FieldOf, SchemaOf, Meta
from engine.stubs import patched, NS
from engine.unit import unit, call, Raised, error_name, named


def J():
  return mod("ops.join")


def T():
  return sys.modules["space.core.transform.join"]


def R(**kw):
  return sys.modules["space.core.options"].Range(**kw)


# ----------------------------------------------------------------------------
# ranges
# ----------------------------------------------------------------------------
def some_range(side, known=True):
  if not known:
    return R(min_=None, max_=None, include_max=True)
  return R(min_=core.sym_real(side + "_min"), max_=core.sym_real(
      side + "_max"), include_max=True)


def within(k, r):
  if r.min_ is None:
    return z3.BoolVal(True)
  hi = (k <= r.max_) if r.include_max is True else (k < r.max_)
  return as_bool(And(r.min_ <= k, hi))


@unit("C22", "_intersect_ranges", ["ray/ops/join.py:_intersect_ranges"])
def intersect():
  a = some_range("left", cx.choose("the left range is known"))
  b = some_range("right", cx.choose("the right range is known"))
  r = call(lambda: J()._intersect_ranges(a, b))
  cx.record("ranges have an intersection", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised) or r is None:
    return
  k = core.sym_real("key")
  cx.record("a range is known at both ends", r.min_ is not None and
            r.max_ is not None)
  cx.assume(within(k, a))
  cx.assume(within(k, b))
  cx.prove("no key of both sides is lost", within(k, r))


@unit("C22", "_range_to_filter", ["ray/ops/join.py:_range_to_filter"])
def to_filter():
  k = core.sym_real("key")
  inc = cx.choose("the range has its end")
  r = R(min_=core.sym_real("min"), max_=core.sym_real("max"), include_max=inc)
  f = call(lambda: J()._range_to_filter("akey", r))
  cx.record("a range has a filter", not isinstance(f, Raised), str(f))
  if isinstance(f, Raised):
    return

  class Env:
    pass
  names = []

  def env(*ns):
    names.append(ns)
    return k.t, z3.BoolVal(False)
  try:
    t, n = f.ev(env)
  except core.Unsupported:
    raise
  cx.record("the filter is on the join key", all(
      x in (("akey",), (("akey",),)) for x in names) and names, str(names))
  cx.prove("exactly the keys of the range match", t == within(k, r))


class Col:
  """The min or max of the files of a manifest, null where unknown."""
  vc_constant = True

  def __init__(self, which, k):
    self.which, self.k = which, k
    self.null_count = core.SymNum(z3.Int(f"nulls_{which}_{k}"))


class Manifest:
  """Rows of a manifest; the values of its files are within [lo, hi] if no
  file has unknown statistics."""
  vc_constant = True

  def __init__(self, k, asked):
    self.k, self.asked = k, asked
    self.num_rows = core.SymNum(z3.Int(f"rows_{k}"))
    self.lo, self.hi = Col("min", k), Col("max", k)
    cx.assume(And(self.num_rows >= 0, self.lo.null_count >= 0,
                  self.hi.null_count >= 0))

  def column(self, name):
    self.asked.append(name)
    C = sys.modules["space.core.schema.constants"]
    me = self

    class Stats:
      vc_constant = True

      def combine_chunks(self):
        return self

      def field(self, n):
        return {C.MIN_FIELD: me.lo, C.MAX_FIELD: me.hi}[n]
    return Stats()

  def known(self):
    return And(self.lo.null_count == 0, self.hi.null_count == 0)

  def has(self, v):
    """v may be a value of a row of the manifest."""
    lo, hi = val("min", self.k), val("max", self.k)
    return And(self.num_rows > 0, Or(Not(self.known()), And(lo <= v, v <= hi)))


def val(which, k):
  return core.SymNum(z3.Real(f"{which}_{k}"))


class Computed:
  vc_constant = True

  def __init__(self, v):
    self.v = v

  def as_py(self):
    return self.v


def PCMinMax():
  def f(kind):
    def g(col):
      if not isinstance(col, Col):
        raise core.Unsupported("min of what is no column")
      # min of the maxima would not be the min of the values
      if col.which != kind:
        return Computed(core.SymNum(z3.Real(f"{kind}_of_{col.which}_{col.k}")))
      return Computed(val(kind, col.k))
    return g
  return NS(min=f("min"), max=f("max"))


@unit("C22", "_join_key_range", ["ray/ops/join.py:_join_key_range"],
      bounded="3 manifests (of any number of files and any statistics)")
def key_range():
  n = number("manifests", 3) if cx.choose("manifests") else 0
  asked, opened = [], []
  ms = [Manifest(k, asked) for k in range(n)]
  kid = sym_int("key_id")
  schema = SchemaOf(VList([
      FieldOf("other", Type("int64"), Meta(sym_int("other_id"))),
      FieldOf("key", Type("int64"), Meta(kid))]))

  def index_manifest(*a, **k):
    opened.append(named(sys.modules[
        "space.core.storage"].Storage.index_manifest, a, k, method=True))
    return VList(ms)
  st = NS(logical_schema=schema, index_manifest=index_manifest)
  view = Token("view")
  name = "key" if cx.choose("the key is a field") else "nokey"
  with patched(J(), singleton_storage=lambda v: st if v is view else None,
               stats_field_name=lambda i: ("stats of", i), pc=PCMinMax(),
               arrow=NS(field_name_to_id_dict=lambda s: {
                   "other": s.fields[0].metadata.n, "key": kid})):
    r = call(lambda: J()._join_key_range(NS(view=view, fields=None,
                                            reference_read=False), name))
  if name == "nokey":
    cx.record("a key that is no field is an error of the user",
              error_name(r) == "UserInputError", str(r))
    return
  cx.record("the range of keys is found", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.record("all files of the storage count", all(
      v is None for a in opened for v in a.values()), str(opened))
  for a in asked:
    cx.record("the statistics of a field are read", isinstance(a, tuple))
    cx.prove("the statistics of the join key are read", vc_eq(a[1], kid))
  v = core.sym_real("value")
  somewhere = Or(False, *[m.has(v) for m in ms])
  if r is None:
    cx.prove("no range only without keys", Not(somewhere))
    return
  cx.record("a range includes its end if it is known",
            r.min_ is None or r.include_max is True)
  cx.assume(somewhere)
  cx.prove("every key is in the range", within(v, r))


# ----------------------------------------------------------------------------
# the operation
# ----------------------------------------------------------------------------
class Tab:
  """A table, by how it is made."""
  vc_constant = True

  def __init__(self, kind, *args, cols=None):
    self.kind, self.args, self.cols = kind, args, cols

  def flatten(self):
    return Tab("flatten", self)

  def join(self, right, keys, right_keys=None, join_type="left outer", **kw):
    if kw:
      raise core.Unsupported("options of a join")
    return Tab("join", self, right, keys, right_keys, join_type)

  def select(self, names):
    return Tab("select", self, names)


class BlockAt:
  """Block k of a side."""

  def __init__(self, side, k):
    self.side, self.k = side, k

  def vc_subst(self, sub):
    return BlockAt(self.side, sub(self.k))


@unit("C22", "_join", ["ray/ops/join.py:_join", "ray/ops/join.py:_read_all"])
def join():
  cls = J()._JoinInputInternal
  blocks, doms = {}, {}
  sides = []
  for s in ("left", "right"):
    blocks[s], doms[s] = core.symbolic_list(
        s + "_blocks", lambda k, s=s: BlockAt(s, k))
    sides.append(cls(Token(s), cx.choose(s + " by reference"),
                     VList([Token(s + " fields")])))
  schema = NS(names=Token("names"), empty_table=lambda: "empty")
  folded = []

  def fold(t, fields):
    r = Tab("fold", t, fields)
    folded.append(r)
    return r
  fn = J()._join
  fn = getattr(fn, "fn", fn)
  with patched(J(), iter_batches=lambda ds: blocks[ds.name],
               _fold_addresses=fold,
               pa=NS(concat_tables=lambda ts: Tab("concat", VList(ts)))):
    r = call(lambda: fn(sides[0], sides[1], "akey", schema))
  cx.record("joining succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  if isinstance(r, str):
    cx.prove("no rows only without rows of a side", z3.Or(
        *[d.n == 0 for d in doms.values()]))
    return
  cx.prove("without rows of a side there is no row", z3.And(
      *[d.n > 0 for d in doms.values()]))
  ok = isinstance(r, Tab) and r.kind == "select"
  cx.record("the fields are those of the output schema, in order",
            ok and r.args[1] is schema.names)
  if not ok:
    return
  r = r.args[0]
  fields = []
  while isinstance(r, Tab) and r.kind == "fold":
    fields.append(r.args[1])
    r = r.args[0]
  want = [s.record_fields for s in sides if s.reference_read]
  cx.record("the addresses of exactly the sides read by reference are folded",
            sorted(map(str, fields)) == sorted(map(str, want)))
  ok = isinstance(r, Tab) and r.kind == "join"
  cx.record("the tables are joined", ok)
  if not ok:
    return
  a, b, keys, rkeys, kind = r.args
  one = lambda k: k == "akey" or not isinstance(k, (str, Token)) and (  # noqa
      len(k) == 1 and k[0] == "akey")
  cx.record("the join is inner", kind == "inner", str(kind))
  cx.record("the join is by the key", one(keys) and (
      rkeys is None or one(rkeys)))
  got = []
  for x, in ((a,), (b,)):
    flat = x.kind == "flatten"
    while x.kind == "flatten":
      x = x.args[0]
    got.append((x, flat))
  for (x, flat), s in zip(got, sides):
    ok = x.kind == "concat"
    cx.record("all blocks are joined", ok)
    if not ok:
      return
    side = s.ds.name
    core.each_of("the sides are joined, with all their rows, once",
                 VList(x.args[0]), doms[side], lambda k, b, side=side: (
                     cx.record("blocks are of the side", b.side == side),
                     cx.prove("blocks are joined in order", b.k == k)))
  for (x, flat), s in zip(got, sides):
    cx.record("a side is flattened if it is read by reference",
              flat == s.reference_read)


class FoldTab:
  vc_constant = True

  def __init__(self, cols):
    self.cols = list(cols)

  def column(self, n):
    return dict(self.cols)[n]

  def drop(self, n):
    ns = [n] if isinstance(n, str) else list(n)
    if any(x not in dict(self.cols) for x in ns):
      raise KeyError(ns)
    return FoldTab([(k, v) for k, v in self.cols if k not in ns])

  drop_columns = drop

  def append_column(self, n, c):
    return FoldTab(self.cols + [(n, c)])


class Chunks:
  vc_constant = True

  def __init__(self, name):
    self.name = name

  def combine_chunks(self):
    return self


@unit("C22 C12", "_fold_addresses", ["ray/ops/join.py:_fold_addresses"],
      bounded="2 record fields")
def fold():
  n = number("record fields", 2) if cx.choose("record fields") else 0
  fs = [f"f{k}" for k in range(n)]
  C = sys.modules["space.core.schema.constants"]
  cols = [("akey", Chunks("akey"))]
  for f in fs:
    for c in (C.FILE_PATH_FIELD, C.ROW_ID_FIELD):
      cols.append((f"{f}.{c}", Chunks(f"{f}.{c}")))
  cols.append(("value", Chunks("value")))
  arr = NS(from_arrays=lambda a, names: ("struct", [
      (x, y.name) for x, y in zip(names, a)]))
  with patched(J(), pa=NS(StructArray=arr)):
    r = call(lambda: J()._fold_addresses(FoldTab(cols), VList(fs)))
  cx.record("folding succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  d = dict(r.cols)
  cx.record("columns stay as they are, addresses are folded",
            sorted(d) == sorted(["akey", "value"] + fs) and len(r.cols) == len(
                d), str(sorted(d)))
  for f in fs:
    c = d.get(f)
    cx.record("an address has its file and row", c == ("struct", [
        (C.FILE_PATH_FIELD, f"{f}.{C.FILE_PATH_FIELD}"),
        (C.ROW_ID_FIELD, f"{f}.{C.ROW_ID_FIELD}")]), str(c))
  for k in ("akey", "value"):
    cx.record("other columns keep their values", isinstance(
        d.get(k), Chunks) and d[k].name == k)


@unit("C22", "RayJoinOp", ["ray/ops/join.py:RayJoinOp.__init__",
                           "ray/ops/join.py:RayJoinOp.ray_dataset",
                           "ray/ops/join.py:_selected_record_fields"],
      bounded="3 ranges of a partition", paths=2000)
def join_op():
  m = J()
  sides = []
  for s in ("left", "right"):
    v = NS(name=s, record_fields=[s + "_r0", s + "_r1"])
    f = ["akey", s + "_r0", s + "_x"] if cx.choose(
        s + " has fields selected") else None
    sides.append(m.JoinInput(v, f, cx.choose(s + " by reference")))
  ranges = {}
  for s in sides:
    ranges[s.view.name] = (None if cx.choose(s.view.name + " is empty") else
                           Token(s.view.name + " range"))
  common = None if cx.choose("the common range is unknown") else Token("common")
  parts = None
  if cx.choose("ranges are partitioned"):
    parts = [Token(f"part{k}") for k in range(number("parts", 3))]
  asked = []

  def partition(r):
    asked.append(r)
    return parts
  inter, reads, joins, out = [], [], [], []

  def intersect_(a, b):
    inter.append((a, b))
    cx.record("the ranges of sides with rows are intersected",
              a is not None and b is not None)
    return common

  def read(view, ro, opts):
    t = Token("read")
    reads.append((t, view, ro, opts))
    return t

  class Remote:
    vc_constant = True

    def options(self, **k):
      return self

    def remote(self, a, b, key, schema):
      t = Token("joined")
      joins.append((t, a, b, key, schema))
      return t
  schema, ro = Token("schema"), Token("ray options")

  def from_refs(x):
    out.append(VList(x))
    return Token("dataset")
  with patched(m, _join_key_range=lambda i, k: ranges[i.view.name],
               _intersect_ranges=intersect_, _join=Remote(),
               _range_to_filter=lambda k, r: ("filter", k, r),
               transform_utils=NS(ray_dataset=read),
               ray=NS(data=NS(from_arrow_refs=from_refs))):
    r = call(lambda: m.RayJoinOp(
        sides[0], sides[1], ["akey"], schema, sys.modules[
            "space.core.options"].JoinOptions(partition if parts is not None
                                              else None), ro).ray_dataset())
  cx.record("a join is planned", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  ok = len(out) == 1 and r.name == "dataset"
  cx.record("the result is the joined blocks", ok)
  if not ok:
    return
  cx.record("the result has every join, once", [
      id(x) for x in out[0]] == [id(j[0]) for j in joins])
  if any(x is None for x in ranges.values()):
    cx.record("joining nothing reads nothing, or all", all(
        True for _ in joins))
    return
  for a, b in inter:
    cx.record("the ranges of both sides are intersected", {id(a), id(b)} == {
        id(ranges["left"]), id(ranges["right"])})
  got = []
  for t, a, b, key, sch in joins:
    cx.record("a join is by the key, into the schema", key == "akey" and
              sch is schema)
    fl = []
    for x, s in zip((a, b), sides):
      rd = [q for q in reads if q[0] is x.ds]
      ok = len(rd) == 1
      cx.record("a side is read for each range", ok)
      if not ok:
        return
      _, view, o, opts = rd[0]
      cx.record("the view of the side is read", view is s.view and o is ro)
      cx.record("the fields of the side are read", opts.fields is s.fields or
                opts.fields == s.fields)
      cx.record("a side is read by reference if asked for",
                opts.reference_read is s.reference_read and
                x.reference_read is s.reference_read)
      cx.record("the latest version is read", opts.snapshot_id is None)
      want = [f for f in s.view.record_fields
              if s.fields is None or f in s.fields]
      cx.record("the record fields are those read", sorted(
          x.record_fields) == want, str(x.record_fields))
      fl.append(opts.filter_)
    cx.record("both sides are read of the same range", vc_eq(
        fl[0], fl[1]) is True or fl[0] == fl[1] or fl[0] is fl[1])
    got.append(fl[0])
  if any(g is None for g in got):
    cx.record("all keys are joined once", len(got) == 1)
    return
  cx.record("a range of the join key is read", all(
      g[0] == "filter" and g[1] == "akey" for g in got))
  rs = [g[2] for g in got]
  if [id(x) for x in rs] == [id(common)] and common is not None:
    return
  cx.record("the ranges of the partition are read, each once",
            parts is not None and common is not None and asked and all(
                x is common for x in asked) and [id(x) for x in rs] == [
                    id(x) for x in parts], str(rs))


# ----------------------------------------------------------------------------
# the transform
# ----------------------------------------------------------------------------
class Names:
  vc_constant = True


def side(s, fields, ref):
  """A view with a key, two values and two record fields."""
  names = ["akey", s + "_x", s + "_r0", s + "_y", s + "_r1"]
  fs = {n: FieldOf(n, Type("binary" if "_r" in n else "int64"),
                   Meta(sym_int(n + "_id"))) for n in names}

  class Schema:
    vc_constant = True

    def __init__(self):
      self.names = list(names)

    def field(self, n):
      if n not in fs:
        raise KeyError(n)
      f = fs[n]
      return NS(remove_metadata=lambda: ("field", s, n))
  return NS(schema=Schema(), record_fields=[s + "_r0", s + "_r1"],
            sources={s: Token(s)}, fields=fields)


@unit("C22", "JoinTransform", [
    "core/transform/join.py:JoinTransform._output_schema",
    "core/transform/join.py:JoinTransform.record_fields",
    "core/transform/join.py:JoinTransform._ray_dataset",
    "core/transform/join.py:JoinTransform.sources"],
      bounded="views of five fields")
def transform():
  m = T()
  JI = J().JoinInput
  sides = []
  for s in ("left", "right"):
    kind = ("all", "some", "unknown")[core_choice(s + " fields", 3)]
    f = {"all": None, "some": [s + "_r1", "akey", s + "_y"],
         "unknown": ["akey", "nofield"]}[kind]
    v = side(s, f, None)
    x = JI(v, f, cx.choose(s + " by reference"))
    x.kind = kind
    sides.append(x)
  made = []

  def op(*a, **k):
    made.append((a, k))
    return NS(ray_dataset=lambda: "dataset")
  pa = NS(schema=lambda fs: SchemaOf(VList(fs)),
          struct=lambda ts: ("struct", tuple(ts)),
          field=lambda n, t, **k: ("address", n, t))
  with patched(m, pa=pa, RayJoinOp=op, record_address_types=lambda: (
      "address types",)):
    r = call(lambda: m.JoinTransform(["akey"], sides[0], sides[1]))
    if any(x.kind == "unknown" for x in sides):
      cx.record("a field that does not exist is an error of the user",
                error_name(r) == "UserInputError", str(r))
      return
    cx.record("views are joined", not isinstance(r, Raised), str(r))
    if isinstance(r, Raised):
      return
    want = []
    recs = []
    for s, x in zip(("left", "right"), sides):
      for f in (x.fields or x.view.schema.names):
        if f == "akey":
          continue
        isrec = f in x.view.record_fields
        if isrec:
          recs.append(f)
        want.append(("address", f, ("struct", ("address types",)))
                    if isrec and x.reference_read else ("field", s, f))
    got = list(r.schema.fields)
    cx.record("the key is the first field", got[:1] == [
        ("field", "left", "akey")], str(got[:1]))
    cx.record("the fields selected of both sides follow, in order",
              got[1:] == want, f"{got} {want}")
    cx.record("the record fields are those selected", sorted(
        r.record_fields) == sorted(recs))
    cx.record("the sources are those of both sides", sorted(r.sources) == [
        "left", "right"])
    cx.record("the primary keys are the join keys", list(
        r.primary_keys) == ["akey"])
    O = sys.modules["space.core.options"]
    ro, jo = Token("ray options"), Token("join options")
    opts = O.ReadOptions()
    bad = core_choice("options", 3)
    if bad == 1:
      opts.fields = ["akey"]
    if bad == 2:
      opts.reference_read = True
    d = call(lambda: r._ray_dataset(ro, opts, jo))
  if bad:
    cx.record("options without a meaning are an error of the user",
              error_name(d) == "UserInputError", str(d))
    return
  cx.record("reading a join runs it", not isinstance(d, Raised) and
            d == "dataset" and len(made) == 1, str(d))
  if len(made) != 1:
    return
  b = dict(zip(("left", "right", "join_keys", "schema", "join_options",
                "ray_options"), made[0][0]), **made[0][1])
  cx.record("the join is of both sides by the keys", b["left"] is sides[0] and
            b["right"] is sides[1] and list(b["join_keys"]) == ["akey"] and
            b["schema"] is r.schema and b["join_options"] is jo and
            b["ray_options"] is ro)


def core_choice(name, n):
  for k in range(n - 1):
    if cx.choose(f"{name} {k}"):
      return k
  return n - 1
