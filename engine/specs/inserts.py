"""core/ops/utils.py, core/ops/insert.py: primary keys and inserts."""
from __future__ import annotations

import sys

import z3

from engine import arrow, core, proto
from engine.arrow import Expr, Compute
from engine.core import (cx, VList, SymStr, SymNum, SymBool, And, Or, Not,
                         Implies, sym_str, sym_int, sym_bool, vc_eq, term, I,
                         B, R, Str, Comp, ufun, wrap)
from engine.specs.manifests import RT, M
from engine.specs.runners import Token, Spy
from engine.stubs import patched, NS
from engine.unit import unit, call, Raised, error_name


def U():
  return sys.modules["space.core.ops.utils"]


def N():
  return sys.modules["space.core.ops.insert"]


# ----------------------------------------------------------------------------
# contracts: the table given to an insert
# ----------------------------------------------------------------------------
class Keys:
  """A column of a primary key: any values, none of them null."""
  vc_constant = True

  def __init__(self, table, name):
    self.table, self.name = table, name

  def at(self, i):
    return ufun(f"key:{self.name}", I, R)(i)

  def __getitem__(self, i):
    return arrow.Scalar(self.at(term(i)))

  def combine_chunks(self):
    return self

  @property
  def num_chunks(self):
    n = cx.ghost.get("$chunks")
    if n is None:
      n = cx.ghost["$chunks"] = cx.fresh("chunks", I)
      cx.defs.append(z3.And(n >= 0, (n == 0) == (self.table.n == 0)))
    return wrap(n)

  def chunk(self, i):
    return ChunkOfKeys(self, i)

  @property
  def null_count(self):
    return self.table.nulls[self.name]

  def vc_len(self):
    return wrap(self.table.n)

  def vc_list(self):
    return core.symbolic_list("keys", lambda i: self[i], dom=self.table.dom)[0]

  def to_pylist(self):
    return core.symbolic_list("keys", lambda i: wrap(self.at(i)),
                              dom=self.table.dom)[0]


class ChunkOfKeys:
  """One of the chunks of a column: some of its rows in sequence."""
  vc_constant = True

  def __init__(self, keys, i):
    n = term(keys.num_chunks)
    if not bool(SymBool(z3.And(term(i) >= 0, term(i) < n))):
      raise IndexError("Chunk index out of range")
    self.keys, self.name = keys, keys.name
    self.lo, self.hi = (ufun("chunk_start", I, I)(term(i)),
                        ufun("chunk_start", I, I)(term(i) + 1))
    cx.defs.append(z3.And(
        0 <= self.lo, self.lo < self.hi, self.hi <= keys.table.n,
        z3.Implies(term(i) == 0, self.lo == 0),
        z3.Implies(term(i) == n - 1, self.hi == keys.table.n)))

  def at(self, i):
    return self.keys.at(i + self.lo)

  def vc_len(self):
    return wrap(self.hi - self.lo)

  def __getitem__(self, i):
    return arrow.Scalar(self.at(term(i)))


class KeyTable:
  vc_constant = True

  def __init__(self, keys, nulls=None):
    self.n = cx.fresh("rows", I)
    cx.assume(self.n >= 0)
    self.dom = core.index_domain(self.n)
    self.keys = keys
    self.nulls = nulls or {k: 0 for k in keys}

  @property
  def num_rows(self):
    return wrap(self.n)

  def vc_len(self):
    return self.num_rows

  def column(self, name):
    if name not in self.keys:
      raise KeyError(name)
    return Keys(self, name)
  __getitem__ = column

  def select(self, names):
    return self


def env_of(row):
  """The values of an arbitrary row of the dataset."""
  return lambda names: row[names[0]]


def any_row(keys):
  return {k: (cx.fresh(f"value:{k}", R), cx.fresh(f"null:{k}", B))
          for k in keys}


def key_equal(t, row, i):
  return z3.And(*[z3.And(z3.Not(row[k][1]), row[k][0] == t.column(k).at(i))
                  for k in t.keys])


def pk_filter(keys):
  t = KeyTable(keys)
  with patched(U(), pc=Compute()):
    r = call(U().primary_key_filter, VList(list(keys)), t)
  r = core.unopt(r)
  i, j = cx.fresh("arow", I), cx.fresh("another", I)
  dup = z3.And(i >= 0, i < j, j < t.n, *[
      t.column(k).at(i) == t.column(k).at(j) for k in keys])
  if isinstance(r, Raised):
    cx.record("only duplicates are rejected",
              error_name(r) == "PrimaryKeyExistError", str(r))
    return
  t.dom.note(i)
  t.dom.note(j)
  cx.prove("rows of the same primary key are rejected", z3.Not(dup))
  if r is None:
    cx.prove("there is a filter for some rows", t.n == 0)
    return
  ok = isinstance(r, Expr)
  cx.record("a filter is made", ok, str(r))
  if not ok:
    return

  @cx.case
  def _():
    row = any_row(keys)
    true, null = r.ev(env_of(row))
    cx.assume(t.dom.member(i))
    cx.prove("a row of one of the primary keys satisfies the filter",
             z3.Implies(key_equal(t, row, i), true))

  @cx.case
  def _():
    row = any_row(keys)
    true, null = r.ev(env_of(row))
    e = core.exists(t.dom, lambda k: key_equal(t, row, k))
    cx.prove("a row of no primary key does not satisfy the filter",
             z3.Implies(true, e.t))


for _k in (("a",), ("a", "b"), ("a", "b", "c")):
  unit("C07 C06 C21", f"primary_key_filter [{len(_k)}]",
       ["core/ops/utils.py:primary_key_filter"],
       bounded=f"{len(_k)} primary key column(s)")(
           lambda k=_k: pk_filter(k))


@unit("C07 C21", "primary_key_range_filter",
      ["core/ops/utils.py:primary_key_range_filter"],
      bounded="up to 3 primary key columns")
def range_filter():
  keys = ("a", "b", "c")[:1 + cx.choose("two keys") + cx.choose("one more")]
  t = KeyTable(keys, {k: sym_int(f"nulls:{k}") for k in keys})
  for k in keys:
    cx.assume(term(t.nulls[k]) >= 0)
  cx.assume(t.n > 0)

  def min_max(col):
    if not isinstance(col, (Keys, ChunkOfKeys)):
      raise core.Unsupported("min_max of something else")
    k = col.name
    lo, hi = cx.fresh(f"min:{k}", R), cx.fresh(f"max:{k}", R)
    if isinstance(col, Keys):
      t.dom.fact(lambda i: z3.And(lo <= col.at(i), col.at(i) <= hi))
    else:
      t.dom.fact(lambda i: z3.Implies(
          z3.And(col.lo <= i, i < col.hi),
          z3.And(lo <= col.keys.at(i), col.keys.at(i) <= hi)))
    return {"min": arrow.Scalar(lo), "max": arrow.Scalar(hi)}
  c = Compute()
  c.min_max = min_max
  with patched(U(), pc=c):
    r = call(U().primary_key_range_filter, VList(list(keys)), t)
  if isinstance(r, Raised):
    cx.record("only null keys are rejected",
              error_name(r) == "UserInputError", str(r))
    cx.prove("keys that are not null are accepted", z3.Or(*[
        term(t.nulls[k]) > 0 for k in keys]))
    return
  for k in keys:
    cx.prove("null keys are rejected", term(t.nulls[k]) == 0)
  r = core.unopt(r)
  ok = isinstance(r, Expr)
  cx.record("a filter is made", ok, str(r))
  if not ok:
    return
  i = cx.fresh("arow", I)
  t.dom.note(i)
  cx.assume(t.dom.member(i))
  row = {k: (t.column(k).at(i), arrow.F) for k in keys}
  cx.prove("a file with one of the primary keys is never left out",
           r.ev(env_of(row))[0])


# ----------------------------------------------------------------------------
class Rec:
  """A function of the module by contract: records its calls."""
  vc_constant = True

  def __init__(self, log, name, fn=None):
    self.log, self.name, self.fn = log, name, fn

  def __call__(self, *a, **k):
    r = self.fn(*a, **k) if self.fn else None
    self.log.append((self.name, a, k, r))
    return r


class Batch:

  def __init__(self, n):
    self.num_rows = n

  def vc_subst(self, sub):
    return Batch(sub.obj(self.num_rows))

  def vc_len(self):
    return self.num_rows


@unit("C07 C21", "filter_matched", ["core/ops/insert.py:filter_matched"])
def matched():
  log = []
  sizes, dom = core.symbolic_list(
      "batches", lambda i: Batch(wrap(ufun("size", I, I)(i))))
  dom.fact(lambda i: ufun("size", I, I)(i) >= 0)
  spy = Spy(N().FileSetReadOp, log, {"iter": sizes})
  loc, md, files, f = (sym_str("location"), Token("metadata"),
                       Token("files"), Token("filter"))
  with patched(N(), FileSetReadOp=spy):
    r = call(N().filter_matched, loc, md, files, f, VList(["a"]))
  if isinstance(r, Raised):
    cx.record("filter_matched does not fail", False, str(r))
    return
  ops = [e[1] for e in log if e[0] == "new"]
  cx.record("the files are read once", len(ops) == 1)
  if len(ops) != 1:
    return
  a = ops[0].args
  cx.prove("files are read from the location", vc_eq(a["location"], loc))
  cx.record("the given files are read with the given metadata",
            a["metadata"] is md and a["file_set"] is files)
  cx.record("the filter is applied", a["options"].filter_ is f)
  some = core.exists(dom, lambda i: ufun("size", I, I)(i) > 0)
  cx.prove("rows match if, and only if, a batch has rows",
           core.as_bool(r) == some.t)


@unit("C07 C21 C03", "LocalInsertOp", ["core/ops/insert.py:LocalInsertOp"])
def insert_op():
  log = []
  n = sym_int("rows")
  cx.assume(n.t >= 0)
  data = Token("data")
  data.num_rows = n
  data.vc_len = lambda: n
  f, rf = Token("filter"), Token("range filter")
  fs = proto.sym_msg(RT().FileSet, "files")
  hit = sym_bool("a row has one of the keys")
  cx.assume(z3.Implies(hit.t, term(core.b_len(fs.index_files)) > 0))
  deletes = cx.choose("rows are deleted")
  p_del = proto.sym_msg(RT().Patch, "delete") if deletes else None
  p_app = proto.sym_msg(RT().Patch, "append")
  mode = N().InsertOptions.Mode.INSERT
  if cx.choose("upsert"):
    mode = N().InsertOptions.Mode.UPSERT
  dup = cx.choose("duplicated keys")
  keys = VList(["a"])
  storage = NS(location=sym_str("location"), metadata=Token("metadata"),
               primary_keys=keys)
  seen = {}

  def pk(k, d):
    seen["filter"] = (k, d)
    if dup:
      raise sys.modules["space.core.utils.errors"].PrimaryKeyExistError("dup")
    return f

  def pkr(k, d):
    seen["range"] = (k, d)
    return rf

  def data_files(filter_=None, snapshot_id=None):
    seen["files"] = (filter_, snapshot_id)
    return fs
  storage.data_files = data_files

  def fm(location, metadata, data_files, filter_, primary_keys):
    log.append(("matched", location, metadata, data_files, filter_))
    return hit
  merged = []

  def merge(ps):
    merged.append([core.unopt(p) for p in VList(ps).concrete()])
    return out
  out = Token("merged")
  fo = Token("file options")
  dl = Spy(N().FileSetDeleteOp, log, {"delete": p_del})
  ap = Spy(N().LocalAppendOp, log, {"write": None, "finish": p_app})
  with patched(N(), FileSetDeleteOp=dl, LocalAppendOp=ap,
               filter_matched=fm), patched(
                   U(), primary_key_filter=pk, primary_key_range_filter=pkr,
                   merge_patches=merge):
    def go():
      op = N().LocalInsertOp(storage, N().InsertOptions(mode=mode), fo)
      return op._write_arrow(data)
    r = call(go)
  Mode = N().InsertOptions.Mode
  made = [e[1] for e in log if e[0] == "new"]
  dels = [o for o in made if o.spy is dl]
  apps = [o for o in made if o.spy is ap]
  wrote = [c for o in apps for c in o.calls if c[0] == "write"]
  fins = [c for o in apps for c in o.calls if c[0] == "finish"]
  if isinstance(r, Raised):
    cx.record("an insert that fails writes nothing", not wrote and not [
        c for o in dels for c in o.calls])
    if not dup:
      cx.record("an insert only fails for existing keys",
                error_name(r) == "SpaceRuntimeError" and mode == Mode.INSERT,
                str(r))
      cx.prove("keys that do not exist can be inserted", hit.t)
    return
  if r is None:
    cx.prove("no rows are left out", n.t == 0)
    cx.record("what is not committed is not written", not wrote)
    return
  cx.record("duplicated keys are not inserted", not dup)
  cx.record("the filters are of the keys of the rows", all(
      k in seen and seen[k][0] is keys and seen[k][1] is data
      for k in ("filter",)) and (
          "range" not in seen or seen["range"][0] is keys and
          seen["range"][1] is data))
  cx.record("files are only left out by the filters",
            "files" in seen and (seen["files"][0] is rf or
                                 seen["files"][0] is f or
                                 seen["files"][0] is None) and
            seen["files"][1] is None)
  if mode == Mode.INSERT:
    cx.prove("a primary key that exists is not inserted", z3.Not(hit.t))
    for e in log:
      if e[0] == "matched":
        cx.prove("keys are looked for at the location",
                 vc_eq(e[1], storage.location))
        cx.record("keys are looked for in the files with the filter",
                  e[2] is storage.metadata and e[3] is fs and e[4] is f)
    cx.record("an insert deletes nothing", not dels)
  else:
    done = [o for o in dels if len(o.calls) == 1]
    cx.record("rows are deleted at most once", len(done) == len(dels) and
              len(dels) <= 1)
    if not dels:
      cx.prove("rows of the keys are deleted", z3.Not(hit.t))
    for o in dels:
      cx.prove("rows are deleted at the location",
               vc_eq(o.args["location"], storage.location))
      cx.record("the rows of the keys are deleted",
                o.args["metadata"] is storage.metadata and
                o.args["file_set"] is fs and o.args["filter_"] is f)
  cx.record("the rows are appended once", len(apps) == 1 and
            len(wrote) == 1 and len(fins) == 1 and wrote[0][1][0] is data)
  for o in apps:
    cx.prove("rows are appended at the location",
             vc_eq(o.args["location"], storage.location))
    cx.record("rows are appended with the metadata",
              o.args["metadata"] is storage.metadata)
  want = [p_app] + ([p_del] if dels and deletes else [])
  got = [[p for p in m if p is not None] for m in merged]
  cx.record("the result is the patches of the delete and of the append",
            r is out and len(got) == 1 and len(got[0]) == len(want) and all(
                any(x is y for y in got[0]) for x in want), f"{got} {want}")
