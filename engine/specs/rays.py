"""ray/: the same operations, split into tasks."""
from __future__ import annotations

import sys

import z3

from engine import core, proto, raystub
from engine.core import (cx, VList, Comp, And, Or, Not, sym_str, sym_int,
                         sym_bool, vc_eq, term, as_bool, I, wrap, ufun)
from engine.specs.manifests import RT, M
from engine.specs.runners import Token, Spy, Ran, check_txn, _calls
from engine.stubs import patched, NS, Effect
from engine.unit import unit, call, Raised, error_name, named


def mod(n):
  return sys.modules["space.ray." + n]


def only_comp(v):
  """The one symbolic segment of a list, or None."""
  segs = [s for s in v.segs if not (isinstance(s, list) and not s)]
  if len(segs) == 1 and isinstance(segs[0], Comp):
    return segs[0]
  return None


def in_alternative(comp, t, fn):
  """fn(item) for each alternative of what a list has at t."""
  for g, items in comp.at(t):
    @cx.case
    def _():
      cx.assume(g)
      if not cx.infeasible():
        fn(items)


# ----------------------------------------------------------------------------
# data source
# ----------------------------------------------------------------------------
def same_options(a, b):
  """All options of a read but how it is split into batches."""
  if a is b:
    return True
  return (a.filter_ is b.filter_ and same(a.fields, b.fields) and
          same(a.reference_read, b.reference_read))


def same(a, b):
  if a is b:
    return True
  e = vc_eq(a, b)
  return e is True or core.is_sym(e) and cx.entails(e.t)


class Slices:

  def __init__(self, batch, given):
    self.st = NS(location=sym_str("location"), metadata=Token("metadata"))
    self.fs = proto.sym_msg(RT().FileSet, "files")
    self.dom, self.file = core.one_each(self.fs.index_files)
    self.dom.fact(lambda i: z3.And(self.rows(i) >= 0, z3.Not(as_bool(
        self.file(i).HasField("row_slice")))))
    self.filter = Token("filter")
    self.snapshot = sym_int("snapshot")
    self.calls = []

    def data_files(filter_=None, snapshot_id=None):
      self.calls.append((filter_, snapshot_id))
      return self.fs
    self.st.data_files = data_files
    O = sys.modules["space.core.options"]
    self.bs = None
    if batch:
      self.bs = sym_int("batch_size")
      cx.assume(self.bs.t > 0)
    self.opts = O.ReadOptions(self.filter, None, self.snapshot, False, self.bs)
    # There may be a default.
    b = self.opts.batch_size
    self.bs = None if b is None else core.SymNum(term(b))
    self.ro = NS(enable_row_range_block=sym_bool("slicing"),
                 max_parallelism=sym_int("parallelism"))
    D = mod("data_sources")
    self.log = []
    spy = Spy(D.FileSetReadOp, self.log, {})
    self.spy = patched(D, FileSetReadOp=spy)

    def go():
      rd = D.SpaceDataSource().create_reader(
          self.st, self.ro, self.opts, self.fs if given else None)
      return rd.get_read_tasks(sym_int("asked"))
    with self.spy:
      self.r = call(go)

  def rows(self, i):
    return term(self.file(i).storage_statistics.num_rows)

  def read(self, task):
    """What a read task reads."""
    n = len(self.log)
    with self.spy:
      task.read_fn()
    ops = [e[1] for e in self.log[n:] if e[0] == "new"]
    if len(ops) != 1:
      raise core.Unsupported("a read task without one read operation")
    return ops[0].args


def slices(batch, given):
  x = Slices(batch, given)
  cx.record("planning a read succeeds", not isinstance(x.r, Raised), str(x.r))
  if isinstance(x.r, Raised):
    return
  if not given:
    cx.record("the files are those of the version and the filter",
              len(x.calls) == 1 and x.calls[0][0] in (x.filter, None))
    for _, s in x.calls:
      cx.prove("the files of the version are read", vc_eq(s, x.snapshot))
  v = VList(x.r)
  comp = only_comp(v)
  if comp is None:
    ok = all(s == [] for s in v.segs)
    cx.record("the tasks are made of the files", ok, str(v))
    if ok:
      cx.prove("no file is left out", x.dom.n == 0)
    return
  fl = getattr(comp.domain, "flat", None)
  o = fl.o if fl else (lambda t: t)
  outer = fl.outer if fl else comp.domain
  cx.record("the tasks are those of the files", outer is x.dom, str(outer.name))
  if outer is not x.dom:
    return
  t = cx.fresh("atask", I)

  @cx.case
  def _():
    cx.assume(comp.domain.member(t))
    comp.domain.note(t)
    i = o(t)
    x.dom.note(i)
    f = x.file(i)

    def check(items):
      if not items:
        return
      cx.record("one task at a time", len(items) == 1)
      a = x.read(items[0])
      cx.prove("a task reads from the location", vc_eq(a["location"],
                                                       x.st.location))
      cx.record("a task reads with the metadata and the options",
                a["metadata"] is x.st.metadata and
                same_options(a["options"], x.opts))
      fs = a["file_set"].index_files
      one = len(fs.concrete()) == 1
      cx.record("a task reads one file", one, str(fs))
      if not one:
        return
      g = fs.concrete()[0]
      cx.prove("a task reads its file", vc_eq(g.path, f.path))
      cx.prove("a task keeps the deleted rows of its file", z3.And(
          as_bool(g.HasField("row_bitmap")) ==
          as_bool(f.HasField("row_bitmap")),
          as_bool(vc_eq(g.row_bitmap.all_rows, f.row_bitmap.all_rows)),
          as_bool(vc_eq(g.row_bitmap.roaring_bitmap,
                        f.row_bitmap.roaring_bitmap))))
      n = items[0].metadata.num_rows
      if n is not None:
        part = as_bool(g.HasField("row_slice"))
        e, n0 = term(g.row_slice.end), x.rows(i)
        k = z3.If(part, z3.If(e < n0, e, n0) - term(g.row_slice.start), n0)
        cx.prove("the rows a task announces are the rows it reads", z3.And(
            term(n) == k, term(n) >= 0, z3.Or(z3.Not(as_bool(f.HasField("row_bitmap"))),
                                as_bool(f.row_bitmap.all_rows))))
    in_alternative(comp, t, check)

  def covers(t, k):
    """Row k of its file is read by the task at t."""
    alts = []
    for g, items in comp.at(t):
      for task in items:
        h = x.read(task)["file_set"].index_files.concrete()[0]
        part = as_bool(h.HasField("row_slice"))
        alts.append(z3.And(g, z3.Or(z3.Not(part), z3.And(
            term(h.row_slice.start) <= k, k < term(h.row_slice.end)))))
    return z3.Or(*alts, z3.BoolVal(False))

  def has_row(a, k):  # the number of rows of old files is not known
    return z3.Or(k < x.rows(a), x.rows(a) == 0)

  def multiples(p, q):
    """A lemma: p <= q => p * batch <= q * batch."""
    if x.bs is None:
      return
    b = x.bs.t
    cx.prove("lemma: multiples are ordered",
             z3.Implies(p <= q, p * b <= q * b))
    cx.assume(z3.Implies(p <= q, p * b <= q * b))

  @cx.case
  def _():
    a, k = cx.fresh("afile", I), cx.fresh("arow", I)
    x.dom.note(a)
    cx.assume(z3.And(x.dom.member(a), k >= 0, has_row(a, k)))
    b = z3.IntVal(0)
    if x.bs is not None:   # Euclidean division
      b = cx.fresh("block", I)
      cx.assume(z3.And(b * x.bs.t <= k, k < (b + 1) * x.bs.t, b >= 0))
    if fl is None:
      ts = [a]
    else:
      ts = [fl.at(a, b), fl.at(a, z3.IntVal(0))]
      if x.bs is not None:
        multiples(-((-x.rows(a)) / x.bs.t), b)
        i = fl.i(ts[0])
        for p, q in ((i, b), (i + 1, b + 1)):
          cx.assume(z3.Implies(p == q, p * x.bs.t == q * x.bs.t))
    inside = lambda t: z3.And(comp.domain.member(t), o(t) == a)  # noqa
    for t in ts:
      comp.domain.note(t)
    cx.prove("each row of each file is read by a task", z3.Or(*[
        z3.And(inside(t), covers(t, k)) for t in ts]))

  @cx.case
  def _():
    t, u, k = cx.fresh("atask", I), cx.fresh("another", I), cx.fresh("arow", I)
    for z in (t, u):
      comp.domain.note(z)
      x.dom.note(o(z))
      cx.assume(comp.domain.member(z))
    cx.assume(z3.And(t < u, o(t) == o(u)))
    if fl is not None:
      multiples(fl.i(t) + 1, fl.i(u))
    cx.assume(z3.And(k >= 0, has_row(o(t), k)))
    cx.prove("no row is read by two tasks",
             z3.Not(z3.And(covers(t, k), covers(u, k))))


for _b in (False, True):
  for _g in (False, True):
    unit("C19 C12 C21", "get_read_tasks [" + (
        "batches" if _b else "files") + (", of a file set]" if _g else "]"),
        ["ray/data_sources.py:SpaceDataSource.create_reader",
         "ray/data_sources.py:_SpaceDataSourceReader.get_read_tasks",
         "ray/data_sources.py:_SpaceDataSourceReader._read_fn",
         "ray/data_sources.py:_block_metadata"], budget=120)(
             lambda b=_b, g=_g: slices(b, g))


# ----------------------------------------------------------------------------
# append
# ----------------------------------------------------------------------------
def number(name, hi):
  """1 .. hi"""
  for k in range(1, hi):
    if cx.choose(f"{name} is {k}"):
      return k
  return hi


class Actors:
  """_AppendActor by contract: what is submitted, to which actor."""

  def __init__(self):
    self.made, self.patches = [], []
    self.odd = int(cx.choose("odd actors have patches"))

  def remote(self, *a):
    self.made.append(a)
    return Actor(self, len(self.made) - 1)


class Call:

  def __init__(self, actor, method, args):
    self.actor, self.method, self.args = actor, method, args

  def vc_subst(self, sub):
    return Call(sub.obj(self.actor), self.method,
                [sub.obj(a) for a in self.args])


class Actor:
  vc_constant = True

  def __init__(self, actors, k):
    self._actors, self._k = actors, k

  def __getattr__(self, n):
    if n.startswith("__"):
      raise AttributeError(n)

    def f(*a):
      cx.trace.append(Effect("submit", n, Call(self._k, n, list(a))))
      if n == "finish":
        p = (proto.sym_msg(RT().Patch, f"patch{self._k}")
             if self._k % 2 == self._actors.odd else None)
        self._actors.patches.append(p)
        return p
      return True
    return raystub.Method(f)


class SliceOf:
  """Rows start .. start + length of a table; both ends are cut."""
  vc_constant = True

  def __init__(self, t, start, length):
    self.t, self.start, self.length = t, start, length

  @property
  def num_rows(self):
    e = term(self.t.num_rows)
    a = z3.If(term(self.start) < e, term(self.start), e)
    b = e if self.length is None else z3.If(
        a + term(self.length) < e, a + term(self.length), e)
    return wrap(b - a)

  def has(self, k):
    return z3.And(k >= term(self.start), k < term(self.t.num_rows), *(
        [] if self.length is None else [k < term(self.start) + term(
            self.length)]))


class Whole:
  vc_constant = True

  def __init__(self):
    self.num_rows = sym_int("rows")
    cx.assume(self.num_rows.t >= 0)

  def vc_len(self):
    return self.num_rows

  def slice(self, offset=0, length=None):
    cx.prove("a slice starts at a row", term(offset) >= 0)
    return SliceOf(self, offset, length)

  def has(self, k):
    return z3.And(k >= 0, k < self.num_rows.t)


def submitted(method):
  return [e.value for e in cx.trace.concrete() if e.kind == "submit" and
          e.value.method == method]


@unit("C19 C05", "RayAppendOp.write",
      ["ray/ops/append.py:RayAppendOp.__init__",
       "ray/ops/append.py:RayAppendOp.write",
       "ray/ops/append.py:RayAppendOp.finish"],
      bounded="parallelism up to 4 (any number of rows)")
def append_write():
  A = mod("ops.append")
  n = number("parallelism", 4)
  acts = Actors()
  ts = [Whole() for _ in range(2 if n <= 2 and cx.choose("two tables")
                               else 1)]
  loc, md, fo = sym_str("location"), Token("metadata"), Token("file options")
  merged = []

  def merge(ps):
    merged.append(list(VList(ps).concrete()))
    return out
  out = Token("merged")
  U = sys.modules["space.core.ops.utils"]
  sizes = []
  with patched(A, _AppendActor=acts, pa=NS(Table=Whole)), patched(
      U, merge_patches=merge):
    op = call(lambda: A.RayAppendOp(loc, md, NS(max_parallelism=n), fo, False))
    r = op
    for t in ts:
      if not isinstance(r, Raised):
        r = call(lambda: op.write(t))
        sizes.append(len(submitted("write")))
    if not isinstance(r, Raised):
      r = call(lambda: op.finish())
  cx.record("appending succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  for a in acts.made:
    cx.record("actors append with the metadata", a[1] is md and a[2] is fo)
    cx.prove("actors append at the location", vc_eq(a[0], loc))
    cx.record("actors are given the records", len(a) < 4 or a[3] is False)
  calls = submitted("write")
  prev = 0
  for t, m in zip(ts, sizes):
    k = cx.fresh("arow", I)
    of = calls[prev:m]
    prev = m
    cx.record("the rows of the table are appended", all(
        c.args[0] is t or getattr(c.args[0], "t", None) is t for c in of))
    hits = [z3.If(c.args[0].has(k), 1, 0) for c in of]
    cx.prove("each row is appended exactly once", z3.Implies(
        t.has(k), z3.Sum(*hits, z3.IntVal(0)) == 1))
  fin = submitted("finish")
  used = {c.actor for c in calls}
  cx.record("each actor that appended is finished, once, at the end",
            used <= {c.actor for c in fin} and
            len({c.actor for c in fin}) == len(fin))
  ps = [p for p in acts.patches if p is not None]
  cx.record("the result is the patches of the actors", r is out and
            len(merged) == 1 and
            len([p for p in merged[0] if p is not None]) == len(ps) and all(
                any(p is q for q in merged[0]) for p in ps))


@unit("C19 C05 C21", "RayAppendOp.write_from",
      ["ray/ops/append.py:RayAppendOp.__init__",
       "ray/ops/append.py:RayAppendOp.write_from"],
      bounded="parallelism up to 3 (any number of sources)")
def append_write_from():
  A = mod("ops.append")
  n = number("parallelism", 3)
  acts = Actors()
  sources, dom = core.symbolic_list("sources", lambda i: wrap(i))
  with patched(A, _AppendActor=acts):
    def go():
      op = A.RayAppendOp(sym_str("location"), Token("metadata"),
                         NS(max_parallelism=n), Token("file options"))
      op.write_from(sources)
    r = call(go)
  cx.record("appending succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return

  def check(i, e):
    cx.record("the rows of sources are appended", e.kind == "submit" and
              e.value.method == "write_from" and len(e.value.args) == 1)
    cx.prove("each source is appended exactly once",
             term(e.value.args[0]) == i)
  core.each_of("sources", cx.trace, dom, check)


@unit("C19 C05 C21", "_AppendActor", ["ray/ops/append.py:_AppendActor"])
def append_actor():
  A = mod("ops.append")
  log = []
  patch = proto.sym_msg(RT().Patch, "patch")
  loc, md, fo = sym_str("location"), Token("metadata"), Token("file options")
  rai = cx.choose("addresses")
  tables, dom = core.symbolic_list("tables", lambda i: wrap(i))

  class Op:
    vc_constant = True

    def write(self, data):
      cx.trace.append(Effect("append", "", data))

    def finish(self):
      return patch
  made = []

  def make(*a):
    made.append(a)
    return Op()
  with patched(A, LocalAppendOp=make):
    def go():
      h = A._AppendActor.remote(loc, md, fo, rai)
      h.write_from.remote(lambda: tables)
      return raystub.get(h.finish.remote())
    r = call(go)
  cx.record("an actor has one append operation", len(made) == 1 and
            made[0][1] is md and made[0][2] is fo and made[0][3] == rai)
  if len(made) == 1:
    cx.prove("an actor appends at the location", vc_eq(made[0][0], loc))
  cx.record("the patch of the actor is the one of its operation", r is patch,
            str(r))
  core.each_of("tables", cx.trace, dom, lambda i, e: cx.prove(
      "each table of a source is appended, in order", term(e.value) == i))


# ----------------------------------------------------------------------------
# change data
# ----------------------------------------------------------------------------
@unit("C11 C19 C21", "_RayChangeDataReadOp",
      ["ray/ops/change_data.py:_RayChangeDataReadOp.__init__",
       "ray/ops/change_data.py:_RayChangeDataReadOp.__iter__",
       "ray/ops/change_data.py:_RayChangeDataReadOp._ray_dataset"],
      bounded="parallelism up to 4 (change logs of any length)", budget=120)
def ray_change_data():
  from engine.specs import changes
  from engine.specs.storage import World, open_storage, S, no_effect
  C = mod("ops.change_data")
  L = sys.modules["space.core.ops.change_data"]
  par = number("parallelism", 4)
  world = World(others=False)
  st = open_storage(world, sym_str("current_branch"))
  sid = sym_int("version")
  sn = st._metadata.snapshots.peek(sid)
  logs = changes.Logs(world)
  keys = Token("keys")
  opts = sys.modules["space.core.options"].ReadOptions(
      filter_=Token("filter"), fields=Token("fields"),
      reference_read=cx.choose("references are read"), batch_size=7)
  ro = NS(max_parallelism=par, enable_row_range_block=True)
  reads = []

  class Data:
    vc_constant = True

  def read(source, **kw):
    d = Data()
    d.source, d.kw = source, kw
    reads.append(d)
    return d

  def files(self, bitmaps):
    return Bitmaps(bitmaps)
  R = sys.modules["ray"].data
  with patched(L, create_fs=lambda p: logs), patched(
      L.LocalChangeDataReadOp, _bitmaps_to_file_set=files), patched(
      R, read_datasource=read), patched(S().Storage, primary_keys=property(
          lambda self: keys)):
    r = call(lambda: core.b_list(iter(
        C._RayChangeDataReadOp(st, sid, ro, opts))))
  if sn is None:
    cx.record("changes of a version that does not exist are an error",
              error_name(r) == "VersionNotFoundError", str(r))
    return
  cx.record("reading changes succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  no_effect("reading changes")
  log = proto.sym_msg(M().ChangeLog, "log", (term(
      sys.modules["engine.stubs"].Path.join(st.location,
                                            sn.change_log_file)),))
  T = L.ChangeType
  out = r.concrete()
  cx.record("changes are yielded", out is not None and all(
      type(y) is L.ChangeData for y in out), str(r))
  if out is None:
    return
  kinds = [y.type_ for y in out]
  cx.record("deletions come before additions", kinds in (
      [], [T.DELETE], [T.ADD], [T.DELETE, T.ADD]), str(kinds))
  for y in out:
    cx.prove("a change carries the version that made it",
             vc_eq(y.snapshot_id, sid))
  for t, rows, what in ((T.DELETE, log.deleted_rows, "deletions"),
                        (T.ADD, log.added_rows, "additions")):
    dom, bm = core.one_each(rows)
    ys = [y for y in out if y.type_ is t]
    if not ys:
      cx.prove(f"{what} are not left out", dom.n == 0)
      continue
    ds = list(VList(ys[0].data).concrete())
    parts = []
    for d in ds:
      ok = isinstance(d, Data) and isinstance(d.kw.get("file_set"), Bitmaps)
      cx.record(f"{what} are read from the files of their bitmaps", ok)
      if not ok:
        return
      cx.record(f"{what} are read from the dataset", d.kw["storage"] is st and
                isinstance(d.source, mod("data_sources").SpaceDataSource))
      o = d.kw["read_options"]
      cx.record(f"{what} are read with the options given",
                o.reference_read == opts.reference_read and
                o.filter_ is opts.filter_, str(o))
      cx.record(f"{what}: the fields read", o.fields is (
          keys if t is T.DELETE else opts.fields), str(o.fields))
      parts.append(d.kw["file_set"].bitmaps)
    k = cx.fresh("abitmap", I)
    dom.note(k)
    cx.assume(dom.member(k))
    hits, total, prev = [], z3.IntVal(0), z3.IntVal(0)
    for v in parts:
      segs = [s for s in v.segs if s != []]
      if not segs:
        continue
      pd, at = core.one_each(v) or (None, None)
      cx.record(f"{what}: a part is a run of the bitmaps", pd is not None,
                str(v))
      if pd is None:
        return
      pos = k - total
      pd.note(pos)
      hits.append(z3.And(pd.member(pos), as_bool(vc_eq(at(pos), bm(k)))))
      total = total + pd.n
    cx.prove(f"{what}: each bitmap is read", z3.Or(*hits, z3.BoolVal(False)))
    cx.prove(f"{what}: nothing else is read", total == dom.n)


class Bitmaps:
  vc_constant = True

  def __init__(self, bitmaps):
    self.bitmaps = VList(bitmaps)


# ----------------------------------------------------------------------------
# delete, insert
# ----------------------------------------------------------------------------
@unit("C06 C19 C21 C02", "RayDeleteOp",
      ["ray/ops/delete.py:RayDeleteOp.__init__",
       "ray/ops/delete.py:RayDeleteOp.delete", "ray/ops/delete.py:_delete"],
      bounded="up to 3 matched files (of any manifests)")
def ray_delete():
  D = mod("ops.delete")
  U = sys.modules["space.core.ops.utils"]
  n = number("files", 3) if cx.choose("some file matches") else 0
  fs = proto.sym_msg(RT().FileSet, "files")
  fs.index_files.clear()
  for k in range(n):
    fs.index_files.append(proto.sym_msg(RT().DataFile, f"file{k}"))
  man = fs.index_manifest_files
  asked = []

  def data_files(*a, **k):
    asked.append(named(sys.modules["space.core.storage"].Storage.data_files, a,
                       k, method=True))
    return fs
  st = NS(location=sym_str("location"), metadata=Token("metadata"),
          data_files=data_files)
  log, patches, merged = [], [], []

  def patch():
    patches.append(proto.sym_msg(RT().Patch, f"patch{len(patches)}")
                   if len(patches) % 2 == odd else None)
    return patches[-1]
  odd = int(cx.choose("odd ones have patches"))

  def merge(ps):
    merged.append(list(VList(ps).concrete()))
    return out
  out, flt, fo = Token("merged"), Token("filter"), Token("file options")
  spy = Spy(D.FileSetDeleteOp, log, {"delete": patch})
  with patched(D, FileSetDeleteOp=spy), patched(U, merge_patches=merge):
    r = call(lambda: D.RayDeleteOp(st, flt, fo).delete())
  cx.record("deleting succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.record("the files of the current version are looked at", len(
      asked) == 1 and asked[0]["filter_"] in (flt, None) and
            asked[0]["snapshot_id"] is None, str(asked))
  ops = [e[1] for e in log if e[0] == "new"]
  sets = []
  for op in ops:
    a = op.args
    cx.prove("deletes at the location of the dataset",
             vc_eq(a["location"], st.location))
    cx.record("deletes with the metadata, filter and options given",
              a["metadata"] is st.metadata and a["filter_"] is flt and
              a["file_options"] is fo)
    cx.record("each part is deleted from once",
              [c[0] for c in op.calls] == ["delete"])
    for f in a["file_set"].index_files.concrete():
      g, h = [x.peek(f.manifest_file_id) for x in (
          a["file_set"].index_manifest_files, man)]
      cx.record("the manifest of a file is known to its part",
                (g is None) == (h is None))
      if h is not None and g is not None:
        cx.prove("the manifest of a file is known to its part", vc_eq(g, h))
    sets.append(list(a["file_set"].index_files.concrete()))
  for k in range(n):
    f = fs.index_files.concrete()[k]
    hits = [z3.If(as_bool(vc_eq(g, f)), 1, 0) for s in sets for g in s]
    cx.prove("no file is left out", z3.Sum(*hits, z3.IntVal(0)) >= 1)
  cx.record("no file is processed twice", sum(len(s) for s in sets) == n,
            str(sets))
  for i, s in enumerate(sets):
    for t in sets[i + 1:]:
      for f in s:
        for g in t:
          cx.prove("a manifest is rewritten by one part only",
                   Not(vc_eq(f.manifest_file_id, g.manifest_file_id)))
  ps = [p for p in patches if p is not None]
  cx.record("the result is the patches of the parts", (
      r is out and len(merged) == 1 and len(
          [p for p in merged[0] if p is not None]) == len(ps) and all(
              any(p is q for q in merged[0]) for p in ps)) or (
                  r is None and not ps), str(r))


@unit("C07 C19 C21", "RayInsertOp._check_duplication",
      ["ray/ops/insert.py:RayInsertOp._check_duplication",
       "ray/ops/insert.py:_remote_filter_matched"])
def ray_duplicates():
  I_ = mod("ops.insert")
  fs = proto.sym_msg(RT().FileSet, "files")
  dom, file = core.one_each(fs.index_files)
  hit = core.ufun("hit", core.Str, core.B)
  loc, md = sym_str("location"), Token("metadata")
  flt, keys = Token("filter"), Token("keys")

  def matched(location, metadata, files, pk_filter, primary_keys):
    f = files.index_files.concrete()
    cx.record("a check is of one file", len(f) == 1)
    cx.record("checks have the metadata, filter and keys given",
              metadata is md and pk_filter is flt and primary_keys is keys)
    cx.prove("checks are at the location of the dataset",
             vc_eq(location, loc))
    return wrap(hit(term(f[0].path)))
  op = object.__new__(I_.RayInsertOp)
  st = NS(location=loc, primary_keys=keys, metadata=md)
  op._storage, op._metadata, op._location = st, md, loc
  op._ray_options = NS(max_parallelism=4)
  with patched(I_, filter_matched=matched):
    r = call(lambda: op._check_duplication(fs, flt))
  some = core.exists(dom, lambda i: hit(term(file(i).path)))
  if isinstance(r, Raised):
    cx.record("a duplicate is an error of primary keys",
              error_name(r) == "PrimaryKeyExistError", str(r))
    cx.prove("an error is only raised if a file has such a row", some)
  else:
    cx.prove("a row that exists is found", Not(some))
  cx.record("checking writes nothing", not cx.trace.segs or all(
      s == [] for s in cx.trace.segs))


@unit("C07 C19 C05", "RayInsertOp._append",
      ["ray/ops/insert.py:RayInsertOp._append"])
def ray_insert_append():
  I_ = mod("ops.insert")
  log = []
  loc, md, fo = sym_str("location"), Token("metadata"), Token("file options")
  patch = (proto.sym_msg(RT().Patch, "patch")
           if cx.choose("there is a patch") else None)
  spy = Spy(I_.RayAppendOp, log, {"write": None, "finish": patch})
  op = object.__new__(I_.RayInsertOp)
  st = NS(location=loc, metadata=md)
  ro = NS(max_parallelism=4)
  op._storage, op._metadata, op._location = st, md, loc
  op._ray_options, op._file_options = ro, fo
  data = Token("data")
  first = Token("first")
  ps = [first]
  with patched(I_, RayAppendOp=spy):
    r = call(lambda: op._append(data, ps))
  cx.record("appending succeeds", not isinstance(r, Raised), str(r))
  ops = [e[1] for e in log if e[0] == "new"]
  cx.record("one append operation", len(ops) == 1)
  if len(ops) != 1 or isinstance(r, Raised):
    return
  a = ops[0].args
  cx.prove("appends at the location", vc_eq(a["location"], loc))
  cx.record("appends with the metadata and options given",
            a["metadata"] is md and a["file_options"] is fo and
            a["ray_options"] is ro)
  cx.record("the rows are appended once, then the operation is finished",
            [(c[0], c[1]) for c in ops[0].calls] == [
                ("write", [data]), ("finish", [])], str(ops[0].calls))
  cx.record("the patch is kept", len(ps) >= 1 and ps[0] is first and
            [p for p in ps[1:] if p is not None] == (
                [patch] if patch is not None else []), str(ps))
