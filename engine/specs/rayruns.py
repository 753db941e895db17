"""ray/runners.py, ray/ops/utils.py"""
from __future__ import annotations

import sys

import z3

from engine import core, proto
from engine.core import (cx, VList, And, Or, Not, sym_str, sym_int, vc_eq,
                         term, as_bool, I, wrap, ufun)
from engine.specs import runners
from engine.specs.manifests import RT, M
from engine.specs.rays import mod, number
from engine.specs.runners import Token, Spy, _calls
from engine.stubs import patched, NS, Effect
from engine.unit import unit, call, Raised, error_name, named


def RR():
  return mod("runners")


def E():
  return sys.modules["space.core.utils.errors"]


class Data(sys.modules["ray"].data.Dataset):
  vc_constant = True

  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return self.name


class Rows:
  """A table of a block, by its number of rows."""

  def __init__(self, t, k):
    self.t, self.k = t, k

  @property
  def num_rows(self):
    return wrap(ufun("block_rows", I, I)(self.k))

  def vc_subst(self, sub):
    return Rows(self.t, sub(self.k))


@unit("C19 C12 C21", "iter_batches", ["ray/ops/utils.py:iter_batches"])
def batches():
  U = mod("ops.utils")
  blocks, dom = core.symbolic_list("blocks", lambda i: Rows("t", i))
  asked = []

  class Ds:
    vc_constant = True

    def iter_batches(self, **kw):
      asked.append(kw)
      return blocks
  r = call(lambda: core.b_list(iter(U.iter_batches(Ds()))))
  cx.record("reading a Ray dataset succeeds", not isinstance(r, Raised),
            str(r))
  if isinstance(r, Raised):
    return
  cx.record("the dataset is read once, to its end", len(asked) == 1 and
            not asked[0].get("drop_last", False), str(asked))
  segs = [s for s in r.segs if s != []]
  cx.record("blocks are returned as they are", len(segs) == 1 and isinstance(
      segs[0], core.Comp) and segs[0].domain is dom, str(r))
  if len(segs) != 1 or not isinstance(segs[0], core.Comp):
    return

  @cx.case
  def _():
    i = cx.fresh("ablock", I)
    dom.note(i)
    cx.assume(dom.member(i))
    n = ufun("block_rows", I, I)(i)
    cx.assume(n >= 0)
    alts = segs[0].at(i)
    cx.prove("no block with rows is lost", z3.Implies(n > 0, z3.Or(*[
        g for g, y in alts if y])))
    for g, y in alts:
      cx.prove("a block is returned once, in its place", z3.Implies(g, z3.And(
          z3.BoolVal(len(y) <= 1), *[z3.BoolVal(type(b) is Rows) for b in y],
          *[b.k == i for b in y if type(b) is Rows])))


@unit("C20 C21 C22", "singleton_storage",
      ["ray/ops/utils.py:singleton_storage"])
def singleton():
  n = number("sources", 3) if cx.choose("sources") else 0
  ds = {f"s{k}": NS(storage=Token(f"storage{k}")) for k in range(n)}
  r = call(lambda: mod("ops.utils").singleton_storage(NS(sources=ds)))
  if n == 1:
    cx.record("the storage of the only source", r is ds["s0"].storage, str(r))
  else:
    cx.record("other views are an error of the user",
              error_name(r) == "UserInputError", str(r))


class Source:
  """A storage by contract; others may publish before each reload."""
  vc_constant = True

  def __init__(self, log, name):
    self.log, self.name = log, name
    self.version = 0
    self.location = sym_str(name + ".location")
    self.primary_keys = Token(name + ".keys")

  def reload(self):
    self.log.append(("reload", self))
    self.version += 1
    return True

  @property
  def metadata(self):
    self.log.append(("metadata", self))
    return NS(current_snapshot_id=const(self, "current", self.version))

  @property
  def snapshot_ids(self):
    """The current version, and those of branches or of the past."""
    self.log.append(("metadata", self))
    return VList([const(self, w, self.version) for w in (
        "current", "another")])

  def current_snapshot_id(self, branch=None):
    self.log.append(("metadata", self))
    return const(self, "current" if branch in (None, "main") else "another",
                 self.version)

  def version_to_snapshot_id(self, v):
    self.log.append(("version", self, v))
    return const(self, f"id.{v}", self.version)

  def ray_dataset(self, ray_options, read_options):
    d = Data("dataset")
    d.args = (ray_options, read_options)
    self.log.append(("dataset", self, d))
    return d


def const(src, what, version):
  return core.SymNum(z3.Int(f"{src.name}.{what}@{version}"))


def is_known(x, src, what):
  """x is the number `what` of the source, after some reload of it."""
  return Or(*[vc_eq(x, const(src, what, v))
              for v in range(1, src.version + 1)], False)


def reloaded(log, src, upto):
  """src was reloaded before the first use of it, which is before `upto`."""
  for e in log:
    if e is upto:
      return False
    if e[1] is src:
      return e[0] == "reload"
  return False


def read_args():
  O = sys.modules["space.core.options"]
  f, fields = Token("filter"), VList(["a"])
  bs = sym_int("batch_size")
  cx.assume(bs > 0)
  v = "tag" if cx.choose("a version is given") else None
  return O, f, fields, bs, v, cx.choose("references")


def check_read(x, o, f, fields, bs, v, ref, src, upto, log):
  cx.record("the filter, fields and reference option are applied",
            o.filter_ is f and o.fields is fields and
            bool(o.reference_read) == bool(ref))
  cx.prove("the batch size is applied", vc_eq(o.batch_size, bs))
  if v is None:
    cx.record("the current version is read", o.snapshot_id is None)
  else:
    cx.record("the version asked for is read", o.snapshot_id is not None)
    if o.snapshot_id is not None:
      cx.prove("the version asked for is read", is_known(
          o.snapshot_id, src, f"id.{v}"))


@unit("C19 C12 C08 C20 C22", "RayReadOnlyRunner.read",
      ["ray/runners.py:RayReadOnlyRunner.read"])
def ro_read():
  R = RR()
  log = []
  n = 2 if cx.choose("two sources") else 1
  src = [Source(log, f"source{k}") for k in range(n)]
  O, f, fields, bs, v, ref = read_args()
  ds = Data("view")
  out, got = Token("tables"), []

  def _ray_dataset(ray_options, read_options, join_options):
    log.append(("view", None))
    got.append((ray_options, read_options, join_options))
    return ds
  view = NS(sources={s.name: NS(storage=s) for s in src},
            _ray_dataset=_ray_dataset)
  ro, jo = NS(max_parallelism=3), Token("join options")
  its = []

  def ib(d):
    its.append(d)
    return out
  with patched(R, iter_batches=ib):
    r = call(lambda: R.RayReadOnlyRunner(view, ro).read(
        f, fields=fields, version=v, reference_read=ref, batch_size=bs,
        join_options=jo))
  if isinstance(r, Raised):
    cx.record("a version is only known of one source", v is not None and
              n == 2 and error_name(r) == "UserInputError", str(r))
    return
  cx.record("the rows of the view are returned", r is out and its == [ds] and
            len(got) == 1)
  if len(got) != 1:
    return
  cx.record("the options are passed on", got[0][0] is ro and got[0][2] is jo)
  for s in src:
    cx.record("the state of other writers is read first",
              reloaded(log, s, [e for e in log if e[0] == "view"][0]))
  check_read(None, got[0][1], f, fields, bs, v, ref, src[0], None, log)


@unit("C19 C12 C21", "RayMaterializedViewRunner.read",
      ["ray/runners.py:RayMaterializedViewRunner.read",
       "core/runners.py:StorageMixin.reload"])
def mv_read():
  R = RR()
  log = []
  st = Source(log, "view")
  O, f, fields, bs, v, ref = read_args()
  out, its = Token("tables"), []

  def ib(d):
    its.append(d)
    return out
  ro = NS(max_parallelism=3)
  with patched(R, iter_batches=ib):
    r = call(lambda: R.RayMaterializedViewRunner(
        NS(view=Token("view"), storage=st), ro, None).read(
            f, fields=fields, version=v, reference_read=ref, batch_size=bs))
  cx.record("reading succeeds", not isinstance(r, Raised), str(r))
  made = [e for e in log if e[0] == "dataset"]
  cx.record("the rows of the storage of the view are returned", r is out and
            len(made) == 1 and its == [made[0][2]])
  if len(made) != 1:
    return
  cx.record("the state of other writers is read first",
            reloaded(log, st, made[0]))
  a, o = made[0][2].args
  cx.record("the options are passed on", a is ro)
  check_read(None, o, f, fields, bs, v, ref, st, None, log)


def changes_(hi):
  C = sys.modules["space.core.ops.change_data"]
  n = number("changes", hi) if cx.choose("some changes") else 0
  out = []
  for k in range(n):
    t = (C.ChangeType.DELETE if cx.choose(f"change {k} is a deletion")
         else C.ChangeType.ADD)
    ds = [Data(f"d{k}.{j}") for j in range(
        1 if t is C.ChangeType.DELETE else 2)]
    out.append(C.ChangeData(sym_int(f"version{k}"), t, ds))
  return out


class DataAt(Data):
  """Dataset j of change k, as it is or with the transforms of the view."""
  vc_constant = False

  def __init__(self, k, j, done=False, batch=None):
    Data.__init__(self, "dataset")
    self.k, self.j, self.done, self.batch = k, j, done, batch

  def vc_subst(self, sub):
    return DataAt(sub(self.k), sub(self.j), self.done, self.batch)


@unit("C11 C19 C21", "RayReadOnlyRunner.diff_ray",
      ["ray/runners.py:RayReadOnlyRunner.diff_ray",
       "ray/runners.py:RayReadOnlyRunner.diff"])
def diff_ray():
  R = RR()
  C = sys.modules["space.core.ops.change_data"]
  log = []
  st = Source(log, "source")
  ver, add = ufun("version", I, I), ufun("is_addition", I, z3.BoolSort())
  parts = ufun("datasets", I, I)
  dom = core.Domain("changes", n=cx.fresh("changes", I))
  dom.fact(lambda t: parts(t) >= 0)

  def data(g):
    return core.symbolic_list("data", lambda j: DataAt(g, j),
                              dom=core.index_domain(parts(g)))[0]
  g = z3.Const(cx.name("change"), I)
  chs = VList.of_segs([core.Comp(dom, g, [
      (add(g), [C.ChangeData(core.wrap(ver(g)), C.ChangeType.ADD, data(g))]),
      (z3.Not(add(g)), [C.ChangeData(core.wrap(ver(g)), C.ChangeType.DELETE,
                                     data(g))])])])
  asked = []
  whole = cx.choose("tables")

  def rcd(*a, **k):
    log.append(("changes", st))
    asked.append(list(named(sys.modules[
        "space.ray.ops.change_data"].read_change_data, a, k).values()))
    return chs

  def process(d):
    return DataAt(d.k, d.j, True)

  def batches(d):
    return [DataAt(d.k, d.j, d.done, b) for b in "12"]
  ro = NS(max_parallelism=3)
  view = NS(sources={"s": NS(storage=st)}, process_source=process)
  with patched(R, read_change_data=rcd, iter_batches=batches):
    run = R.RayReadOnlyRunner(view, ro)
    r = call(lambda: core.b_list((run.diff if whole else run.diff_ray)(
        "start", "end", 5)))
  cx.record("reading changes succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.record("the change feed is read once", len(asked) == 1)
  a = asked[0]
  cx.record("of the dataset, with the options given", a[0] is st and
            a[3] is ro and a[4].batch_size == 5 and a[4].filter_ is None and
            a[4].fields is None)
  cx.prove("from the start version to the end version", And(
      is_known(a[1], st, "id.start"), is_known(a[2], st, "id.end")))
  cx.record("the state of other writers is read first", reloaded(
      log, st, [e for e in log if e[0] == "changes"][0]))

  def one(i, y):
    cx.record("changes are ChangeData", type(y) is C.ChangeData)
    cx.prove("a change is of its version", term(y.snapshot_id) == ver(i))
    cx.prove("a change is of its type", z3.BoolVal(
        y.type_ is C.ChangeType.ADD) == add(i))

    def part(j, d):
      cx.prove("the data is that of the change, in order",
               z3.And(d.k == i, d.j == j))
      cx.prove("the transforms are applied to additions only",
               z3.BoolVal(d.done) == add(i))
    core.each_of("data", VList(y.data), core.index_domain(parts(i)), part)
  if not whole:
    core.each_of("changes", VList(r), dom, one)
    return
  segs = [x for x in VList(r).segs if x != []]
  fl = getattr(segs[0].domain, "flat", None) if len(segs) == 1 and isinstance(
      segs[0], core.Comp) else None
  if fl is None or fl.outer is not dom:
    raise core.Unsupported("tables that are not collected change by change")

  @cx.case
  def _():
    i, j = cx.fresh("achange", I), cx.fresh("adataset", I)
    cx.assume(z3.And(dom.member(i), j >= 0, j < parts(i)))
    dom.note(i)
    alts = segs[0].at(fl.at(i, j))
    cx.prove("every dataset of every change is read, in order", z3.Or(
        *[g for g, _ in alts], z3.BoolVal(False)))
    for g, ys in alts:
      @cx.case
      def _(g=g, ys=ys):
        cx.assume(g)
        cx.record("every table is returned, in order", [
            getattr(y.data, "batch", None) for y in ys] == ["1", "2"], str(ys))
        for y in ys:
          cx.prove("a change is of its version", term(y.snapshot_id) == ver(i))
          cx.prove("a change is of its type", z3.BoolVal(
              y.type_ is C.ChangeType.ADD) == add(i))
          d = y.data
          cx.prove("the data is that of the change", z3.And(
              d.k == i, d.j == j))
          cx.prove("the transforms are applied to additions only",
                   z3.BoolVal(d.done) == add(i))


class Txn:
  vc_constant = True

  def __init__(self, refresh, k):
    self.rf, self.k, self.state = refresh, k, None

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def commit(self, patch):
    J = sys.modules["space.core.jobs"].JobResult
    ok = not cx.choose(f"commit {self.k} fails")
    self.rf.log.append(("commit", self, patch, ok))
    self.state = J.State.SUCCEEDED if ok else J.State.FAILED

  def result(self):
    J = sys.modules["space.core.jobs"].JobResult
    return J(self.state, None, f"txn{self.k}")


class Refresh:

  def __init__(self):
    R = RR()
    self.log = []
    self.src, self.st = Source(self.log, "source"), Source(self.log, "view")
    self.chs = changes_(3)
    self.target = "v" if cx.choose("a target is given") else None
    self.asked, self.merged = [], []
    self.txns = []

    def transaction():
      t = Txn(self, len(self.txns))
      self.txns.append(t)
      self.log.append(("start", t))
      return t
    self.st.transaction = transaction

    real = RR().RayReadOnlyRunner.diff_ray

    def diff_ray(this, *a, **k):
      self.log.append(("diff", None))
      self.asked.append(list(named(real, a, k, method=True).values()))
      return iter(self.chs)
    self.fail, self.patch = None, {}
    mine = self

    def process(kind):
      def f(this, data):
        k = [i for i, c in enumerate(mine.chs) if c.data is data]
        mine.log.append(("process", kind, k[0] if k else None))
        if cx.choose(f"change {k} cannot be applied"):
          mine.fail = k[0]
          raise E().SpaceRuntimeError("process")
        if cx.choose(f"change {k} matters"):
          mine.patch[k[0]] = (kind, k[0])
        return mine.patch.get(k[0])
      return f

    def merge(this, ps):
      p = Token("merged")
      p.of = list(ps)
      return p
    self.view = NS(sources={"s": NS(storage=self.src)})
    cls = R.RayMaterializedViewRunner
    with patched(R.RayReadOnlyRunner, diff_ray=diff_ray), patched(
        cls, _process_delete=process("delete"),
        _process_append=process("append"), _merge_patches=merge):
      self.r = call(lambda: cls(NS(view=self.view, storage=self.st), NS(
          max_parallelism=2), None).refresh(self.target, 7))


@unit("C21 C03 C11", "RayMaterializedViewRunner.refresh",
      ["ray/runners.py:RayMaterializedViewRunner.refresh",
       "ray/runners.py:RayMaterializedViewRunner._start_txn"],
      bounded="up to 3 changes (of any versions)", budget=200, paths=4000)
def refresh():
  C = sys.modules["space.core.ops.change_data"]
  State = sys.modules["space.core.jobs"].JobResult.State
  x = Refresh()
  log = x.log
  acts = [e for e in log if e[0] in ("process", "commit")]
  end = "current" if x.target is None else f"id.{x.target}"
  vs = range(1, x.src.version + 1)
  if isinstance(x.r, Raised):
    cx.record("only an unknown version is an error",
              error_name(x.r) == "VersionNotFoundError" and
              x.target is not None, str(x.r))
    cx.prove("a version that exists is no error", Or(*[
        const(x.src, end, v) > const(x.src, "current", w)
        for v in vs for w in vs], False))
    cx.record("nothing is done for an unknown version", not acts)
    return
  d = [e for e in log if e[0] == "diff"]
  cx.record("the changes are read once", len(d) == 1)
  cx.record("the state of other writers is read first",
            reloaded(log, x.src, d[0]) and reloaded(log, x.st, d[0]))
  a = x.asked[0]
  cx.prove("the changes the view does not have are read", And(
      is_known(a[0], x.st, "current"), is_known(a[1], x.src, end)))
  cx.record("in batches of the size given", len(a) == 3 and a[2] == 7)
  # What is applied, and committed.
  want = 0
  group, commits = [], []
  stopped = False
  for e in log:
    if e[0] == "process":
      cx.record("nothing is done after a failure", not stopped)
      cx.record("changes are applied in order, once", e[2] == want, str(log))
      if e[2] != want:
        return
      want += 1
      c = x.chs[e[2]]
      cx.record("deletions are deleted, additions are appended", e[1] == (
          "delete" if c.type_ is C.ChangeType.DELETE else "append"))
      if group:
        cx.prove("changes of different versions are not committed together",
                 vc_eq(x.chs[group[-1]].snapshot_id, c.snapshot_id))
      elif commits:
        cx.prove("changes of one version are committed together",
                 Not(vc_eq(x.chs[commits[-1][-1]].snapshot_id,
                           c.snapshot_id)))
      if x.fail == e[2]:
        stopped = True
      group.append(e[2])
    elif e[0] == "commit":
      cx.record("nothing is done after a failure", not stopped)
      cx.record("only applied changes are committed", bool(group))
      t = e[1]
      i0 = [i for i, f in enumerate(log) if f == ("start", t)]
      p0 = [i for i, f in enumerate(log) if f[0] == "process" and
            group and f[2] == group[0]]
      cx.record("a transaction starts before its changes", bool(i0) and
                bool(p0) and i0[0] < p0[0])
      cx.record("each commit has its own transaction",
                all(t is not o[1] for o in log if o[0] == "commit" and
                    o is not e))
      ps = [p for p in getattr(e[2], "of", ["?"]) if p is not None]
      cx.record("the patches of the version are committed, in order",
                ps == [x.patch[k] for k in group if x.patch.get(k)], str(ps))
      commits.append(group)
      group = []
      if not e[3]:
        stopped = True
  if not stopped:
    cx.record("all changes are applied", want == len(x.chs), str(log))
    cx.record("all changes are committed", not group, str(log))
  rs = list(x.r)
  n_ok = len([e for e in log if e[0] == "commit" and e[3]])
  cx.record("the result of each commit is returned", [
      r.state for r in rs] == [State.SUCCEEDED] * n_ok + (
          [State.FAILED] if stopped else []), str(rs))



class Rows(Token):
  """A table of any number of rows."""

  def __init__(self, name, some):
    Token.__init__(self, name)
    self.num_rows = sym_int(name + ".num_rows") if some else wrap(
        z3.IntVal(0))
    if some:
      cx.assume(self.num_rows >= 1)

  def slice(self, offset=0, length=None):
    if bool(And(offset == 0, True if length is None else
                length >= self.num_rows)):
      return self
    return Token("some rows")

  def combine_chunks(self):
    return self


@unit("C21 C06 C05", "RayMaterializedViewRunner._process_delete",
      ["ray/runners.py:RayMaterializedViewRunner._process_delete"])
def process_delete():
  R = RR()
  U = sys.modules["space.core.ops.utils"]
  log = []
  md, loc, keys = Token("metadata"), sym_str("location"), Token("keys")
  fo = Token("file options")
  fs = proto.sym_msg(RT().FileSet, "files")
  dom, file = core.one_each(fs.index_files)
  asked = []

  def data_files(*a, **k):
    asked.append(named(sys.modules["space.core.storage"].Storage.data_files, a,
                       k, method=True))
    return fs
  st = NS(location=loc, metadata=md, primary_keys=keys, data_files=data_files)
  d = Data("deleted")
  some = cx.choose("rows to delete")
  tables, rows = Token("tables"), Rows("rows", some)
  rng, flt = Token("range"), (Token("filter") if some else None)
  patch = (proto.sym_msg(RT().Patch, "patch")
           if cx.choose("there is a patch") else None)

  def made_of(out):
    def f(k, t):
      cx.record("filters are made of the rows deleted", k is keys and
                t is rows)
      return out
    return f
  spy = Spy(R.FileSetDeleteOp, log, {"delete": patch})
  # A range filter selects a superset of the rows (unit
  # primary_key_range_filter); it is None only if there is no row.
  with patched(R, FileSetDeleteOp=spy,
               iter_batches=lambda x: tables if x is d else None,
               pa=NS(concat_tables=lambda x: rows if x is tables else None)):
    with patched(U, primary_key_filter=made_of(flt),
                 primary_key_range_filter=made_of(rng)):
      run = R.RayMaterializedViewRunner(NS(view=Token("view"), storage=st),
                                        NS(max_parallelism=2), fo)
      r = call(lambda: run._process_delete([d]))
  cx.record("deleting succeeds", not isinstance(r, Raised), str(r))
  ops = [e[1] for e in log if e[0] == "new"]
  cx.record("one deletion at most", len(ops) <= 1)
  if not ops:
    cx.record("no deletion, no patch", r is None, str(r))
    if flt is not None:
      cx.prove("a deletion is only left out if no file may match",
               z3.And(dom.n == 0, z3.BoolVal(len(asked) == 1)))
    return
  cx.record("only rows to delete are deleted", flt is not None)
  a = ops[0].args
  cx.prove("the view is deleted from", vc_eq(a["location"], loc))
  cx.record("the rows of the keys are deleted", a["metadata"] is md and
            a["filter_"] is flt and a["file_options"] is fo)
  cx.record("in all files that may match", a["file_set"] is fs and
            len(asked) == 1)
  for v in asked:
    cx.record("files are only pruned by the keys", v["filter_"] in (
        rng, None) and v["snapshot_id"] is None, str(v))
  cx.record("deleted once", [c[0] for c in ops[0].calls] == ["delete"])
  cx.record("the patch is the one of the deletion", r is patch)


@unit("C21 C05", "RayMaterializedViewRunner._process_append",
      ["ray/runners.py:RayMaterializedViewRunner._process_append",
       "ray/runners.py:_append_from"])
def process_append():
  R = RR()
  log = []
  md, loc, fo = Token("metadata"), sym_str("location"), Token("file options")
  ro = NS(max_parallelism=2)
  ds = [Data(f"d{k}") for k in range(number("datasets", 3))]
  patch = (proto.sym_msg(RT().Patch, "patch")
           if cx.choose("there is a patch") else None)
  got = []
  spy = Spy(R.RayAppendOp, log, {"write_from": None, "finish": patch})
  with patched(R, RayAppendOp=spy, iter_batches=lambda x: ("tables", x)):
    run = R.RayMaterializedViewRunner(
        NS(view=Token("view"), storage=NS(location=loc, metadata=md)), ro, fo)
    r = call(lambda: run._process_append(ds))
    ops = [e[1] for e in log if e[0] == "new"]
    if len(ops) == 1:
      w = _calls(ops[0], "write_from")
      got = [f() for f in w[0][1][0]] if len(w) == 1 else []
  cx.record("appending succeeds", not isinstance(r, Raised), str(r))
  cx.record("one append operation", len(ops) == 1)
  if len(ops) != 1:
    return
  a = ops[0].args
  cx.prove("the view is appended to", vc_eq(a["location"], loc))
  cx.record("with the metadata and options of the view",
            a["metadata"] is md and a["file_options"] is fo)
  cx.record("the addresses of the rows appended are known",
            not a.get("record_address_input"))
  cx.record("each dataset is appended once", len(got) == len(ds) and all(
      x == ("tables", d) for x, d in zip(got, ds)), str(got))
  cx.record("finished at the end", [c[0] for c in ops[0].calls] == [
      "write_from", "finish"], str(ops[0].calls))
  cx.record("the patch is the one of the operation", r is patch)


@unit("C21 C03", "RayMaterializedViewRunner._merge_patches",
      ["ray/runners.py:RayMaterializedViewRunner._merge_patches"])
def merge():
  R = RR()
  U = sys.modules["space.core.ops.utils"]
  ps = VList([Token("p")])
  some = cx.choose("some patch")
  out = proto.sym_msg(RT().Patch, "patch") if some else None
  got = []

  def mp(x):
    got.append(x)
    return out
  run = object.__new__(R.RayMaterializedViewRunner)
  with patched(U, merge_patches=mp):
    r = call(lambda: run._merge_patches(ps))
  cx.record("merging succeeds", not isinstance(r, Raised), str(r))
  cx.record("all patches are merged", len(got) == 1 and got[0] is ps)
  if some:
    cx.record("the patch is the merged one", r is out)
  else:
    cx.record("a version without changes is committed as well",
              type(r) is RT().Patch, str(r))
    if type(r) is RT().Patch:
      e = RT().Patch()
      for f in r._fields():
        if f not in ("change_log",):
          cx.prove("an empty patch is empty", vc_eq(getattr(r, f),
                                                    getattr(e, f)))
      cx.prove("an empty patch deletes and adds nothing", And(
          vc_eq(len(r.change_log.deleted_rows), 0),
          vc_eq(len(r.change_log.added_rows), 0)))


# ----------------------------------------------------------------------------
# RayReadWriterRunner
# ----------------------------------------------------------------------------
def rw(x):
  ds = Token("dataset")
  ds.storage = x.st
  x.ro = sys.modules["space.ray.options"].RayOptions(max_parallelism=4)
  return RR().RayReadWriterRunner(ds, x.ro, None)


def _same_ray_options(x, op):
  cx.record("uses the Ray options of the runner",
            op.args["ray_options"] is x.ro and x.ro.max_parallelism == 4)


def _chk_append(x, op, ctx):
  _same_ray_options(x, op)
  runners._chk_append(x, op, ctx)


def _chk_insert(x, op, ctx):
  _same_ray_options(x, op)
  runners._chk_insert(x, op, ctx)


def _chk_delete(x, op, ctx):
  cx.record("delete: with the filter", op.args["filter_"] is ctx["f"])
  cx.record("delete: runs once", [n for n, _ in op.calls] == ["delete"])


def _run_append_from(x, ctx):
  a, b = Token("f1"), Token("f2")
  one = cx.choose("one source")
  ctx["want"] = [a] if one else [a, b]
  return x.runner.append_from(a if one else [a, b])


def _chk_append_from(x, op, ctx):
  w = _calls(op, "write_from")
  cx.record("append_from: all sources are appended, once", len(w) == 1 and
            list(w[0][1][0]) == ctx["want"], str(op.calls))
  cx.record("append_from: finished once, at the end",
            [c[0] for c in op.calls] == ["write_from", "finish"])
  cx.record("append_from: the options of the user are not changed",
            x.ro.max_parallelism == 4)
  cx.record("append_from: some tasks", 1 <= op.args[
      "ray_options"].max_parallelism)


for _n, _c, _res, _run, _chk, _p in (
    ("append", "RayAppendOp", {"write": None, "finish": "patch"},
     runners._run_append, _chk_append, "C05 C19"),
    ("append_from", "RayAppendOp", {"write_from": None, "finish": "patch"},
     _run_append_from, _chk_append_from, "C05 C19"),
    ("_insert", "RayInsertOp", {"write": "patch"}, runners._run_insert,
     _chk_insert, "C07 C19"),
    ("delete", "RayDeleteOp", {"delete": "patch"}, runners._run_delete,
     _chk_delete, "C06 C19")):
  runners.local_op(_n, _c, _res, _run, _chk, _p, where="ray",
                   cls="RayReadWriterRunner", runner=rw, module=RR,
                   functions=["ray/runners.py:_append_from"]
                   if _n == "append_from" else [])


@unit("C03 C18", "RayReadWriterRunner: loading is not supported",
      ["ray/runners.py:RayReadWriterRunner.append_array_record",
       "ray/runners.py:RayReadWriterRunner.append_parquet"])
def ray_loads():
  arrow = cx.choose("array records")

  def make(x):
    run = rw(x)
    if arrow:
      return call(lambda: run.append_array_record("p", Token("fn")))
    return call(lambda: run.append_parquet("p"))
  x = runners.Ran(make)
  State = sys.modules["space.core.jobs"].JobResult.State
  cx.record("success is only reported for a commit",
            isinstance(x.r, Raised) or x.r.state != State.SUCCEEDED or
            len(x.commits) == 1, str(x.r))
  cx.record("a failure commits nothing",
            not isinstance(x.r, Raised) or not x.commits)
