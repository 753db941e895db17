"""core/runners.py: operations run on reloaded metadata and are committed once."""
from __future__ import annotations

import inspect
import sys

from engine import core, proto, stubs
from engine.core import cx, VList, And, Or, Not, sym_str, sym_int, vc_eq
from engine.specs.storage import (World, open_storage, S, no_effect, head_of,
                                  metadata_at, writes)
from engine.stubs import patched
from engine.unit import unit, call, Raised, error_name


def R():
  return sys.modules["space.core.runners"]


def E():
  return sys.modules["space.core.utils.errors"]


class Token:
  """An opaque value handed through the code under proof."""
  vc_constant = True

  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return f"<{self.name}>"

  def __deepcopy__(self, memo):
    return self


class Spy:
  """The contract of an operation class: records how it is made and used."""

  def __init__(self, cls, log, results=None, on=None):
    self.sig = inspect.signature(cls.__init__)
    self.log, self.results, self.on = log, results or {}, on
    self.cls = cls

  def __call__(self, *a, **kw):
    b = self.sig.bind(None, *a, **kw)
    b.apply_defaults()
    args = dict(b.arguments)
    args.pop("self", None)
    op = SpyOp(self, args)
    self.log.append(("new", op))
    if self.on:
      self.on(op)
    return op


class SpyOp:
  vc_constant = True

  def __init__(self, spy, args):
    self.spy, self.args = spy, args
    self.calls = []

  def __getattr__(self, n):
    if n.startswith("__"):
      raise AttributeError(n)
    if n not in self.spy.results:
      raise core.Unsupported(f"{self.spy.cls.__name__}.{n}")

    def f(*a, **k):
      b = inspect.signature(getattr(self.spy.cls, n)).bind(None, *a, **k)
      args = [v for kk, v in b.arguments.items() if kk != "self"]
      self.calls.append((n, args))
      self.spy.log.append((n, self, args))
      r = self.spy.results[n]
      return r() if callable(r) else r
    return f

  def vc_list(self):
    self.calls.append(("iter", []))
    self.spy.log.append(("iter", self, []))
    return self.spy.results["iter"]

  def __iter__(self):
    self.calls.append(("iter", []))
    self.spy.log.append(("iter", self, []))
    return iter(self.spy.results["iter"])


class Ran:
  """Runs an operation of a runner: other writers may publish at any time
  before each read of the entry point; Storage.commit by contract (unit
  Storage.commit)."""

  def __init__(self, make, runner=None):
    self.world = World(others=True)
    self.st = open_storage(self.world, sym_str("current_branch"))
    self.commits, self.log = [], []
    self.at_new = None
    self.files = []
    me = self

    def storage_commit(self, patch, br):
      me.commits.append((patch, br))
      if cx.choose("the commit fails"):
        raise E().SpaceRuntimeError("commit")

    def data_files(self, filter_=None, snapshot_id=None):
      sid = snapshot_id
      if sid is None:
        known, sid = head_of(self._metadata, self._current_branch)
        if not known:
          raise E().VersionNotFoundError("head")
      t = Token("files")
      t.filter, t.snapshot, t.storage, t.meta = filter_, sid, self, (
          self._metadata)
      t.reads = me.world.reads
      me.files.append(t)
      return t
    self.runner = runner(self) if runner else R().LocalRunner(self.st, None)
    with patched(S().Storage, commit=storage_commit, data_files=data_files):
      self.r = make(self)

  def on_new(self, op):
    self.at_new = (self.st._metadata, self.world.reads, self.world.entry)


def check_txn(x, ran_ops, patch, what):
  """The operation ran on the state its transaction started from; its patch is
  the only thing committed."""
  State = sys.modules["space.core.jobs"].JobResult.State
  no_effect(what)
  r = x.r
  if isinstance(r, Raised):
    cx.record(f"{what}: errors are reported as results",
              error_name(r) not in ("SpaceRuntimeError", "UserInputError",
                                    "VersionNotFoundError"), str(r))
    cx.record(f"{what}: an operation that raises commits nothing",
              not x.commits)
    return None
  if x.commits:
    cx.record(f"{what}: the patch of the operation is committed, once",
              len(x.commits) == 1 and x.commits[0][0] is patch,
              str(x.commits))
    cx.prove(f"{what}: it is committed on the branch in use",
             vc_eq(x.commits[0][1], x.st.current_branch))
  if r.state == State.SUCCEEDED:
    cx.record(f"{what}: success is only reported for a commit",
              len(x.commits) == 1)
  return r


# ----------------------------------------------------------------------------
@unit("C03 C01 C04", "runners.transactional",
      ["core/runners.py:StorageMixin.transactional",
       "core/storage.py:Transaction", "core/jobs.py"], budget=150)
def transactional():
  args = (Token("a"), Token("b"))
  seen = []
  patch = (proto.sym_msg(stubs.rt_stub().Patch, "patch")
           if cx.choose("there is a patch") else None)
  kinds = ["none", "SpaceRuntimeError", "UserInputError", "other"]
  kind = "none"
  for k in kinds[1:]:
    if cx.choose(k):
      kind = k
      break

  def make(x):
    class Op(R().StorageMixin):
      vc_constant = True

      @R().StorageMixin.transactional
      def op(self, *a, **k):
        seen.append((a, k, self._storage._metadata, x.world.reads,
                     x.world.entry))
        if kind == "other":
          raise ValueError("other")
        if kind != "none":
          raise getattr(E(), kind)("op")
        return patch
    return call(lambda: Op(x.st).op(args[0], k=args[1]))
  x = Ran(make)
  State = sys.modules["space.core.jobs"].JobResult.State
  cx.record("the operation runs at most once", len(seen) <= 1)
  r = check_txn(x, None, patch, "a transaction")
  if not seen:
    cx.record("what does not run is not committed", not x.commits)
    return
  a, k, meta, reads, entry = seen[0]
  cx.record("the arguments are passed on", len(a) == 1 and a[0] is args[0] and
            k.get("k") is args[1] and len(k) == 1)
  cx.record("the operation runs after other writers' state was read",
            reads >= 1)
  cx.record("the state is read again before a commit",
            not x.commits or x.world.reads > reads)
  if kind != "none":
    cx.record("a failed operation commits nothing", not x.commits)
    if kind != "other":
      cx.record("a failed operation is reported as failed",
                r is not None and r.state == State.FAILED, str(x.r))
    else:
      cx.record("other errors reach the user", isinstance(x.r, Raised) and
                type(x.r.exc) is ValueError, str(x.r))
  elif r is not None and not x.commits:
    cx.record("without a commit no success is reported",
              r.state != State.SUCCEEDED)


@unit("C01 C08 C12", "LocalRunner.read",
      ["core/runners.py:LocalRunner.read",
       "core/runners.py:StorageMixin.reload",
       "core/storage.py:Storage.version_to_snapshot_id"], budget=150)
def read():
  opts = cx.choose("options")
  f = Token("filter") if opts else None
  fields = VList(["a"]) if opts else None
  kind = "none"
  for k in ("name", "id"):
    if cx.choose(k):
      kind = k
      break
  version = {"none": None, "name": sym_str("version"),
             "id": sym_int("version")}[kind]
  ref = bool(opts)
  bs = sym_int("batch_size") if opts else None
  if bs is not None:
    cx.assume(bs > 0)
  out = [Token("t1"), Token("t2")]

  def make(x):
    spy = Spy(R().FileSetReadOp, x.log, {"iter": out}, on=x.on_new)
    with patched(R(), FileSetReadOp=spy):
      def go():
        return list(x.runner.read(f, fields=fields, version=version,
                                  reference_read=ref, batch_size=bs))
      return call(go)
  x = Ran(make)
  no_effect("a read")
  cx.record("a read commits nothing", not x.commits)
  m = x.st._metadata
  if isinstance(x.r, Raised):
    cx.record("a read only fails for an unknown version",
              error_name(x.r) == "VersionNotFoundError" and
              (kind == "name" or (kind == "none")), str(x.r))
    return
  ops = [e[1] for e in x.log if e[0] == "new"]
  cx.record("one read operation is made", len(ops) == 1 and len(x.files) == 1)
  if len(ops) != 1 or len(x.files) != 1:
    return
  a, t = ops[0].args, x.files[0]
  cx.record("all its tables are returned in order", [id(v) for v in x.r] ==
            [id(v) for v in out])
  cx.record("the state of other writers is read first", t.reads >= 1)
  cx.record("the published metadata is used", a["metadata"] is t.meta and
            t.meta is m)
  cx.record("the files of the version are read", a["file_set"] is t)
  cx.prove("files are read from the location",
           vc_eq(a["location"], x.st.location))
  o = a["options"]
  if kind == "id":
    cx.prove("the version asked for is read", vc_eq(t.snapshot, version))
  elif kind == "name":
    rf = m.refs.peek(version)
    cx.record("the name of the version exists", rf is not None)
    if rf is not None:
      cx.prove("the version asked for by name is read",
               vc_eq(t.snapshot, rf.snapshot_id))
  else:
    known, h = head_of(m, x.st.current_branch)
    cx.record("the branch exists", known)
    if known:
      cx.prove("the head of the branch is read", vc_eq(t.snapshot, h))
  cx.record("files are only pruned with the filter of the read",
            t.filter is None or t.filter is f)
  cx.record("the filter is applied", o.filter_ is f)
  cx.record("the fields are applied", o.fields is fields or (
      fields is not None and o.fields is not None and
      list(o.fields.concrete()) == ["a"]))
  cx.record("the reference read option is applied", o.reference_read is ref or
            o.reference_read == ref)
  if bs is not None:
    cx.prove("the batch size is applied", vc_eq(o.batch_size, bs))


@unit("C11 C01", "LocalRunner.diff",
      ["core/runners.py:LocalRunner.diff",
       "core/runners.py:StorageMixin.reload",
       "core/storage.py:Storage.version_to_snapshot_id"], budget=150)
def diff():
  a = sym_str("start") if cx.choose("start by name") else sym_int("start")
  b = sym_str("end") if cx.choose("end by name") else sym_int("end")
  got = []
  out = [Token("c1"), Token("c2")]

  def rcd(storage, start_snapshot_id, end_snapshot_id, read_options):
    got.append((storage, start_snapshot_id, end_snapshot_id, x0.world.reads,
                read_options))
    return iter(out)
  x0 = None

  def make(x):
    nonlocal x0
    x0 = x
    with patched(R(), read_change_data=rcd):
      return call(lambda: list(x.runner.diff(a, b)))
  x = Ran(make)
  no_effect("a diff")
  cx.record("a diff commits nothing", not x.commits)
  m = x.st._metadata
  if isinstance(x.r, Raised):
    cx.record("a diff only fails for an unknown version",
              error_name(x.r) == "VersionNotFoundError" and not got, str(x.r))
    return
  cx.record("the change feed is read once", len(got) == 1)
  if len(got) != 1:
    return
  st, s, e, reads, _ = got[0]
  cx.record("the state of other writers is read first", reads >= 1)
  cx.record("the change feed of the dataset is read", st is x.st)
  cx.record("all changes are returned in order",
            [id(v) for v in x.r] == [id(v) for v in out])
  for v, g, w in ((a, s, "start"), (b, e, "end")):
    if type(v) is core.SymNum:
      cx.prove(f"the {w} version is the one asked for", vc_eq(g, v))
    else:
      rf = m.refs.peek(v)
      cx.record(f"the name of the {w} version exists", rf is not None)
      if rf is not None:
        cx.prove(f"the {w} version is the one asked for by name",
                 vc_eq(g, rf.snapshot_id))


def local_op(name, cls_name, results, run, check, expect, where="core",
             cls="LocalRunner", runner=None, module=None, functions=()):
  R = module or globals()["R"]  # noqa: N806

  @unit("C03 C01 " + expect, f"{cls}.{name}",
        [f"{where}/runners.py:{cls}.{name}",
         "core/runners.py:StorageMixin.transactional", *functions],
        budget=150)
  def _():
    patch = (proto.sym_msg(stubs.rt_stub().Patch, "patch")
             if cx.choose("there is a patch") else None)
    res = {k: (patch if v == "patch" else v) for k, v in results.items()}
    ctx = {}

    def make(x):
      spy = Spy(getattr(R(), cls_name), x.log, res, on=x.on_new)
      with patched(R(), **{cls_name: spy}):
        return call(lambda: run(x, ctx))
    x = Ran(make, runner)
    r = check_txn(x, None, patch, name)
    ops = [e[1] for e in x.log if e[0] == "new"]
    if not ops:
      cx.record(f"{name}: nothing is committed without an operation",
                not x.commits)
      return
    cx.record(f"{name}: one operation is made", len(ops) == 1)
    op = ops[0]
    meta, reads, entry = x.at_new
    cx.record(f"{name}: runs after other writers' state was read", reads >= 1)
    if "location" in op.args:
      cx.prove(f"{name}: writes at the location of the dataset",
               vc_eq(op.args["location"], x.st.location))
    if "metadata" in op.args:
      cx.record(f"{name}: uses the metadata of its transaction",
                op.args["metadata"] is meta)
    if "storage" in op.args:
      cx.record(f"{name}: uses the storage of its transaction",
                op.args["storage"] is x.st)
    if "file_options" in op.args:
      cx.record(f"{name}: uses the file options of the runner",
                op.args["file_options"] is x.runner._file_options)
    if r is None:
      return
    check(x, op, ctx)
  _.__name__ = name


def _calls(op, *names):
  return [(n, a) for n, a in op.calls if n in names]


def _chk_append(x, op, ctx):
  w = _calls(op, "write")
  cx.record("append: the data is written once",
            len(w) == 1 and w[0][1][0] is ctx["data"], str(op.calls))
  cx.record("append: finished after the data is written",
            [n for n, _ in op.calls] == ["write", "finish"], str(op.calls))


def _run_append(x, ctx):
  ctx["data"] = Token("data")
  return x.runner.append(ctx["data"])


local_op("append", "LocalAppendOp", {"write": None, "finish": "patch"},
         _run_append, _chk_append, "C05")


def _run_append_from(x, ctx):
  one = cx.choose("one source")
  a, b, c = Token("a"), Token("b"), Token("c")
  f1, f2 = (lambda: iter([a, b])), (lambda: iter([c]))
  ctx["want"] = [a, b] if one else [a, b, c]
  return x.runner.append_from(f1 if one else VList([f1, f2]) if False
                              else [f1, f2])


def _chk_append_from(x, op, ctx):
  w = [a[0] for n, a in _calls(op, "write")]
  cx.record("append_from: all data of all sources is written once, in order",
            [id(v) for v in w] == [id(v) for v in ctx["want"]], str(op.calls))
  cx.record("append_from: finished once, at the end",
            [n for n, _ in op.calls].count("finish") == 1 and
            op.calls[-1][0] == "finish")


local_op("append_from", "LocalAppendOp", {"write": None, "finish": "patch"},
         _run_append_from, _chk_append_from, "C05")


def _run_ar(x, ctx):
  ctx["p"], ctx["f"] = sym_str("pattern"), Token("index_fn")
  return x.runner.append_array_record(ctx["p"], ctx["f"])


def _chk_ar(x, op, ctx):
  cx.prove("append_array_record: the files of the pattern are loaded",
           vc_eq(op.args["pattern"], ctx["p"]))
  cx.record("append_array_record: with the index function",
            op.args["index_fn"] is ctx["f"])
  cx.record("append_array_record: loaded once",
            [n for n, _ in op.calls] == ["write"])


local_op("append_array_record", "LocalArrayRecordLoadOp", {"write": "patch"},
         _run_ar, _chk_ar, "C18")


def _run_pq(x, ctx):
  ctx["p"] = sym_str("pattern")
  return x.runner.append_parquet(ctx["p"])


def _chk_pq(x, op, ctx):
  cx.prove("append_parquet: the files of the pattern are loaded",
           vc_eq(op.args["pattern"], ctx["p"]))
  cx.record("append_parquet: loaded once",
            [n for n, _ in op.calls] == ["write"])


local_op("append_parquet", "LocalParquetLoadOp", {"write": "patch"},
         _run_pq, _chk_pq, "C18")


def _run_insert(x, ctx):
  ctx["data"] = Token("data")
  ctx["up"] = cx.choose("upsert")
  return (x.runner.upsert if ctx["up"] else x.runner.insert)(ctx["data"])


def _chk_insert(x, op, ctx):
  M = sys.modules["space.core.ops.insert"].InsertOptions.Mode
  cx.record("insert: in the mode asked for", op.args["options"].mode is
            (M.UPSERT if ctx["up"] else M.INSERT), str(op.args))
  w = _calls(op, "write")
  cx.record("insert: the data is written once",
            len(w) == 1 and w[0][1][0] is ctx["data"], str(op.calls))


local_op("_insert", "LocalInsertOp", {"write": "patch"}, _run_insert,
         _chk_insert, "C07")


def _run_delete(x, ctx):
  ctx["f"] = Token("filter")
  return x.runner.delete(ctx["f"])


def _chk_delete(x, op, ctx):
  cx.record("delete: with the filter", op.args["filter_"] is ctx["f"])
  cx.record("delete: of files of the dataset",
            len(x.files) == 1 and op.args["file_set"] is x.files[0])
  if len(x.files) == 1:
    t = x.files[0]
    cx.record("delete: files are only pruned with the filter",
              t.filter is None or t.filter is ctx["f"])
    known, h = head_of(t.meta, x.st.current_branch)
    cx.record("delete: the branch exists", known)
    if known:
      cx.prove("delete: the files of the head are looked at",
               vc_eq(t.snapshot, h))
    cx.record("delete: of the state of its transaction",
              t.meta is op.args["metadata"])
  cx.record("delete: runs once", [n for n, _ in op.calls] == ["delete"])


local_op("delete", "FileSetDeleteOp", {"delete": "patch"}, _run_delete,
         _chk_delete, "C06")
