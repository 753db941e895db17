"""catalogs/directory.py; listings and handles of storages and views."""
from __future__ import annotations

import sys

import z3

from engine import core, proto, stubs
from engine.core import (cx, VList, Comp, SymStr, SymNum, SymBool, And, Or,
                         Not, sym_str, sym_int, sym_bool, vc_eq, term, as_bool,
                         I, B, Str, wrap, ufun)
from engine.specs.rays import only_comp, in_alternative, mod, same
from engine.specs.runners import Token, E, Spy
from engine.specs.storage import World, open_storage, no_effect, S, M
from engine.specs.views import V, D
from engine.stubs import patched, NS, Path
from engine.unit import unit, call, Raised, error_name


def C():
  return sys.modules["space.catalogs.directory"]


def paths():
  return sys.modules["space.core.utils.paths"]


def exactly(what, got, dom, keep, check):
  """A list made of a domain has one item for what is kept, none for others."""
  cx.ghost.setdefault("$relative", [])
  v = VList(got)
  c = only_comp(v)
  if c is None:
    # Nothing could be kept or every segment is known.
    cs = v.concrete()
    if cs is not None and not cs:
      @cx.case
      def _():
        i = dom.member(what)
        cx.prove(f"{what}: nothing is left out", Not(keep(i)))
      return
    raise core.Unsupported(f"{what}: shape of the list")

  @cx.case
  def _():
    i = z3.Int(cx.name("any"))
    cx.assume(dom.member(i))
    k = keep(i)

    def one(items):
      cx.prove(f"{what}: nothing is left out or added", vc_eq(
          wrap(as_bool(k)), wrap(z3.BoolVal(len(items) == 1))))
      if items:
        check(i, items[0])
    in_alternative(c, i, one)


# ----------------------------------------------------------------------------
# DirCatalog
# ----------------------------------------------------------------------------
@unit("C16 C20", "DirCatalog", ["catalogs/directory.py:DirCatalog." + n for n in (
    "__init__", "create_dataset", "materialize", "delete_dataset", "dataset",
    "datasets", "_dataset_location")] + [
        "core/utils/paths.py:entry_point_path",
        "core/utils/paths.py:metadata_dir"])
def directory():
  with patched(C(), os=NS(path=Path)):
    directory_()


def directory_():
  c = C()
  loc, name = sym_str("directory"), sym_str("name")
  stubs.declare_relative(name)
  at = Path.join(loc, name)
  cat = c.DirCatalog(loc)
  op = next((n for n in ("create", "materialize", "load", "delete")
             if cx.choose(n)), "list")
  made = []
  if op == "create":
    fails = cx.choose("the storage exists")

    def create(location, schema, primary_keys, record_fields):
      made.append([location, schema, primary_keys, record_fields])
      if fails:
        raise E().StorageExistError("exists")
      return out
    out = Token("dataset")
    args = [name, Token("schema"), ["k"], ["r"]]
    with patched(c, Dataset=NS(create=create)):
      r = call(lambda: cat.create_dataset(*args))
    cx.record("one dataset is created", len(made) == 1)
    if len(made) != 1:
      return
    got = made[0]
    cx.record("a dataset is created as asked for", all(
        a is b for a, b in zip(got[1:], args[1:])), str(got))
    cx.prove("a dataset is at the location of its name", vc_eq(got[0], at))
    if fails:
      cx.record("an existing dataset is an error",
                error_name(r) == "StorageExistError", str(r))
    else:
      cx.record("the dataset is returned", r is out, str(r))
  elif op == "materialize":
    out = Token("mv")
    view = NS(materialize=lambda l: made.append(l) or out)
    r = call(lambda: cat.materialize(name, view))
    cx.record("the view is materialized once", r is out and len(made) == 1)
    for l in made:
      cx.prove("a view is materialized at the location of its name",
               vc_eq(l, at))
  elif op == "delete":
    r = call(lambda: cat.delete_dataset(name))
    cx.record("a dataset is not deleted in silence", isinstance(r, Raised))
  elif op == "load":
    exists = not cx.choose("no such storage")
    t = sym_int("type")
    st = NS(metadata=NS(type=t), location=at)

    def load(l, *a):
      made.append(l)
      if not exists:
        raise FileNotFoundError("no")
      return st
    mvs = []
    out = Token("mv")
    with patched(c, Storage=NS(load=load), load_materialized_view=lambda s: (
        mvs.append(s) or out)):
      r = call(lambda: cat.dataset(name))
    for l in made:
      cx.prove("the storage of the name is loaded", vc_eq(l, at))
    cx.record("the storage is loaded once", len(made) == 1)
    if not exists:
      cx.record("an unknown name is not found",
                error_name(r) == "StorageNotFoundError", str(r))
    elif bool(t == 1):
      cx.record("a dataset is a dataset", type(r).__name__ == "Dataset" and
                r.storage is st and not mvs, str(r))
    elif bool(t == 2):
      cx.record("a materialized view is a materialized view", r is out and
                mvs == [st], str(r))
    else:
      cx.record("another type is an error", isinstance(r, Raised))
  else:
    names, dom = core.symbolic_list("entries", lambda i: SymStr(
        ufun("entry", I, Str)(i)))
    dirs, files = ufun("isdir", Str, B), ufun("isfile", Str, B)
    asked = []

    def listdir(l=None):
      asked.append(l)
      return names
    osp = NS(join=Path.join, isdir=lambda p: SymBool(dirs(term(p))),
             isfile=lambda p: SymBool(files(term(p))),
             basename=Path.basename, dirname=Path.dirname)
    with patched(c, os=NS(listdir=listdir, path=osp)):
      r = call(cat.datasets)
    cx.record("datasets are listed", not isinstance(r, Raised), str(r))
    if isinstance(r, Raised):
      return
    cx.record("one directory is listed", len(asked) == 1)
    for l in asked:
      cx.prove("the directory of the catalog is listed", vc_eq(l, loc))

    def at_(i):
      return Path.join(loc, SymStr(ufun("entry", I, Str)(i)))

    def keep(i):
      e = paths().entry_point_path(at_(i))
      return z3.And(dirs(term(at_(i))), files(term(e)))

    # A file is in a folder.
    dom.fact(lambda i: z3.Implies(files(term(paths().entry_point_path(
        at_(i)))), dirs(term(at_(i)))))

    def check(i, y):
      cx.prove("a dataset is listed by its name", vc_eq(y.name, SymStr(
          ufun("entry", I, Str)(i))))
      cx.prove("a dataset is listed with its location", vc_eq(
          y.location, at_(i)))
    exactly("datasets", r, dom, keep, check)


# ----------------------------------------------------------------------------
# listings of a storage
# ----------------------------------------------------------------------------
class Col(list):
  pass


class Tab:
  """What pyarrow joins and sorts; trusted."""
  vc_constant = True

  def __init__(self, cols, names, log=()):
    self.cols, self.names, self.log = cols, names, tuple(log)

  def join(self, other, keys=None, right_keys=None, join_type="left outer",
           **kw):
    return Tab(self.cols, self.names, self.log + ((
        "join", other, keys, right_keys, join_type, kw),))

  def sort_by(self, a):
    return Tab(self.cols, self.names, self.log + (("sort", a),))


def table_stub():
  return NS(
      timestamp=lambda *a, **k: ("timestamp", a, tuple(k.items())),
      int64=lambda: "int64", string=lambda: "string",
      scalar=lambda v, type=None: v, schema=lambda fs: fs,
      Table=NS(from_arrays=lambda arrays, schema=None, names=None: Tab(
          list(arrays), [f[0] for f in schema] if schema else list(names))))


@unit("C23 C01", "Storage.versions", ["core/storage.py:Storage.versions"])
def versions():
  st = open_storage(World(others=False))
  m = st._metadata
  with patched(S(), pa=table_stub(), datetime=NS(utcfromtimestamp=lambda s: s)):
    r = call(st.versions)
  cx.record("versions are listed", isinstance(r, Tab), str(r))
  if not isinstance(r, Tab):
    return
  kinds = [e[0] for e in r.log]
  cx.record("references are joined to snapshots, newest first", kinds == [
      "join", "sort"] and list(r.log[0][2]) == ["snapshot_id"] and
      r.log[0][4] == "left outer" and list(r.log[1][1]) == [
          ("create_time", "descending")], str(kinds))
  if kinds != ["join", "sort"]:
    return
  refs = r.log[0][1]
  cx.record("columns of versions are named", r.names == [
      "snapshot_id", "create_time"] and refs.names == [
          "snapshot_id", "tag_or_branch"], f"{r.names} {refs.names}")
  if len(r.cols) != 2 or len(refs.cols) != 2:
    return
  sb, rb = m.snapshots.base, m.refs.base
  for col, base, val, what in (
      (r.cols[0], sb, lambda k: wrap(k), "snapshots"),
      (r.cols[1], sb, lambda k: sb.value(k).create_time.seconds,
       "times of snapshots"),
      (refs.cols[0], rb, lambda k: rb.value(k).snapshot_id,
       "snapshots of references"),
      (refs.cols[1], rb, lambda k: wrap(k), "references")):
    core.each_of(what, VList(col), base.domain, lambda k, y, val=val: cx.prove(
        f"all {what} are listed", vc_eq(y, val(k))))
  no_effect("a listing")


@unit("C01 C12", "Storage manifests", ["core/storage.py:Storage._manifest",
                                       "core/storage.py:Storage.index_manifest",
                                       "core/storage.py:Storage.record_manifest"])
def listing():
  st = open_storage(World(others=False))
  m = st._metadata
  record = cx.choose("record")
  snap = sym_int("snapshot") if cx.choose("a version") else None
  flt = Token("filter")
  opened = []

  def read_table(p, filters=None, **kw):
    opened.append(filters)
    return p
  fn = st.record_manifest if record else st.index_manifest
  with patched(S(), pq=NS(read_table=read_table)):
    r = call(lambda: core.b_list(fn(flt, snap)))
  k = snap if snap is not None else m.current_snapshot_id
  sn = m.snapshots.peek(k)
  if sn is None:
    cx.record("an unknown version has no manifests", isinstance(r, Raised))
    return
  cx.record("manifests are listed", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  fs = (sn.manifest_files.record_manifest_files if record else
        sn.manifest_files.index_manifest_files)
  dom, item = core.one_each(fs)
  core.each_of("manifests", r, dom, lambda i, y: cx.prove(
      "all manifests of the version are read", vc_eq(y, st.full_path(item(i)))))
  cx.record("manifests are filtered", all(f is flt for f in opened))


@unit("C01 C23 C16", "Storage properties", [
    "core/storage.py:Storage." + n for n in (
        "metadata", "current_branch", "primary_keys", "record_fields",
        "logical_schema", "physical_schema", "snapshot_ids", "serializer",
        "transaction")])
def properties():
  st = open_storage(World(others=False))
  m = st._metadata
  cx.record("metadata is that of the storage", st.metadata is m)
  cx.record("the branch of a new handle is main", st.current_branch == "main")
  for what, got, fs in (("primary keys", st.primary_keys,
                         m.schema.primary_keys),
                        ("record fields", st.record_fields,
                         m.schema.record_fields)):
    dom, item = core.one_each(fs)
    core.each_of(what, VList(got), dom, lambda i, y, item=item: cx.prove(
        f"the {what} are listed in order", vc_eq(y, item(i))))
  cx.record("schemas are those of the storage", st.logical_schema is
            st._logical_schema and st.physical_schema is st._physical_schema)
  core.each_of("snapshots", VList(st.snapshot_ids), m.snapshots.base.domain,
               lambda k, y: cx.prove("all snapshots are listed", vc_eq(
                   y, wrap(k))))
  got = []
  with patched(S(), DictSerializer=NS(create=lambda s: got.append(s) or "ser")):
    r = call(st.serializer)
  cx.record("values are serialized by the schema of the user",
            r == "ser" and got == [st.logical_schema])
  t = call(st.transaction)
  cx.record("a transaction is of the storage", type(t).__name__ ==
            "Transaction" and t._storage is st, str(t))
  no_effect("a property")


@unit("C19 C08", "Storage.ray_dataset", ["core/storage.py:Storage.ray_dataset"])
def ray_dataset():
  O = sys.modules["space.core.options"]
  log = []

  class DS:
    vc_constant = True
    n = sym_int("rows")

    def count(self):
      return self.n

    def repartition(self, k, **kw):
      log.append(k)
      return self
  cx.assume(DS.n.t >= 0)
  ds = DS()
  calls = []

  def read_datasource(src, **kw):
    calls.append((src, kw))
    return ds
  ro = NS(enable_row_range_block=sym_bool("slicing"),
          max_parallelism=sym_int("parallelism"))
  opts = O.ReadOptions(Token("f"), ["a"], sym_int("snapshot"), False,
                       sym_int("batch") if cx.choose("batches") else None)
  if opts.batch_size is not None:
    cx.assume(term(opts.batch_size) > 0)
  st = open_storage(World(others=False))
  with patched(S(), ray=NS(data=NS(read_datasource=read_datasource))):
    r = call(lambda: st.ray_dataset(ro, opts))
  cx.record("a dataset of the storage is made", r is ds and len(calls) == 1,
            str(r))
  if len(calls) != 1:
    return
  src, kw = calls[0]
  cx.record("the source is that of the storage",
            type(src).__name__ == "SpaceDataSource" and kw["storage"] is st)
  cx.record("the storage is read as asked for", kw["ray_options"] is ro and
            kw["read_options"] is opts)
  for k in log:
    cx.prove("blocks are not larger than a batch", And(
        term(k) * term(opts.batch_size) >= DS.n.t,
        (term(k) - 1) * term(opts.batch_size) < DS.n.t))


# ----------------------------------------------------------------------------
# handles of views
# ----------------------------------------------------------------------------
@unit("C20 C21 C19", "handles of views", [
    "core/views.py:MaterializedView." + n for n in (
        "storage", "dataset", "view", "ray", "local", "load")] + [
            "core/views.py:View.ray", "core/views.py:View.ray_dataset",
            "core/datasets.py:Dataset.ray"])
def handles():
  v_ = V()
  st, view = Token("storage"), Token("view")
  mv = v_.MaterializedView(st, view)
  cx.record("a materialized view has its storage and view",
            mv.storage is st and mv.view is view and
            mv.dataset.storage is st)
  fo, ro = Token("fo"), Token("ro")
  log = []

  def spy(n, sig):
    return eval(f"lambda {sig}: log.append((n, [{sig}])) or n",  # pylint: disable=eval-used
                {"log": log, "n": n})
  RR = mod("runners")
  with patched(v_, LocalRunner=spy("local", "storage, file_options"),
               Storage=NS(load=spy("load", "location")),
               load_materialized_view=spy("lmv", "storage")), patched(
                   RR, RayMaterializedViewRunner=spy(
                       "rmv", "mv, ray_options, file_options"),
                   RayReadOnlyRunner=spy("rro", "view, ray_options"),
                   RayReadWriterRunner=spy(
                       "rrw", "dataset, ray_options, file_options")):
    r = [call(lambda: mv.local(fo)), call(lambda: mv.ray(ro, fo)),
         call(lambda: v_.View.ray(view, ro)),
         call(lambda: v_.MaterializedView.load(st)),
         call(lambda: D().Dataset.ray(view, ro, fo))]
  cx.record("handles are made", r == ["local", "rmv", "rro", "lmv", "rrw"],
            str(r))
  cx.record("handles are of what they are made from", [
      (n, [id(x) for x in a]) for n, a in log] == [
          ("local", [id(st), id(fo)]), ("rmv", [id(mv), id(ro), id(fo)]),
          ("rro", [id(view), id(ro)]), ("load", [id(st)]),
          ("lmv", [id(log[4][1][0]) if len(log) > 4 else 0]),
          ("rrw", [id(view), id(ro), id(fo)])], str([n for n, _ in log]))
  cx.record("the storage at the location is loaded", len(log) > 4 and
            log[4][1] == ["load"])


# ----------------------------------------------------------------------------
# runners
# ----------------------------------------------------------------------------
@unit("C01 C08", "read_all", ["core/runners.py:BaseReadOnlyRunner.read_all"])
def read_all():
  R = sys.modules["space.core.runners"]
  rows = ufun("rows", I, I)

  class Batch:

    def __init__(self, i):
      self.i = i

    @property
    def num_rows(self):
      return SymNum(rows(self.i))

    def vc_subst(self, sub):
      return Batch(sub(self.i))

    def vc_eq(self, o):
      return wrap(self.i == o.i)
  batches, dom = core.symbolic_list("batches", Batch)
  dom.fact(lambda i: rows(i) >= 0)
  calls, cat = [], []

  class Run(R.LocalRunner):

    def __init__(self):  # pylint: disable=super-init-not-called
      pass

    def read(self, filter_=None, fields=None, version=None,
             reference_read=False, batch_size=None, join_options=None):
      calls.append([filter_, fields, version, reference_read, batch_size,
                    join_options])
      return batches
  args = [Token("f"), ["a"], sym_str("v"), False, sym_int("b"), Token("j")]
  with patched(R, pa=NS(concat_tables=lambda ts: cat.append(ts) or "table")):
    r = call(lambda: Run().read_all(*args))
  cx.record("one read", len(calls) == 1)
  cx.record("what is asked for is read", len(calls) == 1 and all(a is b for a, b in zip(calls[0], args)))
  if r is None:
    cx.record("nothing is concatenated", not cat)

    @cx.case
    def _():
      i = z3.Int(cx.name("any"))
      cx.assume(dom.member(i))
      cx.prove("no result means that there are no rows",
               wrap(rows(i) == 0))
    return
  cx.record("one table is returned", r == "table" and len(cat) == 1, str(r))
  if len(cat) != 1:
    return
  exactly("rows", cat[0], dom, lambda i: rows(i) > 0, lambda i, y: cx.prove(
      "batches are concatenated in order", wrap(y.i == i)))


@unit("C13 C02", "insert and upsert", [
    "core/runners.py:BaseReadWriteRunner.insert",
    "core/runners.py:BaseReadWriteRunner.upsert",
    "core/runners.py:BaseReadWriteRunner.__init__",
    "core/runners.py:StorageMixin.__init__"])
def insert_modes():
  R = sys.modules["space.core.runners"]
  O = sys.modules["space.core.options"]
  st, data = Token("storage"), Token("data")
  fo = Token("fo") if cx.choose("file options") else None
  got = []

  class Run(R.LocalRunner):

    def _insert(self, data, mode):
      got.append((data, mode))
      return out
  out = Token("result")
  x = Run(st, fo)
  cx.record("a runner is of its storage", x._storage is st)
  cx.record("file options are those of the user", x._file_options is fo if
            fo is not None else type(x._file_options).__name__ ==
            "FileOptions")
  ups = cx.choose("upsert")
  r = call(lambda: (x.upsert if ups else x.insert)(data))
  want = O.__dict__.get("InsertOptions") or R.InsertOptions
  cx.record("the rows are inserted once, in the mode asked for", got == [
      (data, want.Mode.UPSERT if ups else want.Mode.INSERT)], str(got))
  cx.record("the result is returned", r is out)


@unit("C19 C20 C21", "Ray runner constructors", [
    "ray/runners.py:RayReadOnlyRunner.__init__",
    "ray/runners.py:RayReadOnlyRunner._source_storage",
    "ray/runners.py:RayMaterializedViewRunner.__init__",
    "ray/runners.py:RayReadWriterRunner.__init__"])
def constructors():
  RR = mod("runners")
  st, st2 = Token("storage"), Token("storage of the source")
  view = NS(sources={"l": NS(storage=st2)}, storage=st)
  mv = NS(view=view, storage=st)
  ro = Token("ro") if cx.choose("ray options") else None
  fo = Token("fo") if cx.choose("file options") else None
  kind = next((n for n in ("view", "dataset") if cx.choose(n)), "mv")
  x = call(lambda: RR.RayReadOnlyRunner(view, ro) if kind == "view" else
           RR.RayReadWriterRunner(view, ro, fo) if kind == "dataset" else
           RR.RayMaterializedViewRunner(mv, ro, fo))
  cx.record("a runner is made", not isinstance(x, Raised), str(x))
  if isinstance(x, Raised):
    return
  cx.record("a runner is of the view", x._view is view)
  cx.record("options are those of the user", x._ray_options is ro if
            ro is not None else type(x._ray_options).__name__ == "RayOptions",
            str(x._ray_options))
  cx.record("versions are those of the source", x._source_storage is st2 if
            kind != "dataset" else x._source_storage in (st, st2))
  if kind != "view":
    cx.record("a runner writes to its storage", x._storage is st)
    cx.record("file options are those of the user", x._file_options is fo if
              fo is not None else type(x._file_options).__name__ ==
              "FileOptions")
