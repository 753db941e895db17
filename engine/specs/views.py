"""Views, their plans, and how they are read: core/views.py, core/transform,
core/datasets.py"""
from __future__ import annotations

import sys

import z3

from engine import core, proto, stubs
from engine.core import (cx, VList, SymStr, SymNum, And, Or, Not, sym_str,
                         sym_int, vc_eq, term, as_bool, I, Str, wrap, ufun)
from engine.specs.manifests import RT, M
from engine.specs.rays import number, same
from engine.specs.rayruns import E
from engine.specs.runners import Token
from engine.specs.schemas import FieldOf, SchemaOf, Meta, Type
from engine.stubs import patched, NS
from engine.unit import unit, call, Raised, error_name, named


def V():
  return sys.modules["space.core.views"]


def D():
  return sys.modules["space.core.datasets"]


def tr(n):
  return sys.modules["space.core.transform." + n]


_msgs = {}


def messages():
  """The substrait messages, as contracts."""
  if not _msgs:
    import substrait.algebra_pb2 as a
    import substrait.plan_pb2 as p
    import substrait.type_pb2 as t
    import substrait.extensions.extensions_pb2 as e
    for m, names in ((a, ("Expression", "FilterRel", "FunctionArgument",
                          "ProjectRel", "Rel", "ReadRel", "RelRoot")),
                     (p, ("Plan", "PlanRel")), (t, ("Type",)),
                     (e, ("SimpleExtensionDeclaration",
                          "SimpleExtensionURI"))):
      for n in names:
        _msgs[n] = proto.msg_class(getattr(m, n).DESCRIPTOR)
  return _msgs


def has(mod_, *names):
  return {n: messages()[n] for n in names if n in vars(mod_)}


class Patched:
  """Messages and field IDs in the modules of plans."""

  def __init__(self, **kw):
    arrow = NS(field_name_to_id_dict=lambda s: {
        f.name: f.metadata.n for f in s.fields},
               field_id_to_name_dict=lambda s: core.VDict(
                   [(f.metadata.n, f.name) for f in s.fields]))
    U, P, Ds = tr("udfs"), tr("plans"), D()
    names = list(messages())
    self.ps = [patched(U, arrow=arrow, **has(U, *names), **kw.pop("udfs", {})),
               patched(P, **has(P, *names)), patched(Ds, **has(Ds, *names))]

  def __enter__(self):
    for p in self.ps:
      p.__enter__()

  def __exit__(self, *a):
    for p in reversed(self.ps):
      p.__exit__(*a)


def a_schema(k, n=2):
  """Named fields with IDs that are distinct, of any order."""
  ids = [sym_int(f"id_{k}_{i}") for i in range(n)]
  for i in range(n):
    cx.assume(ids[i].t >= 0)
    for j in range(i):
      cx.assume(ids[i].t != ids[j].t)
  return SchemaOf(VList([FieldOf(f"f{k}_{i}", Type("int64"), Meta(ids[i]))
                         for i in range(n)]))


def names_of(s):
  return [f.name for f in s.fields.concrete()]


class Store:
  """Files of user defined functions: pickles are read as they were written."""

  def __init__(self):
    self.files = []

  def dump(self, udf, p):
    cx.trace.append(stubs.Effect("dump", p, udf))
    self.files.append((p, udf))

  def load(self, p):
    for q, u in reversed(self.files):
      if bool(vc_eq(p, q)):
        return u
    raise FileNotFoundError(str(p))


def dataset(k=0):
  st = NS(location=sym_str("source"), logical_schema=a_schema(k),
          metadata=NS(schema=NS(fields=proto.msg_class(
              _named_struct())())), primary_keys=["key"],
          record_fields=[f"r{k}"])
  return D().Dataset(st)


def _named_struct():
  import substrait.type_pb2 as t
  return t.NamedStruct.DESCRIPTOR


def chain(depth):
  """A dataset with transforms: (kind, function, fields) of each."""
  U, P = tr("udfs"), tr("plans")
  v = ds = dataset()
  for k in range(1, depth + 1):
    fields = names_of(v.schema)
    fields = (fields, fields[1:], fields[::-1])[
        0 if not cx.choose(f"fields {k} selected") else
        1 if cx.choose(f"one field {k}") else 2]
    if cx.choose(f"map {k}"):
      udf = P.UserDefinedFn(Token(f"fn{k}"), a_schema(k), [f"r{k}"], None)
      v = U.MapTransform(udf, v, list(fields))
    else:
      udf = P.UserDefinedFn(Token(f"fn{k}"), v.schema, v.record_fields)
      v = U.FilterTransform(udf, v, list(fields))
  return ds, v


@unit("C20 C21", "materialize and load", [
    "core/views.py:View.materialize",
    "core/views.py:MaterializedView.create",
    "core/views.py:load_materialized_view",
    "core/views.py:MaterializedView.__init__",
    "core/transform/plans.py:LogicalPlanBuilder.__init__",
    "core/transform/plans.py:LogicalPlanBuilder.add_udf",
    "core/transform/plans.py:LogicalPlanBuilder.append_ext",
    "core/transform/plans.py:LogicalPlanBuilder.append_ext_uri",
    "core/transform/plans.py:LogicalPlanBuilder.build",
    "core/transform/plans.py:LogicalPlanBuilder.new_udf_name",
    "core/transform/plans.py:LogicalPlanBuilder.next_ext_uri_anchor",
    "core/transform/plans.py:LogicalPlanBuilder.next_function_anchor",
    "core/transform/plans.py:LogicalPlanBuilder.udfs",
    "core/transform/udfs.py:BaseUdfTransform._add_udf",
    "core/transform/udfs.py:BaseUdfTransform._arguments",
    "core/transform/udfs.py:FilterTransform.to_relation",
    "core/transform/udfs.py:FilterTransform.from_relation",
    "core/transform/udfs.py:FilterTransform.schema",
    "core/transform/udfs.py:FilterTransform.record_fields",
    "core/transform/udfs.py:MapTransform.to_relation",
    "core/transform/udfs.py:MapTransform.from_relation",
    "core/transform/udfs.py:MapTransform.schema",
    "core/transform/udfs.py:MapTransform.record_fields",
    "core/transform/udfs.py:BaseUdfTransform.primary_keys",
    "core/transform/udfs.py:BaseUdfTransform.sources",
    "core/transform/udfs.py:_CompactPlan.from_plan",
    "core/transform/udfs.py:_fn_arg", "core/transform/udfs.py:_load_udf",
    "core/transform/udfs.py:_load_view", "core/transform/udfs.py:load_view",
    "core/datasets.py:Dataset.to_relation", "core/datasets.py:Dataset.schema",
    "core/datasets.py:Dataset.sources"],
      bounded="views of up to 2 transforms over schemas of 2 fields (of any "
      "IDs)", budget=150, paths=1500)
def plans():
  U, P, v_ = tr("udfs"), tr("plans"), V()
  store = Store()
  with Patched():
    ds, view = chain(2 if cx.choose("two transforms") else 1)
    x = view
    while type(x) is U.FilterTransform:
      x = x.input_
    want = (x.udf.output_record_fields if type(x) is U.MapTransform else
            ["r0"])
    schema = (x.udf.output_schema if type(x) is U.MapTransform else
              ds.storage.logical_schema)
    made = []

    def storage_create(location, schema, keys, recs, plan=None):
      cx.trace.append(stubs.Effect("create", location))
      made.append((location, schema, keys, recs, plan))
      return NS(location=location, metadata=NS(logical_plan=plan.copy()))
    loaded = []

    def load(location):
      loaded.append(location)
      return ds
    rnd = lambda: stubs.uuid_()  # noqa
    loc = sym_str("location")
    Fn = P.UserDefinedFn
    fs = NS(create_dir=lambda p: cx.trace.append(stubs.Effect("mkdir", p)))
    with patched(v_, create_fs=lambda l: fs, Storage=NS(
        create=storage_create)), patched(P, random_id=rnd), patched(
            Fn, dump=lambda self, p: store.dump(self, p),
            load=staticmethod(store.load)), patched(
                D().Dataset, load=staticmethod(load)):
      mv = call(lambda: view.materialize(loc))
      cx.record("a view is materialized", not isinstance(mv, Raised), str(mv))
      if isinstance(mv, Raised):
        return
      cx.record("one storage is made", len(made) == 1)
      if len(made) != 1:
        return
      cx.prove("the storage is at the location", vc_eq(made[0][0], loc))
      cx.record("the storage has the schema of the view",
                made[0][1] is schema and list(made[0][2]) == ["key"])
      cx.record("the record fields are those of the view", list(
          made[0][3]) == want)
      cx.record("the view is that of the materialized view",
                mv.view is view)
      tr_ = cx.trace.concrete() if hasattr(cx.trace, "concrete") else cx.trace
      kinds = [e.kind for e in tr_]
      cx.record("functions are stored before the storage is published",
                "dump" not in kinds[kinds.index("create"):], str(kinds))
      dirs = [e.path for e in tr_[:kinds.index("dump")] if e.kind == "mkdir"
              ] if "dump" in kinds else []
      for e in tr_:
        if e.kind == "dump":
          inside(e.path, loc)
          cx.prove("the folder of functions exists", Or(*[
              vc_eq(stubs.Path.dirname(e.path), d) for d in dirs]))
      r = call(lambda: v_.load_materialized_view(mv.storage))
  cx.record("a materialized view is loaded", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.record("the storage is the one loaded", r.storage is mv.storage)
  a, b = view, r.view
  while a is not ds:
    cx.record("a transform is loaded as what it is", type(a) is type(b),
              str(type(b)))
    if type(a) is not type(b):
      return
    cx.record("a transform is loaded with its function", b.udf is a.udf)
    fb = VList(b.input_fields)
    cs = fb.concrete()
    cx.record("a transform is loaded with as many fields", cs is not None and
              len(cs) == len(a.input_fields))
    if cs is None or len(cs) != len(a.input_fields):
      return
    for x, y in zip(a.input_fields, cs):
      cx.prove("a transform is loaded with its fields, in order", vc_eq(x, y))
    a, b = a.input_, b.input_
  cx.record("the source is loaded", b is ds and len(loaded) == 1)
  for p in loaded:
    cx.prove("the source is that of the view", vc_eq(p, ds.storage.location))


def inside(p, loc):
  ps = stubs.parts(term(p))
  cx.prove("functions are stored inside of the location", vc_eq(
      wrap(ps[0]), loc))
  cx.record("functions have their own files", bool(stubs.uuids_in(p)), str(p))


@unit("C20", "UserDefinedFn files", ["core/transform/plans.py:UserDefinedFn.load",
                                     "core/transform/plans.py:UserDefinedFn.dump"])
def udf_files():
  P = tr("plans")
  opened = []

  class File:
    vc_constant = True

    def __init__(self, p, m):
      self.p, self.m, self.closed = p, m, False
      opened.append(self)

    def __enter__(self):
      return self

    def __exit__(self, *a):
      self.closed = True

    def close(self):
      self.closed = True
  dumps, loads = [], []
  obj = Token("what is in the file")

  def load(f):
    loads.append((f, f.closed))
    return obj
  pickle = NS(dump=lambda o, f: dumps.append((o, f, f.closed)), load=load)
  p = sym_str("path")
  udf = P.UserDefinedFn(Token("fn"), Token("schema"), [], None)
  with patched(P, open=lambda file, mode="r": File(file, mode), cloudpickle=pickle):
    if cx.choose("dump"):
      r = call(lambda: udf.dump(p))
      ok = (not isinstance(r, Raised) and len(dumps) == 1 and len(opened) == 1
            and dumps[0][0] is udf and dumps[0][1] is opened[0] and
            opened[0].m == "wb" and opened[0].closed and not dumps[0][2])
      cx.record("a function is written to a new file, which is closed", ok,
                str(r))
    else:
      r = call(lambda: P.UserDefinedFn.load(p))
      ok = (r is obj and len(opened) == 1 and loads == [(opened[0], False)] and
            opened[0].m == "rb")
      cx.record("a function is what its file has", ok, str(r))
  for f in opened:
    cx.prove("the file is the one asked for", vc_eq(f.p, p))


# ----------------------------------------------------------------------------
# making views
# ----------------------------------------------------------------------------
class View_(NS):
  pass


def a_view(primary_keys, fields, recs=()):
  """A view by contract: real methods of View over these properties."""
  v = V()

  class X(v.View):
    primary_keys = ()
    schema = SchemaOf(VList([FieldOf(n, Type("int64"), Meta(sym_int(
        "id_" + n))) for n in fields]))
    record_fields = list(recs)
    sources = {}

    def to_relation(self, b):
      raise core.Unsupported("to_relation")

    def process_source(self, d):
      raise core.Unsupported("process_source")

    def _ray_dataset(self, *a):
      raise core.Unsupported("_ray_dataset")
  X.primary_keys = list(primary_keys)
  return X()


def some_fields(name, keys):
  """(fields asked for, whether they are allowed)"""
  for x in (None, ["key"], ["b", "key"], ["b"], ["key", "nofield"],
            ["key", "b", "nofield"], ["key", "a", "b"]):
    if cx.choose(f"{name}: {x}"):
      return x, x is None or (set(keys) <= set(x) and "nofield" not in x)
  return [], False


def check_fields(given, got, v):
  want = ["key", "a", "b"] if given is None else given
  cx.record("the input fields are those asked for, or all", list(
      core.b_list(got)) == want, str(got))


@unit("C20 C21 C22", "View.map_batches and filter", [
    "core/views.py:View.map_batches", "core/views.py:View.filter",
    "core/views.py:View._default_or_validate_input_fields",
    "core/transform/plans.py:UserDefinedFn"])
def make():
  v_, U = V(), tr("udfs")
  keys = ["key", "b"] if cx.choose("two keys") else ["key"]
  v = a_view(keys, ["key", "a", "b"], ["a"])
  given, allowed = some_fields("fields", keys)
  fn = Token("fn")
  if cx.choose("filter"):
    r = call(lambda: v.filter(fn, given))
    kind = U.FilterTransform
    out, recs, bs = v.schema, v.record_fields, None
  else:
    out = Token("output with IDs")
    asked, checked = [], []

    class Mgr:

      def __init__(self, next_field_id=0):
        self.n = next_field_id

      def assign_field_ids(self, s):
        asked.append((s, self.n))
        return out

    def validate(s, keys, rs):
      checked.append((s, list(keys), list(rs)))
    bs = sym_int("batch_size") if cx.choose("batch size") else None
    recs = ["r"] if cx.choose("record fields") else None
    schema = Token("output")
    with patched(v_, FieldIdManager=Mgr, validate_logical_schema=validate):
      r = call(lambda: v.map_batches(fn, schema, given, recs, bs))
    kind = U.MapTransform
    recs = recs or []
  if not allowed:
    cx.record("fields that are not of the view are an error of the user",
              error_name(r) == "UserInputError", str(r))
    return
  cx.record("a view is made", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  if kind is U.MapTransform:
    cx.record("the output schema gets field IDs", asked == [(schema, 0)])
    cx.record("the output schema is checked", checked == [(out, keys, recs)])
  cx.record("the view is of its kind", type(r) is kind)
  cx.record("the input is the view", r.input_ is v)
  check_fields(given, r.input_fields, v)
  cx.record("the function is that of the user", r.udf.fn is fn)
  cx.record("the output is described", r.udf.output_schema is out and list(
      r.udf.output_record_fields) == list(recs))
  cx.record("the batch size is that of the user", r.udf.batch_size is bs)


@unit("C22", "View.join", ["core/views.py:View.join"], paths=1000)
def make_join():
  v_ = V()
  both = {}
  for s in ("left", "right"):
    both[s] = a_view(["key"] if cx.choose(s + " has the key") else ["other"],
                     ["key", "a", "b"])
  fields = {}
  for s in both:
    fields[s] = next((f for f in (None, ["a"], ["b", "key"], ["key"])
                      if cx.choose(f"{s}: {f}")), [])
  keys = ["key"] if cx.choose("one key") else ["key", "a"]
  refs = [bool(cx.choose(f"{s} by reference")) for s in both]
  asked = {s: None if f is None else list(f) for s, f in fields.items()}
  made = []

  def transform(join_keys, left, right):
    made.append((join_keys, left, right))
    return "join"
  J = sys.modules["space.ray.ops.join"]
  with patched(tr("join"), JoinTransform=transform):
    r = call(lambda: both["left"].join(both["right"], keys, fields["left"],
                                       fields["right"], *refs))
  ok = (len(keys) == 1 and all("key" in v.primary_keys
                               for v in both.values()) and all(
                                   f is None or f not in ([], ["key"])
                                   for f in asked.values()))
  if not ok:
    cx.record("a join without a meaning is an error of the user",
              error_name(r) == "UserInputError", str(r))
    return
  cx.record("views are joined", r == "join" and len(made) == 1, str(r))
  if len(made) != 1:
    return
  k, a, b = made[0]
  cx.record("the join is by the key", list(k) == ["key"])
  for x, s, ref in ((a, "left", refs[0]), (b, "right", refs[1])):
    cx.record("a side is the view", x.view is both[s])
    cx.record("a side is read by reference if asked for",
              x.reference_read is ref)
    want = asked[s]
    if want is None:
      cx.record("all fields are read if none are selected", x.fields is None)
    else:
      cx.record("the fields selected and the key are read", set(
          x.fields) == set(want) | {"key"} and [
              f for f in x.fields if f in want] == want, str(x.fields))


# ----------------------------------------------------------------------------
# reading views
# ----------------------------------------------------------------------------
class Rows:
  """A Ray dataset, by how it is made."""
  vc_constant = True

  def __init__(self, *how):
    self.how = how

  def select_columns(self, cols):
    return Rows("select", self, list(core.b_list(cols)))

  def map_batches(self, fn, batch_size=1024, **kw):
    if kw:
      raise core.Unsupported("options of map_batches")
    return Rows("map", self, fn, batch_size)

  def filter(self, fn):
    return Rows("filter", self, fn)


@unit("C20 C21 C22 C19", "reading views", [
    "core/transform/udfs.py:BaseUdfTransform._ray_dataset",
    "core/transform/udfs.py:BaseUdfTransform.process_source",
    "core/transform/udfs.py:MapTransform._transform",
    "core/transform/udfs.py:FilterTransform._transform",
    "core/transform/utils.py:ray_dataset",
    "core/datasets.py:Dataset._ray_dataset",
    "core/datasets.py:Dataset.process_source",
    "core/views.py:View.ray_dataset"],
      bounded="views of up to 2 transforms over schemas of 2 fields",
      paths=1500)
def read_views():
  U, P, O = tr("udfs"), tr("plans"), sys.modules["space.core.options"]
  ds, view = chain(2 if cx.choose("two transforms") else 1)
  a = view
  while a is not ds:
    if type(a) is U.MapTransform and cx.choose("batch size"):
      a.udf.batch_size = sym_int("batch_size")
    a = a.input_
  reads = []

  def storage_read(ro, opts):
    reads.append((ro, O.ReadOptions(opts.filter_, opts.fields,
                                    opts.snapshot_id, opts.reference_read,
                                    opts.batch_size)))
    return Rows("source")
  ds.storage.__dict__["ray_dataset"] = storage_read
  source = cx.choose("changes are processed")
  ro = Token("ray options")
  filter_, snap = Token("filter"), sym_int("snapshot")
  bad = not source and cx.choose("fields are selected")
  if source:
    r = call(lambda: view.process_source(Rows("source")))
  else:
    r = call(lambda: view.ray_dataset(ro, O.ReadOptions(
        filter_, ["f0_0"] if bad else None, snap, False, 5)))
  if bad:
    cx.record("options without a meaning are an error of the user",
              error_name(r) == "UserInputError", str(r))
    return
  cx.record("a view is read", not isinstance(r, Raised) and isinstance(
      r, Rows), str(r))
  if not isinstance(r, Rows):
    return
  if not source:
    cx.record("the source is read once", len(reads) == 1)
    for o, p in reads:
      cx.record("the source is read as asked for", o is ro and
                p.filter_ is filter_ and p.snapshot_id is snap and
                p.batch_size == 5)
  x, a = r, view
  while a is not ds:
    if type(a) is U.MapTransform:
      ok = x.how[0] == "map" and x.how[2] is a.udf.fn and (
          x.how[3] is a.udf.batch_size if a.udf.batch_size is not None
          else x.how[3] == "default")
    else:
      ok = x.how[0] == "filter" and x.how[2] is a.udf.fn
    cx.record("the function of each transform is applied, in order", ok,
              str(x.how))
    if not ok:
      return
    x = x.how[1]
    # The input has the fields of the transform.
    want = list(a.input_fields)
    if x.how[0] == "select":
      cx.record("the function gets its fields", x.how[2] == want, str(x.how))
      x = x.how[1]
    elif a.input_ is ds and not source:
      cx.record("the fields of the function are read", reads and list(
          reads[0][1].fields or []) == want, str(reads and
                                                 reads[0][1].fields))
    else:
      cx.record("the function gets its fields", False, str(x.how))
    a = a.input_
  cx.record("the source is that of the view", x.how == ("source",), str(x.how))


# ----------------------------------------------------------------------------
# datasets
# ----------------------------------------------------------------------------
class Listed:
  """An index file."""

  def __init__(self, i):
    self.i = i

  @property
  def path(self):
    return SymStr(ufun("file.path", I, Str)(self.i))

  def vc_subst(self, sub):
    return Listed(sub(self.i))


@unit("C01 C23 C16 C13", "Dataset", [
    "core/datasets.py:Dataset." + n for n in (
        "__init__", "create", "load", "primary_keys", "record_fields",
        "add_tag", "remove_tag", "add_branch", "remove_branch",
        "set_current_branch", "local", "index_files", "versions", "storage",
        "schema")])
def dataset_api():
  Ds = D()
  log = []
  Storage = sys.modules["space.core.storage"].Storage

  def rec(n, out=None):
    def f(*a, **k):
      log.append((n, named(getattr(Storage, n), a, k, method=True)))
      if n == which and cx.choose("the storage raises"):
        raise E().UserInputError("storage")
      return out
    return f
  files, dom = core.symbolic_list("files", Listed)
  outs = {"versions": Token("versions"), "data_files": NS(index_files=files),
          "version_to_snapshot_id": sym_int("snapshot")}
  which = None
  names = ["add_tag", "remove_tag", "add_branch", "remove_branch",
           "set_current_branch", "versions", "index_files", "create", "load",
           "local", "properties"]
  op = next((n for n in names[:-1] if cx.choose(n)), names[-1])
  which = op
  st = NS(logical_schema=Token("schema"), primary_keys=Token("keys"),
          record_fields=Token("records"),
          full_path=lambda p: SymStr(ufun("full", Str, Str)(term(p))),
          **{n: rec(n, outs.get(n)) for n in names[:6] + [
              "data_files", "version_to_snapshot_id"]})
  ds = Ds.Dataset(st)
  arg = sym_str("name")
  if op in ("add_tag", "remove_tag", "add_branch", "remove_branch",
            "set_current_branch"):
    args = [arg]
    if op == "add_tag" and cx.choose("at a version"):
      args.append(sym_int("version"))
    r = call(lambda: getattr(ds, op)(*args))
    want = args + ([None] if op == "add_tag" and len(args) == 1 else [])
    cx.record(f"{op} is done by the storage, once", len(log) == 1 and
              log[0][0] == op, str(log))
    if len(log) == 1:
      got = list(log[0][1].values())
      cx.record(f"{op} is done with what is given", len(got) == len(
          want) and all(a is b for a, b in zip(got, want)), str(got))
    if isinstance(r, Raised):
      cx.record("errors of the storage are raised",
                error_name(r) == "UserInputError")
    return
  if op == "versions":
    r = call(ds.versions)
    cx.record("versions are those of the storage", isinstance(
        r, Raised) or r is outs["versions"])
    return
  if op == "index_files":
    v = None
    if cx.choose("version"):
      v = sym_int("version")
    r = call(lambda: ds.index_files(v))
    cx.record("index files are listed", not isinstance(r, Raised), str(r))
    if isinstance(r, Raised):
      return
    calls = [e for e in log if e[0] == "data_files"]
    cx.record("the files are those of one version", len(calls) == 1 and
              calls[0][1]["filter_"] is None)
    if len(calls) == 1:
      s = calls[0][1]["snapshot_id"]
      cx.record("the version is the one asked for", s is None if v is None else
                s is outs["version_to_snapshot_id"])
    if v is not None:
      cv = [e for e in log if e[0] == "version_to_snapshot_id"]
      cx.record("the version is looked up", len(cv) == 1 and
                cv[0][1]["version"] is v)
    core.each_of("index files", VList(r), dom, lambda i, y: cx.prove(
        "full paths are listed", vc_eq(y, SymStr(ufun("full", Str, Str)(
            ufun("file.path", I, Str)(i))))))
    return
  if op in ("create", "load"):
    made = []

    def f(location, schema=None, primary_keys=None, record_fields=None,
          logical_plan=None):
      made.append([location, schema, primary_keys, record_fields][
          :4 if op == "create" else 1])
      return st
    with patched(Ds, Storage=NS(create=f, load=f)):
      args = [arg] + ([Token("s"), ["k"], ["r"]] if op == "create" else [])
      r = call(lambda: getattr(Ds.Dataset, op)(*args))
    cx.record(f"{op} is done by the storage", not isinstance(r, Raised) and
              len(made) == 1 and type(r) is Ds.Dataset and r.storage is st,
              str(r))
    if len(made) == 1:
      got = made[0]
      cx.record(f"{op} is done with what is given", len(got) == len(
          args) and all(a is b for a, b in zip(got, args)), str(got))
    return
  if op == "local":
    made = []
    fo = Token("file options") if cx.choose("options") else None
    with patched(Ds, LocalRunner=lambda s, f=None: made.append((s, f)) or
                 "runner"):
      r = call(lambda: ds.local(fo))
    cx.record("a runner of the storage is made", r == "runner" and made == [
        (st, fo)])
    return
  cx.record("properties are those of the storage",
            ds.schema is st.logical_schema and
            ds.primary_keys is st.primary_keys and
            ds.record_fields is st.record_fields and ds.storage is st)
