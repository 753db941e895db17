"""Small functions the larger units rely on: extension types, field metadata,
the columns of manifest statistics, the entry points of operations."""
from __future__ import annotations

import sys

import z3

from engine import core, proto
from engine.core import (cx, VList, And, Or, Not, sym_str, sym_int, vc_eq,
                         term, wrap, ufun, I)
from engine.specs.runners import Token, Spy, E
from engine.stubs import patched, NS, trusted
from engine.unit import unit, call, Raised, error_name, named


def mod(n):
  __import__("space." + n)
  return sys.modules["space." + n]


trusted("json", "json.loads inverts json.dumps; json_format.Parse into an "
        "empty message inverts json_format.MessageToJson")
trusted("tensorflow_datasets", "FeaturesDict.from_json inverts to_json; "
        "as_numpy of deserialize_example inverts serialize_example")


class Texts:
  """Opaque text: each value is one string of its own, which only the reader
  of the same format turns back into the value."""

  def __init__(self, kind):
    self.kind, self.values = kind, {}

  def dump(self, v, *a, **k):
    if a or k:
      raise core.Unsupported(f"{self.kind} with options")
    s = f"\u00e9 {self.kind} {len(self.values)}"
    self.values[s] = v
    return s

  def load(self, s, *a, **k):
    if isinstance(s, (bytes, bytearray)):
      s = bytes(s).decode("utf-8")
    if s not in self.values:
      raise core.Unsupported(f"{self.kind} of another text")
    return self.values[s]


class Ext:
  """pa.ExtensionType: records how it is made."""

  def __init__(self):
    self.made = []

  def init(self, me, storage, name):
    self.made.append((me, storage, name))


def ext_pa():
  e = Ext()
  return e, NS(ExtensionType=NS(__init__=e.init), binary=lambda: "binary",
               string=lambda: "string")


@unit("C13 C17", "TfFeatures",
      ["core/schema/types/tf_features.py:TfFeatures.__init__",
       "core/schema/types/tf_features.py:TfFeatures.__arrow_ext_serialize__",
       "core/schema/types/tf_features.py:TfFeatures.__arrow_ext_deserialize__",
       "core/schema/types/tf_features.py:TfFeatures.serialize",
       "core/schema/types/tf_features.py:TfFeatures.deserialize"])
def tf_features():
  T = mod("core.schema.types.tf_features")
  js = Texts("json")
  fj = Texts("features")
  log = []
  enc, dec = ufun("tf_enc", I, I), ufun("tf_dec", I, I)

  class Feat:
    vc_constant = True

    def __init__(self, key):
      self.key = key

    def to_json(self):
      return {"features": fj.dump(self.key)}

    def serialize_example(self, v):
      log.append(self)
      return wrap(enc(term(v)))

    def deserialize_example(self, b):
      log.append(self)
      return NS(tensor=b)

    @staticmethod
    def from_json(d):
      return Feat(fj.load(d["features"]))

  def as_numpy(x):
    t = term(x.tensor)
    if z3.is_app(t) and t.decl().eq(enc):
      return wrap(t.arg(0))
    return wrap(dec(t))
  e, pa = ext_pa()
  key = Token("features")
  fd = Feat(key)
  v, b = sym_int("value"), sym_int("bytes")
  with patched(T, pa=pa, json=NS(dumps=js.dump, loads=js.load),
               f=NS(FeaturesDict=Feat), tfds=NS(as_numpy=as_numpy)):
    t = call(lambda: T.TfFeatures(fd))
    cx.record("the type is made", not isinstance(t, Raised), error_name(t))
    if isinstance(t, Raised):
      return
    cx.record("it is an extension of binary, by its name", [
        x[1:] for x in e.made] == [("binary", "space.tf_features")],
        str([x[1:] for x in e.made]))
    s = call(t.__arrow_ext_serialize__)
    cx.record("the type is written as bytes", isinstance(s, bytes), str(s))
    if not isinstance(s, bytes):
      return
    if cx.choose("given as text"):
      s = s.decode("utf-8")
    u = call(lambda: T.TfFeatures.__arrow_ext_deserialize__("binary", s))
    cx.record("the type is read back", not isinstance(u, Raised) and
              type(u) is T.TfFeatures, error_name(u))
    if type(u) is not T.TfFeatures:
      return
    # Values written with the type are read with the type read back.
    w = call(lambda: t.serialize(v))
    r = call(lambda: u.deserialize(w))
    ok = not isinstance(w, Raised) and not isinstance(r, Raised)
    cx.record("values are written and read", ok, f"{w} {r}")
    if ok:
      cx.prove("a value is written by the features", term(w) == enc(v.t))
      cx.prove("a value is read as it was written", term(r) == v.t)
      cx.record("by the features of the type", len(log) == 2 and
                log[0] is fd and log[1].key is key)
    r = call(lambda: u.deserialize(b))
    cx.record("any bytes are read", not isinstance(r, Raised), str(r))
    if not isinstance(r, Raised):
      cx.prove("bytes are read by the features", term(r) == dec(b.t))


@unit("C13", "File type",
      ["core/schema/types/files.py:File.__init__",
       "core/schema/types/files.py:File.__arrow_ext_serialize__",
       "core/schema/types/files.py:File.__arrow_ext_deserialize__",
       "core/schema/types/files.py:File.full_path"])
def file_type():
  F = mod("core.schema.types.files")
  js, ms = Texts("json"), Texts("message")
  e, pa = ext_pa()
  d, p = sym_str("directory"), sym_str("path")

  def parse(text, msg):
    v = ms.load(text)
    if type(v) is not type(msg):
      raise core.Unsupported("a message of another type")
    msg.CopyFrom(v)
    return msg

  def dump(msg):
    c = type(msg)()
    c.CopyFrom(msg)
    return ms.dump(c)
  with patched(F, pa=pa, json=NS(dumps=js.dump, loads=js.load),
               json_format=NS(MessageToJson=dump, Parse=parse)):
    t = call(lambda: F.File(d) if cx.choose("positional")
             else F.File(directory=d))
    cx.record("the type is made", not isinstance(t, Raised), error_name(t))
    if isinstance(t, Raised):
      return
    cx.record("it is an extension of string, by its name", [
        x[1:] for x in e.made] == [("string", "space.file")], str([x[1:] for x in e.made]))
    s = call(t.__arrow_ext_serialize__)
    cx.record("the type is written as bytes", isinstance(s, bytes), str(s))
    if not isinstance(s, bytes):
      return
    if cx.choose("given as text"):
      s = s.decode("utf-8")
    u = call(lambda: F.File.__arrow_ext_deserialize__("string", s))
    cx.record("the type is read back", not isinstance(u, Raised) and
              type(u) is F.File, error_name(u))
    if type(u) is not F.File:
      return
    a, b = call(lambda: t.full_path(p)), call(lambda: u.full_path(p))
    ok = not isinstance(a, Raised) and not isinstance(b, Raised)
    cx.record("paths are made", ok, f"{a} {b}")
    P = sys.modules["space.core.utils.paths"].path
    if ok:
      cx.prove("a path is in the directory of the type",
               vc_eq(a, P.join(d, p)))
      cx.prove("the directory is kept", vc_eq(a, b))
    n = call(lambda: F.File())
    if isinstance(n, Raised):
      cx.record("no directory is needed", False, str(n))
    else:
      q = call(lambda: n.full_path(p))
      cx.record("without a directory there are paths",
                not isinstance(q, Raised), error_name(q))
      if not isinstance(q, Raised):
        cx.prove("without a directory a path is itself",
                 vc_eq(q, P.join("", p)))


@unit("C13 C09", "field metadata",
      ["core/schema/arrow.py:field_metadata", "core/schema/arrow.py:field_id"])
def metadata_of_fields():
  A = mod("core.schema.arrow")
  i = sym_int("field id")
  cx.assume(i.t >= 0)
  m = call(lambda: A.field_metadata(i))
  cx.record("a field ID is written", not isinstance(m, Raised), str(m))
  if isinstance(m, Raised):
    return
  r = call(lambda: A.field_id(NS(name="f", metadata=m)))
  cx.record("a field ID is read", not isinstance(r, Raised), str(r))
  if not isinstance(r, Raised):
    cx.prove("a field ID is read as it was written", vc_eq(r, i))
  for md in (None, {}, {b"other": b"1"}):
    r = call(lambda: A.field_id(NS(name="f", metadata=md)))
    cx.record("a field without an ID has the null ID",
              r == mod("core.schema.arrow").NULL_FIELD_ID, str(r))
  keys = list(m.keys()) if hasattr(m, "keys") else []
  cx.record("under the key Parquet uses", keys == [b"PARQUET:field_id"],
            str(keys))


@unit("C09 C08", "_FieldStats.to_arrow",
      ["core/manifests/index.py:_FieldStats.to_arrow",
       "core/manifests/index.py:_FieldStats.finish",
       "core/manifests/index.py:_FieldStats.__init__"])
def stats_arrays():
  N = mod("core.manifests.index")
  ty = Token("type")
  made = []

  class Array:
    vc_constant = True

    def __init__(self, values, type_):
      self.values, self.type = values, type_

  class Struct:
    vc_constant = True

    def __init__(self, arrays, names, fields):
      self.arrays, self.names, self.fields = arrays, names, fields

  def array(values, type=None, **k):  # pylint: disable=redefined-builtin
    if k:
      raise core.Unsupported(f"pa.array({k})")
    return Array(values, type)

  def from_arrays(arrays, names=None, fields=None, **k):
    if k:
      raise core.Unsupported(f"StructArray.from_arrays({k})")
    return Struct(core.VList(arrays).concrete(), names, fields)
  pa = NS(array=array, StructArray=NS(from_arrays=from_arrays),
          field=lambda n, t, *a, **k: NS(name=n, type=t, nullable=True),
          struct=lambda fs: NS(fields=fs))
  lo, dlo = core.symbolic_list("mins", lambda k: wrap(
      ufun("file_min", I, I)(k)))
  hi, dhi = core.symbolic_list("maxs", lambda k: wrap(
      ufun("file_max", I, I)(k)), n=dlo.n)
  with patched(N, pa=pa):
    s = call(lambda: N._FieldStats(ty))
    if isinstance(s, Raised):
      cx.record("statistics are made", False, str(s))
      return
    if not (hasattr(s, "_min_list") and hasattr(s, "_max_list")):
      raise core.Unsupported("where the statistics of files are kept")
    s._min_list, s._max_list = lo, hi
    r = call(s.to_arrow)
  cx.record("statistics are written", isinstance(r, Struct), str(r))
  if not isinstance(r, Struct):
    return
  fs = r.fields if r.fields is not None else [
      NS(name=n, type=ty) for n in r.names]
  fs = core.VList(fs).concrete()
  cx.record("one column of minimums and one of maximums",
            [f.name for f in fs] == ["_MIN", "_MAX"] and
            len(r.arrays) == 2, str([f.name for f in fs]))
  cx.record("of the type of the field", all(f.type is ty for f in fs) and all(
      a.type is ty or a.type is None for a in r.arrays))
  if len(r.arrays) != 2:
    return
  for what, a, fn, dom in (("minimums", r.arrays[0], "file_min", dlo),
                           ("maximums", r.arrays[1], "file_max", dhi)):
    core.each_of(f"the {what} of the files", VList(a.values), dom,
                 lambda k, y, fn=fn, what=what: cx.prove(
                     f"each row of the {what} is that of its file",
                     term(y) == ufun(fn, I, I)(k)))


class Pa:
  """pyarrow for the entry points that take tables or dicts."""

  def __init__(self):
    self.made = []

    class Table(Token):
      pass
    me = self

    def from_pydict(d, *a, **k):
      if a or k:
        raise core.Unsupported("pa.Table.from_pydict with a schema")
      t = Table("made of the dict")
      t.num_rows = sym_int("rows")
      t.of = d
      me.made.append(t)
      return t
    Table.from_pydict = staticmethod(from_pydict)
    Table.from_pylist = None
    self.Table = Table
    self.ns = NS(Table=Table)

  def table(self):
    t = self.Table("table")
    t.num_rows = sym_int("rows")
    t.of = t
    return t


def _input(pa):
  if cx.choose("a table"):
    return pa.table()
  return {"f": VList([1, 2])}


def _is_data(data, x):
  return x is data or getattr(x, "of", None) is data


@unit("C07 C05", "LocalInsertOp.write",
      ["core/ops/insert.py:LocalInsertOp.write"])
def insert_write():
  N = mod("core.ops.insert")
  pa = Pa()
  data = _input(pa)
  patch = Token("patch") if cx.choose("there is a patch") else None
  got = []

  def wa(d):
    got.append(d)
    return patch
  op = object.__new__(N.LocalInsertOp)
  op._write_arrow = wa
  with patched(N, pa=pa.ns):
    r = call(lambda: op.write(data))
  cx.record("the data given is inserted, once", len(got) == 1 and
            _is_data(data, got[0]), str(got))
  cx.record("the result is the patch of the insert", r is patch, str(r))


@unit("C05 C19", "_AppendActor.write",
      ["ray/ops/append.py:_AppendActor.write",
       "ray/ops/append.py:_AppendActor.finish"])
def actor_write():
  N = mod("ray.ops.append")
  log = []
  data = Token("data")
  patch = Token("patch")
  spy = Spy(N.LocalAppendOp, log, {"write": None, "finish": patch})
  loc, md, fo = sym_str("location"), Token("metadata"), Token("options")
  with patched(N, LocalAppendOp=spy):
    A = N._AppendActor
    a = getattr(A, "vc_class", None) or getattr(A, "cls", None)
    if a is None:
      raise core.Unsupported("the class of the actor")
    act = call(lambda: a(loc, md, fo))
    cx.record("an actor is made", not isinstance(act, Raised), str(act))
    if isinstance(act, Raised):
      return
    r = call(lambda: act.write(data))
    cx.record("an actor writes", not isinstance(r, Raised), str(r))
    p = call(act.finish)
  ops = [e[1] for e in log if e[0] == "new"]
  cx.record("one operation appends", len(ops) == 1)
  if len(ops) == 1:
    cx.record("the data given is appended once, then finished",
              [c[0] for c in ops[0].calls] == ["write", "finish"] and
              ops[0].calls[0][1][0] is data, str(ops[0].calls))
    cx.prove("at the location", vc_eq(ops[0].args["location"], loc))
    cx.record("with the metadata and the options",
              ops[0].args["metadata"] is md and
              ops[0].args["file_options"] is fo)
  cx.record("the patch is that of the operation", p is patch, str(p))


@unit("C07 C19", "RayInsertOp.__init__",
      ["ray/ops/insert.py:RayInsertOp.__init__",
       "core/ops/insert.py:LocalInsertOp.__init__"])
def ray_insert_init():
  N = mod("ray.ops.insert")
  O = mod("core.ops.insert")
  st = NS(location=sym_str("location"), metadata=Token("metadata"))
  ro, fo = Token("ray options"), Token("file options")
  opt = O.InsertOptions(mode=O.InsertOptions.Mode.UPSERT)
  op = call(lambda: N.RayInsertOp(st, opt, ro, fo))
  cx.record("the operation is made", not isinstance(op, Raised), str(op))
  if isinstance(op, Raised):
    return
  log = []
  loc = st.location
  dop = Spy(O.FileSetDeleteOp, log, {"delete": None})
  aop = Spy(N.RayAppendOp, log, {"write": None, "finish": None})
  with patched(O, FileSetDeleteOp=dop), patched(N, RayAppendOp=aop):
    f, files, d = Token("filter"), Token("files"), Token("data")
    ps = VList([])
    r = call(lambda: (op._delete(f, files, ps), op._append(d, ps)))
  cx.record("it deletes and appends", not isinstance(r, Raised), str(r))
  for o in [e[1] for e in log if e[0] == "new"]:
    cx.prove("at the location of the storage", vc_eq(o.args["location"], loc))
    cx.record("with the metadata and options given",
              o.args["metadata"] is st.metadata and
              o.args["file_options"] is fo and
              o.args.get("ray_options", ro) is ro)


@unit("C20 C21 C22", "sources of datasets and transforms",
      ["core/datasets.py:Dataset.sources",
       "core/transform/udfs.py:BaseUdfTransform.sources"])
def sources():
  D = mod("core.datasets")
  U = mod("core.transform.udfs")
  ds = object.__new__(D.Dataset)
  loc = sym_str("location")
  ds._storage = NS(location=loc)
  r = call(lambda: ds.sources)
  cx.record("a dataset has sources", not isinstance(r, Raised), str(r))
  if not isinstance(r, Raised):
    its = list(r.items())
    cx.record("one source", len(its) == 1)
    if len(its) == 1:
      cx.prove("by its location", vc_eq(its[0][0], loc))
      cx.record("a dataset is its own source", its[0][1] is ds)
  src = {"l": Token("dataset")}
  for cls in (U.FilterTransform, U.MapTransform):
    t = object.__new__(cls)
    t.input_ = NS(sources=src)
    r = call(lambda: t.sources)
    cx.record("the sources of a transform are those of its input",
              r is src or (isinstance(r, dict) and r == src), str(r))


@unit("C20 C22", "JoinTransform not supported",
      ["core/transform/join.py:JoinTransform.process_source",
       "core/transform/join.py:JoinTransform.to_relation"])
def join_unsupported():
  J = mod("core.transform.join")
  t = object.__new__(J.JoinTransform)
  t.left = t.right = NS(view=Token("view"))
  t.join_keys = ["a"]
  # A join of the changes of one side only would not be the join of the view.
  r = call(lambda: t.process_source(Token("changes")))
  cx.record("changes of a join are refused", isinstance(r, Raised), str(r))
  r = call(lambda: t.to_relation(Token("builder")))
  cx.record("a join is not materialized", isinstance(r, Raised), str(r))


@unit("C14", "RandomAccessDataSource elements",
      ["core/random_access.py:RandomAccessDataSource.__len__",
       "core/random_access.py:RandomAccessDataSource.__getitem__",
       "core/random_access.py:RandomAccessDataSource.__getitems__",
       "core/random_access.py:RandomAccessDataSource.__iter__"])
def delegation():
  R = mod("core.random_access")
  n = z3.Int("elements")
  cx.assume(n >= 0)
  at = ufun("element_at", I, I)

  class Source:
    vc_constant = True

    def vc_len(self):
      return wrap(n)

    __len__ = vc_len

    def vc_iter(self):
      return core.b_list(core.b_map(lambda k: wrap(at(term(k))),
                                    core.b_range(wrap(n))))

    __iter__ = vc_iter

    def __getitem__(self, i):
      if isinstance(i, (list, VList)):
        return self.__getitems__(i)
      return wrap(at(term(i)))

    def __getitems__(self, ix):
      return core.b_list(core.b_map(lambda k: wrap(at(term(k))), ix))
  s = object.__new__(R.RandomAccessDataSource)
  s._data_source = Source()
  ln = call(lambda: core.b_len(s))
  cx.record("the elements are counted", not isinstance(ln, Raised), str(ln))
  if not isinstance(ln, Raised):
    cx.prove("as many elements as the data source has", term(ln) == n)
  i = sym_int("index")
  cx.assume(z3.And(i.t >= 0, i.t < n))
  one = call(lambda: s[i])
  cx.record("an element is read", not isinstance(one, Raised), str(one))
  if not isinstance(one, Raised):
    cx.prove("an element is that of its position", term(one) == at(i.t))
  many, dom = core.symbolic_list("indexes", lambda g: wrap(
      ufun("index_at", I, I)(g)))
  r = call(lambda: s.__getitems__(many))
  cx.record("elements are read by positions", not isinstance(r, Raised),
            str(r))
  if not isinstance(r, Raised):
    core.each_of("elements by positions", r, dom, lambda k, y: cx.prove(
        "each is that of its position",
        term(y) == at(ufun("index_at", I, I)(k))))


@unit("C04 C16", "file system of a path",
      ["core/fs/factory.py:create_fs", "core/fs/arrow.py:ArrowFileSystem."
       "create_dir", "core/fs/arrow.py:ArrowLocalFileSystem.create_fs"])
def fs_of():
  F = mod("core.fs.arrow")
  C = mod("core.fs.factory")
  made, dirs = [], []

  class Local:
    vc_constant = True

    def create_dir(self, p, recursive=True):
      dirs.append((p, recursive))

  def local(*a, **k):
    made.append(Local())
    return made[-1]
  p = sym_str("path")
  with patched(F, fs=NS(LocalFileSystem=local)):
    f = call(lambda: C.create_fs(p))
    cx.record("there is a file system", not isinstance(f, Raised), str(f))
    if isinstance(f, Raised):
      return
    r = call(lambda: f.create_dir(p))
  cx.record("of local files", len(made) == 1 and
            isinstance(f, F.ArrowLocalFileSystem))
  cx.record("a directory is made, with its parents", not isinstance(
      r, Raised) and len(dirs) == 1 and dirs[0][1] is True, str(r))
  if len(dirs) == 1:
    cx.prove("the one asked for", vc_eq(dirs[0][0], p))
