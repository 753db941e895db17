"""core/loaders: files are loaded in place."""
from __future__ import annotations

import sys

import z3

from engine import core, proto, stubs
from engine.core import (cx, VList, SymStr, SymNum, And, Or, Not, sym_str,
                         sym_int, vc_eq, term, as_bool, I, Str, wrap, ufun)
from engine.specs.manifests import RT, M
from engine.specs.rays import only_comp
from engine.specs.runners import Token
from engine.stubs import patched, NS
from engine.unit import unit, call, Raised, error_name


def P():
  return sys.modules["space.core.loaders.parquet"]


def A():
  return sys.modules["space.core.loaders.array_record"]


def rows(f):
  return ufun("rows_of_file", Str, I)(term(f))


def groups(f):
  """The number of row groups of a Parquet file; some may be empty."""
  return ufun("footer.row_groups", Str, I)(term(f))


class Footer:
  """Metadata of the Parquet file of a path."""

  def __init__(self, f):
    self.f = f

  @property
  def num_rows(self):
    return SymNum(rows(self.f))

  @property
  def num_row_groups(self):
    return SymNum(groups(self.f))

  def vc_subst(self, sub):
    return Footer(sub.obj(self.f))


STATS = ("num_rows", "index_compressed_bytes", "index_uncompressed_bytes")


def stat(name, f):
  if name == "num_rows":
    return rows(f)
  return ufun("stat." + name, Str, I)(term(f))


class Writer:
  """IndexManifestWriter by contract (units IndexManifestWriter.*)."""
  vc_mutable = ("files",)

  def __init__(self, d, schema, keys):
    self.d, self.schema, self.keys = d, schema, keys
    self.files = VList()
    self.finished = []

  def write(self, path, footer):
    self.files.append(Added(path, footer))
    return M().StorageStatistics(**{n: SymNum(stat(n, path)) for n in STATS})

  def finish(self):
    # finish of the writer: None without rows
    self.path = sym_str("manifest")
    self.finished.append(self.path)
    some = core.b_len(self.files) > 0
    return self.path if bool(some) else None


class Added:

  def __init__(self, path, footer):
    self.path, self.footer = path, footer

  def vc_subst(self, sub):
    return Added(sub.obj(self.path), sub.obj(self.footer))


def found_files(log):
  """What a pattern matches, in any order."""
  files, dom = core.symbolic_list("found", lambda i: SymStr(ufun(
      "found", I, Str)(i)))

  def glob(pattern, **kw):
    log.append((pattern, kw))
    return files
  return NS(glob=glob), files, dom


def absolute(f):
  return ufun("path.abspath", Str, Str)(f)


@unit("C18", "load ops find the files of a pattern",
      ["core/loaders/parquet.py:LocalParquetLoadOp.__init__",
       "core/loaders/array_record.py:LocalArrayRecordLoadOp.__init__"])
def init():
  log = []
  glob, files, dom = found_files(log)
  parquet = cx.choose("parquet")
  x = P() if parquet else A()
  names = VList([] if parquet else ["rec"])
  schema = NS(fields=Token("fields"), record_fields=names,
              primary_keys=VList([sym_str("key")]))
  md = NS(schema=schema)
  asked = []
  logical, physical = Token("logical"), Token("physical")

  def arrow_schema(fields, record_fields, physical=None):
    asked.append((fields, record_fields, physical))
    return logical if physical is False else globals_["physical"]
  globals_ = {"physical": physical}
  arrow = NS(arrow_schema=arrow_schema,
             logical_to_physical_schema=lambda s, r: physical if s is logical
             else None,
             classify_fields=lambda s, r, selected_fields=None: (
                 VList([Token("index")]), VList([NS(name="rec")])) if (
                     s is physical and selected_fields is None) else None)
  kw = dict(glob=glob, arrow=arrow)
  if not parquet:
    kw["DictSerializer"] = NS(create=lambda s: ("serializer", s))
  loc, pattern = sym_str("location"), sym_str("pattern")
  with patched(x, **kw):
    if parquet:
      r = call(lambda: x.LocalParquetLoadOp(loc, md, pattern))
    else:
      r = call(lambda: x.LocalArrayRecordLoadOp(loc, md, pattern,
                                                Token("index_fn"),
                                                Token("options")))
  cx.record("loading is prepared", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.record("the pattern is that of the user", len(log) == 1 and log[0][1] in (
      {}, {"recursive": False}))
  for p, _ in log:
    cx.prove("the pattern is not changed", vc_eq(p, pattern))
  cx.record("the schema is that of the files", r._physical_schema is physical)
  if not parquet:
    cx.record("records are read by the types of the user",
              r._serializer == ("serializer", logical))
    cx.record("the record field is found", r._record_field.name == "rec")
  core.each_of("files", VList(r._input_files), dom, lambda i, y: cx.prove(
      "a file is referred to by its absolute path",
      vc_eq(y, SymStr(absolute(ufun("found", I, Str)(i))))))


def input_files():
  """Absolute paths of distinct files."""
  inv = ufun("input.at", Str, I)
  path = ufun("input", I, Str)
  files, dom = core.symbolic_list("inputs", lambda i: SymStr(path(i)))
  dom.fact(lambda i: z3.And(inv(path(i)) == i, rows(SymStr(path(i))) >= 0,
                            groups(path(i)) >= 0,
                            z3.Implies(rows(path(i)) > 0,
                                       groups(path(i)) > 0)))
  return files, dom, lambda i: SymStr(path(i))


@unit("C18 C09 C10 C11", "LocalParquetLoadOp.write",
      ["core/loaders/parquet.py:LocalParquetLoadOp.write",
       "core/loaders/parquet.py:_write_index_manifest",
       "core/ops/utils.py:update_index_storage_stats"])
def parquet():
  x = P()
  op = object.__new__(x.LocalParquetLoadOp)
  loc = sym_str("location")
  x.StoragePathsMixin.__init__(op, loc)
  op._metadata = NS(schema=NS(primary_keys=VList([sym_str("key")]),
                              record_fields=VList()))
  op._physical_schema = Token("physical")
  op._input_files, dom, path = input_files()
  ws = []

  def writer(d, schema, keys):
    w = Writer(d, schema, keys)
    ws.append(w)
    return w
  pq = NS(read_metadata=lambda f: Footer(f))

  def short(p):
    return ("short", p) if False else SymStr(ufun("short", Str, Str)(term(p)))
  with patched(x, IndexManifestWriter=writer, pq=pq), patched(
      x.StoragePathsMixin, short_path=lambda self, p: short(p)):
    r = call(op.write)
  cx.record("loading succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.record("one manifest is written", len(ws) == 1 and len(
      ws[0].finished) == 1)
  if len(ws) != 1 or len(ws[0].finished) != 1:
    return
  w = ws[0]
  cx.prove("the manifest is in the directory of metadata",
           vc_eq(w.d, op._metadata_dir))
  cx.record("the manifest is of the schema and the primary keys",
            w.schema is op._physical_schema and
            w.keys is op._metadata.schema.primary_keys)
  some = core.exists(dom, lambda i: rows(path(i)) > 0)
  if r is None:
    cx.prove("nothing is loaded only without rows", Not(some))
    return
  cx.prove("without rows nothing changes", some)
  mans = VList(r.addition.index_manifest_files).concrete()
  cx.record("the manifest is added", mans is not None and len(mans) == 1)
  for p in mans or []:
    cx.prove("the path of the manifest is that of the storage",
             vc_eq(p, short(w.path)))
  cx.record("only index files are added", VList(
      r.addition.record_manifest_files).concrete() == [] and VList(
          r.deletion.index_manifest_files).concrete() == [])
  su = r.storage_statistics_update
  for n in STATS:
    cx.prove(f"{n} is that of the files with rows", vc_eq(
        getattr(su, n), core.sum_over(dom, lambda i, n=n: z3.If(
            rows(path(i)) > 0, stat(n, path(i)), z3.IntVal(0)))))
  cx.prove("no records are written", vc_eq(su.record_uncompressed_bytes, 0))
  cl = r.change_log
  cx.record("nothing is deleted", VList(cl.deleted_rows).concrete() == [])
  comps = {"files": only_comp(w.files), "changes": only_comp(
      VList(cl.added_rows))}
  for k, c in comps.items():
    cx.record(f"{k} are of the files found", c is not None and (
        c.domain is dom), str(c))
    if c is None or c.domain is not dom:
      return

  @cx.case
  def _():
    i = cx.fresh("afile", I)
    cx.assume(dom.member(i))
    dom.note(i)
    p = path(i)
    for k, c in comps.items():
      alts = c.at(i)
      cx.prove(f"{k}: exactly the files with rows", (rows(p) > 0) == z3.Or(
          z3.BoolVal(False), *[g for g, y in alts if y]))
      for g, y in alts:
        @cx.case
        def _(g=g, y=y, k=k):
          cx.assume(g)
          cx.record(f"{k}: a file is added once", len(y) <= 1)
          for e in y:
            if k == "files":
              cx.prove("a file is added in place", vc_eq(e.path, p))
              cx.prove("the footer is that of the file", vc_eq(
                  e.footer.f, p))
            else:
              cx.prove("the change is of the file", vc_eq(e.file, p))
              cx.prove("all rows of a file are added",
                       And(e.all_rows, vc_eq(e.num_rows, SymNum(rows(p)))))


# ----------------------------------------------------------------------------
# ArrayRecord files
# ----------------------------------------------------------------------------
class Rec:
  """A serialized record of a file."""

  def __init__(self, f, i):
    self.f, self.i = f, i

  def vc_len(self):
    return SymNum(ufun("record_bytes", Str, I, I)(term(self.f), self.i))

  def vc_subst(self, sub):
    return Rec(sub.obj(self.f), sub(self.i))


class Made:
  """A value made of other values by a function of the user or a dependency."""

  def __init__(self, kind, *args):
    self.kind, self.args = kind, args

  def vc_subst(self, sub):
    return Made(self.kind, *[sub.obj(a) for a in self.args])

  def drop(self, n):
    return Made("drop", self, n)

  drop_columns = drop

  def append_column(self, n, c):
    return Made("append", self, n, c)


@unit("C18 C09 C14", "_build_index_for_array_record",
      ["core/loaders/array_record.py:"
       "LocalArrayRecordLoadOp._build_index_for_array_record"])
def build_index():
  x = A()
  op = object.__new__(x.LocalArrayRecordLoadOp)
  op._record_field = NS(name="rec", field_id=7)
  op._physical_schema = Token("physical")
  op._serializer = NS(deserialize=lambda d: Made("deserialized", d))
  op._index_fn = lambda rec: Made("index", rec)
  f = sym_str("file")
  recs, dom = core.symbolic_list("records", lambda i: Rec(f, i))
  size = ufun("record_bytes", Str, I, I)
  dom.fact(lambda i: size(term(f), i) >= 0)
  read, tables, addr = [], [], []

  def read_record_file(p, *a):
    read.append((p, a))
    return recs

  def from_pylist(l, schema=None):
    tables.append((VList(l), schema))
    return Made("table", len(tables))

  def address_column(file_path, start_row, num_rows):
    addr.append((file_path, start_row, num_rows))
    return Made("addresses")
  with patched(x, read_record_file=read_record_file, pa=NS(Table=NS(
      from_pylist=from_pylist)), utils=NS(address_column=address_column)):
    r = call(lambda: op._build_index_for_array_record(f))
  cx.record("an index is built", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  data, n = r
  cx.record("the file is read whole", len(read) == 1 and read[0][1] == ())
  for p, _ in read:
    cx.prove("the file is read", vc_eq(p, f))
  cx.prove("the bytes are those of all records", vc_eq(n, core.sum_over(
      dom, lambda i: size(term(f), i))))
  ok = (len(tables) == 1 and len(addr) == 1 and data.kind == "append" and
        data.args[1] == "rec" and data.args[2].kind == "addresses" and
        data.args[0].kind == "drop" and data.args[0].args[1] in (
            "rec", ["rec"]) and data.args[0].args[0].kind == "table")
  cx.record("the table has the index of the records and their addresses", ok)
  if not ok:
    return
  cx.record("the table has the schema of the storage",
            tables[0][1] is op._physical_schema)
  cx.prove("addresses are those of the file", And(
      vc_eq(addr[0][0], f), vc_eq(addr[0][1], 0),
      vc_eq(addr[0][2], wrap(dom.n))))

  def check(i, y):
    ok = isinstance(y, Made) and y.kind == "index" and isinstance(
        y.args[0], Made) and y.args[0].kind == "deserialized"
    cx.record("an index is of the values of a record", ok)
    if not ok:
      return
    d = y.args[0].args[0]
    ks = list(d.keys()) if isinstance(d, dict) else VList(
        d.keys()).concrete()
    cx.record("a record is read as the record field", ks == ["rec"], str(ks))
    v = d["rec"]
    v = v.concrete() if isinstance(v, VList) else list(v)
    cx.record("a record is read alone", v is not None and len(v) == 1)
    for rec in v or []:
      cx.prove("the index at a row is of the record of that row", z3.And(
          as_bool(vc_eq(rec.f, f)), rec.i == i))
  core.each_of("indexes", tables[0][0], dom, check)


class Append:
  """LocalAppendOp by contract (units LocalAppendOp *)."""
  vc_mutable = ("written",)

  def __init__(self, args, kw):
    self.args, self.kw = args, kw
    self.written = VList()
    self.n = 0

  def write(self, data):
    self.written.append(data)

  def finish(self):
    self.n += 1
    if cx.choose("no rows"):
      return None
    self.base = sym_int("bytes_before")
    p = RT().Patch()
    p.storage_statistics_update.record_uncompressed_bytes = self.base
    self.patch = p
    return p


@unit("C18 C10", "LocalArrayRecordLoadOp.write",
      ["core/loaders/array_record.py:LocalArrayRecordLoadOp.write"])
def array_record():
  x = A()
  op = object.__new__(x.LocalArrayRecordLoadOp)
  op._location = sym_str("location")
  op._metadata, op._file_options = Token("metadata"), Token("options")
  op._input_files, dom, path = input_files()
  size = ufun("bytes_of_file", Str, I)
  dom.fact(lambda i: size(term(path(i))) >= 0)
  ops = []

  def append(*a, **kw):
    o = Append(a, kw)
    ops.append(o)
    return o
  with patched(x, LocalAppendOp=append), patched(
      x.LocalArrayRecordLoadOp, _build_index_for_array_record=lambda self, f: (
          Made("index of", f), SymNum(size(term(f))))):
    r = call(op.write)
  cx.record("loading succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.record("one append is made", len(ops) == 1 and ops[0].n == 1)
  if len(ops) != 1 or ops[0].n != 1:
    return
  o = ops[0]
  b = dict(zip(("location", "metadata", "file_options",
                "record_address_input"), o.args), **o.kw)
  cx.record("addresses are appended to the storage",
            b["location"] is op._location and b["metadata"] is op._metadata
            and b["file_options"] is op._file_options and
            b.get("record_address_input") is True, str(b))
  core.each_of("files", o.written, dom, lambda i, y: cx.prove(
      "the index of each file is appended", z3.And(z3.BoolVal(
          y.kind == "index of"), as_bool(vc_eq(y.args[0], path(i))))))
  if r is None:
    cx.record("nothing is loaded only without rows", not hasattr(o, "patch"))
    return
  cx.record("the change is that of the append", r is o.patch)
  if r is not o.patch:
    return
  cx.prove("the bytes of the records loaded are added", vc_eq(
      r.storage_statistics_update.record_uncompressed_bytes,
      o.base + core.sum_over(dom, lambda i: size(term(path(i))))))
