"""core/serializers, core/random_access.py: values of record fields."""
from __future__ import annotations

import sys

import z3

from engine import core, proto
from engine.core import (cx, VList, And, Or, Not, Implies, sym_str, sym_int,
                         vc_eq, term, as_bool, I, Str, wrap, ufun, SymNum)
from engine.specs.rays import number
from engine.specs.runners import Token
from engine.stubs import patched, NS, Effect
from engine.unit import unit, call, Raised, error_name


def SB():
  return sys.modules["space.core.serializers.base"]


class Codec:
  """A field serializer by contract: deserialize inverts serialize."""

  def __init__(self, name):
    self.name = name
    self.enc = ufun(f"enc:{name}", I, I)
    self.dec = ufun(f"dec:{name}", I, I)

  def make(self):
    me = self

    class C(SB().FieldSerializer):
      vc_constant = True

      def serialize(self, value):
        return wrap(me.enc(term(value)))

      def deserialize(self, value_bytes):
        return wrap(me.decoded(term(value_bytes)))
    return C()

  def decoded(self, t):
    """dec(t), with dec(enc(v)) == v."""
    if z3.is_app(t) and t.decl().eq(self.enc):
      return t.arg(0)
    return self.dec(t)


def batch(n, codecs):
  """A dict of n fields, each a list of any length."""
  out, els = {}, {}
  for k in range(n):
    f = f"f{k}"
    el = ufun(f"value:{f}", I, I)
    out[f], dom = core.symbolic_list(f"batch:{f}", lambda g, el=el: wrap(
        el(g)), n=size(f))
    els[f] = (el, dom)
  return out, els


def size(f):
  n = z3.Int(f"rows:{f}")
  cx.assume(n >= 0)
  return n


@unit("C17 C05 C12", "DictSerializer",
      ["core/serializers/base.py:DictSerializer.__init__",
       "core/serializers/base.py:DictSerializer.serialize",
       "core/serializers/base.py:DictSerializer.deserialize",
       "core/serializers/base.py:DictSerializer._process_dict",
       "core/serializers/base.py:DictSerializer.field_serializer"])
def dict_serializer():
  name, rows = ufun("name", I, Str), ufun("rows", I, I)
  has = ufun("has_serializer", Str, z3.BoolSort())
  el = ufun("value", I, I, I)
  enc, dec = ufun("enc", Str, I, I), ufun("dec", Str, I, I)

  class Of(SB().FieldSerializer):
    """The serializer of a field by contract: deserialize inverts serialize."""

    def __init__(self, f):
      self.f = f

    def serialize(self, value):
      return wrap(enc(term(self.f), term(value)))

    def deserialize(self, value_bytes):
      t = term(value_bytes)
      if z3.is_app(t) and t.decl().eq(enc) and t.arg(0).eq(term(self.f)):
        return wrap(t.arg(1))
      return wrap(dec(term(self.f), t))

    def vc_subst(self, sub):
      return Of(sub.obj(self.f))

  class Given:
    """The serializers, a dict of fields."""
    vc_constant = True

    def contains(self, f):
      return core.SymBool(has(term(f)))

    __contains__ = None

    def __getitem__(self, f):
      cx.prove("a serializer asked for exists", has(term(f)))
      return Of(f)

    def get(self, f, default=None):
      return Of(f) if cx.branch(has(term(f))) else default
  nf = cx.fresh("fields", I)
  cx.assume(nf >= 0)
  dom = core.Domain("fields", n=nf)
  dom.fact(lambda i: rows(i) >= 0, lambda i, j: z3.Implies(
      i != j, name(i) != name(j)))

  def values(g):
    return core.symbolic_list("batch", lambda k: wrap(el(g, k)),
                              dom=core.index_domain(rows(g)))[0]
  g = z3.Const(cx.name("field"), I)
  value = core.VDict()
  value.entries = VList.of_segs([core.Comp(dom, g, [
      (z3.BoolVal(True), [(wrap(name(g)), values(g))])])])
  kind = next((k for k in ("serialize", "deserialize")
               if cx.choose(k)), "both")

  def go():
    d = SB().DictSerializer(Given())
    if kind == "both":
      return d.deserialize(d.serialize(value))
    return getattr(d, kind)(value)
  r = call(go)
  cx.record("serializing succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return

  def check(i, kv):
    f, vs = kv
    cx.prove("the fields are those of the batch, in order",
             term(f) == name(i))
    ser = cx.branch(has(name(i)))

    def one(k, y):
      v = el(i, k)
      if ser and kind == "serialize":
        v = enc(name(i), v)
      if ser and kind == "deserialize":
        v = dec(name(i), v)
      cx.prove(f"{kind}: a value is that of its field and row",
               term(y) == v)
    core.each_of(f"{kind}: values of a field", VList(vs),
                 core.index_domain(rows(i)), one)
  core.each_of("fields", VList(r.items()), dom, check)

  def unchanged(i, kv):
    f, vs = kv
    cx.prove("the batch given is not changed", term(f) == name(i))
    core.each_of("the batch given", VList(vs), core.index_domain(rows(i)),
                 lambda k, y: cx.prove("the batch given is not changed",
                                       term(y) == el(i, k)))
  core.each_of("the batch given", VList(value.items()), dom, unchanged)
  f = sym_str("afield")
  s = call(lambda: SB().DictSerializer(Given()).field_serializer(f))
  cx.record("the serializer of a field is its own", s is None or
            isinstance(s, Of), str(s))
  cx.prove("a field has a serializer if one was given",
           has(term(f)) if s is not None else z3.Not(has(term(f))))
  if isinstance(s, Of):
    cx.prove("the serializer of a field is its own", vc_eq(s.f, f))


@unit("C17 C13", "DictSerializer.create",
      ["core/serializers/base.py:DictSerializer.create"])
def create_serializer():
  name, ser = ufun("name", I, Str), ufun("is_serializer", I, z3.BoolSort())

  class T(SB().FieldSerializer):
    """The type of field k, a serializer."""

    def __init__(self, k):
      self.k = k

    def serialize(self, value):
      raise core.Unsupported("a value")

    deserialize = serialize

    def vc_subst(self, sub):
      return T(sub(self.k))

  class FieldIs:

    def __init__(self, k, type_):
      self.k, self.type, self.name = k, type_, wrap(name(k))

    def vc_subst(self, sub):
      return FieldIs(sub(self.k), sub.obj(self.type))
  n = cx.fresh("fields", I)
  cx.assume(n >= 0)
  dom = core.Domain("fields", n=n)
  dom.fact(lambda i: z3.BoolVal(True), lambda i, j: z3.Implies(
      i != j, name(i) != name(j)))
  g = z3.Const(cx.name("field"), I)
  fields = VList.of_segs([core.Comp(dom, g, [
      (ser(g), [FieldIs(g, T(g))]),
      (z3.Not(ser(g)), [FieldIs(g, Token("plain type"))])])])
  d = call(lambda: SB().DictSerializer.create(fields))
  cx.record("creating a serializer succeeds", not isinstance(d, Raised),
            str(d))
  if isinstance(d, Raised):
    return
  i = cx.fresh("afield", I)
  cx.assume(dom.member(i))
  dom.note(i)
  s = call(lambda: d.field_serializer(wrap(name(i))))
  cx.record("the serializer of a field is its type, if that is one",
            s is None or isinstance(s, T), str(s))
  cx.prove("the serializer of a field is its type, if that is one", z3.Not(
      ser(i)) if s is None else z3.And(ser(i), s.k == i) if isinstance(
          s, T) else z3.BoolVal(False))


# ----------------------------------------------------------------------------
# random access
# ----------------------------------------------------------------------------
def RA():
  return sys.modules["space.core.random_access"]


class Grouped:
  """A table of addresses: group_by(path).aggregate([(row_id, "list")]) has
  each path once, with all of its row ids, in some order."""
  vc_constant = True

  def __init__(self, cols, names):
    self.cols, self.names = cols, names
    self.keys = None

  def group_by(self, keys, **_):
    k = [keys] if isinstance(keys, str) else list(keys)
    if len(k) != 1:
      raise core.Unsupported("group by more than one column")
    self.keys = k[0]
    return self

  def aggregate(self, specs):
    (self.col, fn), = specs
    if fn != "list":
      raise core.Unsupported(f"aggregate {fn}")
    return self

  def to_pydict(self):
    ks = self.cols[self.names.index(self.keys)]
    vs = self.cols[self.names.index(self.col)]
    groups = []
    for k, v in zip(ks, vs):
      for kk, g in groups:
        if bool(vc_eq(k, kk)):
          g.append(v)
          break
      else:
        groups.append((k, [v]))
    return {self.keys: [k for k, _ in groups],
            f"{self.col}_list": [g for _, g in groups]}


@unit("C14", "build_file_instructions",
      ["core/random_access.py:build_file_instructions",
       "core/random_access.py:_file_instruction"],
      bounded="up to 4 addresses (of any files and rows)", budget=150,
      paths=6000)
def instructions():
  n = number("addresses", 4) if cx.choose("some address") else 0
  paths = [sym_str(f"path{k}") for k in range(n)]
  rows = [sym_int(f"row{k}") for k in range(n)]
  for r in rows:
    cx.assume(r.t >= 0)
  full = ufun("full", Str, Str)

  class Instr:
    vc_constant = True

    def __init__(self, filename, skip, take, examples_in_shard):
      self.filename, self.skip, self.take = filename, skip, take
      self.examples_in_shard = examples_in_shard
  # Different short paths are different files (unit StoragePathsMixin).
  for i in range(n):
    for j in range(i):
      cx.assume((full(paths[i].t) == full(paths[j].t)) ==
                (paths[i].t == paths[j].t))
  with patched(RA(), pa=NS(Table=NS(from_arrays=Grouped)),
               shard_utils=NS(FileInstruction=Instr)):
    out = call(lambda: RA().build_file_instructions(
        NS(full_path=lambda p: wrap(full(term(p)))), paths, rows))
  cx.record("addresses are turned into instructions",
            not isinstance(out, Raised), str(out))
  if isinstance(out, Raised):
    return
  out = list(VList(out).concrete())
  f, r = cx.fresh("anyfile", Str), cx.fresh("anyrow", I)
  served = z3.Sum(z3.IntVal(0), *[z3.If(z3.And(
      term(o.filename) == f, term(o.skip) <= r,
      r < term(o.skip) + term(o.take)), 1, 0) for o in out])
  asked = z3.Sum(z3.IntVal(0), *[z3.If(z3.And(
      full(p.t) == f, q.t == r), 1, 0) for p, q in zip(paths, rows)])
  cx.prove("each record is served as often as it is addressed",
           served == asked)
  for o in out:
    cx.prove("an instruction is within its file", z3.And(
        term(o.skip) >= 0, term(o.take) > 0,
        term(o.skip) + term(o.take) <= term(o.examples_in_shard)))


@unit("C14", "build_file_instructions, any number of addresses",
      ["core/random_access.py:build_file_instructions",
       "core/random_access.py:_file_instruction"],
      bounded="one file", budget=200)
def instructions_of_a_file():
  """By induction over the sorted rows: the blocks are consecutive runs of
  them, so each row is served as often as it is addressed."""
  full = ufun("full", Str, Str)
  n = cx.fresh("addresses", I)
  cx.assume(n >= 0)
  raw, row = ufun("unsorted", I, I), ufun("row", I, I)
  dom = core.Domain("rows", n=n)

  def seg(f):
    k = z3.Const(cx.name("k"), I)
    return VList.of_segs([core.Comp(
        dom, k, [(z3.BoolVal(True), [wrap(f(k))])])])
  indexes = seg(raw)
  # sort() and sorted() by contract: the same rows, none before a smaller.
  dom.fact(lambda t: And(raw(t) >= 0, row(t) >= 0, row(t) <= row(n - 1)))
  indexes.vc_sorted = lambda: seg(row)

  def sort():
    indexes.segs = seg(row).segs
  indexes.sort = sort
  path = sym_str("path")

  class Instr:
    vc_constant = True

    def __init__(self, filename, skip, take, examples_in_shard):
      self.filename, self.skip, self.take = filename, skip, take
      self.examples_in_shard = examples_in_shard

  class Table:
    vc_constant = True

    def __init__(self, cols, names):
      self.names = names

    def group_by(self, keys, **_):
      k = [keys] if isinstance(keys, str) else list(keys)
      if k != [self.names[0]]:
        raise core.Unsupported("group by another column")
      return self

    def aggregate(self, specs):
      if [tuple(x) for x in specs] != [(self.names[1], "list")]:
        raise core.Unsupported("another aggregate")
      return self

    def to_pydict(self):
      return {self.names[0]: [path], f"{self.names[1]}_list": [indexes]}
  with patched(RA(), pa=NS(Table=NS(from_arrays=Table)),
               shard_utils=NS(FileInstruction=Instr)):
    out = call(lambda: RA().build_file_instructions(
        NS(full_path=lambda p: wrap(full(term(p)))),
        Token("paths"), Token("row ids")))
  cx.record("addresses are turned into instructions",
            not isinstance(out, Raised), str(out))
  if isinstance(out, Raised):
    return
  segs = [s for s in VList(out).segs if not (isinstance(s, list) and not s)]
  if not segs:
    cx.prove("no record is left out", n == 0)
    return
  if len(segs) != 1 or isinstance(segs[0], list) or \
      segs[0].domain is not dom or \
      any(len(es) > 1 for _, es in segs[0].alts):
    raise core.Unsupported("instructions that are not made row by row")
  comp = segs[0]

  def at(t, x):
    return z3.substitute(term(x), (comp.index, t))

  def made(t):
    return z3.Or(z3.BoolVal(False), *[
        z3.substitute(as_bool(g), (comp.index, t))
        for g, es in comp.alts if es])
  # start(i): the first row of the block that row i is in.
  start = z3.Function(cx.name("start"), I, I)

  def follows(t):
    return start(t + 1) == z3.If(made(t), t + 1, start(t))

  def holds(t):
    s = start(t)
    return And(s >= 0, s <= t, row(t) == row(s) + (t - s),
               *[And(at(t, o.skip) == row(s),
                     at(t, o.take) == t - s + 1)
                 for _, es in comp.alts for o in es])
  i = cx.fresh("i", I)

  def lemma(name, given, goal):
    """Unless it follows, nothing is known: the induction may need another
    hypothesis than this one."""
    if not cx.entails(z3.Implies(And(*given), goal), 20000):
      raise core.Unsupported("the induction does not go through: " + name)
    cx.prove(name, z3.Implies(And(*given), goal))
  for t in (z3.IntVal(0), i, i + 1, n - 1, start(i)):
    dom.note(t)
  lemma("the first block starts at the first row", [n > 0, start(0) == 0],
        holds(z3.IntVal(0)))
  lemma("a block is a run of rows", [0 <= i, i + 1 < n, follows(i), holds(i)],
        holds(i + 1))
  lemma("the last block is served", [n > 0, holds(n - 1)], made(n - 1))
  for _, es in comp.alts:
    for o in es:
      lemma("an instruction is of the file and within it",
            [0 <= i, i < n, holds(i)],
            And(at(i, o.filename) == full(path.t), at(i, o.skip) >= 0,
                at(i, o.take) > 0, at(i, o.skip) + at(i, o.take) <=
                at(i, o.examples_in_shard)))



class Records:
  """array_record_data_source.ArrayRecordDataSource by contract: the records
  of the instructions, by position."""
  vc_constant = True

  def __init__(self, given):
    self.n = cx.fresh("records", I)
    cx.assume(self.n >= 0)
    self.of = ufun("record_at", I, I)

  def vc_len(self):
    return wrap(self.n)

  def __getitem__(self, i):
    return wrap(self.of(term(i)))

  def __getitems__(self, indexes):
    return core.b_list(core.b_map(lambda i: wrap(self.of(term(i))), indexes))


@unit("C14 C17", "ArrayRecordDataSource",
      ["core/random_access.py:ArrayRecordDataSource"])
def array_record_source():
  codec = Codec("field") if cx.choose("deserialize") else None
  made = []

  def make(given):
    made.append((given, Records(given)))
    return made[-1][1]
  given = Token("instructions")

  def want(t):
    v = ufun("record_at", I, I)(t)
    return codec.dec(v) if codec else v
  with patched(RA(), ards=NS(ArrayRecordDataSource=make)):
    s = call(lambda: RA().ArrayRecordDataSource(
        given, codec.make() if codec else None))
    cx.record("a data source is made", not isinstance(s, Raised), str(s))
    if isinstance(s, Raised):
      return
    cx.record("of the instructions", [g for g, _ in made] == [given])
    n = made[0][1].n
    ln = call(lambda: core.b_len(s))
    cx.prove("as many elements as records", term(ln) == n)
    i = sym_int("index")
    cx.assume(z3.And(i.t >= 0, i.t < n))
    one = call(lambda: s[i])
    cx.prove("an element is the record at its position",
             term(one) == want(i.t))
    many, dom = core.symbolic_list("indexes", lambda g: wrap(
        ufun("index_at", I, I)(g)))
    for how in ("list", "getitems"):
      r = call(lambda: s[many] if how == "list" else s.__getitems__(many))
      cx.record("elements are found by a list of positions",
                not isinstance(r, Raised), str(r))
      if not isinstance(r, Raised):
        core.each_of(f"{how}: elements by a list of positions", r, dom,
                     lambda k, y: cx.prove(
                         "each is the record at its position",
                         term(y) == want(ufun("index_at", I, I)(k))))
    r = call(lambda: core.b_list(s.__iter__()))
    cx.record("elements are iterated", not isinstance(r, Raised), str(r))
    if not isinstance(r, Raised):
      core.each_of("iteration", r, core.index_domain(n), lambda k, y: cx.prove(
          "iteration gives the records by position", term(y) == want(k)))


class Col:
  """A column of a table of addresses."""
  vc_constant = True

  def __init__(self, f, sort):
    self.f, self.sort = f, sort

  def __getitem__(self, i):
    return NS(as_py=lambda: wrap(self.f(term(i))))

  def take(self, indexes):
    v = VList(indexes) if not isinstance(indexes, VList) else indexes
    return Taken(self, v)


class Taken:
  vc_constant = True

  def __init__(self, col, indexes):
    self.col, self.indexes = col, indexes


class Addresses:
  vc_constant = True

  def __init__(self, n, fields):
    self.num_rows = wrap(n)
    self.n = n
    self.cols = {}
    for f in fields:
      self.cols[f"{f}._FILE"] = Col(ufun(f"file:{f}", I, Str), Str)
      self.cols[f"{f}._ROW_ID"] = Col(ufun(f"row:{f}", I, I), I)

  def vc_len(self):
    return self.num_rows

  def flatten(self):
    return self

  def __getitem__(self, name):
    return self.cols[name]

  column = __getitem__


@unit("C14 C12 C17", "ArrowDataSource",
      ["core/random_access.py:ArrowDataSource",
       "core/schema/utils.py:file_path_field_name",
       "core/schema/utils.py:row_id_field_name"],
      bounded="up to 2 fields (of any number of rows)")
def arrow_source():
  nf = number("fields", 2)
  fields = [f"f{k}" for k in range(nf)]
  codecs = {f: Codec(f) for f in fields} if cx.choose("deserialize") else None
  n = cx.fresh("rows", I)
  cx.assume(n >= 0)
  rec = ufun("record", Str, I, I)
  fulls = {f: ufun(f"full:{f}", Str, Str) for f in fields}
  st = {f: NS(full_path=lambda p, f=f: wrap(fulls[f](term(p))), f=f)
        for f in fields}
  adr = Addresses(n, fields)

  def read_file(path, positions=None):
    return core.b_list(core.b_map(lambda p: wrap(rec(term(path), term(p))),
                                  positions))

  def read_column(storage, table, *_):
    a, b = table.cols
    p = table.names
    fp, ri = (a, b) if p[0] == "_FILE" else (b, a)
    cx.record("records are read by file and row", sorted(p) == [
        "_FILE", "_ROW_ID"] and fp.indexes is ri.indexes or
              core.symbolic_eq(fp.indexes, ri.indexes) is True)
    return NS(to_pylist=lambda: core.b_list(core.b_map(
        lambda i: wrap(rec(fulls[storage.f](fp.col.f(term(i))),
                           ri.col.f(term(i)))), fp.indexes)))

  class T:
    vc_constant = True

    def __init__(self, cols, names):
      self.cols, self.names = cols, list(names)
      self.num_rows = core.b_len(cols[0].indexes)

  def want(f, t):
    v = rec(fulls[f](ufun(f"file:{f}", I, Str)(t)), ufun(f"row:{f}", I, I)(t))
    return codecs[f].dec(v) if codecs else v

  def of(x, f):
    return x if nf == 1 else x[f]
  many, dom = core.symbolic_list("indexes", lambda g: wrap(
      ufun("index_at", I, I)(g)))
  with patched(RA(), read_record_file=read_file,
               read_record_column=read_column,
               pa=NS(Table=NS(from_arrays=T))):
    def go():
      return RA().ArrowDataSource(adr, st, SB().DictSerializer(
          {f: c.make() for f, c in codecs.items()}) if codecs else None)
    s = call(go)
    cx.record("a data source is made", not isinstance(s, Raised), str(s))
    if isinstance(s, Raised):
      return
    cx.prove("as many elements as addresses", term(core.b_len(s)) == n)
    i = sym_int("index")
    cx.assume(z3.And(i.t >= 0, i.t < n))
    one = call(lambda: s[i])
    cx.record("an element is found by its position",
              not isinstance(one, Raised), str(one))
    if not isinstance(one, Raised):
      for f in fields:
        cx.prove("an element is the record at its address",
                 term(of(one, f)) == want(f, i.t))
    for how in ("list", "getitems"):
      r = call(lambda: s[many] if how == "list" else s.__getitems__(many))
      cx.record("elements are found by a list of positions",
                not isinstance(r, Raised), str(r))
      if not isinstance(r, Raised):
        for f in fields:
          core.each_of(f"{how}: elements by a list of positions",
                       VList(of(r, f)), dom, lambda k, y: cx.prove(
                           "each is the record at its address",
                           term(y) == want(f, ufun("index_at", I, I)(k))))
    if nf == 1:
      r = call(lambda: core.b_list(s.__iter__()))
      cx.record("elements are iterated", not isinstance(r, Raised), str(r))
      if not isinstance(r, Raised):
        core.each_of("iteration", r, core.index_domain(n), lambda k, y:
                     cx.prove("iteration gives the records in order",
                              term(y) == want(fields[0], k)))


@unit("C14 C13", "RandomAccessDataSource",
      ["core/random_access.py:RandomAccessDataSource"],
      bounded="up to 2 fields")
def random_source():
  nf = number("fields", 2)
  same = nf == 1 or cx.choose("one dataset")
  given = cx.choose("addresses are given")
  des = cx.choose("deserialize")
  use_ar = cx.choose("array record")
  by_name = cx.choose("datasets are given by location")
  fields = [f"f{k}" for k in range(nf)]
  n = cx.fresh("rows", I)
  cx.assume(n >= 0)
  codecs = {f: Codec(f).make() for f in fields}
  no_codec = nf == 1 and cx.choose("no record field")

  class St:
    vc_constant = True

    def __init__(self, k):
      self.location = f"/store{k}/dataset"

    def serializer(self):
      return NS(field_serializer=lambda f: None if no_codec else codecs[f])
  sts = [St(0)] if same else [St(0), St(1)]
  of = {f: sts[0 if same else k] for k, f in enumerate(fields)}
  adr, read = Addresses(n, fields), []
  own = Addresses(n, fields)
  empty = cx.choose("no rows")

  class Ds:
    vc_constant = True

    def __init__(self, storage):
      self.s = storage

    def local(self, *a):
      return self

    def read_all(self, **kw):
      read.append((self.s, kw))
      return None if empty else own
  instr, made = [], []

  def instructions(st, paths, rows):
    instr.append((st, paths, rows))
    return "instructions"

  class Src:
    vc_constant = True

    def __init__(self, kind, *a):
      self.kind, self.args = kind, a
      made.append(self)

    def vc_len(self):
      return wrap(n)

    def __len__(self):
      raise core.Unsupported("len")
  loads = []

  def load(loc):
    loads.append(loc)
    return [s for s in sts if s.location == loc][0]
  with patched(RA(), Dataset=Ds, build_file_instructions=instructions,
               Storage=NS(load=load),
               ArrayRecordDataSource=lambda *a: Src("array_record", *a),
               ArrowDataSource=lambda *a: Src("arrow", *a)):
    r = call(lambda: RA().RandomAccessDataSource(
        {f: (s.location if by_name else s) for f, s in of.items()},
        adr if given else None, des, use_ar))
  if isinstance(r, Raised):
    why = [des and no_codec, not given and not same, not given and empty]
    cx.record("only wrong input is an error", error_name(r) ==
              "UserInputError" and any(why), str(r))
    return
  cx.record("a field without serializer is not deserialized",
            not (des and no_codec))
  cx.record("one source of data", len(made) == 1)
  m = made[0]
  a = adr if given else own
  if given:
    cx.record("given addresses are used", not read)
  else:
    cx.record("the addresses of the dataset are read", len(read) == 1 and
              read[0][0] is sts[0] and read[0][1].get(
                  "reference_read") is True and all(
                      v is None for k, v in read[0][1].items() if k not in (
                          "fields", "reference_read")) and list(
                          VList(read[0][1]["fields"]).concrete()) == fields,
              str(read))
  if m.kind == "array_record":
    cx.record("records are served by position only for one field",
              nf == 1 and len(instr) == 1 and m.args[0] == "instructions")
    st, p, q = instr[0]
    cx.record("of the addresses", st is sts[0] and
              p is a.cols["f0._FILE"] and q is a.cols["f0._ROW_ID"])
    cx.record("values are deserialized exactly when requested",
              m.args[1] is (codecs["f0"] if des else None))
  else:
    cx.record("records are served by address", m.args[0] is a)
    ff = m.args[1]
    cx.record("each field of its dataset", list(ff) == fields and all(
        ff[f] is of[f] for f in fields), str(ff))
    if not des:
      cx.record("values are deserialized exactly when requested",
                m.args[2] is None)
    else:
      cx.record("values are deserialized exactly when requested", all(
          m.args[2].field_serializer(f) is codecs[f] for f in fields))
