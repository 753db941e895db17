"""core/schema: fields, field IDs, types."""
from __future__ import annotations

import sys

import z3

from engine import core, proto
from engine.core import (cx, VList, And, Or, Not, Implies, sym_str, sym_int,
                         vc_eq, term, as_bool, I, Str, B, wrap, ufun)
from engine.specs.rays import number
from engine.specs.runners import Token
from engine.stubs import patched, NS
from engine.unit import unit, call, Raised, error_name


def mod(n):
  return sys.modules["space.core.schema." + n]


# ----------------------------------------------------------------------------
# the contract of pyarrow's types
# ----------------------------------------------------------------------------
class Type:
  vc_constant = True
  num_fields = 0

  def __init__(self, kind, *sub):
    self.kind, self.sub = kind, list(sub)

  @property
  def value_field(self):
    return self.sub[0]

  def same(self, o):
    """Formula: equal types (names of list items do not count)."""
    if not isinstance(o, Type) or self.kind != o.kind or len(
        self.sub) != len(o.sub):
      return z3.BoolVal(False)
    if self.kind == "list":
      return self.sub[0].type.same(o.sub[0].type)
    return z3.And(z3.BoolVal(True), *[z3.And(
        as_bool(vc_eq(a.name, b.name)), a.type.same(b.type))
                    for a, b in zip(self.sub, o.sub)])

  def __iter__(self):
    return iter(self.sub)

  def field(self, i):
    return self.sub[i]

  @property
  def storage_type(self):
    return Type("storage")

  def __repr__(self):
    return self.kind


class FieldOf:
  """A pyarrow field."""

  def __init__(self, name, type_, metadata=None):
    self.name, self.type, self.metadata = name, type_, metadata

  def with_metadata(self, metadata):
    return FieldOf(self.name, self.type, metadata)

  def vc_subst(self, sub):
    return FieldOf(sub.obj(self.name), sub.obj(self.type),
                   sub.obj(self.metadata))


class SchemaOf:
  vc_constant = True

  def __init__(self, fields):
    self.fields = fields if isinstance(fields, VList) else VList(list(fields))

  def vc_list(self):
    return VList(self.fields)

  def __iter__(self):
    return iter(self.fields)

  @property
  def names(self):
    return core.b_list(core.b_map(lambda f: f.name, self.fields))

  def vc_len(self):
    return core.b_len(self.fields)

  def field(self, name):
    if type(name) in (int, core.SymNum):
      return self.fields[name]
    for f in self.fields.concrete():
      if bool(vc_eq(f.name, name)):
        return f
    raise KeyError(name)


PLAIN = {"bool": "bool_", "int32": "int32", "int64": "int64",
         "float32": "float32", "float64": "float64", "string": "string",
         "binary": "binary"}


class Types:
  vc_constant = True

  def __getattr__(self, n):
    if n.startswith("__"):
      raise AttributeError(n)
    k = {"is_boolean": "bool", "is_list": "list", "is_struct": "struct"}.get(
        n, n[3:] if n[3:] in PLAIN else None)
    if k is None or not n.startswith("is_"):
      raise core.Unsupported(f"no contract for pyarrow.types.{n}")
    return lambda t: t.kind == k


class Ext(Type):
  """An extension type."""


class Text(Ext):

  def __init__(self, text):
    Type.__init__(self, self.EXTENSION_NAME)
    self.text = text

  def __arrow_ext_serialize__(self):
    return self.text

  @classmethod
  def __arrow_ext_deserialize__(cls, storage_type, serialized):
    return cls(serialized)

  @property
  def storage_type(self):
    return Type("binary" if type(self) is Feat else "string")

  def same(self, o):
    if type(o) is not type(self):
      return z3.BoolVal(False)
    return as_bool(vc_eq(self.text, o.text))


class Feat(Text):
  EXTENSION_NAME = "space.tf_features"


class FileT(Text):
  EXTENSION_NAME = "space.file"


def PA():
  def field(name, type_, metadata=None, nullable=True):
    return FieldOf(name, type_, metadata)

  def struct(fields):
    return Type("struct", *[f if isinstance(f, FieldOf) else FieldOf(*f)
                            for f in fields])

  def list_(f):
    return Type("list", f if isinstance(f, FieldOf) else FieldOf("item", f))
  kw = {v: (lambda k=k: Type(k)) for k, v in PLAIN.items()}
  return NS(types=Types(), field=field, struct=struct, list_=list_,
            schema=SchemaOf, ExtensionType=Ext, Schema=SchemaOf,
            Field=FieldOf, DataType=Type, **kw)


def the_id(f):
  """The field ID of a field, or None."""
  if f.metadata is None:
    return None
  (k, v), = f.metadata.items()
  cx.record("the ID is kept where Parquet files keep it",
            k == b"PARQUET:field_id", str(k))
  return v


class IdText:
  """str(number).encode(): the number."""

  def __init__(self, n):
    self.n = n

  def vc_subst(self, sub):
    return IdText(sub.obj(self.n))

  def vc_as_int(self):
    return self.n


def field_metadata(n):
  return {b"PARQUET:field_id": IdText(n)}


class Meta:
  """Field metadata with an ID."""

  def __init__(self, n):
    self.n = n

  def vc_subst(self, sub):
    return Meta(sub.obj(self.n))


# ----------------------------------------------------------------------------
# field IDs: by induction on the depth of types
# ----------------------------------------------------------------------------
class Tree:
  """A field of any type: it and all fields below it have `size` IDs."""

  def __init__(self, k):
    self.k = k
    self.name = wrap(ufun("tree.name", I, Str)(k))
    self.metadata = None

  def vc_subst(self, sub):
    return Tree(sub(self.k))


def size(k):
  return ufun("tree.size", I, I)(k)


class Given:
  """A field whose IDs were assigned: start .. start + size."""

  def __init__(self, k, start):
    self.k, self.start = k, start

  def vc_subst(self, sub):
    return Given(sub(self.k), sub(self.start))


def assign_one(self, field):
  """The contract of _assign_field_id (unit FieldIdManager._assign_field_id):
  a field and all below it get the next IDs."""
  r = Given(field.k, term(self._next_field_id))
  self._next_field_id = wrap(r.start + size(field.k))
  return r


def manager(start):
  m = object.__new__(mod("field_ids").FieldIdManager)
  m._next_field_id = start
  return m


@unit("C13", "FieldIdManager._assign_field_ids",
      ["core/schema/field_ids.py:FieldIdManager._assign_field_ids",
       "core/schema/field_ids.py:FieldIdManager.assign_field_ids",
       "core/schema/field_ids.py:FieldIdManager.__init__"])
def assign_all():
  F = mod("field_ids")
  trees, dom = core.symbolic_list("fields", Tree)
  dom.fact(lambda k: size(k) >= 1)
  whole = cx.choose("a schema")
  start = None if whole else sym_int("start")
  if start is not None:
    cx.assume(start.t >= 0)
  with patched(F, pa=PA()), patched(F.FieldIdManager,
                                    _assign_field_id=assign_one):
    if whole:
      r = call(lambda: F.FieldIdManager().assign_field_ids(
          SchemaOf(trees)).fields)
    else:
      m = manager(start)
      r = call(lambda: m._assign_field_ids(trees))
  cx.record("IDs are assigned", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  s0 = z3.IntVal(0) if start is None else start.t

  def check(i, g):
    cx.record("a field is the one given, with IDs", type(g) is Given, str(g))
    cx.prove("a field is the one at its place", g.k == i)
    cx.prove("IDs are not reused", g.start >= s0)
  core.each_of("fields", VList(r), dom, check)
  seg = [s for s in VList(r).segs if s != []]
  if len(seg) != 1 or not isinstance(seg[0], core.Comp):
    return

  @cx.case
  def _():
    i = cx.fresh("afield", I)
    cx.assume(z3.And(dom.member(i), dom.member(i + 1)))
    for t in (i, i + 1):
      dom.note(t)
      seg[0].domain.note(t)
    a, b = [seg[0].at(t)[0][1][0] for t in (i, i + 1)]
    cx.prove("the IDs of neighbours do not overlap, in order",
             b.start >= a.start + size(i))
  if not whole:
    @cx.case
    def _():
      i = cx.fresh("afield", I)
      cx.assume(z3.And(dom.member(i), i == dom.n - 1))
      dom.note(i)
      seg[0].domain.note(i)
      a = seg[0].at(i)[0][1][0]
      cx.prove("the next ID is above all assigned", term(
          m._next_field_id) >= a.start + size(i))


@unit("C13", "FieldIdManager._assign_field_id",
      ["core/schema/field_ids.py:FieldIdManager._assign_field_id"],
      bounded="structs of up to 3 fields (of any types)")
def assign_field():
  F = mod("field_ids")
  start = sym_int("start")
  cx.assume(start.t >= 0)
  kind = next((k for k in ("list", "struct", "features") if cx.choose(k)),
              "int64")
  n = {"list": 1, "struct": number("subfields", 3) if kind == "struct" else 0
       }.get(kind, 0)
  if kind == "struct" and cx.choose("no subfield"):
    n = 0
  subs = []
  for k in range(n):
    t = Tree(z3.IntVal(k))
    t.type = Token("any type")
    cx.assume(size(t.k) >= 1)
    subs.append(FieldOf(t.name, t))
  ty = Feat("x") if kind == "features" else Type(kind, *subs)
  if kind == "struct":
    ty.num_fields = n
  f = FieldOf(sym_str("name"), ty,
              Meta(sym_int("old")) if cx.choose("metadata") else None)
  orig = F.FieldIdManager._assign_field_id
  depth = [0]

  def rec(self, field):
    if isinstance(field.type, Tree):
      g = assign_one(self, field.type)
      r = FieldOf(field.name, field.type, None)
      r.given = g
      return r
    return orig(self, field)
  A = mod("arrow")
  m = manager(start)
  with patched(F, pa=PA()), patched(A, field_metadata=Meta), patched(
      F.FieldIdManager, _assign_field_id=rec):
    r = call(lambda: m._assign_field_id(f))
  cx.record("IDs are assigned", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.prove("the name is kept", vc_eq(r.name, f.name))
  cx.record("the field has an ID", type(r.metadata) is Meta, str(r.metadata))
  if type(r.metadata) is not Meta:
    return
  ids = [(term(r.metadata.n), z3.IntVal(1))]
  cx.record("the type is kept", isinstance(r.type, Type) and
            r.type.kind == ty.kind and len(r.type.sub) == n, str(r.type))
  if r.type.kind != ty.kind or len(r.type.sub) != n:
    return
  for a, b in zip(subs, r.type.sub):
    cx.record("the fields below are kept, and have IDs", b.type is a.type and
              hasattr(b, "given"), str(b))
    if not hasattr(b, "given"):
      return
    cx.prove("the names below are kept", vc_eq(a.name, b.name))
    ids.append((b.given.start, size(b.given.k)))
  end = term(m._next_field_id)
  for i, (s, k) in enumerate(ids):
    cx.prove("IDs were not used before, and are not used again",
             z3.And(s >= start.t, s + k <= end))
    for t, q in ids[:i]:
      cx.prove("no ID is given twice", z3.Or(s + k <= t, t + q <= s))


# ----------------------------------------------------------------------------
# persisted schemas
# ----------------------------------------------------------------------------
KINDS = list(PLAIN) + ["features", "file", "list", "struct"]


def a_type(where, depth):
  for k in KINDS[:-1]:
    if k in ("list",) and depth == 0:
      continue
    if cx.choose(f"{where} is {k}"):
      break
  else:
    k = "struct"
  if k == "struct" and depth == 0:
    k = "string"
  if k == "features":
    return Feat(sym_str(f"{where}.features"))
  if k == "file":
    return FileT(sym_str(f"{where}.file"))
  if k == "list":
    return Type("list", FieldOf("item", a_type(where + ".item", depth - 1),
                                Meta(sym_int(where + ".item.id"))))
  if k == "struct":
    # The second one is of one type: names and order are what matters.
    return Type("struct", a_field(where + ".a", depth - 1), FieldOf(
        sym_str(where + ".b"), Type("int32"), Meta(sym_int(where + ".b.id"))))
  return Type(k)


def a_field(where, depth):
  return FieldOf(sym_str(where), a_type(where, depth), Meta(sym_int(
      where + ".id")))


def substrait():
  import substrait.type_pb2 as tp
  return proto.ModuleStub(tp)


@unit("C13", "substrait_fields + arrow_schema",
      ["core/schema/substrait.py:substrait_fields",
       "core/schema/substrait.py:_substrait_field",
       "core/schema/substrait.py:_substrait_fields",
       "core/schema/arrow.py:arrow_schema",
       "core/schema/arrow.py:_arrow_fields",
       "core/schema/arrow.py:_arrow_type",
       "core/schema/arrow.py:_user_defined_arrow_type"],
      bounded="two fields, types of depth up to 2", budget=150, paths=6000)
def round_trip():
  A, S = mod("arrow"), mod("substrait")
  st = substrait()
  fields = [a_field("x", 2), FieldOf(sym_str("y"), Type("binary"),
                                     Meta(sym_int("y.id")))]
  cx.assume(as_bool(Not(vc_eq(fields[0].name, fields[1].name))))
  physical = cx.choose("physical")
  rec = [fields[1].name] if cx.choose("y is a record field") else []
  with patched(A, pa=PA(), TfFeatures=Feat, File=FileT, Type=st.Type,
               NamedStruct=st.NamedStruct, field_metadata=Meta,
               field_id=lambda f: f.metadata.n), patched(
      S, pa=PA(), TfFeatures=Feat, File=FileT, Type=st.Type,
      NamedStruct=st.NamedStruct):
    sub = call(lambda: S.substrait_fields(SchemaOf(fields)))
    cx.record("a schema can be written", not isinstance(sub, Raised),
              str(sub))
    if isinstance(sub, Raised):
      return
    r = call(lambda: A.arrow_schema(sub, core.VSet(rec) if rec else set(), physical))
  cx.record("a schema can be read", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  out = list(r.fields.concrete())
  cx.record("as many fields", len(out) == 2, str(out))
  if len(out) != 2:
    return
  for f, g in zip(fields, out):
    cx.prove("names and order are kept", vc_eq(f.name, g.name))
    cx.prove("IDs are kept", vc_eq(f.metadata.n, g.metadata.n))
  x, y = out
  if not physical:
    cx.prove("types are kept", z3.And(fields[0].type.same(x.type),
                                      fields[1].type.same(y.type)))
    return
  cx.prove("an index field is stored by its storage type",
           stored(fields[0].type).same(x.type))
  adr = Type("struct", FieldOf("_FILE", Type("string")),
             FieldOf("_ROW_ID", Type("int32")))
  cx.prove("a record field is stored by its address",
           (adr if rec else fields[1].type).same(y.type))


def stored(t):
  if isinstance(t, Text):
    return t.storage_type
  if t.kind in ("list", "struct"):
    return Type(t.kind, *[FieldOf(f.name, stored(f.type)) for f in t.sub])
  return t


def schema_fields(name="schema", dom_fact=None):
  """A schema of any number of fields with different names and IDs."""
  nm, ident = ufun(f"{name}.name", I, Str), ufun(f"{name}.id", I, I)
  n = cx.fresh(f"n:{name}", I)
  cx.assume(n >= 0)
  fields, dom = core.symbolic_list(name, lambda g: FieldOf(
      wrap(nm(g)), Opaque(g), Meta(wrap(ident(g)))), dom=core.index_domain(n))
  dom.fact(lambda i: z3.BoolVal(True), lambda i, j: z3.Implies(
      i != j, z3.And(nm(i) != nm(j), ident(i) != ident(j))))
  return fields, dom, nm, ident


class Opaque(Type):
  """The type of field k."""
  vc_constant = False

  def __init__(self, k):
    self.k = k
    self.kind, self.sub = "opaque", []

  def vc_subst(self, sub):
    return Opaque(sub(self.k))


class Names:
  """A set of names, by its characteristic predicate."""
  vc_constant = True

  def __init__(self, p):
    self.p = p

  def contains(self, x):
    return core.SymBool(self.p(term(x)))

  __contains__ = None

  def vc_set(self):
    return self


@unit("C13 C05 C12", "classify_fields",
      ["core/schema/arrow.py:classify_fields",
       "core/schema/utils.py:Field"])
def classify():
  A = mod("arrow")
  fields, dom, nm, ident = schema_fields()
  isrec, issel = ufun("is_record", Str, B), ufun("is_selected", Str, B)
  sel = Names(issel) if cx.choose("some fields are selected") else None
  with patched(A, field_id=lambda f: f.metadata.n):
    r = call(lambda: A.classify_fields(SchemaOf(fields), Names(isrec), sel))
  cx.record("fields are classified", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  index, record = r

  @cx.case
  def _():
    i = cx.fresh("afield", I)
    cx.assume(dom.member(i))
    dom.note(i)
    for part, want, what in ((index, z3.Not(isrec(nm(i))), "index"),
                             (record, isrec(nm(i)), "record")):
      if sel is not None:
        want = z3.And(want, issel(nm(i)))
      segs = [s for s in VList(part).segs if s != []]
      ok = all(isinstance(s, core.Comp) and s.domain is dom for s in segs
               ) and len(segs) <= 1
      cx.record(f"{what} fields are fields of the schema, in order", ok,
                str(part))
      if not ok:
        continue
      alts = segs[0].at(i) if segs else []
      cx.prove(f"exactly the {what} fields selected are {what} fields",
               want == z3.Or(z3.BoolVal(False), *[g for g, y in alts if y]))
      for g, y in alts:
        cx.prove(f"{what} fields have their name and ID", z3.Implies(
            g, z3.And(z3.BoolVal(len(y) <= 1), *[z3.And(as_bool(vc_eq(
                f.name, wrap(nm(i)))), as_bool(vc_eq(f.field_id, wrap(
                    ident(i))))) for f in y])))


@unit("C13 C09", "field IDs and names",
      ["core/schema/arrow.py:field_name_to_id_dict",
       "core/schema/arrow.py:field_id_to_name_dict",
       "core/schema/arrow.py:field_id_to_column_id_dict"])
def dicts():
  A = mod("arrow")
  fields, dom, nm, ident = schema_fields()
  for name, key, val in (("field_name_to_id_dict", nm, ident),
                         ("field_id_to_name_dict", ident, nm),
                         ("field_id_to_column_id_dict", ident, lambda k: k)):
    with patched(A, field_id=lambda f: f.metadata.n):
      d = call(lambda: getattr(A, name)(SchemaOf(fields)))
    cx.record(f"{name}: fields are found", not isinstance(d, Raised), str(d))
    if isinstance(d, Raised):
      continue

    def check(i, kv, name=name, key=key, val=val):
      k, v = kv
      cx.prove(f"{name}: each key is that of its field", And(
          vc_eq(k, wrap(key(i))), vc_eq(v, wrap(val(i)))))
    core.each_of(f"{name}: a key for each field", VList(d.items()), dom, check)


class ExtOf(Ext):
  """The type of field k, an extension type, and the type it is stored as."""
  vc_constant = False

  def __init__(self, k):
    self.k = k
    self.kind, self.sub = "ext", []

  def vc_subst(self, sub):
    return ExtOf(sub(self.k))

  @property
  def storage_type(self):
    return StoredOf(self.k)


class StoredOf(Opaque):

  def vc_subst(self, sub):
    return StoredOf(sub(self.k))


@unit("C13 C17", "logical_to_physical_schema",
      ["core/schema/arrow.py:logical_to_physical_schema"])
def physical():
  A = mod("arrow")
  nm, ident, ext = (ufun("name", I, Str), ufun("id", I, I),
                    ufun("is_extension", I, B))
  isrec = ufun("is_record", Str, B)
  n = cx.fresh("fields", I)
  cx.assume(n >= 0)
  dom = core.Domain("fields", n=n)
  g = z3.Const(cx.name("field"), I)
  meta = lambda i: Meta(wrap(ident(i)))
  fields = VList.of_segs([core.Comp(dom, g, [
      (ext(g), [FieldOf(wrap(nm(g)), ExtOf(g), meta(g))]),
      (z3.Not(ext(g)), [FieldOf(wrap(nm(g)), Opaque(g), meta(g))])])])

  with patched(A, pa=PA()):
    r = call(lambda: A.logical_to_physical_schema(SchemaOf(fields), Names(
        isrec)))
  cx.record("a schema has a physical one", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  adr = Type("struct", FieldOf("_FILE", Type("string")),
             FieldOf("_ROW_ID", Type("int32")))

  def check(i, f):
    cx.prove("names and order are kept", term(f.name) == nm(i))
    cx.prove("IDs are kept", z3.BoolVal(False) if type(
        f.metadata) is not Meta else term(f.metadata.n) == ident(i))
    if cx.branch(isrec(nm(i))):
      cx.prove("a record field is an address in the files", adr.same(f.type))
    elif cx.branch(ext(i)):
      cx.record("an extension type is stored as its storage type",
                type(f.type) is StoredOf, str(f.type))
      cx.prove("the storage type is that of the field", z3.BoolVal(
          False) if type(f.type) is not StoredOf else f.type.k == i)
    else:
      cx.record("other types are kept", type(f.type) is Opaque, str(f.type))
      cx.prove("the type is that of the field", z3.BoolVal(
          False) if type(f.type) is not Opaque else f.type.k == i)
  core.each_of("fields", r.fields, dom, check)


@unit("C13", "validate_logical_schema",
      ["core/schema/utils.py:validate_logical_schema"])
def validate():
  U = mod("utils")
  kinds = ["int64", "list", "struct", "features", "binary"]
  kind = ufun("kind", Str, I)
  pk, rf = ufun("key", I, Str), ufun("record", I, Str)
  isfield, iskey = ufun("is_field", Str, B), ufun("is_key", Str, B)
  keys, kd = core.symbolic_list("keys", lambda g: wrap(pk(g)))
  recs, rd = core.symbolic_list("records", lambda g: wrap(rf(g)))
  for d in (kd, rd):
    cx.assume(d.n >= 0)

  class Schema:
    vc_constant = True

    @property
    def names(self):
      return Names(isfield)

    def field(self, name):
      k = kind(term(name))
      t = next((x for i, x in enumerate(kinds[:-1]) if cx.branch(k == i)),
               "binary")
      return FieldOf(name, Feat("x") if t == "features" else Type(t))

    def get_field_index(self, name):
      raise core.Unsupported("the index of a field")
  def good_key(x):
    return z3.And(isfield(x), *[kind(x) != i for i in (1, 2, 3)])

  def good_rec(x):
    return z3.And(isfield(x), *[kind(x) != i for i in (0, 1, 2)])
  valid = cx.choose("a valid schema")
  if valid:
    cx.assume(kd.n > 0)
    kd.fact(lambda i: z3.And(good_key(pk(i)), iskey(pk(i))))
    rd.fact(lambda i: z3.And(good_rec(rf(i)), z3.Not(iskey(rf(i)))))
  with patched(U, pa=PA(), TfFeatures=Feat):
    r = call(lambda: U.validate_logical_schema(Schema(), keys, recs))
  if valid:
    cx.record("a valid schema is not rejected", not isinstance(r, Raised),
              str(r))
  if isinstance(r, Raised):
    cx.record("a schema is rejected as wrong input",
              error_name(r) == "UserInputError", str(r))
  else:
    cx.prove("a schema without primary keys is rejected", kd.n > 0)

    @cx.case
    def _():
      i = cx.fresh("akey", I)
      cx.assume(kd.member(i))
      kd.note(i)
      cx.prove("a primary key is a field of a type supported",
               good_key(pk(i)))

    @cx.case
    def _():
      i, j = cx.fresh("arecord", I), cx.fresh("akey", I)
      cx.assume(rd.member(i))
      rd.note(i)
      cx.prove("a record field is a field of a type supported",
               good_rec(rf(i)))
      cx.assume(kd.member(j))
      kd.note(j)
      cx.prove("a record field is no primary key", pk(j) != rf(i))

