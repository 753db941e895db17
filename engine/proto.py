"""Protocol buffer messages with symbolic contents.

Built from the real descriptors of the generated *_pb2 modules, with the
semantics of the Python runtime: presence, default values, presence set by a
change of a child, copies by CopyFrom/MergeFrom/constructor, maps that create
an entry on first access, and TypeErrors for values of a wrong type.
(Trusted: this model of google.protobuf.)
"""
from __future__ import annotations

import z3

from engine import core
from engine.core import (cx, VList, VDict, Comp, Domain, SymBool, SymNum,
                         SymStr, Unsupported, I, B, Str, wrap, term, ufun,
                         as_bool, vc_eq, is_sym, And)

SCALAR = {1: "num", 2: "num", 3: "int", 4: "int", 5: "int", 6: "int",
          7: "int", 8: "bool", 9: "str", 12: "bytes", 13: "int", 14: "int",
          15: "int", 16: "int", 17: "int", 18: "int"}
DEFAULT = {"num": 0, "int": 0, "bool": False, "str": "", "bytes": b""}
SORT = {"num": z3.RealSort(), "int": I, "bool": B, "str": Str, "bytes": Str}

_classes = {}
_infos = {}


class Field:

  def __init__(self, f):
    self.name = f.name
    self.repeated = (f.is_repeated if hasattr(f, "is_repeated")
                     else f.label == 3)
    self.map = (f.message_type is not None and
                f.message_type.GetOptions().map_entry)
    self.kind = "msg" if f.message_type is not None else SCALAR[f.type]
    self.msg = f.message_type
    self.presence = (not self.repeated) and f.has_presence
    self.oneof = f.containing_oneof.name if f.containing_oneof else None
    if self.map:
      self.key = Field(f.message_type.fields_by_name["key"])
      self.val = Field(f.message_type.fields_by_name["value"])


def fields_of(desc):
  if desc.full_name not in _infos:
    _infos[desc.full_name] = {f.name: Field(f) for f in desc.fields}
  return _infos[desc.full_name]


def coerce(f, v):
  k = f.kind
  if k == "str":
    if not (type(v) in (str, SymStr)):
      raise TypeError(f"bad argument type for field {f.name}: {type(v)}")
  elif k == "bytes":
    if v is None or type(v) in (int, SymNum, bool):
      raise TypeError(f"bad argument type for field {f.name}")
  elif k == "bool":
    if type(v) is SymNum:
      return SymBool(v.t != 0)
    if type(v) not in (bool, SymBool, int):
      raise TypeError(f"bad argument type for field {f.name}")
    if type(v) is int:
      return bool(v)
  elif k == "int":
    if type(v) is SymBool:
      return SymNum(core.num_term(v))
    if type(v) not in (int, SymNum, bool):
      if hasattr(type(v), "vc_as_int"):
        return v.vc_as_int()
      raise TypeError(f"bad argument type for field {f.name}: {type(v)}")
    return v if type(v) is not bool else int(v)
  return v


class Msg:
  """Base of all message classes; the fields are attributes of __dict__."""
  DESCRIPTOR = None
  vc_msg = True

  def __init__(self, **kw):
    d = self.__dict__
    d["_up"] = None
    d["_mk"] = None
    for k, v in kw.items():
      if k not in self._fields():
        raise ValueError(f"Protocol message {type(self).__name__} has no "
                         f"{k} field.")
      if v is None:
        continue
      f = self._fields()[k]
      if f.map:
        if type(v) is VMap:
          self.__dict__[k] = v.copy((self, k))
          continue
        m = getattr(self, k)
        for kk, vv in (v.items() if hasattr(v, "items") else v):
          if f.val.kind == "msg":
            m[kk].CopyFrom(vv)
          else:
            m[kk] = vv
      elif f.repeated:
        getattr(self, k).extend(v)
      elif f.kind == "msg":
        if isinstance(v, (dict, VDict)):
          v = msg_class(f.msg)(**dict(v.items().concrete() if type(v) is VDict
                                      else v))
        c = getattr(self, k)
        c.CopyFrom(v)
        self._set(k)
      else:
        setattr(self, k, v)

  @classmethod
  def _fields(cls):
    return fields_of(cls.DESCRIPTOR)

  # -- presence ------------------------------------------------------------------
  def _touch(self):
    if "_shared" in self.__dict__:
      raise Unsupported("modification of an element of a symbolic list")
    up = self.__dict__["_up"]
    if up is not None:
      up[0]._set(up[1])

  def _set(self, k):
    f = self._fields()[k]
    d = self.__dict__
    if f.oneof:
      for o, g in self._fields().items():
        if g.oneof == f.oneof and o != k and self._had(o) is not False:
          d["_has_" + o] = False
          d.pop(o, None)
          d["_cleared"] = d.get("_cleared", ()) + (o,)
    d["_has_" + k] = True
    self._touch()

  def _had(self, k):
    return self.__dict__.get("_has_" + k, False)

  def HasField(self, k):
    f = self._fields().get(k)
    if f is None:
      raise ValueError(f"unknown field {k}")
    self._make(k)
    return self._had(k)

  def WhichOneof(self, name):
    for k, f in self._fields().items():
      if f.oneof == name and bool(self.HasField(k)):
        return k
    return None

  def ClearField(self, k):
    self._make(k)
    self.__dict__.pop(k, None)
    self.__dict__["_has_" + k] = False
    self.__dict__["_cleared"] = self.__dict__.get("_cleared", ()) + (k,)

  def Clear(self):
    for k in self._fields():
      self.ClearField(k)
    self._touch()

  def SetInParent(self):
    self._touch()

  # -- access ----------------------------------------------------------------------
  def _make(self, k):
    """Materializes field k of a symbolic message."""
    mk = self.__dict__["_mk"]
    if mk is not None and k not in self.__dict__ and (
        k not in self.__dict__.get("_cleared", ())):
      mk(self, k)

  def __getattr__(self, k):
    if k.startswith("_") or k.startswith("vc_"):
      raise AttributeError(k)
    f = self._fields().get(k)
    if f is None:
      raise AttributeError(f"'{type(self).__name__}' object has no attribute "
                           f"'{k}'")
    self._make(k)
    d = self.__dict__
    if k not in d:
      if f.map:
        d[k] = VMap(f, up=(self, k))
      elif f.repeated:
        d[k] = rep(f, self, k)
      elif f.kind == "msg":
        c = msg_class(f.msg)()
        c.__dict__["_up"] = (self, k)
        d[k] = c
      else:
        return DEFAULT[f.kind]
    return d[k]

  def __setattr__(self, k, v):
    f = self._fields().get(k)
    if f is None:
      raise AttributeError(f"Assignment not allowed: no field {k}")
    if f.repeated or f.kind == "msg":
      raise AttributeError(f"Assignment not allowed to field {k}")
    self._make(k)
    v = coerce(f, v)
    if f.presence:
      self._set(k)
    else:
      self._touch()
    self.__dict__[k] = v

  # -- copies ------------------------------------------------------------------------
  def _copy_into(self, o, merge):
    """Copies (or merges) the fields of o into self."""
    if type(o) is not type(self):
      raise TypeError(f"Parameter to CopyFrom() must be instance of same "
                      f"class: expected {type(self).__name__} got "
                      f"{type(o).__name__}.")
    if o is self:
      return
    d = self.__dict__
    if not merge:
      for k in self._fields():
        d.pop(k, None)
        d.pop("_has_" + k, None)
      d["_mk"] = None
    for k, f in self._fields().items():
      o._make(k)
      if f.map:
        if k in o.__dict__:
          if not merge:
            d[k] = o.__dict__[k].copy((self, k))
          else:
            getattr(self, k).MergeFrom(o.__dict__[k])
      elif f.repeated:
        if k in o.__dict__:
          getattr(self, k).extend(o.__dict__[k])
      elif f.kind == "msg":
        h = o._had(k)
        if h is False:
          continue
        if merge:
          self._make(k)
          if h is not True and not bool(h):
            continue
          getattr(self, k)._copy_into(o.__dict__.get(k) or
                                      msg_class(f.msg)(), True)
          self._set(k)
          continue
        c = msg_class(f.msg)()
        c.__dict__["_up"] = (self, k)
        if k in o.__dict__:
          c._copy_into(o.__dict__[k], False)
        d[k] = c
        d["_has_" + k] = h
      else:
        if f.presence:
          h = o._had(k)
          if h is False:
            continue
          if merge and h is not True:
            if not bool(h):
              continue
            h = True
          d[k] = o.__dict__[k]
          d["_has_" + k] = h
          continue
        if k not in o.__dict__:
          continue
        v = o.__dict__[k]
        if merge and k != "":
          dv = DEFAULT[f.kind]
          mine = getattr(self, k)
          if is_sym(v) or is_sym(mine):
            if is_sym(v):
              if f.kind == "bytes":
                raise Unsupported("merge of symbolic bytes")
              v = core.ite(vc_eq(v, dv), mine, v)
            elif v == dv:
              continue
          elif v == dv:
            continue
        d[k] = v
    self._touch()

  def CopyFrom(self, o):
    if o is self:
      return
    self._copy_into(o, False)
    self._touch()

  def MergeFrom(self, o):
    self._copy_into(o, True)

  def copy(self):
    c = type(self)()
    c._copy_into(self, False)
    return c

  def __deepcopy__(self, memo):
    return self.copy()

  # -- queries -----------------------------------------------------------------------
  def __eq__(self, o):
    if not isinstance(o, Msg) or type(o) is not type(self):
      return False
    if o is self:
      return True
    out = []
    for k, f in self._fields().items():
      if f.presence:
        a, b = self.HasField(k), o.HasField(k)
        e = vc_eq(a, b)
        if e is False:
          return False
        out.append(e)
        if a is False and b is False:
          continue
        if f.kind == "msg" and a is not True:
          e = vc_eq(getattr(self, k), getattr(o, k))
          out.append(core.Implies(a, e) if e is not True else True)
          continue
      a, b = getattr(self, k), getattr(o, k)
      e = seg_eq(a, b) if f.repeated and not f.map else vc_eq(a, b)
      if e is False:
        return False
      out.append(e)
    return core.all_true(out)

  def __ne__(self, o):
    return core.neg(self == o)

  __hash__ = None

  def ByteSize(self):
    return SymNum(cx.fresh("bytesize", I))

  def __str__(self):
    return "<message>"

  @staticmethod
  def vc_mutable(v):
    return [k for k in v.__dict__ if k not in ("_up", "_mk", "_shared",
                                               "_cleared")]

  def vc_subst(self, sub):
    mk = self.__dict__["_mk"]
    if mk is not None:
      return mk.subst(self, sub)
    c = type(self)()
    d = c.__dict__
    for k, f in self._fields().items():
      if "_has_" + k in self.__dict__:
        d["_has_" + k] = sub.obj(self._had(k))
      if k in self.__dict__:
        v = sub.obj(self.__dict__[k])
        if f.repeated or f.kind == "msg":
          reparent(v, c, k)
        d[k] = v
    return c

  def __repr__(self):
    return (f"{type(self).__name__}(" + ", ".join(
        f"{k}={v!r}" for k, v in self.__dict__.items() if k[0] != "_") + ")")


def reparent(v, up, k):
  if isinstance(v, Msg):
    v.__dict__["_up"] = (up, k)
  elif type(v) is VMap:
    v.up = (up, k)
  elif type(v) is VList:
    v.touch = lambda: up._touch()


def seg_eq(a, b):
  """Equality of lists that may have symbolic segments."""
  ca, cb = a.concrete(), b.concrete()
  if ca is not None and cb is not None:
    if len(ca) != len(cb):
      return False
    return core.all_true([vc_eq(x, y) for x, y in zip(ca, cb)])
  sa = [s for s in a.segs if s != []]
  sb = [s for s in b.segs if s != []]
  if len(sa) != len(sb):
    raise Unsupported(f"equality of lists of different structure: {sa} {sb}")
  out = []
  for x, y in zip(sa, sb):
    if isinstance(x, list) and isinstance(y, list):
      if len(x) != len(y):
        raise Unsupported("equality of lists of different structure")
      out += [vc_eq(p, q) for p, q in zip(x, y)]
    elif isinstance(x, Comp) and isinstance(y, Comp):
      if x is y:
        continue
      if x.domain is not y.domain:
        if x.domain.n is None or y.domain.n is None:
          raise Unsupported("equality of lists over different domains")
        out.append(SymBool(x.domain.n == y.domain.n))
      g = cx.fresh("eq", x.domain.sort)
      x.domain.note(g)
      y.domain.note(g)
      xa, ya = x.at(g), y.at(g)
      if len(xa) != 1 or len(ya) != 1 or len(xa[0][1]) != len(ya[0][1]):
        if len(xa) == len(ya) and all(
            p[0].eq(q[0]) and len(p[1]) == len(q[1])
            for p, q in zip(xa, ya)):
          pass
        else:
          raise Unsupported("equality of filtered lists")
      conj = []
      for p, q in zip(xa, ya):
        conj.append(SymBool(p[0] == q[0]))
        conj += [core.Implies(SymBool(p[0]), vc_eq(u, v))
                 for u, v in zip(p[1], q[1])]
      e = core.all_true(conj)
      if e is True:
        continue
      # For all indices: proved by a generic index, so only if it is valid.
      if cx.entails(z3.Implies(x.domain.member(g), as_bool(e))):
        continue
      w = core.forall(x.domain, lambda t: z3.substitute(as_bool(e), (g, t)))
      out.append(w)
    else:
      raise Unsupported("equality of lists of different structure")
  return core.all_true(out)


class Rep(VList):
  """A repeated field."""


def rep(f, up, k):
  v = VList()
  v.maker = msg_class(f.msg) if f.kind == "msg" else None
  v.field = f
  v.touch = lambda: up._touch()
  return v


def same_segs(a, b):
  return len(a.segs) == len(b.segs) and all(
      x is y or (isinstance(x, list) and isinstance(y, list) and
                 len(x) == len(y) and all(p is q for p, q in zip(x, y)))
      for x, y in zip(a.segs, b.segs))


class VMap:
  """A map field: base entries (a symbolic map) and an overlay of changes.

  overlay: list of (key, value) with value DEL for a deleted entry.
  """

  DEL = type("DEL", (), {})

  def __init__(self, f, up=None, base=None):
    self.f, self.up, self.base = f, up, base
    self.overlay = VList()
    self.touch = None

  vc_mutable = ("overlay",)

  def _touched(self):
    if self.up is not None:
      self.up[0]._touch()

  def copy(self, up=None):
    m = VMap(self.f, up, self.base)
    def own(e):
      if isinstance(e[1], Msg):
        v = e[1].copy()
        v.__dict__["_up"] = None
        return (e[0], v)
      return e
    m.overlay = VList.of_segs([
        [own(e) for e in s] if isinstance(s, list) else s
        for s in self.overlay.segs])
    return m

  def _changed(self, k):
    """(changed, value) of a key in the overlay on this path."""
    for s in reversed(self.overlay.segs):
      if isinstance(s, list):
        for kk, v in reversed(s):
          if bool(vc_eq(kk, k)):
            return True, v
      elif isinstance(s, Comp):
        def f(t, s=s):
          return z3.Or(*[z3.And(g, as_bool(vc_eq(y[0], k)))
                         for g, items in s.at(t) for y in items],
                       z3.BoolVal(False))
        ex, w = core.exists_one(s.domain, f)
        if bool(ex):
          core.unique_keys(s)
          for g, items in s.at(w):
            for y in items:
              if bool(SymBool(z3.And(g, as_bool(vc_eq(y[0], k))))):
                return True, y[1]
          raise core.PathEnd()
      else:
        raise Unsupported("lookup in a map inside of a loop")
    return False, None

  def find(self, k):
    """The value of key k on this path, or None."""
    ch, v = self._changed(k)
    if ch:
      return None if v is self.DEL else v
    if self.base is not None:
      t = term(k)
      self.base.domain.note(t)
      if bool(SymBool(self.base.member(t))):
        v = self.base.value(t)
        if isinstance(v, Msg):
          # Protobuf returns a reference: keep the object in the overlay. The
          # map is unchanged by that.
          v = v.copy()
          if not cx.loops:
            self.overlay = self.overlay + [(k, v)]
          else:
            v.__dict__["_shared"] = True
        return v
    return None

  def peek(self, k):
    """The value of key k, for specifications: changes nothing."""
    ch, v = self._changed(k)
    if ch:
      return None if v is self.DEL else v
    if self.base is not None:
      t = term(k)
      self.base.domain.note(t)
      if bool(SymBool(self.base.member(t))):
        return self.base.value(t)
    return None

  def contains(self, k):
    e = (SymBool(self.base.member(term(k))) if self.base is not None
         else False)
    if self.base is not None:
      self.base.domain.note(term(k))
    for kk, v in self._entries():
      if isinstance(kk, Comp):
        def f(t, s=kk):
          return z3.Or(*[z3.And(g, as_bool(vc_eq(y[0], k)))
                         for g, items in s.at(t) for y in items],
                       z3.BoolVal(False))
        if any(y[1] is self.DEL for g, items in kk.alts for y in items):
          raise Unsupported("keys deleted in a loop")
        e = core.Or(core.exists(kk.domain, f), e)
        continue
      c = vc_eq(kk, k)
      here = v is not self.DEL
      if c is True:
        e = here
      elif c is False:
        continue
      else:
        e = core.Or(core.And(c, here), core.And(core.neg(c), e))
    return e

  def __contains__(self, k):
    return bool(self.contains(k))

  def _check_key(self, k):
    kind = self.f.key.kind
    if kind == "int" and type(k) not in (int, SymNum) or (
        kind == "str" and type(k) not in (str, SymStr)):
      raise TypeError(f"bad key type {type(k)} for map field")

  def __getitem__(self, k):
    self._check_key(k)
    v = self.find(k)
    if v is None:
      if self.f.val.kind == "msg":
        v = msg_class(self.f.val.msg)()
      else:
        v = DEFAULT[self.f.val.kind]
      self.overlay = self.overlay + [(k, v)]
      self._touched()
    return v

  def get(self, k, d=None):
    v = self.find(k)
    return d if v is None else v

  def __setitem__(self, k, v):
    if self.f.val.kind == "msg":
      raise ValueError("Direct assignment of submessage not allowed")
    self._check_key(k)
    self.overlay = self.overlay + [(k, coerce(self.f.val, v))]
    self._touched()

  def __delitem__(self, k):
    if not bool(self.contains(k)):
      raise KeyError(k)
    self.overlay = self.overlay + [(k, self.DEL)]

  def pop(self, k, *d):
    v = self.find(k)
    if v is None:
      if d:
        return d[0]
      raise KeyError(k)
    del self[k]
    return v

  def update(self, o):
    for k, v in (o.items() if hasattr(o, "items") else o):
      self[k] = v

  def MergeFrom(self, o):
    if o.base is not None:
      if self.base is not None or self.overlay:
        raise Unsupported("merge of symbolic maps")
      self.base = o.base
    for k, v in o._entries():
      if isinstance(k, Comp):
        self.overlay = VList.of_segs(self.overlay.segs + [k])
      elif v is self.DEL:
        self.overlay = self.overlay + [(k, v)]
      elif isinstance(v, Msg):
        self[k].CopyFrom(v)
      else:
        self[k] = v
    self._touched()

  def _entries(self):
    for s in self.overlay.segs:
      if isinstance(s, list):
        yield from s
      elif isinstance(s, Comp):
        yield s, None
      else:
        raise Unsupported("contents of a map inside of a loop")

  def live(self):
    """The overlay entries that are the newest of their key."""
    out = []
    o = self.overlay.need("of the keys of a map")
    for i, (k, v) in enumerate(o):
      if not any(bool(vc_eq(k, k2)) for k2, _ in o[i + 1:]):
        out.append((k, v))
    return out

  def entries(self, f):
    segs = []
    if self.overlay.concrete() is None:
      cs = [s for s in self.overlay.segs if s != []]
      if self.base is not None or len(cs) != 1 or not isinstance(cs[0], Comp):
        raise Unsupported("keys of a map changed in a loop")
      if core.keys_may_clash(cs[0]):
        raise Unsupported("iteration over a map whose keys may repeat")
      return VList.of_segs([Comp(cs[0].domain, cs[0].index, [
          (g, [f(k, v) for k, v in items]) for g, items in cs[0].alts])])
    live = self.live()
    if self.base is not None:
      d = self.base.domain
      g = z3.Const(cx.name("key:" + d.name), d.sort)
      guard = z3.And(*[z3.Not(as_bool(vc_eq(wrap(g), k)))
                       for k, _ in live]) if live else z3.BoolVal(True)
      segs.append(Comp(d, g, [(guard, [f(wrap(g), self.base.value(g))])]))
    segs.append([f(k, v) for k, v in live if v is not self.DEL])
    return VList.of_segs(segs)

  def keys(self): return self.entries(lambda k, v: k)
  def values(self): return self.entries(lambda k, v: v)
  def items(self): return self.entries(lambda k, v: (k, v))
  vc_list = keys

  def vc_len(self):
    return self.keys().vc_len()

  def __len__(self):
    return len(self.keys())

  def __bool__(self):
    return bool(self.keys())

  def __iter__(self):
    return iter(self.keys())

  def __eq__(self, o):
    if type(o) is not VMap:
      return False
    a, b = self.overlay.concrete(), o.overlay.concrete()
    if a is None or b is None:
      if self.base is o.base and same_segs(self.overlay, o.overlay):
        return True
    elif self.base is o.base and len(a) == len(b):
      es = []
      for (k, v), (k2, v2) in zip(a, b):
        if (v is self.DEL) != (v2 is self.DEL):
          raise Unsupported("equality of maps")
        es.append(vc_eq(k, k2))
        if v is not self.DEL:
          es.append(vc_eq(v, v2))
      r = core.all_true(es)
      if r is not False:
        return r
    raise Unsupported("equality of maps")

  __hash__ = None

  def vc_subst(self, sub):
    m = VMap(self.f, None, sub.obj(self.base) if self.base else None)
    m.overlay = VList.of_segs([
        [(sub.obj(k), v if v is self.DEL else sub.obj(v)) for k, v in s]
        if isinstance(s, list) else s.vc_subst(sub)
        for s in self.overlay.segs])
    return m


class Base:
  """The symbolic contents of a map: membership and values are functions of
  the key (and of `idx`, the indices of what the map is part of)."""

  def __init__(self, name, f, idx, has):
    self.name, self.f, self.idx, self.has = name, f, idx, has
    self.sort = SORT[f.key.kind]
    self.mem = ufun(name + ".has", *[i.sort() for i in idx], self.sort, B)
    self.domain = Domain(name, member=self.member, sort=self.sort)
    self.cache = []

  def member(self, t):
    c = self.mem(*self.idx, t)
    return c if self.has is True else z3.And(as_bool(self.has), c)

  def value(self, t):
    for k, v in self.cache:
      if k.eq(t):
        return v
    v = sym_value(self.name + "[]", self.f.val, self.idx + (t,), True)
    self.cache.append((t, v))
    return v

  def vc_subst(self, sub):
    return Base(self.name, self.f, tuple(sub(i) for i in self.idx),
                sub.obj(self.has))


def leaf(name, kind, idx, has):
  s = SORT[kind]
  t = ufun(name, *[i.sort() for i in idx], s)(*idx) if idx else z3.Const(
      name, s)
  if has is not True:
    dv = {"int": z3.IntVal(0), "num": z3.RealVal(0),
          "bool": z3.BoolVal(False), "str": cx.lit(""),
          "bytes": cx.lit("")}[kind]
    t = z3.If(as_bool(has), t, dv)
  return wrap(t)


def sym_value(name, f, idx, has):
  if f.kind == "msg":
    return sym_msg(msg_class(f.msg), name, idx, has)
  return leaf(name, f.kind, idx, has)


class Maker:
  """Materializes the fields of a symbolic message on first use."""

  def __init__(self, name, idx, has):
    self.name, self.idx, self.has = name, idx, has

  def __call__(self, m, k):
    f = m._fields()[k]
    d = m.__dict__
    nm = f"{self.name}.{k}"
    idx, has = self.idx, self.has
    if f.map:
      d[k] = VMap(f, (m, k), Base(nm, f, idx, has))
    elif f.repeated:
      n = ufun("n:" + nm, *[i.sort() for i in idx], I)(*idx) if idx else (
          z3.Const("n:" + nm, I))
      if has is not True:
        n = z3.If(as_bool(has), n, z3.IntVal(0))
      v, dom = list_cache(nm, n, lambda g: sym_value(nm + "[]", f, idx + (g,),
                                                     True))
      v = VList(v)
      v.maker = msg_class(f.msg) if f.kind == "msg" else None
      v.touch = lambda: m._touch()
      d[k] = v
    elif f.kind == "msg":
      h = SymBool(ufun("has:" + nm, *[i.sort() for i in idx], B)(*idx)
                  if idx else z3.Const("has:" + nm, B))
      if has is not True:
        h = core.And(has, h)
      if nm in cx.ghost.get("$present", ()):
        h = has
      c = sym_msg(msg_class(f.msg), nm, idx, h)
      c.__dict__["_up"] = (m, k)
      d[k] = c
      d.setdefault("_has_" + k, h)
    else:
      h = True
      if f.presence:
        h = SymBool(ufun("has:" + nm, *[i.sort() for i in idx], B)(*idx)
                    if idx else z3.Const("has:" + nm, B))
        if has is not True:
          h = core.And(has, h)
        d.setdefault("_has_" + k, h)
      else:
        h = has
      d[k] = leaf(nm, f.kind, idx, h)

  def subst(self, m, sub):
    """m with its remaining symbolic fields and the materialized ones."""
    c = type(m)()
    d = c.__dict__
    d["_mk"] = Maker(self.name, tuple(sub(i) for i in self.idx),
                     sub.obj(self.has))
    for k, f in m._fields().items():
      if "_has_" + k in m.__dict__:
        d["_has_" + k] = sub.obj(m._had(k))
      if k in m.__dict__:
        v = sub.obj(m.__dict__[k])
        if f.repeated or f.kind == "msg":
          reparent(v, c, k)
        d[k] = v
    if "_cleared" in m.__dict__:
      d["_cleared"] = m.__dict__["_cleared"]
    return c


def list_cache(name, n, make):
  """One domain per list: lists of equal name and length are the same."""
  pool = cx.ghost.setdefault("$lists", {})
  key = (name, n.get_id())
  if key not in pool:
    pool[key] = core.symbolic_list(name, make, n=n) + (n,)
    # A list has at least no elements; also of an element of a list.
  v, dom, _ = pool[key]
  return v, dom


def sym_msg(cls, name, idx=(), has=True):
  m = cls()
  m.__dict__["_mk"] = Maker(name, tuple(idx), has)
  return m


def msg_class(desc):
  if desc.full_name in _classes:
    return _classes[desc.full_name]
  ns = {"DESCRIPTOR": desc, "__module__": "proto"}
  for e in desc.enum_types:
    ns[e.name] = EnumType(e)
    for v in e.values:
      ns[v.name] = v.number
  cls = type(desc.name, (Msg,), ns)
  _classes[desc.full_name] = cls
  for n in desc.nested_types:
    if not n.GetOptions().map_entry:
      setattr(cls, n.name, msg_class(n))
  return cls


class EnumType:

  def __init__(self, e):
    self.e = e

  def Name(self, n):
    if is_sym(n):
      return "<enum>"
    return self.e.values_by_number[n].name

  def Value(self, s):
    return self.e.values_by_name[s].number


class ModuleStub:
  """Stands for a *_pb2 module."""

  def __init__(self, mod):
    d = mod.DESCRIPTOR
    for n, m in d.message_types_by_name.items():
      setattr(self, n, msg_class(m))
    for n, e in d.enum_types_by_name.items():
      setattr(self, n, EnumType(e))
      for v in e.values:
        setattr(self, v.name, v.number)
