"""Contracts of pyarrow (trusted): expressions, scalars, tables, files."""
from __future__ import annotations

import operator
import sys

import z3

from engine import core
from engine.core import (cx, VList, SymBool, SymNum, SymStr, Unsupported, I,
                         B, R, Str, wrap, term, ufun, is_sym)

OPS = {"lt": operator.lt, "le": operator.le, "gt": operator.gt,
       "ge": operator.ge, "eq": operator.eq, "ne": operator.ne}
T, F = z3.BoolVal(True), z3.BoolVal(False)


# ----------------------------------------------------------------------------
# values: every type is a totally ordered set, embedded in the reals
# ----------------------------------------------------------------------------
def value_term(x):
  """(value, null) of a Python or symbolic scalar; values are reals."""
  if x is None:
    return z3.RealVal(0), T
  if isinstance(x, Scalar):
    return x.v, x.null
  if type(x) is SymBool or type(x) is bool:
    return z3.If(core.as_bool(x), z3.RealVal(1), z3.RealVal(0)), F
  if type(x) is SymNum:
    return (z3.ToReal(x.t) if x.t.sort() == I else x.t), F
  if type(x) in (int, float):
    return z3.RealVal(x), F
  if type(x) is SymStr or type(x) is str:
    return term(x), F
  raise Unsupported(f"Arrow scalar of {type(x).__name__}")


def ordered(t):
  """A value as an element of the total order of its type."""
  if t.sort() != Str:
    return t
  o = ufun("order", Str, R)(t)
  d = ufun("order.of", R, Str)(o) == t
  if not any(x.eq(d) for x in cx.defs):
    cx.defs.append(d)
  return o


class Scalar:
  """A pa.Scalar with a symbolic value."""

  def vc_subst(self, sub):
    return Scalar(sub(self.v), sub(self.null))

  def __init__(self, v, null=F):
    self.v, self.null = v, null

  def as_py(self):
    if z3.is_false(z3.simplify(self.null)):
      return wrap(self.v)
    if bool(SymBool(self.null)):
      return None
    return wrap(self.v)


class Expr:
  """pc.Expression: a syntax tree with SQL (Kleene) semantics.

  ev(env) is (is true, is null) for conditions and (value, null) for values;
  env(names) gives the value of a field reference.
  """
  vc_constant = True

  def __init__(self, kind, *args):
    self.kind, self.args = kind, args

  # -- construction ------------------------------------------------------------
  def _bin(self, op, o):
    o = core.unopt(o)
    return Expr(op, self, o if isinstance(o, Expr) else Expr("scalar", o))

  def __and__(self, o): return self._bin("and", o)
  def __or__(self, o): return self._bin("or", o)
  def __rand__(self, o): return self._bin("and", o)
  def __ror__(self, o): return self._bin("or", o)
  def __invert__(self): return Expr("not", self)
  def __lt__(self, o): return self._bin("lt", o)
  def __le__(self, o): return self._bin("le", o)
  def __gt__(self, o): return self._bin("gt", o)
  def __ge__(self, o): return self._bin("ge", o)
  def __eq__(self, o): return self._bin("eq", o)
  def __ne__(self, o): return self._bin("ne", o)
  __hash__ = object.__hash__

  def __bool__(self):
    raise ValueError("An Expression cannot be evaluated to python True or "
                     "False.")

  def is_null(self, nan_is_null=False):
    return Expr("is_null", self)

  def is_valid(self):
    return Expr("not", Expr("is_null", self))

  def isin(self, values):
    if type(values) is VList:
      values = values.need("isin")
    r = Expr("scalar", False)
    for v in values:
      r = r | (self == v)
    return r

  def __repr__(self):
    return f"({self.kind} {' '.join(map(repr, self.args))})"

  # -- meaning -----------------------------------------------------------------
  def val(self, env):
    """(value, null) of an expression that is a value."""
    if self.kind == "field":
      return env(self.args)
    if self.kind == "scalar":
      return value_term(self.args[0])
    t, n = self.ev(env)
    return z3.If(t, z3.RealVal(1), z3.RealVal(0)), n

  def ev(self, env):
    """(is true, is null) of a condition; never both."""
    k = self.kind
    if k == "opaque":
      return self.args[0](env)
    if k in ("and", "or"):
      (at, an), (bt, bn) = self.args[0].ev(env), self.args[1].ev(env)
      af, bf = z3.Not(z3.Or(at, an)), z3.Not(z3.Or(bt, bn))
      if k == "and":
        t, f = z3.And(at, bt), z3.Or(af, bf)
      else:
        t, f = z3.Or(at, bt), z3.And(af, bf)
      return t, z3.Not(z3.Or(t, f))
    if k == "acc":
      raise Unsupported("the filter of an unfinished loop is used")
    if k == "any_of":
      t, n = self.args[0].ev(env)
      f = z3.Not(z3.Or(t, n))
      dom, alts = self.args[1:]

      def each(what):
        def fn(i):
          return z3.Or(*[z3.And(g, what(e)) for g, e in alts(i)],
                       z3.BoolVal(False))
        return core.exists(dom, fn).t

      def is_true(e):
        return e.ev(env)[0]

      def not_false(e):
        et, en = e.ev(env)
        return z3.Or(et, en)
      t2 = z3.Or(t, each(is_true))
      return t2, z3.And(z3.Not(t2), z3.Or(n, each(not_false)))
    if k == "not":
      t, n = self.args[0].ev(env)
      return z3.Not(z3.Or(t, n)), n
    if k == "is_null":
      a = self.args[0]
      n = a.val(env)[1] if a.kind in ("field", "scalar") else a.ev(env)[1]
      return n, F
    if k in ("field", "scalar"):
      v, n = self.val(env)
      return z3.And(ordered(v) != 0, z3.Not(n)), n
    (a, an), (b, bn) = self.args[0].val(env), self.args[1].val(env)
    null = z3.Or(an, bn)
    if not (k in ("eq", "ne") and a.sort() == b.sort()):
      a, b = ordered(a), ordered(b)
    c = OPS[k](a, b)
    return z3.And(c, z3.Not(null)), null

  def vc_subst(self, sub):
    if self.kind == "opaque":
      return self
    if self.kind == "any_of":
      raise Unsupported("a filter of a loop inside of a loop")
    return Expr(self.kind, *[sub.obj(a) for a in self.args])

  # -- the fold rule: filters made of one condition for each element --------------
  def vc_havoc(self, lp):
    return Expr("acc")

  @staticmethod
  def vc_fold(h, lp, comp, v0, posts, bad):
    alts = []
    for g, v in posts:
      if v is h:
        continue
      if v.kind != "or" or (v.args[0] is h) == (v.args[1] is h):
        raise Unsupported("a filter changed by a loop is not a disjunction")
      e = v.args[1] if v.args[0] is h else v.args[0]
      if e.has(h) or core.free_names(g) & bad or e.names() & bad:
        raise Unsupported("a filter depends on earlier iterations")
      alts.append((g, e))

    def at(t):
      sub = core.Subst([(lp.index, t)])
      return [(sub(g), e.vc_subst(sub)) for g, e in alts]
    return Expr("any_of", v0, comp.domain, at)

  @staticmethod
  def vc_join(h, v):
    return Expr("or", h, v)

  @staticmethod
  def vc_none():
    """The neutral element of the disjunctions."""
    return Expr("scalar", False)

  def leaves(self):
    out = []
    for a in self.args:
      if isinstance(a, Expr):
        out += a.leaves()
      else:
        out.append(a)
    return out

  def shape(self):
    if self.kind in ("opaque", "acc", "any_of"):
      raise Unsupported("the text of a filter")
    return self.kind + "(" + ",".join(
        a.shape() if isinstance(a, Expr) else "_" for a in self.args) + ")"

  def vc_str(self):
    return Text(self.shape(), self.leaves())

  def has(self, h):
    return self is h or any(isinstance(a, Expr) and a.has(h)
                            for a in self.args)

  def names(self):
    r = set()
    for a in self.args:
      if isinstance(a, Expr):
        r |= a.names()
      elif is_sym(a):
        r |= core.free_names(a.t)
      elif isinstance(a, Scalar):
        r |= core.free_names(a.v) | core.free_names(a.null)
    return r


class Text:
  """str(filter): equal for equal filters only."""

  def __init__(self, shape, leaves):
    self.shape, self.leaves = shape, leaves

  def vc_subst(self, sub):
    return Text(self.shape, [sub.obj(x) for x in self.leaves])

  def vc_key(self):
    return self.shape + ":" + ",".join(
        value_term(x)[0].sexpr() if isinstance(x, Scalar) else
        core._key_of(x) for x in self.leaves)

  def names(self):
    return Expr("scalar", *self.leaves).names()

  def __eq__(self, o):
    if not isinstance(o, Text):
      return False
    if self.shape != o.shape:
      return False
    rs = []
    for a, b in zip(self.leaves, o.leaves):
      if isinstance(a, Scalar) or isinstance(b, Scalar):
        (av, an), (bv, bn) = value_term(a), value_term(b)
        rs.append(SymBool(z3.And(an == bn, z3.Or(an, av == bv))
                          if av.sort() == bv.sort() else z3.BoolVal(False)))
      else:
        rs.append(core.vc_eq(a, b))
    return core.all_true(rs)
  __hash__ = None


def opaque(name, row_sort):
  """A filter given by the user: any condition on the row (a term)."""
  t = z3.Function(cx.name(name + ".true"), row_sort, B)
  n = z3.Function(cx.name(name + ".null"), row_sort, B)
  return Expr("opaque", lambda r: (z3.And(t(r), z3.Not(n(r))), n(r)))


class Compute:
  """pyarrow.compute"""
  vc_constant = True
  Expression = Expr

  @staticmethod
  def field(*names):
    return Expr("field", *names)

  @staticmethod
  def scalar(v):
    return Expr("scalar", v)

  def __getattr__(self, n):
    raise Unsupported(f"no contract for pyarrow.compute.{n}")


def replacements():
  import pyarrow.compute as pc
  return {id(pc): Compute()}
