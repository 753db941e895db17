"""core/manifests/falsifiable_filters.py: pruning by column statistics.

Statement (C08): if the falsifiable filter of a filter is true for the
manifest row of a file, the filter is true for no row of that file. Proved
for a generic row of the file by induction on the structure of the filter
(the recursive calls are cut by the induction hypothesis).
"""
from __future__ import annotations

import sys

import z3

from engine import arrow, core, proto
from engine.arrow import Expr
from engine.core import (cx, VList, SymBool, SymNum, SymStr, Implies, Not, I,
                         B, R, Str, Unsupported, term, ufun, sym_int, sym_str,
                         vc_eq)
from engine.stubs import patched
from engine.unit import unit, call, Raised, error_name

OPS = {"gt": lambda a, b: a > b, "gte": lambda a, b: a >= b,
       "lt": lambda a, b: a < b, "lte": lambda a, b: a <= b,
       "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b}


def FF():
  return sys.modules["space.core.manifests.falsifiable_filters"]


class Names:
  """schema.names: any list of field names."""
  vc_constant = True

  def __getitem__(self, i):
    return SymStr(ufun("field_name", I, Str)(term(i)))


class Ids:
  vc_constant = True

  def __getitem__(self, n):
    return SymNum(ufun("field_id", Str, I)(term(n)))


class Keys:
  vc_constant = True

  def contains(self, n):
    return SymBool(ufun("is_key", Str, B)(term(n)))


class Extensions:
  vc_constant = True

  def __getitem__(self, i):
    name = SymStr(ufun("function_name", I, Str)(term(i)))
    return type("X", (), {"extension_function": type("Y", (), {
        "name": name})()})()


def row_value(name):
  """The value of a field in the generic row of the file: (value, null)."""
  t = term(name)
  return ufun("row.value", Str, R)(t), ufun("row.null", Str, B)(t)


def stats_env(names):
  """The manifest row of the file: a stats field and min or max."""
  if len(names) != 2 or names[1] not in ("_MIN", "_MAX"):
    raise Unsupported(f"field reference {names}")
  t = term(names[0])
  return (ufun("stats" + names[1], Str, R)(t),
          ufun("stats.null" + names[1], Str, B)(t))


def assume_truthful(name):
  """C09: the stats of a primary key bound its non-null values, or are null.

  The value of the row is null, or both bounds are null or bound it.
  """
  su = sys.modules["space.core.schema.utils"]
  st = su.stats_field_name(Ids()[name])
  v, n = row_value(name)
  lo, lon = stats_env((st, "_MIN"))
  hi, hin = stats_env((st, "_MAX"))
  cx.assume(z3.Implies(z3.Not(n), z3.And(z3.Or(lon, lo <= v),
                                         z3.Or(hin, v <= hi))))


class NoPeek(proto.Msg):
  """A subexpression that only the induction hypothesis talks about."""


def make_operand(msg, what, truths):
  """Fills in an operand; returns (kind, value or None)."""
  for kind in ("selection", "literal", "function"):
    if cx.choose(f"{what} is a {kind}"):
      break
  else:
    kind = "other"
  if kind == "selection":
    ix = sym_int(what + ".field")
    msg.selection.direct_reference.struct_field.field = ix
    name = Names()[ix]
    if bool(Keys().contains(name)):
      assume_truthful(name)
    v, n = row_value(name)
    truths.append((msg, z3.And(v != 0, z3.Not(n))))
    return kind, (v, n)
  if kind == "literal":
    if cx.choose(f"{what} is a number"):
      v = sym_int(what + ".value")
      msg.literal.i64 = v
      truths.append((msg, v.t != 0))
    elif cx.choose(f"{what} is a string"):
      v = sym_str(what + ".value")
      msg.literal.string = v
      truths.append((msg, F_))
    else:
      v = core.sym_bool(what + ".value")
      msg.literal.boolean = v
      truths.append((msg, v.t))
    val, null = arrow.value_term(v)
    return kind, (arrow.ordered(val), null)
  if kind == "function":
    d = msg.__dict__
    d["scalar_function"] = Sealed()
    d["_has_scalar_function"] = True
    t = cx.fresh(what + ".true", B)
    truths.append((msg, t))
    return kind, (None, None)
  truths.append((msg, cx.fresh(what + ".true", B)))
  return kind, (None, None)


F_ = z3.BoolVal(False)


class Sealed:
  vc_constant = True

  def __getattr__(self, n):
    raise Unsupported("a look into a subexpression")


def expression():
  import substrait.algebra_pb2 as alg
  return proto.msg_class(alg.Expression.DESCRIPTOR)()


@unit("C08 C06 C07 C22", "falsifiable filter",
      ["core/manifests/falsifiable_filters.py:_falsifiable_filter_internal",
       "core/manifests/falsifiable_filters.py:_falsifiable_condition_fields",
       "core/manifests/falsifiable_filters.py:_falsifiable_condition_literals",
       "core/manifests/falsifiable_filters.py:"
       "_falsifiable_condition_field_literal",
       "core/manifests/falsifiable_filters.py:_min_max",
       "core/manifests/falsifiable_filters.py:_value"], budget=200,
      paths=3000)
def falsifiable():
  ff = FF()
  fn = ff._falsifiable_filter_internal
  truths = []
  expr = expression()
  if cx.choose("not a function"):
    k, v = make_operand(expr, "expr", truths)
    if k == "function":
      raise core.PathEnd()
    true = truths[0][1]
    what = "a filter without function"
  else:
    sf = expr.scalar_function
    ref = sym_int("function")
    sf.function_reference = ref
    name = Extensions()[ref].extension_function.name
    n = 2 if cx.choose("two arguments") else (
        1 if cx.choose("one argument") else 3)
    ops = []
    for i in range(n):
      a = sf.arguments.add()
      ops.append(make_operand(a.value, f"arg{i}", truths))
      a._set("value")
    # Precondition: no negation (known finding C08-not).
    cx.assume(name != "not")
    if n != 2:
      true = cx.fresh("expr.true", B)
      what = "another function"
    else:
      (k0, (v0, n0)), (k1, (v1, n1)) = ops
      t0, t1 = truths[0][1], truths[1][1]
      true = cx.fresh("expr.true", B)
      cx.assume(Implies(name == "and", true == z3.And(t0, t1)))
      cx.assume(Implies(name == "or", true == z3.Or(t0, t1)))
      if v0 is not None and v1 is not None:
        for f, op in OPS.items():
          cx.assume(Implies(name == f, true == z3.And(
              op(v0, v1), z3.Not(n0), z3.Not(n1))))
      what = f"{k0} and {k1}"

  def ih(extensions, field_names, primary_keys, field_name_ids, e):
    t = [t for m, t in truths if m is e]
    if not t:
      raise Unsupported("recursion into something else")
    if cx.choose("recursion: not supported"):
      raise ff._ExpressionException("x")
    if cx.choose("recursion: no filter"):
      return None
    a, b = cx.fresh("sub.true", B), cx.fresh("sub.null", B)
    cx.assume(z3.Not(z3.And(a, b)))
    cx.assume(z3.Implies(t[0], z3.Not(a)))
    return Expr("opaque", lambda env: (a, b))
  with patched(ff, _falsifiable_filter_internal=ih):
    r = call(fn, Extensions(), Names(), Keys(), Ids(), expr)
  if isinstance(r, Raised):
    cx.record("a filter that is not supported is reported as such",
              error_name(r) == "_ExpressionException", str(r))
    return
  if r is None:
    cx.record("no pruning is always allowed", True)
    return
  t, n = r.ev(stats_env)
  cx.prove(f"{what}: if the file is skipped no row of it matches",
           z3.Implies(true, z3.Not(z3.And(t, z3.Not(n)))))


@unit("C08", "build_manifest_filter",
      ["core/manifests/falsifiable_filters.py:build_manifest_filter",
       "core/manifests/falsifiable_filters.py:_falsifiable_filter"],
      budget=60)
def build_filter():
  ff = FF()
  import substrait.extended_expression_pb2 as xx
  ext = proto.msg_class(xx.ExtendedExpression.DESCRIPTOR)()
  single = cx.choose("one expression")
  if single:
    ext.referred_expr.add()
  matches = cx.fresh("row matches", B)
  user = Expr("opaque", lambda env: (matches, F_))
  calls = []

  def internal(extensions, names, keys, ids, e):
    calls.append((extensions, e))
    if cx.choose("not supported"):
      raise ff._ExpressionException("x")
    if cx.choose("no filter"):
      return None
    a, b = cx.fresh("ff.true", B), cx.fresh("ff.null", B)
    cx.assume(z3.Not(z3.And(a, b)))
    cx.assume(z3.Implies(matches, z3.Not(a)))
    return Expr("opaque", lambda env: (a, b))

  class Schema:
    vc_constant = True
    names = Names()
  sch = Schema()

  def substrait(schema, e):
    cx.record("the filter of the user is analysed", e is user)
    return ext
  with patched(ff, _falsifiable_filter_internal=internal,
               _substrait_expr=substrait):
    r = call(ff.build_manifest_filter, sch, Keys(), Ids(), user)
  cx.record("a filter that cannot be analysed is no error",
            not isinstance(r, Raised), str(r))
  if isinstance(r, Raised) or r is None:
    return
  cx.record("only one expression is analysed", single)
  t, n = r.ev(stats_env)
  cx.prove("a file with a matching row is kept, or its filter is null",
           z3.Implies(matches, z3.Or(t, n)))
