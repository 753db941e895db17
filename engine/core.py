"""Deductive core: symbolic values, path exploration, loop rules, proofs.

The functions of /repo run in CPython, on symbolic arguments: every branch on a
symbolic condition splits the proof (both sides are explored), every loop over
a symbolic sequence is cut by a loop rule (fold rule on a generic element, or
an invariant given by the specification), calls may be cut by the contract of
the callee, and each postcondition becomes a verification condition

    path condition  =>  postcondition

that is discharged by z3 (cvc5 as second back end) for all inputs.
"""
from __future__ import annotations

import ctypes
import enum
import functools
import itertools
import math
import sys
import time
import types

import z3


class Unsupported(BaseException):
  """The code is outside what the prover models. Never a verdict."""


class PathEnd(BaseException):
  """The current path ends here (infeasible, or cut by a loop rule)."""


class RestartUnit(BaseException):
  """A loop modifies a location that was not known to be modified."""


Str = z3.DeclareSort("Str")
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()


# ----------------------------------------------------------------------------
# context
# ----------------------------------------------------------------------------
class Scope:
  """Where decisions are taken: the whole path, or one generic loop body."""

  def __init__(self):
    self.prefix, self.taken, self.alternatives = [], [], []
    self.guard = []


class Ctx:

  def __init__(self):
    self.reset_unit()

  def reset_unit(self):
    self.premat = {}        # loop site -> paths made before the loop
    self.mods = {}          # loop site -> ordered list of modified locations
    self.results = {}       # obligation name -> record
    self.paths = 0
    self.solver_s = 0.0
    self.n_checks = 0
    self.backends = set()
    self.deadline = None
    self.timeout_ms = 6000
    self.notes = set()
    self.new_unit_state()

  def new_unit_state(self):
    self.lits = {}

  def start_path(self, prefix):
    self.root = Scope()
    self.root.prefix = prefix
    self.pc = []
    self.defs = []          # definitions: hold on every path
    self.names = {}
    self.facts = []         # quantified facts: ForallFact
    self.domains = []
    self.sums = []
    self.exists = []
    self.loops = []         # active generic loops (innermost last)
    self.trace = VList([])
    self.collected = VList([])
    self.ghost = {}
    self.noted = None       # elements made known while a fact is made
    self.ghost_const = {}   # not part of the state
    self.ranges = []
    self.imprecise = None
    self.lits = {}
    self.assumed = []
    self.preds = {}         # exists, as a predicate of enclosing indices
    self.pred_cache = {}
    self.loose = set()      # functions known by a recursion only

  # -- naming -----------------------------------------------------------------
  def name(self, base):
    base = base.replace("!", "#")
    n = self.names.get(base, 0)
    self.names[base] = n + 1
    if n == 0:
      return base
    # The name of a domain, "d!1", may be part of a base.
    return base + f"!{n}"

  def fresh(self, base, sort):
    """A fresh term; inside a generic loop body, a function of its indices."""
    idx = [l.index for l in self.loops if l.index is not None]
    nm = self.name(base)
    if not idx:
      return z3.Const(nm, sort)
    f = z3.Function(nm, *[i.sort() for i in idx], sort)
    return f(*idx)

  def lit(self, s):
    """The Str constant of a Python string; distinct from all others."""
    if s not in self.lits:
      self.lits[s] = z3.Const("lit:" + s, Str)
    return self.lits[s]

  # -- assumptions --------------------------------------------------------------
  def assume(self, cond):
    c = as_bool(cond)
    if z3.is_true(c):
      return
    if self.loops:
      self.loops[-1].guard.append(c)
    self.pc.append(c)
    if z3.is_false(z3.simplify(c)):
      raise PathEnd()

  def background(self):
    """Facts that hold on every path: literals, quantified facts at all the
    known terms of their domains."""
    out = []
    lits = list(self.lits.values())
    if len(lits) > 1:
      out.append(z3.Distinct(*lits))
    return out

  def instances(self, formulas):
    """Instances of quantified facts at the relevant terms."""
    out, done = [], set()
    todo = True
    rounds = 0
    while todo and rounds < 4:
      todo = False
      rounds += 1
      for f in list(self.facts):
        for t in list(f.domain.terms):
          key = (id(f), t.get_id())
          if key in done:
            continue
          done.add(key)
          out.append(f.at(t))
          todo = True
          if f.pair is not None:
            for u in list(f.domain.terms):
              if not u.eq(t):
                if (id(f), u.get_id()) in done:
                  out.append(f.at_pair(u, t))
                  out.append(f.at_pair(t, u))
    return out

  # -- solving ------------------------------------------------------------------
  def check(self, extra, timeout_ms=None):
    t = time.time()
    if self.deadline and t > self.deadline:
      raise Unsupported("time budget of the proof is used up")
    s = z3.Solver()
    s.set("timeout", timeout_ms or self.timeout_ms)
    inst = self.instances(extra)
    if self.preds:
      for _ in range(4):
        if not _define_preds(self.pc + list(self.defs) + inst + list(extra)):
          break
        inst = self.instances(extra)
    s.add(*self.pc, *self.defs, *self.background(), *inst, *extra)
    r = s.check()
    self.n_checks += 1
    self.solver_s += time.time() - t
    return r, s

  def feasible(self, cond):
    r, _ = self.check([cond], 1500)
    return r != z3.unsat

  def entails(self, cond, timeout_ms=2000):
    r, _ = self.check([z3.Not(as_bool(cond))], timeout_ms)
    return r == z3.unsat

  def branch(self, cond):
    c = z3.simplify(cond)
    if z3.is_true(c):
      return True
    if z3.is_false(c):
      return False
    scope = self.loops[-1] if self.loops else self.root
    k = len(scope.taken)
    if k < len(scope.prefix):
      v = scope.prefix[k]
      if type(v) is not bool:
        raise Unsupported("the exploration is not deterministic")
    else:
      t_ok = self.feasible(cond)
      f_ok = self.feasible(z3.Not(cond))
      if not t_ok and not f_ok:
        raise PathEnd()
      if t_ok and f_ok:
        scope.alternatives.append(list(scope.taken) + [False])
      v = t_ok
    scope.taken.append(v)
    c = cond if v else z3.Not(cond)
    self.pc.append(c)
    scope.guard.append(c)
    return v

  def case(self, fn):
    """Explores fn on its own: what it decides and assumes stays inside of it.
    For postconditions; fn must not change the state."""
    if self.loops:
      raise Unsupported("a case inside of a loop")
    keep = (self.root, len(self.pc), self.imprecise)
    todo = [[]]
    try:
      while todo:
        sc = Scope()
        sc.prefix = todo.pop()
        self.root = sc
        del self.pc[keep[1]:]
        try:
          fn()
        except PathEnd:
          pass
        todo += sc.alternatives
    finally:
      self.root = keep[0]
      del self.pc[keep[1]:]
      self.imprecise = keep[2]

  def choose(self, label):
    """A free binary choice (both sides are explored)."""
    return self.branch(self.fresh("choice:" + label, B))

  def prove(self, name, cond, detail=None):
    """An obligation on this path."""
    c = as_bool(cond)
    rec = self.results.setdefault(
        name, {"name": name, "status": "discharged", "paths": 0, "s": 0.0,
               "backend": "z3", "detail": None})
    rec["paths"] += 1
    t = time.time()
    goal = c
    r, s = self.check([z3.Not(goal)], 5000 if self.sums else 15000)
    if r != z3.unsat and self.sums:
      for near in (True, False):
        goal = self.relate_sums(c, near)
        if goal is c:
          continue
        r, s = self.check([z3.Not(goal)], 15000)
        if r == z3.unsat:
          break
    if r == z3.unknown:
      r2 = cvc5_check(s)
      if r2 == "unsat":
        r = z3.unsat
        rec["backend"] = "z3+cvc5"
        self.backends.add("cvc5")
    self.backends.add("z3")
    if r == z3.sat and self.widen([goal]):
      # Facts at all the terms that occur: a second look at the model.
      r, s = self.check([z3.Not(goal)], 15000)
    rec["s"] += time.time() - t
    if r == z3.unsat:
      return True
    st = "unknown"
    loose = self.loose and (self.loose & set().union(
        free_names(c), *[free_names(x) for x in self.pc]))
    if r == z3.sat and not self.imprecise and not loose:
      st = "refuted"
    if rec["status"] != "refuted":
      rec["status"] = st
      model = ""
      if r == z3.sat:
        try:
          model = str(s.model())[:1500]
        except Exception:  # noqa
          pass
      rec["detail"] = {"goal": str(z3.simplify(c))[:600], "note": detail,
                       "path": [str(x)[:160] for x in self.pc[-25:]],
                       "imprecise": self.imprecise, "model": model}
    return False

  def record(self, name, ok, detail=None):
    """An obligation decided without a solver (syntactic)."""
    rec = self.results.setdefault(
        name, {"name": name, "status": "discharged", "paths": 0, "s": 0.0,
               "backend": "engine", "detail": None})
    rec["paths"] += 1
    if ok:
      return True
    self.widen([])
    r, _ = self.check([], 15000)
    if r == z3.unsat:     # not a path after all
      return True
    if rec["status"] != "refuted":
      loose = self.loose and (self.loose & set().union(
          *[free_names(x) for x in self.pc]))
      rec["status"] = ("unknown" if self.imprecise or loose or r != z3.sat
                       else "refuted")
      rec["detail"] = {"note": detail, "imprecise": self.imprecise,
                       "path": [str(x)[:160] for x in self.pc[-25:]]}
    return ok

  def infeasible(self):
    """The path cannot happen (an assumption made it vacuous)."""
    return self.check([], 2000)[0] == z3.unsat

  def widen(self, goals):
    """Makes every subterm of the current path known to the domains of its
    sort, so that quantified facts hold there."""
    if not self.facts:
      return False
    seen, todo, by_sort = set(), list(self.pc) + list(goals), {}
    while todo:
      x = todo.pop()
      if x.get_id() in seen:
        continue
      seen.add(x.get_id())
      if z3.is_quantifier(x):
        continue
      if x.sort() in (I, Str) and not z3.is_int_value(x) and not (
          x.decl().kind() == z3.Z3_OP_ITE):
        by_sort.setdefault(x.sort().name(), []).append(x)
      todo += x.children()
    new = False
    for d in {id(f.domain): f.domain for f in self.facts}.values():
      for t in by_sort.get(d.sort.name(), [])[:60]:
        if not any(t.eq(y) for y in d.terms):
          d.terms.append(t)
          new = True
    return new

  def mark_imprecise(self, why):
    self.imprecise = self.imprecise or why

  # -- sums ---------------------------------------------------------------------
  def relate_sums(self, goal, near=False):
    """Replaces a linear combination of sums over one domain by zero when its
    integrand is zero for a generic element."""
    if not self.sums:
      return goal
    consts = {s.const.get_id(): s for s in self.sums}
    rel = []
    by_dom = {}
    names = free_names(goal) if near else ()
    for s in self.sums:
      if s.params:
        continue
      if near and s.const.decl().name() not in names:
        continue
      by_dom.setdefault(id(s.domain), []).append(s)
    for group in by_dom.values():
      if len(group) < 2 and not any(s.integrand_const() for s in group):
        continue
      rel += sum_relations(self, group)
    if rel:
      return z3.Implies(z3.And(*rel), goal)
    return goal


cx = Ctx()


def cvc5_check(solver):
  try:
    import cvc5
    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    s = cvc5.Solver(tm) if tm else cvc5.Solver()
    s.setOption("tlimit-per", "10000")
    p = cvc5.InputParser(s)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, solver.to_smt2(), "q")
    sm = p.getSymbolManager()
    res = None
    while True:
      cmd = p.nextCommand()
      if cmd.isNull():
        break
      out = cmd.invoke(s, sm)
      if "unsat" in str(out):
        res = "unsat"
    return res
  except Exception:  # noqa
    return None


def free_names(e):
  out, seen, todo = set(), set(), [e]
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
      out.add(x.decl().name())
    if z3.is_quantifier(x):
      todo.append(x.body())
    else:
      todo += x.children()
  return out


# ----------------------------------------------------------------------------
# scalars
# ----------------------------------------------------------------------------
def as_bool(x):
  if isinstance(x, SymBool):
    return x.t
  if isinstance(x, bool):
    return z3.BoolVal(x)
  if isinstance(x, z3.BoolRef):
    return x
  raise Unsupported(f"not a condition: {x!r}")


class Sym:
  """Base of symbolic scalars; `t` is the z3 term."""
  __slots__ = ("t",)

  def __init__(self, t):
    self.t = t

  def vc_subst(self, sub):
    return type(self)(sub(self.t))

  def __repr__(self):
    return f"<{self.t}>"

  def __deepcopy__(self, memo):
    return self


class SymBool(Sym):
  __slots__ = ()

  def __bool__(self):
    return cx.branch(self.t)

  def __invert__(self):
    return SymBool(z3.Not(self.t))

  def __and__(self, o):
    return SymBool(z3.And(self.t, as_bool(o)))

  def __or__(self, o):
    return SymBool(z3.Or(self.t, as_bool(o)))
  __rand__, __ror__ = __and__, __or__

  def __eq__(self, o):
    if isinstance(o, (bool, SymBool)):
      return SymBool(self.t == as_bool(o))
    return False

  def __ne__(self, o):
    return neg(self == o)

  def __hash__(self):
    raise Unsupported("hash of a symbolic bool")

  @property
  def __class__(self):
    return bool


def neg(x):
  return (not x) if type(x) is bool else SymBool(z3.Not(x.t))


def num_term(x):
  if isinstance(x, SymNum):
    return x.t
  if type(x) is bool:
    return z3.IntVal(int(x))
  if isinstance(x, int):
    return z3.IntVal(x)
  if type(x) is SymBool:
    return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
  if isinstance(x, z3.ArithRef):
    return x
  return None


class SymNum(Sym):
  """A mathematical integer (or an ordered field value, of sort Real)."""
  __slots__ = ()

  def _bin(self, o, f):
    t = num_term(o)
    if t is None:
      return NotImplemented
    return wrap(f(self.t, t))

  def __add__(self, o): return self._bin(o, lambda a, b: a + b)
  def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
  def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
  def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
  def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
  def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
  def __neg__(self): return wrap(-self.t)

  def __floordiv__(self, o):
    t = num_term(o)
    positive(t)
    return wrap(self.t / t)

  def __rfloordiv__(self, o):
    return wrap(num_term(o)).__floordiv__(self)

  def __mod__(self, o):
    t = num_term(o)
    positive(t)
    return wrap(self.t % t)

  def __truediv__(self, o):
    t = num_term(o)
    if self.t.sort() != I or t.sort() != I:
      raise Unsupported("division of reals")
    positive(t)
    return Ratio(self.t, t)

  def __rtruediv__(self, o):
    return wrap(num_term(o)).__truediv__(self) if is_sym(o) else (
        SymNum(num_term(o)).__truediv__(self))

  def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
  def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
  def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
  def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)

  def __eq__(self, o):
    t = num_term(o)
    return False if t is None else wrap(self.t == t)

  def __ne__(self, o):
    return neg(self == o)

  def __bool__(self):
    return cx.branch(self.t != 0)

  def __hash__(self):
    raise Unsupported("hash of a symbolic number")

  def __index__(self):
    raise Unsupported("a symbolic number where Python needs a concrete one")
  __int__ = __index__

  @property
  def __class__(self):
    return int if self.t.sort() == I else float


class SymStr(Sym):
  __slots__ = ()

  def __eq__(self, o):
    if isinstance(o, SymStr) or type(o) is SymStr:
      return SymBool(self.t == o.t)
    if type(o) is str:
      return SymBool(self.t == cx.lit(o))
    return False

  def __ne__(self, o):
    return neg(self == o)

  def __bool__(self):
    return cx.branch(self.t != cx.lit(""))

  def __hash__(self):
    raise Unsupported("hash of a symbolic string")

  def __add__(self, o):
    return fstr(self, o)

  def __radd__(self, o):
    return fstr(o, self)

  def __str__(self):
    return f"<{self.t}>"

  def __format__(self, spec):
    return f"<{self.t}>"

  def encode(self, encoding="utf-8"):
    if encoding.lower().replace("_", "-") not in ("utf-8", "utf8"):
      raise Unsupported(f"encoding {encoding}")
    return SymBytes(self)

  def __getattr__(self, n):
    raise Unsupported(f"string method {n}")

  @property
  def __class__(self):
    return str


class SymBytes:
  """The UTF-8 bytes of a symbolic string."""
  vc_constant = True

  def __init__(self, s):
    self.s = s

  def decode(self, encoding="utf-8"):
    if encoding.lower().replace("_", "-") not in ("utf-8", "utf8"):
      raise Unsupported(f"encoding {encoding}")
    return self.s

  def __eq__(self, o):
    if type(o) is SymBytes:
      return self.s == o.s
    if type(o) is bytes:
      return self.s == o.decode("utf-8")
    return False

  def __ne__(self, o):
    return neg(self == o)

  __hash__ = None

  @property
  def __class__(self):
    return bytes


def wrap(t):
  if isinstance(t, z3.BoolRef):
    return SymBool(t)
  if isinstance(t, z3.ArithRef):
    return SymNum(t)
  if t.sort() == Str:
    return SymStr(t)
  raise Unsupported(f"term of sort {t.sort()}")


def is_sym(x):
  return type(x) in (SymBool, SymNum, SymStr)


def term(x, like=None):
  """The z3 term of a scalar Python or symbolic value."""
  if is_sym(x):
    return x.t
  if isinstance(x, bool):
    return z3.BoolVal(x)
  if isinstance(x, int):
    return z3.IntVal(x)
  if isinstance(x, str):
    return cx.lit(x)
  if isinstance(x, z3.ExprRef):
    return x
  raise Unsupported(f"no term for {type(x).__name__}")


_fns = {}


def ufun(name, *sorts):
  key = (name,) + tuple(s.name() for s in sorts)
  if key not in _fns:
    _fns[key] = z3.Function(name, *sorts)
  return _fns[key]


def fstr(*parts):
  """An f-string: concrete if all parts are, else an uninterpreted function of
  its symbolic parts (by template)."""
  parts = [p.vc_str() if hasattr(type(p), "vc_str") else p for p in parts]
  if not any(is_sym(p) for p in parts):
    if all(isinstance(p, (str, int, float)) for p in parts):
      return "".join(str(p) for p in parts)
    return "<message>"
  tpl = "|".join("{}" if is_sym(p) else str(p) for p in parts)
  args = [p.t for p in parts if is_sym(p)]
  r = ufun("fmt:" + tpl, *[a.sort() for a in args], Str)(*args)
  if len(args) == 1 and not _params(r, None):
    # One part with a fixed text around it can be read back.
    cx.defs.append(ufun("of:" + tpl, Str, args[0].sort())(r) == args[0])
  return SymStr(r)


def sym_int(base): return SymNum(cx.fresh(base, I))
def sym_str(base): return SymStr(cx.fresh(base, Str))
def sym_bool(base): return SymBool(cx.fresh(base, B))
def sym_real(base): return SymNum(cx.fresh(base, R))


def ite(c, a, b):
  if type(c) is bool:
    return a if c else b
  return wrap(z3.If(as_bool(c), term(a), term(b)))


def And(*xs):
  return SymBool(z3.And(*[as_bool(x) for x in xs])) if xs else True


def Or(*xs):
  return SymBool(z3.Or(*[as_bool(x) for x in xs])) if xs else False


def Not(x):
  return SymBool(z3.Not(as_bool(x)))


def Implies(a, b):
  return SymBool(z3.Implies(as_bool(a), as_bool(b)))


# ----------------------------------------------------------------------------
# domains, quantified facts, sums
# ----------------------------------------------------------------------------
def positive(t):
  """Divisions are only by what is known to be positive."""
  if z3.is_true(z3.simplify(t > 0)) or cx.entails(t > 0):
    return
  raise Unsupported("division by what may not be positive")


class Ratio:
  """a / b, for integers."""
  vc_constant = True

  def __init__(self, a, b):
    self.a, self.b = a, b

  def ceil(self):
    return wrap(-((-self.a) / self.b))

  def floor(self):
    return wrap(self.a / self.b)


class Math:
  """The module math."""
  vc_constant = True

  @staticmethod
  def ceil(x):
    if isinstance(x, Ratio):
      return x.ceil()
    return x if is_sym(x) and x.t.sort() == I else math.ceil(x)

  @staticmethod
  def floor(x):
    if isinstance(x, Ratio):
      return x.floor()
    return x if is_sym(x) and x.t.sort() == I else math.floor(x)

  def __getattr__(self, n):
    if n in ("inf", "nan", "pi"):
      return getattr(math, n)
    raise Unsupported(f"no contract for math.{n}")


class Domain:
  """A set of z3 terms over which loops, sums and facts range.

  Index domains are 0 <= i < n; key domains have a membership predicate.
  """

  def __init__(self, name, n=None, member=None, sort=I, params=()):
    self.name = cx.name("D:" + name)
    self.n, self.member_fn, self.sort = n, member, sort
    self.params = params
    self.terms = []
    cx.domains.append(self)
    if n is not None:
      cx.defs.append(n >= 0)

  def member(self, t):
    if self.member_fn is not None:
      return as_bool(self.member_fn(t))
    return z3.And(t >= 0, t < self.n)

  def note(self, t):
    """Makes quantified facts of this domain available at a term."""
    if cx.noted is not None:
      cx.noted.append((self, t))
    if not any(x.eq(t) for x in self.terms):
      self.terms.append(t)
    return t

  def fact(self, fn, pair=None):
    """fn(t) holds for each element; pair(t, u) for each two."""
    f = ForallFact(self, fn, pair)
    cx.facts.append(f)
    return f

  def generic(self, base="i"):
    t = cx.fresh(f"{base}:{self.name}", self.sort)
    self.note(t)
    return t

  def nonempty(self):
    if self.n is not None:
      return self.n > 0
    return exists(self, lambda t: z3.BoolVal(True)).t


class ForallFact:

  def __init__(self, domain, fn, pair=None):
    self.domain, self.fn, self.pair = domain, fn, pair
    self.cache = {}

  def at(self, t):
    """The instance at a term; elements it makes known are known again."""
    c = self.cache.get(t.get_id())
    if c is None:
      outer, cx.noted = cx.noted, []
      inst = z3.Implies(self.domain.member(t), as_bool(self.fn(t)))
      c = self.cache[t.get_id()] = (inst, cx.noted, t)
      cx.noted = outer
      if outer is not None:
        outer += c[1]
    else:
      for d, u in c[1]:
        d.note(u)
    return c[0]

  def at_pair(self, t, u):
    k = (t.get_id(), u.get_id())
    c = self.cache.get(k)
    if c is None:
      c = self.cache[k] = (z3.Implies(self.domain.member(t), as_bool(
          self.pair(t, u))), t, u)
    return c[0]


class _Exists:
  pass


def _match(domain, fn, pool, probe_extra=()):
  """Finds a registered entry whose body is equal for a generic element."""
  g = z3.Const(f"probe:{domain.name}", domain.sort)
  new = fn(g)
  for e in pool:
    if e.domain is not domain:
      continue
    old = e.fn(g)
    if old.sort() != new.sort():
      continue
    if old.eq(new):
      return e
  domain_terms = list(domain.terms)
  for e in pool:
    if e.domain is not domain:
      continue
    old = e.fn(g)
    if old.sort() != new.sort():
      continue
    domain.note(g)
    r, _ = cx.check([domain.member(g), old != new], 1500)
    domain.terms = domain_terms
    if r == z3.unsat:
      return e
  return None


def exists(domain, fn):
  """SymBool: some element of the domain satisfies fn (a z3 Bool of a term)."""
  return exists_one(domain, fn)[0]


def exists_one(domain, fn):
  """exists, and a term that satisfies fn if there is one."""
  g = z3.Const(f"probe:{domain.name}", domain.sort)
  body = z3.simplify(as_bool(fn(g)))
  if z3.is_false(body):
    return SymBool(z3.BoolVal(False)), None
  if z3.is_true(body) and domain.n is not None:
    domain.note(z3.IntVal(0))
    return SymBool(z3.simplify(domain.n > 0)), z3.IntVal(0)
  b0 = as_bool(fn(g))
  fz = lambda t: z3.substitute(b0, (g, t))  # noqa
  params = _params(z3.And(body, domain.member(g)), g)
  if params:
    # Depends on enclosing generic elements: a predicate of these.
    nm = next((k for k, v in cx.preds.items() if v[1] is domain and
               len(v[0]) == len(params) and v[4].eq(b0) and
               all(a.eq(b) for a, b in zip(v[0], params))), None)
    old = nm
    nm = nm or cx.name(f"E:{domain.name}")
    c = z3.Function(nm, *[p.sort() for p in params], B)(*params)
    sk = z3.Function(nm + ":w", *[p.sort() for p in params], domain.sort)(
        *params)
  else:
    old = None
    e = _match(domain, fz, cx.exists)
    if e is not None:
      return SymBool(e.const), e.witness
    nm = cx.name(f"E:{domain.name}")
    c = z3.Const(nm, B)
    sk = z3.Const(nm + ":w", domain.sort)
  ent = _Exists()
  ent.domain, ent.fn, ent.const, ent.witness = domain, fz, c, sk
  if not params:
    cx.exists.append(ent)
  domain.note(sk)
  cx.defs.append(z3.Implies(c, z3.And(domain.member(sk), fz(sk))))
  domain.fact(lambda t: z3.Implies(z3.Not(c), z3.Not(fz(t))))
  if params and not old:
    cx.preds[nm] = (params, domain, c, sk, b0, g, {c.get_id(): c})
  return SymBool(c), sk


def _define_preds(formulas):
  """The predicates of enclosing indices, at the other indices for which they
  occur; True if there are new ones."""
  new = False
  for f in formulas:
    for a in _pred_apps(f):
      params, domain, c, sk, b0, g, seen = cx.preds[a.decl().name()]
      if a.get_id() in seen or len(seen) > 40:
        continue
      seen[a.get_id()] = a
      args = a.children()
      if any(n.startswith("probe:") for x in args for n in free_names(x)):
        continue
      new = True
      _define_pred(list(zip(params, args)), domain, a, sk, b0, g)
  return new


def _define_pred(sub, domain, a, sk, b0, g):
  wt, body = z3.substitute(sk, *sub), z3.substitute(b0, *sub)
  cx.defs.append(z3.Implies(a, z3.And(
      z3.substitute(domain.member(sk), *sub), z3.substitute(body, (g, wt)))))
  if domain.n is not None:
    n = z3.substitute(domain.n, *sub)
    if not n.eq(domain.n):
      if not any(d is domain for _, d in cx.ranges):
        return
      domain = index_domain(n)
  domain.note(wt)
  domain.fact(lambda u: z3.Implies(z3.Not(a), z3.Not(
      z3.substitute(body, (g, u)))))


def _pred_apps(f):
  c = cx.pred_cache.get(f.get_id())
  if c is not None:
    return c[1]
  out, todo, seen = [], [f], set()
  while todo:
    e = todo.pop()
    if e.get_id() in seen or not z3.is_app(e):
      continue
    seen.add(e.get_id())
    if e.decl().name() in cx.preds and e.num_args():
      out.append(e)
    todo += e.children()
  cx.pred_cache[f.get_id()] = (f, out)
  return out


def forall(domain, fn):
  return Not(exists(domain, lambda t: z3.Not(as_bool(fn(t)))))


def _params(e, g):
  """Indices of the enclosing generic loop bodies that a term mentions."""
  names = free_names(e)
  out = []
  for l in cx.loops:
    if l.index is not None and l.index.decl().name() in names:
      out.append(l.index)
  return out


class _Sum:

  def integrand_const(self):
    return True


def sum_over(domain, fn):
  """SymNum: the sum of fn (an Int term of a term) over the domain."""
  g = z3.Const(f"probe:{domain.name}", domain.sort)
  body = z3.simplify(fn(g))
  if z3.is_int_value(body) and body.as_long() == 0:
    return SymNum(z3.IntVal(0))
  if z3.is_int_value(body) and domain.n is not None:
    return SymNum(body * domain.n)
  b0 = fn(g)
  fz = lambda t: z3.substitute(b0, (g, t))  # noqa
  params = _params(z3.And(domain.member(g), body == 0), g)
  if not params:
    e = _match(domain, fz, cx.sums)
    if e is not None:
      return SymNum(e.const)
  s = _Sum()
  nm = cx.name(f"SUM:{domain.name}")
  s.domain, s.fn, s.params = domain, fz, params
  if params:
    s.const = z3.Function(nm, *[p.sort() for p in params], I)(*params)
  else:
    s.const = z3.Const(nm, I)
    # Non-negative integrands have a non-negative sum; zero iff all are zero.
    keep = list(domain.terms)
    domain.note(g)
    r, _ = cx.check([domain.member(g), fz(g) < 0], 1500)
    domain.terms = keep
    if r == z3.unsat:
      cx.pc.append(s.const >= 0)
      domain.fact(lambda t: s.const >= fz(t))
      w = z3.Const(nm + ":w", domain.sort)
      domain.note(w)
      cx.pc.append(z3.Implies(s.const > 0, z3.And(domain.member(w),
                                                   fz(w) > 0)))
  cx.sums.append(s)
  return SymNum(s.const)


def sum_relations(c, group):
  """Linear relations (coefficients -1, 0, 1) between sums over one domain
  that hold because they hold for the integrands of a generic element."""
  dom = group[0].domain
  g = z3.Const(f"probe:{dom.name}", dom.sort)
  out = []
  keep = list(dom.terms)
  dom.note(g)
  body = [s.fn(g) for s in group]
  # A quick filter by random evaluation is not needed: groups are small.
  items = list(range(len(group)))
  extra = []
  if dom.n is not None:
    extra.append((z3.IntVal(1), dom.n))
  allb = body + [e[0] for e in extra]
  allc = [s.const for s in group] + [e[1] for e in extra]
  n = len(allb)
  found = []
  cap = 400
  for size in (2, 3, 4):
    for combo in itertools.combinations(range(n), size):
      if all(i >= len(group) for i in combo):
        continue
      for signs in itertools.product((1, -1), repeat=size - 1):
        cap -= 1
        if cap < 0:
          break
        e = allb[combo[0]]
        k = allc[combo[0]]
        for i, s in zip(combo[1:], signs):
          e = e + s * allb[i]
          k = k + s * allc[i]
        r, _ = c.check([dom.member(g), e != 0], 800)
        if r == z3.unsat:
          found.append(k == 0)
    if size == 2 and n > 7:
      break
  dom.terms = keep
  return found


# ----------------------------------------------------------------------------
# substitution in Python objects holding terms
# ----------------------------------------------------------------------------
class Subst:

  def __init__(self, pairs):
    self.pairs = [(a, b) for a, b in pairs]

  def __call__(self, t):
    return z3.substitute(t, *self.pairs)

  def obj(self, x):
    if hasattr(type(x), "vc_subst"):
      return x.vc_subst(self) if is_sym(x) is False else type(x)(self(x.t))
    if isinstance(x, z3.ExprRef):
      return self(x)
    if type(x) is tuple:
      return tuple(self.obj(y) for y in x)
    if type(x) is list:
      return [self.obj(y) for y in x]
    if type(x) is dict:
      return {k: self.obj(v) for k, v in x.items()}
    if x is None or isinstance(x, (bool, int, str, float, bytes)):
      return x
    if getattr(x, "vc_constant", False) or isinstance(x, (type, enum.Enum)):
      return x
    if type(x) is functools.partial:
      return functools.partial(self.obj(x.func), *[
          self.obj(y) for y in x.args], **{
              k: self.obj(y) for k, y in x.keywords.items()})
    d = getattr(x, "__dict__", None)
    if d is not None and type(x).__module__.startswith("space."):
      y = type(x).__new__(type(x))
      y.__dict__.update({k: self.obj(v) for k, v in d.items()})
      return y
    if callable(x):
      return x
    raise Unsupported(f"substitution in {type(x).__name__}")


# ----------------------------------------------------------------------------
# sequences
# ----------------------------------------------------------------------------
class Comp:
  """A segment of a list: for each element of a domain (in order), the items
  of the alternative whose guard holds."""

  def __init__(self, domain, index, alts):
    # alts: [(guard term, [items])], all over the constant `index`.
    self.domain, self.index, self.alts = domain, index, alts

  def at(self, t):
    sub = Subst([(self.index, t)])
    return [(sub(g), [sub.obj(x) for x in items]) for g, items in self.alts]

  def vc_subst(self, sub):
    d = self.domain
    if d.n is not None and not sub(d.n).eq(d.n):
      if not any(x is d for _, x in cx.ranges):
        raise Unsupported("a list whose length depends on a loop")
      d = index_domain(sub(d.n))
    return Comp(d, self.index,
                [(sub(g), [sub.obj(x) for x in items])
                 for g, items in self.alts])


class Prefix:
  """What a list holds at the start of a generic iteration."""

  def __init__(self, path, loop=None):
    self.path, self.loop = path, loop

  def vc_subst(self, sub):
    return self

  def earlier(self, x):
    """x is an element: a predicate of the index, whose meaning is known when
    the loop is over (Seen)."""
    lp = self.loop
    if lp is None or not cx.loops or cx.loops[-1] is not lp or (
        lp.domain.n is None):
      raise Unsupported("membership in a list inside of a loop")
    for s in lp.seen:
      if s.path == self.path and _surely_equal(s.x, x):
        return SymBool(s.p)
    ps = [l.index for l in cx.loops if l.index is not None]
    # The same name in each body path.
    nm = f"seen:{lp.index.decl().name()}:{_key_of(x)}"
    s = Seen()
    s.path, s.x = self.path, x
    s.p = z3.Function(nm, *[i.sort() for i in ps], B)(*ps)
    s.w = z3.Function(nm + ".w", *[i.sort() for i in ps], I)(*ps)
    lp.seen.append(s)
    return SymBool(s.p)


def _key_of(x):
  if is_sym(x):
    return x.t.sexpr()
  if isinstance(x, (str, int, bool)):
    return repr(x)
  if hasattr(x, "vc_key"):
    return x.vc_key()
  raise Unsupported(f"membership of {type(x).__name__}")


def _surely_equal(a, b):
  e = vc_eq(a, b)
  return e is True or is_sym(e) and z3.is_true(z3.simplify(e.t))


class Seen:
  """Was x (of an iteration) added to a list by an earlier iteration?"""

  def define(self, lp, comp, v0_segs, alts, bad, where):
    dom, idx = comp.domain, lp.index
    items = [(g, y) for g, ys in alts for y in ys]
    for e in [self.x] + [y for _, y in items]:
      if (_names_of(e)) & bad:
        raise Unsupported(f"{where}: what is looked for depends on earlier "
                          "iterations")
    if not all(type(s) is list for s in v0_segs):
      raise Unsupported(f"{where}: membership in a list that grows")
    first = [y for s in v0_segs for y in s]

    def at(e, t):
      return z3.substitute(e, (idx, t))

    def same(g, y, t, u):
      a, b = Subst([(idx, t)]), Subst([(idx, u)])
      return z3.And(at(as_bool(g), t), as_bool(vc_eq(a.obj(y), b.obj(self.x))))

    def known(u):
      x = Subst([(idx, u)]).obj(self.x)
      return z3.Or(*[as_bool(vc_eq(y, x)) for y in first], z3.BoolVal(False))

    def fact(u):
      w = at(self.w, u)
      p = at(self.p, u)
      return z3.And(z3.Implies(known(u), p), z3.Implies(p, z3.Or(
          known(u), z3.And(w >= 0, w < u, z3.Or(*[
              same(g, y, w, u) for g, y in items], z3.BoolVal(False))))))
    dom.fact(fact, lambda t, u: z3.Implies(
        z3.And(t < u, u < dom.n, z3.Or(*[same(g, y, t, u) for g, y in items],
                                       z3.BoolVal(False))), at(self.p, u)))


def _names_of(x):
  if is_sym(x):
    return free_names(x.t)
  if isinstance(x, (str, int, bool)):
    return set()
  if hasattr(x, "names"):
    return x.names()
  raise Unsupported(f"membership of {type(x).__name__}")


class VList:
  """A Python list whose contents may contain symbolic segments."""

  touch = maker = None

  def __init__(self, items=()):
    if type(items) is VList:
      self.segs = [list(s) if isinstance(s, list) else s for s in items.segs]
    else:
      self.segs = [list(items)]

  # -- construction --------------------------------------------------------------
  @classmethod
  def of_segs(cls, segs):
    v = cls()
    v.segs = list(segs) or [[]]
    return v

  def concrete(self):
    if all(isinstance(s, list) for s in self.segs):
      return [x for s in self.segs for x in s]
    return None

  def need(self, what):
    c = self.concrete()
    if c is None:
      raise Unsupported(f"list {what} on a symbolic list")
    return c

  def add(self, **kw):
    if self.maker is None:
      raise AttributeError("'list' object has no attribute 'add'")
    m = self.maker(**kw)
    if self.touch is not None:
      self.touch()
    self._push(m)
    return m

  def MergeFrom(self, o):
    self.extend(o)

  def _own(self, x):
    """Protobuf lists hold copies of the messages given to them."""
    if self.maker is None:
      return x
    if type(x) is not self.maker:
      raise TypeError(f"expected {self.maker.__name__}")
    return x.copy()

  def append(self, x):
    if self.touch is not None:
      self.touch()
      x = self._own(x)
    self._push(x)

  def _push(self, x):
    if not isinstance(self.segs[-1], list):
      self.segs = self.segs + [[]]
    self.segs = self.segs[:-1] + [self.segs[-1] + [x]]

  def extend(self, o):
    if self.touch is not None:
      self.touch()
    if hasattr(type(o), "vc_list"):
      o = o.vc_list()
    if type(o) is VSet:
      o = o.as_list()
    if isinstance(o, types.GeneratorType):
      o = b_list(o)
    if type(o) is VList:
      if self.maker is not None:
        o = VList.of_segs([[self._own(x) for x in s] if isinstance(s, list)
                           else s for s in o.segs])
      self.segs = self.segs + [list(s) if isinstance(s, list) else s
                               for s in o.segs]
    else:
      for x in o:
        self.append(x)

  def insert(self, i, x):
    if i != 0:
      c = self.need("insert")
      c.insert(i, x)
      self.segs = [c]
      return
    self.segs = [[x]] + self.segs

  def clear(self):
    self.segs = [[]]

  def sort(self, **kw):
    c = self.need("sort")
    c.sort(**kw)
    self.segs = [c]

  def reverse(self):
    c = self.need("reverse")
    c.reverse()
    self.segs = [c]

  def pop(self, *a):
    if a == (0,) and isinstance(self.segs[0], list) and self.segs[0]:
      r = self.segs[0][0]
      self.segs = [self.segs[0][1:]] + self.segs[1:]
      return r
    if not a and isinstance(self.segs[-1], list) and self.segs[-1]:
      r = self.segs[-1][-1]
      self.segs = self.segs[:-1] + [self.segs[-1][:-1]]
      return r
    c = self.need("pop")
    r = c.pop(*a)
    self.segs = [c]
    return r

  def remove(self, x):
    c = self.need("remove")
    for i, y in enumerate(c):
      if bool(y == x):
        del c[i]
        self.segs = [c]
        return
    raise ValueError("list.remove(x): x not in list")

  def __delitem__(self, i):
    c = self.need("del")
    del c[i]
    self.segs = [c]

  def __setitem__(self, i, v):
    c = self.need("assignment")
    c[i] = v
    self.segs = [c]

  def __add__(self, o):
    r = VList(self)
    r.extend(o)
    return r

  def __radd__(self, o):
    r = VList(o)
    r.extend(self)
    return r

  def __iadd__(self, o):
    self.extend(o)
    return self

  def __mul__(self, o):
    if type(o) is int:
      r = VList()
      for _ in range(o):
        r.extend(self)
      return r
    c = self.need("repetition")
    if not isinstance(o, SymNum) or len(c) != 1:
      raise Unsupported("repetition of a list")
    n = z3.simplify(o.t)
    if not cx.entails(n >= 0):
      n = z3.If(n > 0, n, z3.IntVal(0))
    return Arr(n, c[0])
  __rmul__ = __mul__

  def copy(self):
    return VList(self)

  # -- queries ---------------------------------------------------------------------
  def vc_len(self):
    n = 0
    tot = z3.IntVal(0)
    for s in self.segs:
      if isinstance(s, list):
        n += len(s)
      elif isinstance(s, Comp):
        tot = tot + sum_over(s.domain, lambda t, s=s: comp_count(s, t)).t
      else:
        raise Unsupported("length of a list inside of a loop")
    t = z3.simplify(tot + n)
    return t.as_long() if z3.is_int_value(t) else SymNum(t)

  def __len__(self):
    n = self.vc_len()
    if isinstance(n, int) and type(n) is int:
      return n
    raise Unsupported("len() of a symbolic list")

  def __bool__(self):
    if any(isinstance(s, list) and s for s in self.segs):
      return True
    for s in self.segs:
      if isinstance(s, Prefix):
        raise Unsupported("emptiness of a list inside of a loop")
    for s in self.segs:
      if isinstance(s, Comp):
        e = exists(s.domain, lambda t, s=s: comp_nonempty(s, t))
        if e:
          return True
    return False

  def contains(self, x):
    """SymBool or bool: x is an element."""
    alts = []
    for s in self.segs:
      if isinstance(s, list):
        alts += [vc_eq(y, x) for y in s]
      elif isinstance(s, Comp):
        def f(t, s=s):
          return z3.Or(*[z3.And(g, as_bool(vc_eq(y, x)))
                         for g, items in s.at(t) for y in items],
                       z3.BoolVal(False))
        if is_sym(x) and self._is_element(s, x):
          return True
        alts.append(exists(s.domain, f))
      else:
        alts.append(s.earlier(x))
    if all(isinstance(a, bool) and type(a) is bool for a in alts):
      return any(alts)
    return Or(*alts)

  @staticmethod
  def _is_element(s, x):
    """x is, literally, the element of some index."""
    if len(s.alts) != 1 or len(s.alts[0][1]) != 1 or not is_sym(
        s.alts[0][1][0]):
      return False
    for t in s.domain.terms:
      g, (y,) = s.at(t)[0]
      if term(y).eq(term(x)) and cx.entails(z3.And(s.domain.member(t), g)):
        return True
    return False

  def __contains__(self, x):
    return bool(self.contains(x))

  def __getitem__(self, i):
    c = self.concrete()
    if isinstance(i, slice):
      if c is None:
        if (type(i.start) is int and i.start > 0 and i.stop is None and
            i.step is None and isinstance(self.segs[0], list) and
            len(self.segs[0]) >= i.start):
          return VList.of_segs([self.segs[0][i.start:]] + self.segs[1:])
        return self._slice(i)
      return VList(c[i])
    if c is not None and type(i) is int:
      return c[i]
    if type(i) is int and 0 <= i and isinstance(self.segs[0], list) and (
        i < len(self.segs[0])):
      return self.segs[0][i]
    if c is not None:
      for k, x in enumerate(c):
        if bool(i == k):
          return x
      raise IndexError("list index out of range")
    if type(i) is int and i == 0:
      return self._edge(self.segs, first=True)
    if type(i) is int and i == -1:
      return self._edge(self.segs, first=False)
    if len(self.segs) == 1 and isinstance(self.segs[0], Comp):
      s = self.segs[0]
      if (len(s.alts) == 1 and z3.is_true(z3.simplify(s.alts[0][0])) and
          len(s.alts[0][1]) == 1 and s.domain.n is not None):
        t = term(i)
        if not bool(SymBool(z3.And(t >= 0, t < s.domain.n))):
          raise IndexError("list index out of range")
        s.domain.note(t)
        return share(s.at(t)[0][1][0])
    raise Unsupported("index into a symbolic list")

  def _slice(self, sl):
    """Elements between two symbolic positions of a list without gaps."""
    segs = [s for s in self.segs if s != []]
    s = segs[0] if len(segs) == 1 else None
    if not (isinstance(s, Comp) and len(s.alts) == 1 and len(
        s.alts[0][1]) == 1 and z3.is_true(z3.simplify(s.alts[0][0])) and
            s.domain.n is not None and sl.step is None) or cx.loops:
      raise Unsupported("slice of a symbolic list")
    n = s.domain.n
    a = z3.IntVal(0) if sl.start is None else term(sl.start)
    b = n if sl.stop is None else term(sl.stop)
    def from_start(p):
      q = z3.simplify(p)
      if z3.is_int_value(q) and q.as_long() >= 0 or cx.entails(p >= 0):
        return p
      return z3.If(p >= 0, p, z3.If(n + p >= 0, n + p, 0))
    a, b = from_start(a), from_start(b)
    end = z3.If(b < n, b, n)
    m = cx.fresh("slice", I)
    cx.defs.append(m == z3.If(a < end, end - a, 0))
    dom = index_domain(m)
    old = s.domain

    def moved(t):
      old.note(t + a)
      return z3.BoolVal(True)
    dom.fact(moved)
    j = z3.Const(cx.name("at:slice"), I)
    items = s.at(j + a)[0][1]
    return VList.of_segs([Comp(dom, j, [(z3.BoolVal(True), items)])])

  def _edge(self, segs, first):
    order = segs if first else list(reversed(segs))
    for s in order:
      if isinstance(s, list):
        if s:
          return s[0] if first else s[-1]
      elif isinstance(s, Comp):
        if (len(s.alts) == 1 and z3.is_true(z3.simplify(s.alts[0][0])) and
            s.alts[0][1] and s.domain.n is not None):
          if bool(SymBool(s.domain.n > 0)):
            t = z3.IntVal(0) if first else s.domain.n - 1
            s.domain.note(t)
            items = s.at(t)[0][1]
            return share(items[0] if first else items[-1])
        else:
          raise Unsupported("edge element of a filtered symbolic list")
      else:
        raise Unsupported("edge element of a list inside of a loop")
    raise IndexError("list index out of range")

  def index(self, x):
    c = self.need("index")
    for i, y in enumerate(c):
      if bool(vc_eq(y, x)):
        return i
    raise ValueError("not in list")

  def __eq__(self, o):
    a = self.concrete()
    b = o.concrete() if isinstance(o, VList) else (
        list(o) if isinstance(o, (list, tuple)) else None)
    if b is None and not isinstance(o, VList):
      return False
    if a is None or b is None:
      if isinstance(o, VList):
        return symbolic_eq(self, o)
      raise Unsupported("equality of symbolic lists")
    if len(a) != len(b):
      return False
    return all_true([vc_eq(x, y) for x, y in zip(a, b)])

  def __ne__(self, o):
    return neg(self == o)

  __hash__ = None

  def __iter__(self):
    c = self.concrete()
    if c is not None:
      return iter(list(c))
    raise Unsupported("iteration over a symbolic list outside of a loop")

  def vc_subst(self, sub):
    return VList.of_segs([[sub.obj(x) for x in s] if isinstance(s, list)
                          else s.vc_subst(sub) for s in self.segs])

  def __deepcopy__(self, memo):
    return VList(self)

  def __repr__(self):
    return f"VList({self.segs})"

  @property
  def __class__(self):
    return list


class Arr:
  """A list [x] * n whose elements may be set: the log of what is set."""
  vc_mutable = ("writes",)

  def __init__(self, n, default):
    self.n, self.default, self.writes = n, default, VList()

  def _index(self, i):
    i = term(i)
    return z3.simplify(z3.If(i < 0, i + self.n, i)) if not cx.entails(
        i >= 0) else i

  def __setitem__(self, i, v):
    k = self._index(i)
    cx.prove("an element that is set exists", z3.And(k >= 0, k < self.n))
    self.writes.append((wrap(k), v))

  def __getitem__(self, i):
    """Any value set at the index, else the default. Forks."""
    k = self._index(i)
    cx.prove("an element that is read exists", z3.And(k >= 0, k < self.n))
    out, many = self.default, 0
    for s in reversed(self.writes.segs):
      if isinstance(s, list):
        for j, v in reversed(s):
          if bool(SymBool(term(j) == k)):
            return v
        continue
      if not isinstance(s, Comp):
        raise Unsupported("an element of a list inside of a loop")

      def hit(t, s=s):
        return z3.Or(*[z3.And(as_bool(g), z3.Or(*[
            term(j) == k for j, _ in ys])) for g, ys in s.at(t) if ys],
                     z3.BoolVal(False))
      if not bool(SymBool(as_bool(exists(s.domain, hit)))):
        continue
      w = cx.fresh("writer", I)
      cx.assume(z3.And(s.domain.member(w), hit(w)))
      s.domain.note(w)
      cands = [(g, j, v) for g, ys in s.at(w) for j, v in ys]
      for g, j, v in cands[:-1]:
        if bool(SymBool(z3.And(as_bool(g), term(j) == k))):
          return v
      g, j, v = cands[-1]
      cx.assume(z3.And(as_bool(g), term(j) == k))
      return v
    return out

  def vc_len(self):
    t = z3.simplify(self.n)
    return t.as_long() if z3.is_int_value(t) else SymNum(t)

  def vc_list(self):
    if self.writes.concrete() != []:
      raise Unsupported("iteration over a list of elements that were set")
    return symbolic_list("repeated", lambda g: self.default,
                         dom=index_domain(self.n))[0]

  def __add__(self, o):
    return self.vc_list() + o

  def vc_subst(self, sub):
    r = Arr(sub(self.n), sub.obj(self.default))
    r.writes = sub.obj(self.writes)
    return r


def one_each(v):
  """(domain, element function) of a list of one element for each index."""
  segs = [s for s in v.segs if not (isinstance(s, list) and not s)]
  if len(segs) != 1 or not isinstance(segs[0], Comp):
    return None
  c = segs[0]
  if c.domain.n is None or len(c.alts) != 1 or len(c.alts[0][1]) != 1:
    return None
  if not z3.is_true(z3.simplify(as_bool(c.alts[0][0]))):
    return None
  return c.domain, lambda t: c.at(t)[0][1][0]


def each_of(name, v, dom, fn):
  """Proves that v has exactly one element for each index of `dom`, in order,
  and runs fn(index, element) for an arbitrary index."""
  segs = [s for s in v.segs if not (isinstance(s, list) and not s)]
  if not segs:
    if dom.n is None:
      raise Unsupported("an empty list for a set")
    cx.prove(f"{name}: none is missing", dom.n == 0)
    return
  ok = (len(segs) == 1 and isinstance(segs[0], Comp) and
        (segs[0].domain.n is not None and dom.n is not None or
         segs[0].domain is dom) and
        all(len(y) == 1 for _, y in segs[0].alts))
  cx.record(f"{name}: one for each", ok, str(v))
  if not ok:
    return
  c = segs[0]
  if c.domain is not dom:
    cx.prove(f"{name}: as many", c.domain.n == dom.n)

  @cx.case
  def _():
    i = cx.fresh("any", dom.sort)
    cx.assume(dom.member(i))
    dom.note(i)
    c.domain.note(i)
    alts = c.at(i)
    cx.prove(f"{name}: none is skipped", z3.Or(*[as_bool(g)
                                                 for g, _ in alts]))
    for g, (y,) in alts:
      @cx.case
      def _(g=g, y=y):
        cx.assume(g)
        fn(i, y)


def symbolic_eq(x, y):
  a, b = one_each(x), one_each(y)
  if a is None or b is None:
    raise Unsupported("equality of symbolic lists")
  same = forall(a[0], lambda t: as_bool(vc_eq(a[1](t), b[1](t))))
  if a[0] is b[0]:
    return same
  return And(SymBool(a[0].n == b[0].n), same)


def all_true(xs):
  if all(isinstance(x, bool) and type(x) is bool for x in xs):
    return all(xs)
  return And(*xs)


def comp_count(s, t):
  e = z3.IntVal(0)
  for g, items in s.at(t):
    e = z3.If(g, z3.IntVal(len(items)), e)
  return e


def comp_nonempty(s, t):
  return z3.Or(*[g for g, items in s.at(t) if items], z3.BoolVal(False))


def vc_eq(a, b):
  if a is b:
    return True
  r = a == b
  if r is NotImplemented:
    r = b == a
  if r is NotImplemented:
    return False
  return r


def index_domain(n):
  """The domain of the indices below n; one for each term."""
  pool = cx.ranges
  for m, d in pool:
    if m.eq(n):
      return d
  pool.append((n, Domain("range", n=n)))
  return pool[-1][1]


def symbolic_list(name, make, n=None, dom=None):
  """A list of symbolic length; make(index term) gives an element.

  Returns (VList, Domain).
  """
  if dom is None:
    n = cx.fresh(f"n:{name}", I) if n is None else n
    dom = Domain(name, n=n)
  g = z3.Const(cx.name(f"ix:{name}"), I)
  v = VList.of_segs([Comp(dom, g, [(z3.BoolVal(True), [make(g)])])])
  return v, dom


# ----------------------------------------------------------------------------
# sets and dicts
# ----------------------------------------------------------------------------
class VSet:
  """A Python set; `items` is a VList of its elements (with repetitions)."""

  def __init__(self, items=()):
    self.items = VList()
    if isinstance(items, VSet):
      self.items = VList(items.items)
    elif isinstance(items, VList):
      self.items = VList(items)
    else:
      for x in items:
        self.items.append(x)
    self.removed = []

  def contains(self, x):
    r = self.items.contains(x)
    for y in self.removed:
      e = vc_eq(x, y)
      r = And(r, neg(e)) if not (r is True and type(e) is bool) else not e
    return r

  def __contains__(self, x):
    return bool(self.contains(x))

  def add(self, x):
    if self.removed:
      raise Unsupported("add after remove")
    self.items.append(x)

  def update(self, o):
    self.items.extend(VSet(o).items)

  def remove(self, x):
    if not bool(self.contains(x)):
      raise KeyError(x)
    self.removed = self.removed + [x]

  def discard(self, x):
    self.removed = self.removed + [x]

  def __bool__(self):
    if self.removed:
      c = self.items.concrete()
      if c is None:
        raise Unsupported("emptiness of a reduced set")
      return any(bool(self.contains(x)) for x in c)
    return bool(self.items)

  def vc_len(self):
    c = self.items.concrete()
    if c is None or self.removed:
      return set_len(self)
    out = []
    for x in c:
      if not any(bool(vc_eq(x, y)) for y in out):
        out.append(x)
    return len(out)

  def __iter__(self):
    if self.removed:
      raise Unsupported("iteration over a reduced set")
    c = self.items.concrete()
    if c is not None:
      out = []
      for x in c:
        if not any(bool(vc_eq(x, y)) for y in out):
          out.append(x)
      return iter(out)
    return vc_iter(self.as_list())

  def as_list(self):
    """Each element once, in any order."""
    if self.removed:
      raise Unsupported("elements of a reduced set")
    if self.items.concrete() is not None:
      return VList(list(iter(self)))
    sorts, ok = set(), True
    for s in self.items.segs:
      if type(s) not in (list, Comp):
        raise Unsupported("elements of a set inside of a loop")
      for x in (s if isinstance(s, list) else
                [y for _, i in s.alts for y in i]):
        if isinstance(x, (str, int)) or is_sym(x):
          sorts.add(term(x).sort())
        else:
          ok = False
    if not ok or len(sorts) != 1:
      # Repetitions are possible: each element is visited at least once.
      return VList(self.items)
    key = tuple(id(s) if isinstance(s, Comp) else
                tuple(id(x) for x in s) for s in self.items.segs)
    pool = cx.ghost_const.setdefault("set lists", {})
    if key in pool:
      return VList(pool[key][0])
    sort = sorts.pop()
    ps = [l.index for l in cx.loops if l.index is not None]
    pss = [x.sort() for x in ps]
    name = cx.name("set")
    n = z3.Function(name + ".n", *pss, I)(*ps) if ps else cx.fresh(
        name + ".n", I)
    elem = z3.Function(name + ".elem", *pss, I, sort)
    idx = z3.Function(name + ".idx", *pss, sort, I)
    lst, dom = symbolic_list(name, lambda g: wrap(elem(*ps, g)), n=n)
    segs = [s for s in self.items.segs if s != []]
    src = {id(s): z3.Function(cx.name(name + ".src"), *pss, I, s.domain.sort)
           for s in segs if isinstance(s, Comp)}

    def fact(t):
      e = elem(*ps, t)
      alts = []
      for s in segs:
        if isinstance(s, list):
          alts += [term(x) == e for x in s]
          continue
        w = src[id(s)](*ps, t)
        s.domain.note(w)
        alts.append(z3.And(s.domain.member(w), z3.Or(*[
            z3.And(as_bool(g), term(y) == e) for g, items in s.at(w)
            for y in items], z3.BoolVal(False))))
      return z3.And(idx(*ps, e) == t, z3.Or(*alts, z3.BoolVal(False)))
    dom.fact(fact)

    def has(y, t=None):
      k = idx(*ps, term(y))
      if t is None or not (z3.is_app(t) and t.decl().name().endswith(".src")):
        dom.note(k)
      return z3.And(k >= 0, k < n, elem(*ps, k) == term(y))
    for s in segs:
      if isinstance(s, list):
        cx.defs.extend(has(x) for x in s)
      else:
        s.domain.fact(lambda t, s=s: z3.And(*[
            z3.Implies(as_bool(g), has(y, t)) for g, items in s.at(t)
            for y in items], z3.BoolVal(True)))
    pool[key] = (lst, segs)
    return VList(lst)

  def union(self, o):
    r = VSet(self)
    r.update(o)
    return r
  __or__ = union

  def intersection(self, o):
    o = VSet(o)
    c = self.items.concrete()
    if c is None:
      raise Unsupported("intersection of symbolic sets")
    return VSet([x for x in c if bool(o.contains(x))])
  __and__ = intersection

  def difference(self, o):
    o = VSet(o)
    c = self.items.concrete()
    if c is None:
      raise Unsupported("difference of symbolic sets")
    return VSet([x for x in c if not bool(o.contains(x))])
  __sub__ = difference

  def _all(self, what):
    if self.removed:
      raise Unsupported("elements of a reduced set")
    r = True
    for s in self.items.segs:
      if isinstance(s, list):
        for x in s:
          r = And(r, what(x))
      elif type(s) is Comp:
        r = And(r, forall(s.domain, lambda t, s=s: z3.And(z3.BoolVal(True), *[
            z3.Implies(as_bool(g), as_bool(what(y)))
            for g, items in s.at(t) for y in items])))
      else:
        raise Unsupported("elements of a set inside of a loop")
    return r

  def issubset(self, o):
    o = VSet(o)
    return self._all(o.contains)
  __le__ = issubset

  def issuperset(self, o):
    return VSet(o).issubset(self)
  __ge__ = issuperset

  def isdisjoint(self, o):
    o = VSet(o)
    return self._all(lambda x: Not(o.contains(x)))

  def vc_subst(self, sub):
    r = VSet()
    r.items = self.items.vc_subst(sub)
    r.removed = [sub.obj(x) for x in self.removed]
    return r

  def __repr__(self):
    return f"VSet({self.items})"

  __hash__ = None

  @property
  def __class__(self):
    return set


def set_len(s):
  """The size of a set: equal to the size of the list it was made from iff the
  elements of the list are pairwise different."""
  segs = s.items.segs
  if s.removed:
    raise Unsupported("size of a reduced set")
  total = s.items.vc_len()
  n = sym_int("setlen")
  cx.pc.append(z3.And(n.t >= 0, n.t <= term(total)))
  cx.ghost.setdefault("set_len", []).append((n, s.items))
  return n


def keys_may_clash(s):
  """Whether two entries of a comprehension may have the same key."""
  d = s.domain
  a, b = (z3.Const(f"probe{i}:{d.name}", d.sort) for i in (1, 2))
  keep = list(d.terms)
  d.note(a)
  d.note(b)
  ka = [(i, g, y[0]) for g, items in s.at(a) for i, y in enumerate(items)]
  kb = [(i, g, y[0]) for g, items in s.at(b) for i, y in enumerate(items)]
  alt = [n for n, (_, items) in enumerate(s.alts) for _ in items]
  clash = [z3.And(g, h, as_bool(vc_eq(x, y)),
                  z3.BoolVal(True) if (n, i) != (m, j) else a != b)
           for n, (i, g, x) in zip(alt, ka) for m, (j, h, y) in zip(alt, kb)]
  r, _ = cx.check([d.member(a), d.member(b),
                   z3.Or(*clash, z3.BoolVal(False))], 1500)
  d.terms = keep
  return r != z3.unsat


def unique_keys(s):
  """Later entries of a dict replace earlier ones of the same key.  Looking up
  a key returns some entry of it, which covers the last one: a proof holds, a
  counterexample is none unless there is just one."""
  if keys_may_clash(s):
    cx.mark_imprecise("a dict whose keys may repeat")


class VDict:
  """A Python dict: base entries (symbolic comprehension) and an overlay."""

  def __init__(self, items=()):
    # entries: VList of (key, value) in insertion order; later ones win.
    self.entries = VList()
    if isinstance(items, VDict):
      self.entries = VList(items.entries)
    elif isinstance(items, dict):
      for k, v in items.items():
        self[k] = v
    else:
      for k, v in items:
        self[k] = v

  def lookup(self, k):
    """(found, value) on this path."""
    segs = self.entries.segs
    for s in reversed(segs):
      if isinstance(s, list):
        for kk, vv in reversed(s):
          if bool(vc_eq(kk, k)):
            return True, vv
      elif isinstance(s, Comp):
        def f(t, s=s):
          return z3.Or(*[z3.And(g, as_bool(vc_eq(y[0], k)))
                         for g, items in s.at(t) for y in items],
                       z3.BoolVal(False))
        ex, w = exists_one(s.domain, f)
        if bool(ex):
          unique_keys(s)
          for g, items in s.at(w):
            for y in items:
              c = z3.And(g, as_bool(vc_eq(y[0], k)))
              if bool(SymBool(c)):
                return True, y[1]
          raise PathEnd()
      else:
        raise Unsupported("lookup in a dict inside of a loop")
    return False, None

  def contains(self, k):
    alts = []
    for s in self.entries.segs:
      if isinstance(s, list):
        alts += [vc_eq(kk, k) for kk, _ in s]
      elif isinstance(s, Comp):
        def f(t, s=s):
          return z3.Or(*[z3.And(g, as_bool(vc_eq(y[0], k)))
                         for g, items in s.at(t) for y in items],
                       z3.BoolVal(False))
        alts.append(exists(s.domain, f))
      else:
        raise Unsupported("membership in a dict inside of a loop")
    if all(type(a) is bool for a in alts):
      return any(alts)
    return Or(*alts)

  def __contains__(self, k):
    return bool(self.contains(k))

  def __getitem__(self, k):
    ok, v = self.lookup(k)
    if not ok:
      raise KeyError(k)
    return v

  def get(self, k, d=None):
    ok, v = self.lookup(k)
    return v if ok else d

  def setdefault(self, k, d=None):
    ok, v = self.lookup(k)
    if ok:
      return v
    self[k] = d
    return d

  def __setitem__(self, k, v):
    c = self.entries.concrete()
    if c is not None:
      for i, (kk, _) in enumerate(c):
        if bool(vc_eq(kk, k)):
          c[i] = (kk, v)
          self.entries = VList(c)
          return
    e = VList(self.entries)
    e.append((k, v))
    self.entries = e

  def __delitem__(self, k):
    c = self.entries.concrete()
    if c is None:
      raise Unsupported("deletion from a symbolic dict")
    for i, (kk, _) in enumerate(c):
      if bool(vc_eq(kk, k)):
        del c[i]
        self.entries = VList(c)
        return
    raise KeyError(k)

  def pop(self, k, *d):
    ok, v = self.lookup(k)
    if not ok:
      if d:
        return d[0]
      raise KeyError(k)
    del self[k]
    return v

  def update(self, o):
    for k, v in (o.items() if hasattr(o, "items") else o):
      self[k] = v

  def _map(self, f):
    """Iteration yields every key once, with its last value."""
    segs = []
    rest = [s for s in self.entries.segs if s != []]
    comps = [s for s in rest if isinstance(s, Comp)]
    if len(rest) > 1 and comps:
      raise Unsupported("iteration over an updated dict comprehension")
    for s in rest:
      if isinstance(s, list):
        segs.append([f(e) for e in s])
      elif isinstance(s, Comp):
        if keys_may_clash(s):
          raise Unsupported("iteration over a dict whose keys may repeat")
        segs.append(Comp(s.domain, s.index, [(g, [f(e) for e in items])
                                             for g, items in s.alts]))
      else:
        raise Unsupported("iteration over a dict inside of a loop")
    return VList.of_segs(segs)

  def items(self):
    return self._map(lambda e: e)

  def keys(self):
    return self._map(lambda e: e[0])

  def values(self):
    return self._map(lambda e: e[1])

  def __iter__(self):
    return iter(self.keys())

  def vc_len(self):
    return self._map(lambda e: e[0]).vc_len()

  def __bool__(self):
    return bool(self.entries)

  def vc_subst(self, sub):
    r = VDict()
    r.entries = self.entries.vc_subst(sub)
    return r

  def __deepcopy__(self, memo):
    return VDict(self)

  __hash__ = None

  @property
  def __class__(self):
    return dict


# ----------------------------------------------------------------------------
# loops
# ----------------------------------------------------------------------------
_LTF = ctypes.pythonapi.PyFrame_LocalsToFast
_LTF.argtypes = [ctypes.py_object, ctypes.c_int]


def write_local(frame, name, value):
  frame.f_locals[name] = value
  _LTF(frame, 0)


UNSET = object()


def code_frames(frame):
  out = []
  while frame is not None:
    if frame.f_globals.get("__vc_module__"):
      out.append(frame)
    frame = frame.f_back
  return out


class State:
  """The mutable locations reachable from the frames of the code under proof:
  path -> (kind, container, key)."""

  def __init__(self, frames):
    self.locs = {}
    self.seen = {}
    for d, f in enumerate(frames):
      tag = f.f_code.co_name + ("" if d == 0 else f"^{d}")
      loc = f.f_locals
      for n in sorted(loc):
        if n.startswith("_vc_"):
          continue
        self.locs[(tag, n)] = ("local", f, n, loc[n])
        self.walk((tag, n), loc[n])
    self.walk(("$trace",), cx.trace)
    self.walk(("$collected",), cx.collected)
    for k in sorted(cx.ghost):
      self.walk(("$ghost", k), cx.ghost[k])

  def walk(self, path, v):
    if v is None or isinstance(v, (bool, int, str, float, bytes, type)) or (
        is_sym(v)):
      return
    if id(v) in self.seen or len(path) > 9:
      return
    if isinstance(v, z3.ExprRef):
      return
    if type(v) is VList:
      self.seen[id(v)] = v
      self.locs[path + ("segs",)] = ("attr", v, "segs", v.segs)
      for i, s in enumerate(v.segs):
        if isinstance(s, list):
          for j, x in enumerate(s):
            self.walk(path + (f"[{i},{j}]",), x)
      return
    if type(v) is VSet:
      self.seen[id(v)] = v
      self.locs[path + ("removed",)] = ("attr", v, "removed", v.removed)
      self.walk(path + ("items",), v.items)
      return
    if type(v) is VDict:
      self.seen[id(v)] = v
      self.locs[path + ("entries",)] = ("attr", v, "entries", v.entries)
      self.walk(path + ("entries",), v.entries)
      return
    if type(v) in (tuple, list):
      self.seen[id(v)] = v
      for i, x in enumerate(v):
        self.walk(path + (f"[{i}]",), x)
      return
    if type(v) is dict:
      self.seen[id(v)] = v
      for k in list(v):
        if isinstance(k, str):
          self.locs[path + (k,)] = ("item", v, k, v[k])
          self.walk(path + (k,), v[k])
      return
    mod = type(v).__module__ or ""
    muts = getattr(type(v), "vc_mutable", None)
    if muts is not None:
      self.seen[id(v)] = v
      for a in (muts(v) if callable(muts) else muts):
        x = getattr(v, a, UNSET)
        self.locs[path + (a,)] = ("attr", v, a, x)
        if x is not UNSET:
          self.walk(path + (a,), x)
      return
    if mod.startswith("space.") and hasattr(v, "__dict__"):
      self.seen[id(v)] = v
      for a in sorted(v.__dict__):
        self.locs[path + (a,)] = ("attr", v, a, v.__dict__[a])
        self.walk(path + (a,), v.__dict__[a])

  def read(self, loc):
    kind, c, k, _ = loc
    if kind == "local":
      return c.f_locals.get(k, UNSET)
    if kind == "item":
      return c.get(k, UNSET)
    return getattr(c, k, UNSET)

  @staticmethod
  def write(loc, value):
    kind, c, k, _ = loc
    if kind == "local":
      if value is UNSET:
        return
      write_local(c, k, value)
    elif kind == "item":
      if value is UNSET:
        c.pop(k, None)
      else:
        c[k] = value
    elif getattr(type(c), "vc_msg", False):
      if value is UNSET:
        c.__dict__.pop(k, None)
      else:
        c.__dict__[k] = value
    elif value is UNSET:
      if k in getattr(c, "__dict__", {}):
        delattr(c, k)
    else:
      setattr(c, k, value)


def same_value(a, b):
  if a is b:
    return True
  if is_sym(a) and is_sym(b):
    return a.t.eq(b.t)
  if type(a) is list and type(b) is list:  # segs
    return len(a) == len(b) and all(
        (x is y) or (isinstance(x, list) and isinstance(y, list) and
                     len(x) == len(y) and all(p is q for p, q in zip(x, y)))
        for x, y in zip(a, b))
  if type(a) is type(b) and isinstance(a, (bool, int, str, bytes)):
    return a == b
  if type(a) is VList and type(b) is VList:
    return same_value(a.segs, b.segs)
  return False


def site_of(frame):
  return (f"{frame.f_globals.get('__name__')}:{frame.f_code.co_qualname}:"
          f"{frame.f_lineno - frame.f_code.co_firstlineno}")


class Loop(Scope):
  """A generic iteration over one Comp segment (the fold rule)."""

  def __init__(self, site):
    super().__init__()
    self.site = site
    self.index = None
    self.domain = None
    self.seen = []
    self.symbols = set()
    self.counters = set()   # of these, the values are known functions


class Exit:
  """A path through a generic loop body that leaves the loop."""


LOOPS = {}    # loop site -> temporaries of the body (filled in by load.py)


def vc_iter(x, site=None):
  """The iterator of a for loop."""
  if type(x) is VDict:
    x = x.keys()
  elif type(x) is SymRange:
    x = x.as_list()
  elif type(x) is VSet:
    if x.items.concrete() is not None:
      return iter(x)
    x = x.as_list()
  elif hasattr(type(x), "vc_list"):
    x = x.vc_list()
  if type(x) is VList:
    c = x.concrete()
    if c is not None:
      return iter(list(c))
    return _ListIter(x, site)
  return iter(x)


def vc_leave(it):
  if type(it) is _ListIter:
    it.leave()


def materialize(state, path):
  """Creates what is made on first use (fields of messages), so that it is
  part of the state before the loop."""
  for i in range(len(path) - 1, 0, -1):
    loc = state.locs.get(path[:i])
    if loc is None:
      continue
    v = state.read(loc)
    for a in path[i:]:
      if not getattr(type(v), "vc_msg", False):
        return False
      if a.startswith("_has_"):
        v.__dict__.setdefault(a, False)
      elif a.startswith("_"):
        return False
      x = getattr(v, a)
      v.__dict__.setdefault(a, x)
      v = x
    return True
  return False


def share(x):
  """Marks a value as owned by a symbolic list: not to be modified."""
  if getattr(type(x), "vc_msg", False):
    x.__dict__["_shared"] = True
  elif type(x) is tuple:
    for y in x:
      share(y)
  return x


class _ListIter:

  def __init__(self, v, site=None):
    self.segs = [list(s) if isinstance(s, list) else s for s in v.segs]
    self.site = site
    self.queue = []
    self.loop = None

  def __iter__(self):
    return self

  def __next__(self):
    frames = code_frames(sys._getframe(1))
    if self.loop is not None:
      r = self._resume(frames)
      if r is not UNSET:
        return r
    while True:
      if self.queue:
        return self.queue.pop(0)
      if not self.segs:
        raise StopIteration
      s = self.segs.pop(0)
      if isinstance(s, list):
        self.queue = list(s)
        continue
      if isinstance(s, Prefix):
        raise Unsupported("iteration over a list inside of a loop")
      r = self._start(s, frames)
      if r is not UNSET:
        return r

  # -- the fold rule ---------------------------------------------------------------
  def _start(self, comp, frames):
    if not frames:
      raise Unsupported("symbolic iteration outside of the code under proof")
    site = self.site
    if site is None or site.startswith("$"):
      fr = [f for f in frames if f.f_globals.get("__name__", "")
            .startswith("space")]
      site = site_of(fr[0]) if fr else str(site)
    lp = Loop(site)
    self.comp = comp
    self.frames = frames
    self.pc_len = len(cx.pc)
    self.state0 = State(frames)
    for p in cx.premat.get(site, ()):
      if p not in self.state0.locs and materialize(self.state0, p):
        self.state0 = State(frames)
    self.lp = lp
    # The decision of the enclosing scope: by which path the loop is left.
    scope = cx.loops[-1] if cx.loops else cx.root
    k = len(scope.taken)
    self.exits = []
    if k < len(scope.prefix):
      d = scope.prefix[k]
      if type(d) is bool:
        raise Unsupported("the exploration is not deterministic")
      self.exits = d[1]
    scope.taken.append(("loop", self.exits))
    self.scope, self.at = scope, k
    cx.loops.append(lp)
    lp.domain = comp.domain
    lp.index = z3.Const(cx.name("g:" + comp.domain.name), comp.domain.sort)
    lp.symbols.add(lp.index.decl().name())
    comp.domain.note(lp.index)
    self.havoc = {}
    mods = cx.mods.setdefault(lp.site, [])
    for path in mods:
      loc = self.state0.locs.get(path)
      if loc is None:
        continue
      self.havoc[path] = self._havoc(path, loc)
    self.frozen = {p: (loc, self.state0.read(loc))
                   for p, loc in self.state0.locs.items()}
    self.alts = comp.at(lp.index)
    self.work = []   # (alternative, decision prefix)
    for k in range(len(self.alts)):
      self.work.append((k, []))
    self.done = []   # (guard, {path: post value})
    self.lasts = []  # (guard, {temporary: number})
    self.exit_guards = []
    self.loop = lp
    return self._next_body()

  def leave(self):
    """The code leaves the loop (break, return, raise) in a body path, or the
    loop is over (then there is nothing to do)."""
    if self.loop is None:
      return
    lp = self.loop
    self.loop = None
    if not any(x is lp for x in cx.loops):
      return  # a generator of an earlier path that is collected
    while cx.loops[-1] is not lp:
      cx.loops.pop()
    cx.loops.pop()
    e = Exit()
    e.alt, e.prefix = self.cur, list(lp.prefix)
    e.alternatives = list(lp.alternatives)
    e.guard = z3.And(*lp.guard) if lp.guard else z3.BoolVal(True)
    e.names = dict(cx.names)
    e.seen = list(lp.seen)
    e.preds = dict(cx.preds)
    self.scope.alternatives.append(
        self.scope.taken[:self.at] + [("loop", self.exits + [e])])
    self.scope.guard.extend(cx.pc[self.pc_len:])
    if self.havoc:
      cx.mark_imprecise(f"left the loop {lp.site} early")
    # Which of the generic values are known to the code after the loop.
    if isinstance(self.scope, Loop):
      self.scope.symbols |= lp.symbols

  def _havoc(self, path, loc):
    v = loc[3]
    h = None
    if type(v) is SymNum or (isinstance(v, int) and type(v) is int):
      sort = I if not is_sym(v) else v.t.sort()
      if self.comp.domain.n is not None:
        # The value before the iteration, as a function of its index.
        ps = [l.index for l in cx.loops if l.index is not None]
        fn = z3.Function(cx.name("acc:" + str(path[-1])),
                         *[x.sort() for x in ps], sort)
        h = SymNum(fn(*ps))
      else:
        h = SymNum(z3.Const(cx.name("acc:" + str(path[-1])), sort))
      self.lp.symbols.add(h.t.decl().name())
    elif type(v) is bool or type(v) is SymBool:
      if self.comp.domain.n is not None:
        ps = [l.index for l in cx.loops if l.index is not None]
        fn = z3.Function(cx.name("flag:" + str(path[-1])),
                         *[x.sort() for x in ps], B)
        h = SymBool(fn(*ps))
      else:
        h = SymBool(z3.Const(cx.name("flag:" + str(path[-1])), B))
      self.lp.symbols.add(h.t.decl().name())
    elif path[-1] == "segs":
      h = [Prefix(path, self.lp)]
    elif type(v) is VList:
      h = VList.of_segs([Prefix(path, self.lp)])
    elif v is None and (self.lp.site, path) in cx.premat.get("$opt", {}):
      h = Opt.havoc(self, path, cx.premat["$opt"][self.lp.site, path])
    elif hasattr(type(v), "vc_havoc"):
      h = v.vc_havoc(self.lp)
    elif v is UNSET:
      return UNSET
    else:
      raise Unsupported(
          f"loop {self.lp.site} modifies {'.'.join(map(str, path))}, a "
          f"{type(v).__name__}")
    State.write(loc, h)
    return h

  def _next_body(self):
    lp = self.lp
    while self.work:
      k, prefix = self.work.pop(0)
      self._restore()
      guard, items = self.alts[k]
      lp.prefix, lp.taken, lp.alternatives = prefix, [], []
      lp.guard = []
      del cx.pc[self.pc_len:]
      cx.pc.append(self.comp.domain.member(lp.index))
      gs = z3.simplify(guard)
      if z3.is_false(gs):
        continue
      ex = [e for e in self.exits if e.alt == k and e.prefix == prefix]
      if ex:
        for pre in ex[0].alternatives:
          self.work.insert(0, (k, pre))
        for n, v in ex[0].names.items():
          cx.names[n] = max(v, cx.names.get(n, 0))
        for n, (ps, d, c, sk, b0, g, _) in ex[0].preds.items():
          # The predicates the guard speaks of mean the same here.
          d = next((x for x in cx.domains if x.name == d.name), None)
          if n not in cx.preds and d is not None:
            cx.preds[n] = (ps, d, c, sk, b0, g, {})
        self.exit_guards.append(ex[0].guard)
        continue
      if not z3.is_true(gs):
        cx.pc.append(guard)
      lp.guard = [guard]
      if not items:
        self.done.append((guard, {}))
        self.lasts.append((guard, {}))
        continue
      if not cx.feasible(z3.BoolVal(True)):
        continue
      self.cur = k
      for n in self._temps():
        if n in self.frames[0].f_locals:
          write_local(self.frames[0], n, Poison(n))
      for x in items:
        share(x)
      self.rest = list(items[1:])
      return items[0]
    return self._close()

  def _restore(self):
    for p, (loc, v) in self.frozen.items():
      if not same_or_is(self.state0.read(loc), v):
        State.write(loc, v)

  def _resume(self, frames):
    """A body path came to its end."""
    lp = self.lp
    if self.rest:  # more items of the same element
      return self.rest.pop(0)
    for pre in lp.alternatives:
      self.work.insert(0, (self.cur, pre))
    now = State(self.frames)
    post = {}
    for p, (loc, v) in self.frozen.items():
      cur = self.state0.read(loc)
      if not same_value(cur, v):
        if p not in self.havoc:
          if loc[0] == "local" and loc[1] is self.frames[0] and (
              self._is_temp(loc[2])):
            continue
          mods = cx.mods.setdefault(lp.site, [])
          if p not in mods:
            mods.append(p)
            if v is None:
              cx.premat.setdefault("$opt", {})[lp.site, p] = cur
            raise RestartUnit()
        post[p] = cur
    new = []
    for p, loc in now.locs.items():
      if p in self.frozen or loc[0] == "local":
        continue
      if any(q in self.frozen for q in (p[:i] for i in range(1, len(p)))):
        if not any(str(x).startswith("[") for x in p):
          new.append(p)
    if new:
      pm = cx.premat.setdefault(lp.site, [])
      add = [p for p in new if p not in pm]
      if add:
        pm += add
        raise RestartUnit()
    guard = list(lp.guard)
    self.done.append((z3.And(*guard) if guard else z3.BoolVal(True), post))
    self.lasts.append((self.done[-1][0], {
        n: v for n, v in self.frames[0].f_locals.items()
        if n in self._temps() and (type(v) in (int, SymNum))}))
    return self._next_body()

  def _is_temp(self, name):
    """A local that the body always assigns before it reads it needs no
    generic value; nothing may read it after the loop."""
    return name in self._temps()

  def _temps(self):
    return LOOPS.get(self.site, ())

  def _close(self):
    """All body paths are known: the state after the loop."""
    lp, comp = self.lp, self.comp
    self._restore()
    del cx.pc[self.pc_len:]
    cx.loops.pop()
    self.loop = None
    bad = lp.symbols - {lp.index.decl().name()}
    for g in self.exit_guards:
      if free_names(g) & bad:
        cx.mark_imprecise(f"early exit of {lp.site} depends on the state")
        continue
      comp.domain.fact(lambda t, g=g: z3.Not(
          z3.substitute(g, (lp.index, t))))
    for e in self.exits:
      lp.seen += [s for s in e.seen if not any(
          q.p.eq(s.p) and q.path == s.path for q in lp.seen)]
    # Flags and counters first: other values may be made of them.
    order = sorted(self.havoc.items(), key=lambda e: (
        -1 if type(e[1]) is Opt else 0 if type(e[1]) is SymBool else
        1 if type(e[1]) is SymNum else 2))
    for p, h in order:
      loc = self.state0.locs[p]
      v0 = loc[3]
      posts = [(g, post.get(p, h)) for g, post in self.done]
      State.write(loc, self._fold(p, v0, h, posts))
    # Temporaries of the body: the number of the last iteration if it is known,
    # otherwise not to be read.
    for n in self._temps():
      if n in self.frames[0].f_locals:
        write_local(self.frames[0], n, self._last(n))
    return UNSET

  def _last(self, n):
    lp, dom = self.lp, self.comp.domain
    bad = lp.symbols - {lp.index.decl().name()} - lp.counters
    tag = self.frames[0].f_code.co_name
    v0 = self.frozen.get((tag, n), (None, UNSET))[1]
    if dom.n is None or not self.lasts or self.exits or any(
        n not in vs for _, vs in self.lasts):
      return Poison(n)
    if type(v0) not in (int, SymNum):
      if not cx.entails(dom.n > 0, 1500):
        return Poison(n)
      v0 = 0
    e, at = None, lambda x: z3.substitute(x, (lp.index, dom.n - 1))  # noqa
    for g, vs in self.lasts:
      v = term(vs[n])
      if (free_names(g) | free_names(v)) & bad:
        return Poison(n)
      e = at(v) if e is None else z3.If(at(g), at(v), e)
    dom.note(dom.n - 1)
    return wrap(z3.simplify(z3.If(dom.n > 0, e, term(v0))))

  def _recursive(self, h, v0, posts, where):
    """A value carried from iteration to iteration: known by its recursion
    only; what depends on it is not refuted."""
    lp, dom = self.lp, self.comp.domain
    if z3.is_const(h.t):
      raise Unsupported(f"{where}: depends on earlier iterations")
    at = lambda t: z3.substitute(h.t, (lp.index, t))  # noqa
    lp.counters.add(h.t.decl().name())
    cx.loose.add(h.t.decl().name())
    for t in (z3.IntVal(0), dom.n):
      dom.note(t)
    cx.defs.append(at(z3.IntVal(0)) == term(v0))

    def fact(t):
      e = at(t)
      for g, v in posts:
        e = z3.If(z3.substitute(g, (lp.index, t)),
                  z3.substitute(term(v), (lp.index, t)), e)
      return at(t + 1) == e
    dom.fact(fact)
    return wrap(at(dom.n))

  def _counter(self, h, v0, delta, end):
    """A counter of the loop as a function of the index: prefix sums."""
    lp, dom = self.lp, self.comp.domain
    name = h.t.decl().name()
    if z3.is_const(h.t):
      return
    at = lambda t: z3.substitute(h.t, (lp.index, t))  # noqa
    lp.counters.add(name)
    zero = z3.IntVal(0)
    for t, v in ((zero, v0), (dom.n, end)):
      dom.note(t)
      cx.defs.append(at(t) == v)
    g = z3.Const(f"probe:{dom.name}", dom.sort)
    keep = list(dom.terms)
    dom.note(g)
    r, _ = cx.check([dom.member(g), delta(g) < 0], 1500)
    dom.terms = keep
    mono = r == z3.unsat

    def fact(t):
      cs = [at(t + 1) == at(t) + delta(t)]
      if mono:
        cs += [at(t) >= v0, at(t) + delta(t) <= end]
      return z3.And(*cs)
    dom.fact(fact, (lambda t, u: z3.Implies(
        z3.And(t < u, u <= dom.n), at(t) + delta(t) <= at(u))) if mono
        else None)
    dom.note(lp.index)

  def _fold(self, p, v0, h, posts):
    lp, comp = self.lp, self.comp
    if h is UNSET:
      return Poison(str(p[-1]))
    if type(h) is Opt:
      return Opt.fold(self, p, h, posts)
    where = f"loop {lp.site}: {'.'.join(map(str, p))}"
    bad = lp.symbols - {lp.index.decl().name()} - lp.counters

    def clean(t, what):
      if free_names(t) & bad:
        raise Unsupported(f"{where}: {what} depends on earlier iterations")
      return t
    if type(h) is SymNum:
      deltas = []
      for g, v in posts:
        d = z3.simplify(term(v) - h.t)
        if (free_names(d) | free_names(g)) & bad:
          return self._recursive(h, v0, posts, where)
        deltas.append((g, d))

      def body(t):
        e = z3.IntVal(0)
        for g, d in deltas:
          e = z3.If(z3.substitute(g, (lp.index, t)),
                    z3.substitute(d, (lp.index, t)), e)
        return e
      end = z3.simplify(term(v0) + sum_over(comp.domain, body).t)
      if comp.domain.n is not None:
        self._counter(h, term(v0), body, end)
      return wrap(end)
    if type(h) is SymBool:
      # Only ever set to one value: a function of the index that is known.
      vals = []
      for g, v in posts:
        if is_sym(v) and v.t.eq(h.t):
          continue
        vals.append((g, z3.simplify(as_bool(v))))
      if not vals:
        return v0
      tos = {z3.is_true(v) for _, v in vals}
      if len(tos) != 1 or not all(z3.is_true(v) or z3.is_false(v)
                                  for _, v in vals):
        return self._recursive(h, v0, posts, where)
      to = tos.pop()
      sets = [(g, to) for g, _ in vals]
      name = h.t.decl().name()
      others = bad - {name}
      for g, _ in sets:
        if free_names(g) & others:
          return self._recursive(h, v0, posts, where)
      if not z3.is_const(h.t):
        lp.counters.add(name)
        dom = comp.domain
        at = lambda t: z3.substitute(h.t, (lp.index, t))  # noqa
        st = lambda t: z3.Or(*[z3.substitute(g, (lp.index, t))  # noqa
                               for g, _ in sets])
        for t in (z3.IntVal(0), dom.n):
          dom.note(t)
        cx.defs.append(at(z3.IntVal(0)) == as_bool(v0))

        def fact(t):
          return at(t + 1) == z3.If(st(t), z3.BoolVal(to), at(t))
        dom.fact(fact, lambda t, u: z3.Implies(
            z3.And(t < u, u <= dom.n, st(t)), at(u) == z3.BoolVal(to)))
        dom.note(lp.index)
      elif any(name in free_names(g) for g, _ in sets):
        raise Unsupported(f"{where}: the condition depends on earlier "
                          "iterations")
      e = exists(comp.domain, lambda t: z3.Or(*[
          z3.substitute(g, (lp.index, t)) for g, _ in sets]))
      end = z3.If(e.t, z3.BoolVal(to), as_bool(v0))
      if not z3.is_const(h.t):
        cx.defs.append(at(dom.n) == end)
        ex = e.t
        dom.fact(lambda t: z3.Implies(z3.Not(ex), at(t) == as_bool(v0)))
      return wrap(end)
    if hasattr(type(h), "vc_fold"):
      return type(h).vc_fold(h, lp, comp, v0, posts, bad)
    if type(h) is list or type(h) is VList:
      h_segs = h if type(h) is list else h.segs
      alts, front = [], None
      for g, v in posts:
        segs = v if type(v) is list else v.segs
        clean(g, "the condition")
        if not segs or segs[0] is not h_segs[0]:
          raise Unsupported(f"{where}: the list is not only appended to")
        alts.append((g, [s for s in segs[1:] if s != []]))
      v0_segs = v0 if type(v0) is list else v0.segs
      nested = any(not type(s) is list for _, ss in alts for s in ss)
      if nested:
        if any(sn.path == h_segs[0].path for sn in lp.seen):
          raise Unsupported(f"{where}: membership in a list that grows")
        segs = list(v0_segs) + [flatten(comp.domain, lp.index, alts, where)]
        return segs if type(h) is list else VList.of_segs(segs)
      alts = [(g, [x for s in ss for x in s]) for g, ss in alts]
      for sn in lp.seen:
        if sn.path == h_segs[0].path:
          sn.define(lp, comp, v0_segs, alts, bad, where)
      if not any(items for _, items in alts):
        segs = list(v0_segs)
      else:
        for g, items in alts:
          for x in items:
            check_clean(x, bad, where)
        segs = list(v0_segs) + [Comp(comp.domain, lp.index, alts)]
      return segs if type(h) is list else VList.of_segs(segs)
    if hasattr(type(h), "vc_fold"):
      return h.vc_fold(v0, comp, lp, posts, where)
    raise Unsupported(where)


class Flat:
  """The concatenation of lists, one for each element of an outer domain: an
  index domain with the maps f -> (outer index, inner index)."""

  def __init__(self, outer, index, inner, where):
    self.outer, self.index, self.inner = outer, index, inner
    ps = [l.index for l in cx.loops if l.index is not None]
    srt = [x.sort() for x in ps]
    nm = cx.name("flat:" + outer.name)
    mk = lambda s, *more: z3.Function(nm + s, *srt, *more, I)  # noqa
    self.o = lambda t: mk(".o", I)(*ps, t)
    self.i = lambda t: mk(".i", I)(*ps, t)
    self.pos = lambda a, b: mk(".p", I, I)(*ps, a, b)
    self.domain = Domain(nm, n=mk(".n")(*ps))
    self.domain.flat = self

  def member(self, a, b):
    """b is an index of the list of a."""
    return z3.And(self.outer.member(a),
                  *[z3.substitute(x, (self.index, a))
                    for x in [self.inner(b)]])

  def at(self, a, b):
    """The position of an inner element, which must exist."""
    t = self.pos(a, b)
    self.domain.note(t)
    cx.pc.append(z3.Implies(self.member(a, b), z3.And(
        t >= 0, t < self.domain.n, self.o(t) == a, self.i(t) == b)))
    return t


def flatten(outer, index, alts, where):
  """A list that is extended by symbolic lists in a loop. Every alternative
  adds some elements, or one symbolic list."""
  cases = []
  for g, ss in alts:
    if not ss:
      continue
    if outer.n is None:
      raise Unsupported(f"{where}: nested symbolic lists")
    if all(type(s) is list for s in ss):
      items = [x for s in ss for x in s]
      d = Domain("few", n=z3.IntVal(len(items)))
      k = z3.Const(cx.name("ix:few"), I)
      cases.append((g, Comp(d, k, [(k == j, [x])
                                   for j, x in enumerate(items)])))
      continue
    if len(ss) != 1 or not isinstance(ss[0], Comp) or (
        ss[0].domain.n is None):
      raise Unsupported(f"{where}: nested symbolic lists")
    cases.append((g, ss[0]))

  def inner(b):
    return z3.Or(*[z3.And(g, s.domain.member(b)) for g, s in cases])
  fl = Flat(outer, index, inner, where)
  f = z3.Const(cx.name("ix:" + fl.domain.name), I)
  out = []
  for g, s in cases:
    sub = lambda x, s=s, t=f: z3.substitute(  # noqa
        x, (index, fl.o(t)), (s.index, fl.i(t)))
    ob = Subst([(index, fl.o(f)), (s.index, fl.i(f))])
    for h, items in s.alts:
      out.append((sub(z3.And(g, s.domain.member(s.index), h)),
                  [ob.obj(x) for x in items]))

  def fact(t):
    a, b = fl.o(t), fl.i(t)
    outer.note(a)
    return z3.And(fl.member(a, b), fl.pos(a, b) == t)
  fl.domain.fact(fact, lambda t, u: z3.Implies(   # in order
      z3.And(t < u, u < fl.domain.n), z3.Or(fl.o(t) < fl.o(u), z3.And(
          fl.o(t) == fl.o(u), fl.i(t) < fl.i(u)))))
  # The facts of the inner lists at their elements in the flat list.
  for fa in list(cx.facts):
    for g, s in cases:
      if fa.domain is s.domain:
        fl.domain.fact(lambda t, fa=fa, s=s: z3.substitute(
            as_bool(fa.fn(s.index)), (s.index, fl.i(t)), (index, fl.o(t))))
  return Comp(fl.domain, f, out)


def check_clean(x, bad, where):
  pass


def same_or_is(a, b):
  return a is b


class Opt:
  """None, or a value: a variable that is None before a loop sets it."""

  def __init__(self, flag, value):
    self.__dict__.update(flag=flag, value=value)

  @staticmethod
  def havoc(it, path, like):
    ps = [l.index for l in cx.loops if l.index is not None]
    fn = z3.Function(cx.name("set:" + str(path[-1])),
                     *[x.sort() for x in ps], B)
    flag = SymBool(fn(*ps))
    it.lp.symbols.add(fn.name())
    if not hasattr(type(like), "vc_havoc"):
      raise Unsupported(f"loop {it.lp.site} sets {path[-1]}, a "
                        f"{type(like).__name__}")
    return Opt(flag, like.vc_havoc(it.lp))

  @staticmethod
  def fold(it, p, h, posts):
    if any(v is None for _, v in posts):
      raise Unsupported(f"loop {it.lp.site} resets {p[-1]}")
    flag = it._fold(p, False, h.flag, [
        (g, h.flag if v is h else SymBool(z3.BoolVal(True)))
        for g, v in posts])
    value = type(h.value).vc_none()
    if any(v is not h for _, v in posts):
      bad = it.lp.symbols - {it.lp.index.decl().name()} - it.lp.counters
      ps = []
      for g, v in posts:
        if v is h:
          v = h.value
        elif not v.has(h.value):
          # the first value: only where there was none
          if not cx.entails(z3.Not(z3.And(g, h.flag.t))):
            raise Unsupported(f"loop {it.lp.site} overwrites {p[-1]}")
          v = type(h.value).vc_join(h.value, v)
        ps.append((g, v))
      value = type(h.value).vc_fold(h.value, it.lp, it.comp, value, ps, bad)
    f = flag if type(flag) is bool else z3.simplify(as_bool(flag))
    if f is False or z3.is_false(as_bool(f)):
      return None
    return Opt(wrap(as_bool(f)), value)

  def decided(self):
    if bool(self.flag):
      return self.value
    return None

  def __getattr__(self, n):
    return getattr(self.decided(), n)

  def __bool__(self):
    return bool(self.decided())

  def __or__(self, o): return self.decided() | o
  def __ror__(self, o): return o | self.decided()
  def __and__(self, o): return self.decided() & o
  def __rand__(self, o): return o & self.decided()
  def __invert__(self): return ~self.decided()


def unopt(x):
  return x.decided() if type(x) is Opt else x


def is_none(x):
  if type(x) is Opt:
    return not bool(x.flag)
  return x is None


def not_none(x):
  return not is_none(x)


class Poison:
  """A loop temporary after its loop."""

  def __init__(self, name):
    object.__setattr__(self, "_n", name)

  def __getattribute__(self, a):
    if a in ("__class__", "__dict__"):
      return object.__getattribute__(self, a)
    raise Unsupported("use of a loop variable after a symbolic loop: " +
                      object.__getattribute__(self, "_n"))

  def __bool__(self):
    raise Unsupported("use of a loop variable after a symbolic loop")


# ----------------------------------------------------------------------------
# builtins of instrumented modules
# ----------------------------------------------------------------------------
class SymRange:

  def __init__(self, *a):
    if len(a) == 1:
      a = (0, a[0], 1)
    elif len(a) == 2:
      a = (a[0], a[1], 1)
    self.start, self.stop, self.step = a

  def as_list(self):
    a, b = term(self.start), term(self.stop)
    if type(self.step) is int and self.step in (1, -1):
      n = z3.simplify((b - a) if self.step == 1 else (a - b))
      st = self.step
    else:
      st = term(self.step)
      positive(st)
      n = z3.simplify(-((a - b) / st))
    if not cx.entails(n >= 0, 1500):
      n = z3.If(n > 0, n, z3.IntVal(0))
    v, _ = symbolic_list("range", lambda g: SymNum(z3.simplify(a + st * g)),
                         dom=index_domain(n))
    return v

  def vc_len(self):
    return self.as_list().vc_len()


def b_range(*a):
  if all(type(x) is int for x in a):
    return range(*a)
  return SymRange(*a)


def b_len(x):
  if hasattr(type(x), "vc_len"):
    return x.vc_len()
  m = getattr(type(x), "__len__", None)
  if type(m) is types.FunctionType:   # of a class under proof
    return m(x)
  return len(x)


def b_list(x=()):
  if type(x) is VList:
    return VList(x)
  if type(x) in (VSet,):
    return x.as_list()
  if type(x) is VDict:
    return x.keys()
  if type(x) is SymRange:
    return x.as_list()
  if hasattr(type(x), "vc_list"):
    return x.vc_list()
  if isinstance(x, types.GeneratorType):
    out = VList()
    drain(x, out)
    return out
  return VList(list(x))


def b_set(x=()):
  if hasattr(type(x), "vc_set"):
    return x.vc_set()
  if isinstance(x, types.GeneratorType):
    x = b_list(x)
  if hasattr(type(x), "vc_list"):
    x = x.vc_list()
  return VSet(x)


def b_dict(x=(), **kw):
  if isinstance(x, types.GeneratorType):
    x = b_list(x)
  if type(x) is VList and x.concrete() is None:
    d = VDict()
    d.entries = VList(x)
  else:
    d = VDict(x)
  for k, v in kw.items():
    d[k] = v
  return d


def b_tuple(x=()):
  if isinstance(x, types.GeneratorType):
    x = b_list(x)
  if type(x) is VList and x.concrete() is None:
    return x
  return tuple(x)


def _extreme(kind, args, key=None, default=UNSET):
  if key is not None:
    raise Unsupported("max/min with key")
  if len(args) == 1:
    seq = args[0]
    if hasattr(type(seq), "vc_list"):
      seq = seq.vc_list()
    if type(seq) is not VList:
      seq = VList(list(seq))
  else:
    seq = VList(list(args))
  c = seq.concrete()
  if c is not None:
    if not c:
      if default is not UNSET:
        return default
      raise ValueError(f"{kind}() arg is an empty sequence")
    r = c[0]
    for x in c[1:]:
      if not is_sym(r) and not is_sym(x):
        r = max(r, x) if kind == "max" else min(r, x)
      else:
        a, b = num_term(r), num_term(x)
        if a is None or b is None:
          raise TypeError(f"'{kind}' of incompatible values")
        r = wrap(z3.If(b > a, b, a) if kind == "max" else z3.If(b < a, b, a))
    return r
  if not bool(seq):
    if default is not UNSET:
      return default
    raise ValueError(f"{kind}() arg is an empty sequence")
  m = sym_int(kind)
  cmp_ = (lambda x: x <= m.t) if kind == "max" else (lambda x: x >= m.t)
  witness = []
  for s in seq.segs:
    if isinstance(s, list):
      for x in s:
        cx.assume(cmp_(term(x)))
        witness.append(term(x) == m.t)
    elif isinstance(s, Comp):
      def f(t, s=s):
        return z3.And(*[z3.Implies(g, cmp_(term(x)))
                        for g, items in s.at(t) for x in items])
      s.domain.fact(f)
      witness.append(exists(s.domain, lambda t, s=s: z3.Or(*[
          z3.And(g, term(x) == m.t) for g, items in s.at(t)
          for x in items])).t)
    else:
      raise Unsupported(kind)
  cx.assume(z3.Or(*witness))
  return m


def b_max(*a, **kw): return _extreme("max", a, **kw)
def b_min(*a, **kw): return _extreme("min", a, **kw)


def b_sum(x, start=0):
  if hasattr(type(x), "vc_list"):
    x = x.vc_list()
  if type(x) is not VList:
    x = VList(list(x))
  tot = start
  for s in x.segs:
    if isinstance(s, list):
      for y in s:
        tot = tot + y
    elif isinstance(s, Comp):
      def f(t, s=s):
        e = z3.IntVal(0)
        for g, items in s.at(t):
          e = z3.If(g, sum([term(i) for i in items], z3.IntVal(0)), e)
        return e
      tot = tot + sum_over(s.domain, f)
    else:
      raise Unsupported("sum")
  return tot


def truth(y):
  """The truth value of an element, without deciding it."""
  y = unopt(y)
  if type(y) is SymNum:
    return SymBool(y.t != 0)
  if type(y) is SymStr:
    return SymBool(y.t != cx.lit(""))
  if type(y) is SymBool or type(y) is bool:
    return y
  if y is None or type(y) in (int, str, bytes):
    return bool(y)
  return y if is_sym(y) else SymBool(z3.BoolVal(True)) if (
      getattr(type(y), "vc_msg", False)) else bool(y)


def b_any(x):
  x = x if type(x) is VList else b_list(x)
  alts = []
  for s in x.segs:
    if isinstance(s, list):
      for y in s:
        alts.append(truth(y))
    elif isinstance(s, Comp):
      alts.append(exists(s.domain, lambda t, s=s: z3.Or(*[
          z3.And(g, as_bool(truth(y))) for g, items in s.at(t) for y in items])))
    else:
      raise Unsupported("any")
  if all(type(a) is bool for a in alts):
    return any(alts)
  return Or(*[a if type(a) is bool or type(a) is SymBool else a.__bool__()
              for a in alts])


def b_all(x):
  x = x if type(x) is VList else b_list(x)
  inv = x.__class__ and VList.of_segs([
      [neg(truth(y)) for y in s] if isinstance(s, list)
      else Comp(s.domain, s.index, [(g, [neg(truth(y)) for y in items])
                                    for g, items in s.alts])
      for s in x.segs])
  r = b_any(inv)
  return neg(r)


def b_zip(*xs):
  xs = [x.vc_list() if hasattr(type(x), "vc_list") else x for x in xs]
  if all(type(x) is not VList or x.concrete() is not None for x in xs):
    return VList(list(zip(*[x.concrete() if type(x) is VList else x
                            for x in xs])))
  comps = []
  for x in xs:
    if type(x) is VList and len([s for s in x.segs if s != []]) == 1:
      s = [s for s in x.segs if s != []][0]
      if isinstance(s, Comp) and len(s.alts) == 1 and z3.is_true(
          z3.simplify(s.alts[0][0])) and len(s.alts[0][1]) == 1:
        comps.append(s)
        continue
    raise Unsupported("zip of these sequences")
  d = comps[0].domain
  for s in comps[1:]:
    if s.domain is not d and not cx.entails(s.domain.n == d.n):
      raise Unsupported("zip of sequences of different length")
  g = z3.Const(cx.name("zip"), I)
  items = []
  for s in comps:
    if s.domain is not d:
      s.domain.note(g)
    items.append(s.at(g)[0][1][0])
  return VList.of_segs([Comp(d, g, [(z3.BoolVal(True), [tuple(items)])])])


def b_enumerate(x, start=0):
  if hasattr(type(x), "vc_list"):
    x = x.vc_list()
  if type(x) is VDict:
    x = x.keys()
  if type(x) is not VList or x.concrete() is not None:
    return VList(list(enumerate(x.concrete() if type(x) is VList else x,
                                start)))
  segs = [s for s in x.segs if s != []]
  if len(segs) == 1 and isinstance(segs[0], Comp):
    s = segs[0]
    if len(s.alts) == 1 and z3.is_true(z3.simplify(s.alts[0][0])) and len(
        s.alts[0][1]) == 1 and s.domain.n is not None:
      return VList.of_segs([Comp(s.domain, s.index, [
          (z3.BoolVal(True), [(SymNum(s.index + start), s.alts[0][1][0])])])])
  raise Unsupported("enumerate of this sequence")


def b_reversed(x):
  if type(x) is VList:
    return VList(list(reversed(x.need("reversed"))))
  return reversed(x)


def _symbolic(x):
  return (type(x) is VList and x.concrete() is None or
          type(x) in (VSet, VDict, SymRange) or hasattr(type(x), "vc_list"))


def b_map(f, *xs):
  if len(xs) == 1 and _symbolic(xs[0]):
    return comp("list", b_list(xs[0]), f, [])
  return map(f, *xs)


def b_filter(f, x):
  if _symbolic(x):
    return comp("list", b_list(x), lambda e: e, [f or (lambda e: e)])
  return filter(f, x)


def b_sorted(x, **kw):
  if not kw and hasattr(x, "vc_sorted"):
    return x.vc_sorted()
  x = b_list(x)
  c = x.concrete()
  if c is None or any(is_sym(y) and type(y) is not SymNum for y in c):
    raise Unsupported("sorted() of symbolic values")
  return VList(sorted(c, **kw))


def b_str(*a):
  if a and hasattr(type(a[0]), "vc_str"):
    return a[0].vc_str()
  if a and is_sym(a[0]):
    if type(a[0]) is SymStr:
      return a[0]
    return SymStr(ufun("str", a[0].t.sort(), Str)(a[0].t))
  if len(a) == 2 and type(a[0]) is SymBytes:
    return a[0].decode(a[1])
  return str(*a)


def b_int(*a):
  if a and type(a[0]) is SymNum:
    return a[0]
  if len(a) == 1 and type(a[0]) is SymBytes:
    a = (a[0].s,)
  if a and type(a[0]) is SymStr:
    t = a[0].t
    if z3.is_app(t) and t.decl().eq(ufun("str", I, Str)):
      return SymNum(t.arg(0))  # int(str(n)) == n
    return SymNum(ufun("int", Str, I)(t))
  return int(*a)


def b_iter(x, *a):
  if hasattr(type(x), "vc_list"):
    return x.vc_list()
  if type(x) in (VList, VDict, VSet, SymRange):
    return x
  return iter(x, *a)


def b_isinstance(x, t):
  return isinstance(x, t)


class _TypeShadow(type):
  """Stands for a builtin type: calls convert, isinstance() is the original."""

  def __call__(cls, *a, **kw):
    return cls.conv(*a, **kw)

  def __instancecheck__(cls, x):
    return isinstance(x, cls.orig)

  def __subclasscheck__(cls, c):
    return c is cls or issubclass(c, cls.orig)

  def __eq__(cls, o):
    return o is cls or o is cls.orig

  def __hash__(cls):
    return hash(cls.orig)

  def __getattr__(cls, n):
    return getattr(cls.orig, n)


def _shadow(orig, conv):
  return _TypeShadow(orig.__name__, (), {"orig": orig,
                                         "conv": staticmethod(conv)})


b_list_t, b_set_t = _shadow(list, b_list), _shadow(set, b_set)
b_dict_t, b_str_t = _shadow(dict, b_dict), _shadow(str, b_str)
b_int_t, b_tuple_t = _shadow(int, b_int), _shadow(tuple, b_tuple)

BUILTINS = {"range": b_range, "len": b_len, "list": b_list_t, "set": b_set_t,
            "dict": b_dict_t, "max": b_max, "min": b_min, "sum": b_sum,
            "any": b_any, "all": b_all, "zip": b_zip,
            "enumerate": b_enumerate, "sorted": b_sorted, "str": b_str_t,
            "reversed": b_reversed, "map": b_map, "filter": b_filter,
            "int": b_int_t, "iter": b_iter, "tuple": b_tuple_t}


def b_reduce(f, seq, *init):
  if hasattr(type(seq), "vc_list"):
    seq = seq.vc_list()
  if not _symbolic(seq) and not isinstance(seq, types.GeneratorType):
    return functools.reduce(f, seq, *init)
  if not init:
    raise Unsupported("reduce() of a symbolic list without a start")
  return fold_loop(f, b_list(seq), init[0])


def b_chain(*seqs):
  out = VList()
  for s in seqs:
    out.extend(b_list(s))
  return out


def _from_iterable(seqs):
  if _symbolic(seqs) or isinstance(seqs, types.GeneratorType):
    out = VList()
    flat_loop(b_list(seqs), b_list, out)
    return out
  return b_chain(*seqs)


b_chain.from_iterable = _from_iterable


class _Module:
  """A module of the standard library, with some functions replaced."""
  vc_constant = True

  def __init__(self, real, **shims):
    self.__dict__.update(shims)
    self.__dict__["_real"] = real

  def __getattr__(self, n):
    return getattr(self.__dict__["_real"], n)


MODULES = [
    (functools, _Module(functools, reduce=b_reduce)),
    (functools.reduce, b_reduce),
    (itertools, _Module(itertools, chain=b_chain)),
    (itertools.chain, b_chain),
]


def contains(c, x):
  if hasattr(type(c), "contains"):
    return c.contains(x)
  if is_sym(x):
    if isinstance(c, (list, tuple, set, frozenset, dict)):
      rs = [vc_eq(y, x) for y in c]
      return all_any(rs)
    raise Unsupported(f"membership in {type(c).__name__}")
  if type(c) in (list, tuple):
    rs = [vc_eq(y, x) for y in c]
    return all_any(rs)
  return x in c


def all_any(rs):
  if all(type(r) is bool for r in rs):
    return any(rs)
  return Or(*rs)


def not_contains(c, x):
  r = contains(c, x)
  return neg(r) if is_sym(r) else not r


def comp(kind, seq, elt, conds):
  """A comprehension with one generator."""
  if hasattr(type(seq), "vc_list"):
    seq = seq.vc_list()
  if type(seq) is VDict:
    seq = seq.keys()
  if type(seq) is SymRange:
    seq = seq.as_list()
  out = VList()
  if type(seq) is VSet:
    comp_loop(seq, elt, conds, out)
  elif type(seq) is not VList or seq.concrete() is not None:
    it = seq.concrete() if type(seq) is VList else seq
    if kind == "gen" and type(seq) is not VList:
      return (elt(x) for x in seq if all(bool(c(x)) for c in conds))
    for x in it:
      if all(bool(c(x)) for c in conds):
        out.append(elt(x))
  else:
    comp_loop(seq, elt, conds, out)
  if kind in ("list", "gen"):
    return out
  if kind == "set":
    return VSet(out)
  d = VDict()
  d.entries = out
  return d


def comp_loop(seq, elt, conds, out):
  raise Unsupported("bound in load.py")


def unpack(x, n):
  return x


def comp_flat(seq, inner):
  out = VList()
  flat_loop(seq, inner, out)
  return out


def dict_merge(parts):
  d = VDict()
  for k, v, merge in parts:
    if merge:
      d.update(v)
    else:
      d[k] = v
  return d


WHILE = {}     # loop site -> invariant handler given by a specification


def while_same(n, e):
  """The bound of a counted loop does not change."""
  r = vc_eq(n, e)
  if r is True or is_sym(r) and cx.entails(r.t):
    return
  raise Unsupported("a loop over a range that changes")


def while_end(i, n):
  return b_max(i, n)


def while_head(site, test):
  h = WHILE.get(site)
  if h is not None:
    return h(site, test)
  n = cx.ghost.setdefault("$while", {})
  r = bool(test())
  if r:
    n[site] = n.get(site, 0) + 1
    if n[site] > 64:
      raise Unsupported(f"loop {site} without an invariant")
  return r
