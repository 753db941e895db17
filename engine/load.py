"""Loads the modules of /repo for symbolic execution.

Every run reads the source files of /repo's working tree, rewrites their syntax
trees mechanically and compiles the result: the statements that run are those
of the file. The rewriting only redirects operations that CPython would not
dispatch to a symbolic value:

  for x in E          the iterator comes from core.vc_iter(E)
  [..], {..}, {k: v}  core.VList, core.VSet, core.VDict
  comprehensions      core.comp (a fold over the iterated sequence)
  a in b, a not in b  core.contains / not_contains
  f"..."              core.fstr
  while i < E         with i += 1 as the last statement: for i in range(i, E),
                      where E is shown not to change
  while C             while core.while_head(C)   (bounded, see DESIGN.md)

and the builtins of core.BUILTINS shadow the originals. Nothing is dropped.
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from engine import core

SRC = os.environ.get("VERIF_REPO", "/repo") + "/python/src"

_THIS = {"__vc_module__": True, "__name__": "$engine", "core": core}
exec(compile('''
def comp_loop(seq, elt, conds, out):
  it = core.vc_iter(seq, "$comp")
  try:
    for _vc_x in it:
      _vc_keep = True
      for _vc_c in conds:
        if not _vc_c(_vc_x):
          _vc_keep = False
          break
      if _vc_keep:
        out.append(elt(_vc_x))
  finally:
    core.vc_leave(it)


def drain(seq, out):
  it = core.vc_iter(seq, "$drain")
  try:
    for _vc_x in it:
      out.append(_vc_x)
  finally:
    core.vc_leave(it)


def flat_loop(seq, inner, out):
  it = core.vc_iter(seq, "$flat")
  try:
    for _vc_x in it:
      out.extend(inner(_vc_x))
  finally:
    core.vc_leave(it)


def fold_loop(fn, seq, acc):
  it = core.vc_iter(seq, "$fold")
  try:
    for _vc_x in it:
      acc = fn(acc, _vc_x)
  finally:
    core.vc_leave(it)
  return acc


def drive(seq, fn, *state):
  it = core.vc_iter(seq, "$drive")
  try:
    for _vc_x in it:
      fn(_vc_x)
  finally:
    core.vc_leave(it)
''', "<engine loops>", "exec"), _THIS)
core.LOOPS["$comp"] = ("_vc_x", "_vc_keep", "_vc_c")
core.LOOPS["$drain"] = ("_vc_x",)
core.LOOPS["$flat"] = ("_vc_x",)
core.comp_loop = _THIS["comp_loop"]
core.drain = _THIS["drain"]
core.LOOPS["$fold"] = ("_vc_x",)
core.fold_loop = _THIS["fold_loop"]
core.LOOPS["$drive"] = ("_vc_x",)
core.drive = _THIS["drive"]
core.flat_loop = _THIS["flat_loop"]


class _Names(ast.NodeVisitor):
  """Locals that a loop body definitely assigns before any use."""

  def __init__(self):
    self.assigned, self.read_first, self.stored = set(), set(), set()

  def load(self, n):
    if n not in self.assigned:
      self.read_first.add(n)

  def visit_Name(self, n):
    if isinstance(n.ctx, ast.Load):
      self.load(n.id)
    else:
      self.stored.add(n.id)

  def bind(self, t):
    for n in ast.walk(t):
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
        self.assigned.add(n.id)
        self.stored.add(n.id)

  def visit_Assign(self, n):
    self.visit(n.value)
    for t in n.targets:
      self.visit(t)
      self.bind(t)

  def visit_AnnAssign(self, n):
    if n.value:
      self.visit(n.value)
      self.bind(n.target)

  def visit_AugAssign(self, n):
    if isinstance(n.target, ast.Name):
      self.load(n.target.id)
      self.stored.add(n.target.id)
    self.visit(n.value)
    self.visit(n.target)

  def visit_NamedExpr(self, n):
    self.visit(n.value)
    self.bind(n.target)

  def visit_If(self, n):
    self.visit(n.test)
    base = set(self.assigned)
    self.block(n.body)
    one = self.assigned if not _ends(n.body) else None
    self.assigned = set(base)
    self.block(n.orelse)
    two = self.assigned if not _ends(n.orelse) else None
    if one is None and two is None:
      self.assigned = base
    elif one is None:
      self.assigned = two
    elif two is None:
      self.assigned = one
    else:
      self.assigned = one & two

  def visit_For(self, n):
    self.visit(n.iter)
    base = set(self.assigned)
    self.bind(n.target)
    self.block(n.body)
    self.assigned = base
    self.block(n.orelse)

  def visit_While(self, n):
    self.visit(n.test)
    base = set(self.assigned)
    self.block(n.body)
    self.assigned = base

  def visit_With(self, n):
    for i in n.items:
      self.visit(i.context_expr)
      if i.optional_vars:
        self.bind(i.optional_vars)
    self.block(n.body)

  def visit_Try(self, n):
    base = set(self.assigned)
    self.block(n.body)
    self.assigned = base
    for h in n.handlers:
      self.block(h.body)
      self.assigned = set(base)
    self.block(n.finalbody)

  def visit_Lambda(self, n):
    inner = {a.arg for a in n.args.args}
    for x in ast.walk(n.body):
      if isinstance(x, ast.Name) and x.id not in inner:
        self.load(x.id)

  def _compr(self, n):
    bound = set()
    for g in n.generators:
      for x in ast.walk(g.target):
        if isinstance(x, ast.Name):
          bound.add(x.id)
    for x in ast.walk(n):
      if isinstance(x, ast.Name) and x.id not in bound and isinstance(
          x.ctx, ast.Load):
        self.load(x.id)
  visit_ListComp = visit_SetComp = visit_DictComp = _compr
  visit_GeneratorExp = _compr

  def visit_FunctionDef(self, n):
    self.assigned.add(n.name)
    self.stored.add(n.name)
    for x in ast.walk(n):
      if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
        self.load(x.id)

  def block(self, body):
    for st in body:
      self.visit(st)


def _ends(body):
  return bool(body) and isinstance(
      body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def loop_temps(node, after=()):
  """The locals that an iteration assigns before it reads them. One that only
  some iterations assign, and the code after the loop reads, is carried."""
  v = _Names()
  v.bind(node.target)
  v.block(node.body)
  temps = v.stored - v.read_first
  sure = set(v.assigned)
  if any(isinstance(x, ast.Continue) for b in node.body for x in ast.walk(b)):
    sure = set()
    for x in ast.walk(node.target):
      if isinstance(x, ast.Name):
        sure.add(x.id)
  r = _Names()
  r.block(after)
  return tuple(sorted(temps - (r.read_first - sure)))


def loop_ends(fn):
  """For each loop of a function, the statements that may follow it."""
  out = {}

  def block(body, after):
    for i, st in enumerate(body):
      rest = body[i + 1:] + after
      if isinstance(st, (ast.For, ast.While)):
        out[id(st)] = rest
        block(st.body, [st] + rest)
        block(st.orelse, rest)
      elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        continue
      else:
        for f in ("body", "orelse", "finalbody"):
          b = getattr(st, f, None)
          if isinstance(b, list):
            block(b, rest)
        for h in getattr(st, "handlers", []):
          block(h.body, rest)
  block(fn.body, [])
  return out


class Rewrite(ast.NodeTransformer):

  def __init__(self, module):
    self.module = module
    self.stack = []
    self.count = {}
    self.ends = {}
    self.n = 0

  def _vc(self, name, *args):
    return ast.Call(ast.Attribute(ast.Name("_vc_", ast.Load()), name,
                                  ast.Load()), list(args), [])

  def scope(self, node):
    self.stack.append(node.name)
    self.generic_visit(node)
    self.stack.pop()
    return node

  def visit_FunctionDef(self, node):
    # Annotations and decorators stay as they are.
    self.stack.append(node.name)
    keep, self.ends = self.ends, loop_ends(node)
    node.body = self._body(node.body)
    self.ends = keep
    node.args.defaults = [self.visit(d) for d in node.args.defaults]
    self.stack.pop()
    return node

  def visit_ClassDef(self, node):
    self.stack.append(node.name)
    out = []
    for st in node.body:
      out.append(self.visit(st) if isinstance(
          st, (ast.FunctionDef, ast.ClassDef)) else st)
    node.body = out
    self.stack.pop()
    return node

  def _body(self, body):
    out = []
    for st in body:
      r = self.visit(st)
      if isinstance(r, list):
        out += r
      elif r is not None:
        out.append(r)
    return out

  def site(self):
    q = ".".join(self.stack)
    k = self.count[q] = self.count.get(q, 0) + 1
    return f"{self.module}:{q}#{k}"

  def visit_For(self, node):
    site = self.site()
    core.LOOPS[site] = loop_temps(node, self.ends.get(id(node), ()))
    self.n += 1
    it = f"_vc_it{self.n}"
    node.iter = self._vc("vc_iter", self.visit(node.iter), ast.Constant(site))
    node.target = self.visit(node.target)
    node.body = self._body(node.body)
    node.orelse = self._body(node.orelse)
    assign = ast.Assign([ast.Name(it, ast.Store())], node.iter)
    node.iter = ast.Name(it, ast.Load())
    tr = ast.Try(body=[node], handlers=[], orelse=[], finalbody=[
        ast.Expr(self._vc("vc_leave", ast.Name(it, ast.Load())))])
    for x in (assign, tr):
      ast.copy_location(x, node)
    return [assign, tr]

  def visit_Expr(self, node):
    if isinstance(node.value, ast.YieldFrom):
      self.n += 1
      v = f"_vc_y{self.n}"
      loop = ast.For(ast.Name(v, ast.Store()), node.value.value,
                     [ast.Expr(ast.Yield(ast.Name(v, ast.Load())))], [], None)
      ast.copy_location(loop, node)
      return self.visit_For(loop)
    return self.generic_visit(node)

  def _counted(self, node):
    """while i < E: ..; i += 1 as a loop over a range, or None."""
    t = node.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
      return None
    i, e = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Gt):
      i, e = e, i
    elif not isinstance(t.ops[0], ast.Lt):
      return None
    if not isinstance(i, ast.Name) or len(node.body) < 2:
      return None
    last = node.body[-1]
    if not (isinstance(last, ast.AugAssign) and isinstance(
        last.op, ast.Add) and isinstance(last.target, ast.Name) and
            last.target.id == i.id and isinstance(last.value, ast.Constant) and
            last.value.value == 1):
      return None
    for st in node.body[:-1]:
      for x in ast.walk(st):
        if isinstance(x, (ast.Continue, ast.Global, ast.Nonlocal)) or (
            isinstance(x, ast.Name) and x.id == i.id and
            not isinstance(x.ctx, ast.Load)):
          return None
    self.n += 1
    n, st = f"_vc_n{self.n}", f"_vc_s{self.n}"

    def name(k, ctx=None):
      return ast.Name(k, ctx or ast.Load())
    same = ast.Expr(self._vc("while_same", name(n), e))
    end = ast.Assign([name(i.id, ast.Store())],
                     self._vc("while_end", name(st), name(n)))
    loop = ast.For(name(i.id, ast.Store()), ast.Call(
        name("range"), [name(st), name(n)], []), node.body[:-1] + [same],
                   [end] + node.orelse, None)
    pre = [ast.Assign([name(n, ast.Store())], e),
           ast.Assign([name(st, ast.Store())], name(i.id))]
    for x in pre + [loop, same, end]:
      ast.copy_location(x, node)
      ast.fix_missing_locations(x)
    self.ends[id(loop)] = self.ends.get(id(node), ())
    return pre, loop

  def visit_While(self, node):
    c = self._counted(node)
    if c is not None:
      pre, loop = c
      return [self.visit(x) for x in pre] + self.visit_For(loop)
    site = self.site()
    self.generic_visit(node)
    test = ast.Lambda(ast.arguments([], [], None, [], [], None, []),
                      node.test)
    node.test = self._vc("while_head", ast.Constant(site), test)
    return node

  def visit_List(self, node):
    self.generic_visit(node)
    if not isinstance(node.ctx, ast.Load):
      return node
    if any(isinstance(e, ast.Starred) for e in node.elts):
      parts = []
      for e in node.elts:
        if isinstance(e, ast.Starred):
          parts.append(self._vc("b_list", e.value))
        else:
          parts.append(self._vc("VList", ast.List([e], ast.Load())))
      r = self._vc("VList", ast.List([], ast.Load()))
      for p in parts:
        r = ast.BinOp(r, ast.Add(), p)
      return r
    return self._vc("VList", ast.List(node.elts, ast.Load()))

  def visit_AnnAssign(self, node):
    if node.value is not None:
      node.value = self.visit(node.value)
    return node

  def visit_Subscript(self, node):
    if isinstance(node.slice, (ast.List, ast.Tuple)):
      node.value = self.visit(node.value)
      return node
    return self.generic_visit(node)

  def visit_Set(self, node):
    self.generic_visit(node)
    return self._vc("VSet", ast.List(node.elts, ast.Load()))

  def visit_Dict(self, node):
    self.generic_visit(node)
    if any(k is None for k in node.keys):
      return self._vc("dict_merge", ast.List([
          ast.Tuple([ast.Constant(None) if k is None else k, v,
                     ast.Constant(k is None)], ast.Load())
          for k, v in zip(node.keys, node.values)], ast.Load()))
    return self._vc("VDict", ast.List([
        ast.Tuple([k, v], ast.Load())
        for k, v in zip(node.keys, node.values)], ast.Load()))

  def _lam(self, target, body):
    """lambda of one argument that unpacks `target`."""
    def args(names):
      return ast.arguments([], [ast.arg(n) for n in names], None, [], [],
                           None, [])
    if isinstance(target, ast.Name):
      return ast.Lambda(args([target.id]), body)
    assert isinstance(target, (ast.Tuple, ast.List))
    self.n += 1
    p = f"_vc_p{self.n}"
    names, inner = [], body
    for i, e in enumerate(target.elts):
      if isinstance(e, ast.Name):
        names.append(e.id)
      else:
        self.n += 1
        nm = f"_vc_q{self.n}"
        names.append(nm)
        inner = ast.Call(self._lam(e, inner), [ast.Name(nm, ast.Load())], [])
    f = ast.Lambda(args(names), inner)
    return ast.Lambda(args([p]), ast.Call(f, [ast.Starred(
        ast.Name(p, ast.Load()), ast.Load())], []))

  def _compr(self, node, kind, elt):
    gens = node.generators

    def build(i):
      g = gens[i]
      seq = self.visit(g.iter)
      last = i == len(gens) - 1
      conds = ast.List([self._lam(g.target, self.visit(c)) for c in g.ifs],
                       ast.Load())
      if last:
        return self._vc("comp", ast.Constant(kind if len(gens) == 1
                                             else "list"),
                        seq, self._lam(g.target, elt()), conds)
      if g.ifs:
        raise core.Unsupported("comprehension with inner conditions")
      return self._vc("comp_flat", seq, self._lam(g.target, build(i + 1)))
    r = build(0)
    if len(gens) > 1 and kind not in ("list", "gen"):
      r = self._vc("VSet" if kind == "set" else "VDict", r)
    return ast.copy_location(r, node)

  def visit_ListComp(self, node):
    return self._compr(node, "list", lambda: self.visit(node.elt))

  def visit_SetComp(self, node):
    return self._compr(node, "set", lambda: self.visit(node.elt))

  def visit_GeneratorExp(self, node):
    return self._compr(node, "gen", lambda: self.visit(node.elt))

  def visit_DictComp(self, node):
    return self._compr(node, "dict", lambda: ast.Tuple(
        [self.visit(node.key), self.visit(node.value)], ast.Load()))

  def visit_JoinedStr(self, node):
    parts = []
    for v in node.values:
      if isinstance(v, ast.Constant):
        parts.append(v)
      elif isinstance(v, ast.FormattedValue) and v.conversion == -1 and (
          v.format_spec is None):
        parts.append(self.visit(v.value))
      else:
        parts.append(ast.JoinedStr([v]))
    return ast.copy_location(self._vc("fstr", *parts), node)

  def visit_Compare(self, node):
    self.generic_visit(node)
    if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
      f = "contains" if isinstance(node.ops[0], ast.In) else "not_contains"
      return ast.copy_location(self._vc(f, node.comparators[0], node.left),
                               node)
    if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and (
        isinstance(node.comparators[0], ast.Constant) and
        node.comparators[0].value is None):
      f = "is_none" if isinstance(node.ops[0], ast.Is) else "not_none"
      return ast.copy_location(self._vc(f, node.left), node)
    return node


class _Loader(importlib.abc.Loader):

  def __init__(self, name, file):
    self.name, self.file = name, file

  def create_module(self, spec):
    return None

  def exec_module(self, module):
    src = open(self.file, encoding="utf-8").read()
    tree = ast.parse(src, self.file)
    tree = Rewrite(self.name).visit(tree)
    ast.fix_missing_locations(tree)
    module.__dict__["__vc_module__"] = True
    module.__dict__["_vc_"] = core
    for k, v in core.BUILTINS.items():
      module.__dict__[k] = v
    exec(compile(tree, self.file, "exec"), module.__dict__)
    for k, v in list(module.__dict__.items()):
      for real, shim in core.MODULES:
        if v is real:
          module.__dict__[k] = shim


class Finder(importlib.abc.MetaPathFinder):

  def find_spec(self, fullname, path=None, target=None):
    if fullname != "space" and not fullname.startswith("space."):
      return None
    rel = os.path.join(SRC, *fullname.split("."))
    raw = (fullname.startswith("space.core.proto") or
           fullname.endswith("lazy_imports_utils"))
    for file, pkg in ((rel + "/__init__.py", True), (rel + ".py", False)):
      if os.path.exists(file):
        if raw:
          ld = importlib.machinery.SourceFileLoader(fullname, file)
        else:
          ld = _Loader(fullname, file)
        return importlib.util.spec_from_file_location(
            fullname, file, loader=ld,
            submodule_search_locations=[os.path.dirname(file)] if pkg
            else None)
    return None


def install():
  sys.dont_write_bytecode = True
  sys.meta_path.insert(0, Finder())
