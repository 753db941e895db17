"""Units of proof and their exploration."""
from __future__ import annotations

import inspect
import time
import traceback

import z3

from engine import core
from engine.core import cx, PathEnd, RestartUnit, Unsupported, VList

UNITS = []


class Unit:

  def __init__(self, pids, name, functions, fn, budget, paths, bounded):
    self.pids, self.name, self.functions, self.fn = pids, name, functions, fn
    self.budget, self.max_paths = budget, paths
    self.bounded = bounded


def unit(pids, name, functions=(), budget=60, paths=400, bounded=None):
  def deco(fn):
    UNITS.append(Unit(pids.split(), name, list(functions), fn, budget, paths,
                      bounded))
    return fn
  return deco


class Raised:
  """The outcome of a call that raised an exception."""

  def __init__(self, exc):
    self.exc = exc

  def __repr__(self):
    return f"Raised({self.exc!r})"


ALLOWED = ()


def call(fn, *a, **kw):
  """Runs code under proof; errors of google/space become outcomes, errors
  that may come from the contracts being incomplete are not verdicts."""
  try:
    return fn(*a, **kw)
  except Exception as e:  # pylint: disable=broad-except
    if type(e).__module__.startswith("space.") or type(e) in (
        AssertionError, ValueError, NotImplementedError, FileNotFoundError):
      return Raised(e)
    tb = traceback.extract_tb(e.__traceback__)
    where = tb[-1] if tb else None
    raise Unsupported(f"{type(e).__name__}: {e} at {where}") from e


def error_name(r):
  return type(r.exc).__name__ if isinstance(r, Raised) else None


def run_unit(u):
  t0 = time.time()
  mods, premat = {}, {}
  restarts = 0
  status, why = "ok", None
  while True:
    cx.reset_unit()
    cx.mods, cx.premat = mods, premat
    cx.deadline = t0 + u.budget
    todo = [[]]
    n = 0
    reached = vacuous = 0
    try:
      while todo:
        prefix = todo.pop()
        cx.start_path(prefix)
        n += 1
        if n > u.max_paths:
          status, why = "unsupported", "too many paths"
          break
        try:
          u.fn()
          if cx.infeasible():
            vacuous += 1
          else:
            reached += 1
        except PathEnd:
          pass
        todo += cx.root.alternatives
      else:
        status = "ok"
      break
    except RestartUnit:
      restarts += 1
      if restarts > 60:
        status, why = "unsupported", "no fixed point of the modified state"
        break
      continue
    except Unsupported as e:
      status = "unsupported"
      fr = traceback.extract_tb(e.__traceback__)
      loc = [f for f in fr if "/space/" in f.filename]
      at = f" [{loc[-1].filename.split('/space/')[-1]}:{loc[-1].lineno}]" if (
          loc) else ""
      why = str(e) + at
      cx.last_tb = "".join(traceback.format_exception(e))
      break
    except RecursionError:
      status, why = "unsupported", "recursion"
      break
    except Exception as e:  # noqa
      status = "unsupported"
      why = f"{type(e).__name__}: {e}"
      cx.last_tb = traceback.format_exc()
      break
  obs = []
  for r in cx.results.values():
    r = dict(r)
    if status != "ok" and r["status"] == "discharged":
      r["status"] = "unknown"
      r["detail"] = {"note": why}
    obs.append(r)
  if status != "ok" or not obs:
    obs.append({"name": "(whole unit)", "status": "unsupported",
                "backend": "engine", "s": 0.0, "paths": n,
                "detail": {"note": why or "no obligation was reached"}})
  for r in obs:
    r["name"] = f"{u.name}: {r['name']}"
    r["function"] = u.functions[0] if u.functions else u.name
    r["bounded"] = u.bounded or (
        "loop unrolled" if "$unroll" in premat else None)
  return {"unit": u.name, "pids": u.pids, "functions": u.functions,
          "obligations": obs, "paths": n, "restarts": restarts,
          "solver_s": round(cx.solver_s, 3), "checks": cx.n_checks,
          "backends": sorted(cx.backends), "status": status, "why": why,
          "bounded": u.bounded or (
              "a loop was unrolled: " + str(premat["$unroll"])
              if "$unroll" in premat else None), "reached": reached, "vacuous": vacuous,
          "assumed": sorted(cx.notes),
          "wall": round(time.time() - t0, 2)}


def named(fn, a, k, method=False):
  """The arguments of a call of fn, by name, whichever way they are given."""
  b = inspect.signature(fn).bind(*(([None] if method else []) + list(a)), **k)
  b.apply_defaults()
  args = dict(b.arguments)
  if method:
    args.pop(next(iter(args)))
  return args
