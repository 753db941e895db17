"""engine/main.py run PID TIER OUT.json | list | unit NAME"""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
  if os.path.isdir(p) and p not in sys.path:
    sys.path.append(p)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

SPECS = ["storage", "pruning", "runners", "files", "manifests", "changes",
         "deletes", "appends", "reads", "inserts", "rays", "rayruns", "values", "schemas",
         "joins", "loads", "views", "catalogs", "small"]


def boot():
  from engine import load, stubs, raystub
  load.install()
  raystub.install()
  import space  # noqa
  for m in ("core.storage", "core.views", "core.datasets",
            "catalogs.directory", "core.random_access", "core.ops.append",
            "core.ops.delete", "core.ops.insert", "core.ops.read",
            "core.ops.change_data", "core.loaders.parquet",
            "core.loaders.array_record", "core.transform.udfs",
            "core.manifests.falsifiable_filters", "ray.data_sources",
            "ray.runners", "ray.ops.append", "ray.ops.delete",
            "ray.ops.insert", "ray.ops.change_data", "ray.ops.join",
            "core.transform.join", "core.transform.plans"):
    importlib.import_module("space." + m)
  stubs.setup()
  for s in SPECS:
    importlib.import_module("engine.specs." + s)


def units_of(pid):
  from engine.unit import UNITS
  return [u for u in UNITS if pid is None or pid in u.pids]


def _one(name):
  from engine.unit import UNITS, run_unit
  u = [x for x in UNITS if x.name == name][0]
  return run_unit(u)


def main(argv):
  cmd = argv[0]
  boot()
  from engine.unit import UNITS, run_unit
  from engine import core, stubs
  if cmd == "list":
    for u in UNITS:
      print(u.name, u.pids, u.functions)
    return 0
  if cmd == "unit":
    for u in UNITS:
      if any(a in u.name for a in argv[1:]):
        r = run_unit(u)
        for o in r["obligations"]:
          print(f"{o['status']:12} {o['paths']:4} {o['s']:.2f} {o['name']}")
          if o["status"] != "discharged" and o["detail"]:
            for k, v in o["detail"].items():
              if v:
                print("      ", k, ":", str(v)[:3000 if "-v" in argv else 500])
        print(r["status"], r["why"], "paths", r["paths"], "vacuous",
              r["vacuous"], "restarts",
              r["restarts"], "checks", r["checks"], "solver",
              r["solver_s"], "wall", r["wall"])
        if r["status"] != "ok" and "-t" in argv:
          print(getattr(core.cx, "last_tb", ""))
    return 0
  if cmd == "run":
    pid, tier, out = argv[1:4]
    t0 = time.time()
    us = units_of(pid)
    budget = 200 if tier == "quick" else 600
    results = []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, max(1, len(us)))) as pool:
      jobs = [(u, pool.apply_async(_one, (u.name,))) for u in us]
      for u, j in jobs:
        left = max(1.0, budget - (time.time() - t0))
        try:
          results.append(j.get(left))
        except mp.TimeoutError:
          results.append({
              "unit": u.name, "functions": u.functions, "paths": 0,
              "solver_s": 0.0, "backends": [], "status": "unsupported",
              "why": "time", "bounded": u.bounded, "assumed": [],
              "obligations": [{
                  "name": f"{u.name}: (whole unit)", "status": "unsupported",
                  "function": u.name, "backend": "engine", "s": 0.0,
                  "paths": 0, "detail": {"note": "time budget"}}]})
      pool.terminate()
    obs = [o for r in results for o in r["obligations"]]
    for o in obs:
      if o.get("bounded") and o["status"] == "discharged":
        o["status"] = "bounded-ok"
    json.dump({
        "obligations": obs,
        "functions": sorted({f for r in results for f in r["functions"]}),
        "units": [{k: r.get(k) for k in ("unit", "status", "why", "paths",
                                         "restarts", "checks", "solver_s",
                                         "wall", "bounded", "reached")}
                  for r in results],
        "trusted": [f"{k}: {v}" for k, v in sorted(stubs.TRUSTED.items())],
        "assumptions": sorted({a for r in results for a in r["assumed"]}),
        "solver_s": sum(r["solver_s"] for r in results),
        "backends": sorted({b for r in results for b in r["backends"]}),
    }, open(out, "w"), default=str, indent=1)
    return 0
  return 2


if __name__ == "__main__":
  sys.exit(main(sys.argv[1:]))
