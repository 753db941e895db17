"""Runs the concrete contract replay of one property.

  main.py run PID SEED TIER OUT.json     all cases of a property
  main.py replay FILE                    one recorded case again
  main.py engine PID OUT.json CASES.json candidate inputs of the prover

Exit code is always 0 unless the harness itself cannot run; the verdict is in
OUT.json (list "violations").
"""
from __future__ import annotations

import collections
import json
import os
import random
import resource
import signal
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402
import registry  # noqa: E402

N_WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_TIMEOUT = 100


class CaseTimeout(Exception):
  pass


def _alarm(*_):
  raise CaseTimeout()


def run_case(pid, name, seed, index, tier, base):
  """Returns (status, info): ok / violation / skip / unavailable."""
  fn = registry.find(pid, name)
  rng = random.Random(f"{pid}/{name}/{seed}/{index}")
  random.seed(f"g/{pid}/{name}/{seed}/{index}")
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(CASE_TIMEOUT)
  try:
    with lib.scratch(base) as d:
      info = fn(rng, d, tier)
    return "ok", info or {}
  except lib.Violation as v:
    return "violation", {"message": v.msg, "detail": v.detail}
  except lib.Skip as s:
    return "skip", {"message": str(s)}
  except CaseTimeout:
    return "timeout", {"message": f"the case did not finish in {CASE_TIMEOUT} s",
                       "detail": {}}
  except (ImportError, MemoryError) as e:
    return "unavailable", {"message": repr(e)[:500]}
  except Exception as e:  # noqa
    if lib.from_repo(e.__traceback__):
      return "violation", {
          "message": f"unexpected {type(e).__name__} in the code under test",
          "detail": {"error": repr(e)[:600],
                     "traceback": traceback.format_exc()[-2500:]}}
    return "unavailable", {"message": traceback.format_exc()[-1500:]}
  finally:
    signal.alarm(0)


def worker(w, jobs, pid, seed, tier, base, deadline, wfd):
  out = os.fdopen(wfd, "w")
  for j, (name, i) in enumerate(jobs):
    if j % N_WORKERS != w:
      continue
    if time.time() > deadline:
      break
    t = time.time()
    st, info = run_case(pid, name, seed, i, tier, base)
    if st == "timeout":
      st2, info2 = run_case(pid, name, seed, i, tier, base)
      st, info = (("violation", info) if st2 == "timeout" else (st2, info2))
    rec = {"case": name, "index": i, "status": st, "info": info,
           "s": round(time.time() - t, 3)}
    out.write(json.dumps(rec, default=repr) + "\n")
    out.flush()
    if st == "violation":
      break
  out.close()


def preload():
  try:
    import space  # noqa: F401
    import space.catalogs.directory  # noqa: F401
    import pandas  # noqa: F401
    import pyarrow.dataset  # noqa: F401
    import pyarrow.acero  # noqa: F401
    import pyarrow.pandas_compat  # noqa: F401
    lib.array_record()
  except Exception:  # noqa
    pass


def run(pid, seed, tier, out_path):
  t0 = time.time()
  cases = registry.CASES[pid]
  budget = float(os.environ.get(
      "VERIF_REPLAY_BUDGET", "50" if tier == "quick" else "420"))
  jobs = []
  mult = int(os.environ.get("VERIF_REPLAY_MULT",
                            "1" if tier == "quick" else "10"))
  per = {n: [(n, i) for i in range(q * mult)] for n, q in cases}
  while any(per.values()):  # round-robin so that every case gets its share
    for n in list(per):
      q = dict(cases)[n]
      step = max(1, q // 10)
      jobs += per[n][:step]
      per[n] = per[n][step:]
  base = tempfile.mkdtemp(prefix=f"verif_{pid}_")
  os.environ["VERIF_BASE"] = base
  preload()
  pids, fds = [], []
  deadline = t0 + budget
  for w in range(N_WORKERS):
    r, wr = os.pipe()
    p = os.fork()
    if p == 0:
      os.close(r)
      code = 0
      try:
        os.setpgid(0, 0)
        worker(w, jobs, pid, seed, tier, base, deadline, wr)
      except BaseException:  # noqa
        traceback.print_exc()
        code = 3
      finally:
        os._exit(code)
    os.close(wr)
    pids.append(p)
    fds.append(r)
  recs, crashed = [], []
  import selectors
  sel = selectors.DefaultSelector()
  bufs = {}
  for i, r in enumerate(fds):
    sel.register(r, selectors.EVENT_READ, i)
    bufs[i] = b""
  hard = deadline + CASE_TIMEOUT * 2 + 20
  open_fds = set(range(N_WORKERS))
  while open_fds and time.time() < hard:
    for key, _ in sel.select(timeout=1):
      data = os.read(key.fd, 1 << 16)
      if not data:
        sel.unregister(key.fd)
        open_fds.discard(key.data)
        continue
      bufs[key.data] += data
  for i, p in enumerate(pids):
    if i in open_fds:
      try:
        os.killpg(p, signal.SIGKILL)
      except OSError:
        pass
    _, st = os.waitpid(p, 0)
    try:
      os.killpg(p, signal.SIGKILL)
    except OSError:
      pass
    if st != 0:
      crashed.append((i, st))
  for i in bufs:
    for line in bufs[i].decode().splitlines():
      try:
        recs.append(json.loads(line))
      except ValueError:
        pass
  known = [] if "VERIF_REPLAY_MULT" in os.environ else run_known(pid, base)
  import shutil
  shutil.rmtree(base, ignore_errors=True)
  by = collections.defaultdict(collections.Counter)
  distinct = collections.defaultdict(set)
  samples, unavailable = [], []
  violations = []
  for r in sorted(recs, key=lambda r: (r["case"], r["index"])):
    by[r["case"]][r["status"]] += 1
    if r["status"] == "ok":
      sig = json.dumps(r["info"], sort_keys=True, default=repr)
      if r["info"].get("trivial"):
        continue
      if sig not in distinct[r["case"]] and len(
          [s for s in samples if s["case"] == r["case"]]) < 2:
        samples.append({"case": r["case"], "index": r["index"],
                        "info": json.loads(sig[:2000])
                        if len(sig) <= 2000 else sig[:2000]})
      distinct[r["case"]].add(hash(sig))
    elif r["status"] == "violation":
      violations.append({"pid": pid, "case": r["case"], "seed": seed,
                         "index": r["index"], "tier": tier, **r["info"]})
    elif r["status"] in ("unavailable",):
      unavailable.append({"case": r["case"], "index": r["index"],
                          "message": r["info"].get("message")})
  res = {"pid": pid, "seed": seed, "tier": tier, "violations": violations,
         "evaluations": len(recs),
         "distinct_nontrivial": sum(len(v) for v in distinct.values()),
         "known": known,
         "cases": {k: dict(v) for k, v in by.items()},
         "planned": {n: q * mult for n, q in cases},
         "samples": samples, "unavailable": unavailable[:5],
         "n_unavailable": len(unavailable), "worker_crashes": crashed,
         "wall_s": round(time.time() - t0, 2),
         "max_case_s": max([r["s"] for r in recs], default=0)}
  with open(out_path, "w") as f:
    json.dump(res, f, indent=1, default=repr)
  return res


def run_known(pid, base):
  """Probes of the listed known findings; True if the finding still fails."""
  out = []
  listed = json.load(open(os.path.join(os.path.dirname(os.path.dirname(
      os.path.abspath(__file__))), "known_findings.json")))["known"]
  for k in listed:
    if k["property"] != pid:
      continue
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
      try:
        mod, fn = k["probe"].split(".")
        import importlib
        f = getattr(importlib.import_module("cases_" + mod), fn)
        signal.alarm(60)
        with lib.scratch(base) as d:
          os.write(w, b"1" if f(d) else b"0")
      except BaseException:  # noqa
        traceback.print_exc()
      finally:
        os._exit(0)
    os.close(w)
    data = os.read(r, 1)
    os.waitpid(p, 0)
    os.close(r)
    out.append({"what": k["what"], "id": k["id"],
                "still_fails": data == b"1"})
  return out


def replay(path):
  rec = json.load(open(path))
  base = tempfile.mkdtemp(prefix="verif_replay_")
  os.environ["VERIF_BASE"] = base
  preload()
  try:
    st, info = run_case(rec["pid"], rec["case"], rec["seed"], rec["index"],
                        rec.get("tier", "quick"), base)
  finally:
    import shutil
    shutil.rmtree(base, ignore_errors=True)
  print(json.dumps({"status": st, "info": info}, indent=1, default=repr))
  return 1 if st == "violation" else 0


def need_shim(pid):
  """C04 runs with the fault-injecting library preloaded."""
  if pid != "C04" or "VERIF_SHIM" in os.environ:
    return
  import subprocess
  d = tempfile.mkdtemp(prefix="verif_shim_")
  so = os.path.join(d, "shim.so")
  src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim",
                     "shim.c")
  subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, src,
                  "-ldl", "-lpthread"], check=True)
  env = dict(os.environ, LD_PRELOAD=so, VERIF_SHIM=so)
  try:
    rc = subprocess.run([sys.executable] + sys.argv, env=env).returncode
  finally:
    import shutil
    shutil.rmtree(d, ignore_errors=True)
  sys.exit(rc)


if __name__ == "__main__":
  need_shim(sys.argv[2] if sys.argv[1] == "run" else
            json.load(open(sys.argv[2]))["pid"])
  if sys.argv[1] == "run":
    run(sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5])
  elif sys.argv[1] == "replay":
    sys.exit(replay(sys.argv[2]))
