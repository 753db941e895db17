"""Crash and I/O fault points of mutating operations (C04).

Runs with replay/shim preloaded: the process dies, or a file operation fails,
at a chosen file-system effect below the dataset directory.
"""
from __future__ import annotations

import ctypes
import errno
import os
import pickle
import random
import shutil
import signal
import time
import traceback

import lib
from lib import Skip, Violation, canon, check, pa, pc
from world import World

DIED = 137
MODES = {"die-before": 1, "die-partial": 2, "die-after": 3, "fail-once": 4,
         "fail-on": 5}


def shim():
  return ctypes.CDLL(None)


def in_child(fn, timeout=25):
  """Runs fn in a forked child; returns (kind, value), kind one of ok, died,
  violation, error, timeout."""
  r, w = os.pipe()
  p = os.fork()
  if p == 0:
    os.close(r)
    try:
      signal.alarm(0)
      try:
        out = ("ok", fn())
      except Violation as v:
        out = ("violation", (v.msg, v.detail))
      except BaseException as e:  # noqa
        out = ("error", (repr(e)[:500], lib.from_repo(e.__traceback__),
                         traceback.format_exc()[-1500:]))
      shim().shim_off()
      data = pickle.dumps(out)
      while data:
        n = os.write(w, data)
        data = data[n:]
    finally:
      os._exit(0)
  os.close(w)
  data, end = b"", time.time() + timeout
  import select
  while True:
    ok, _, _ = select.select([r], [], [], max(0, end - time.time()))
    if not ok:
      os.kill(p, signal.SIGKILL)
      os.waitpid(p, 0)
      os.close(r)
      return "timeout", None
    part = os.read(r, 1 << 16)
    if not part:
      break
    data += part
  os.close(r)
  _, st = os.waitpid(p, 0)
  if os.WIFEXITED(st) and os.WEXITSTATUS(st) == DIED and not data:
    return "died", None
  if not data:
    return "error", (f"child ended with status {st}", False, "")
  return pickle.loads(data)


def ensure(res, what):
  kind, val = res
  if kind == "ok":
    return val
  if kind == "violation":
    raise Violation(val[0], **val[1])
  if kind == "error" and val[1]:
    raise Violation(f"unexpected error in the code under test ({what})",
                    error=val[0], traceback=val[2])
  if kind == "timeout":
    raise Skip(f"{what}: a forked child did not end")
  raise RuntimeError(f"{what}: {kind} {val}")


# -- descriptions -------------------------------------------------------------
def reach(loc, m):
  """All files (relative) that the published metadata refers to."""
  from google.protobuf import text_format
  from space.core.proto import metadata_pb2 as meta
  import pyarrow.parquet as pq
  ep = text_format.Parse(open(os.path.join(
      loc, "metadata", "entrypoint.txtpb")).read(), meta.EntryPoint())
  out = {ep.metadata_file}
  for s in m.snapshots.values():
    if s.change_log_file:
      out.add(s.change_log_file)
      log = text_format.Parse(open(os.path.join(
          loc, s.change_log_file)).read(), meta.ChangeLog())
      for bm in list(log.deleted_rows) + list(log.added_rows):
        out.add(bm.file)
    for record, files in ((False, s.manifest_files.index_manifest_files),
                          (True, s.manifest_files.record_manifest_files)):
      for f in files:
        out.add(f)
        for r in pq.ParquetFile(os.path.join(loc, f)).read().to_pylist():
          out.add(r["_FILE"])
  return out


def describe(loc, records):
  """Logical state of a dataset, without the code under test."""
  m = lib.raw_metadata(loc)
  snaps = {}
  for i, s in m.snapshots.items():
    rows = sorted(map(repr, lib.canon_rows(lib.raw_rows(loc, s, records))))
    st = s.storage_statistics
    snaps[i] = (s.parent_snapshot_id, rows,
                (st.num_rows, st.index_uncompressed_bytes,
                 st.record_uncompressed_bytes),
                bool(s.change_log_file),
                len(s.manifest_files.index_manifest_files))
  return {"head": m.current_snapshot_id,
          "refs": {k: (r.snapshot_id, r.type) for k, r in m.refs.items()},
          "snapshots": snaps, "type": m.type}


def file_hashes(loc, files):
  import hashlib
  out = {}
  for f in files:
    p = os.path.join(loc, f)
    with open(p, "rb") as h:
      out[f] = hashlib.sha1(h.read()).hexdigest()
  return out


def diff_state(a, b):
  out = {}
  for k in a:
    if a[k] != b[k]:
      if k == "snapshots":
        out[k] = {i: (repr(a[k].get(i))[:200], repr(b[k].get(i))[:200])
                  for i in set(a[k]) | set(b[k]) if a[k].get(i) != b[k].get(i)}
      else:
        out[k] = (a[k], b[k])
  return out


# -- operations ---------------------------------------------------------------
def make_op(rng, s, w, distributed):
  """A closure op(ds, loc) -> JobResult or None, and its description."""
  kind = rng.choice(["append", "append", "append_from", "delete", "delete",
                     "upsert", "insert", "load", "add_tag", "add_branch",
                     "remove_tag"])
  seed = rng.randrange(1 << 30)
  fo = lib.gen_file_options(rng, tiny=rng.random() < 0.5)
  if kind == "load" and s.records:
    kind = "append"

  def runner(ds):
    if distributed and kind in ("append", "append_from", "delete", "upsert",
                                "insert"):
      import fakeray
      fakeray.install()
      fakeray.reset(random.Random(seed))
      from space import RayOptions
      return ds.ray(RayOptions(max_parallelism=2), fo)
    return ds.local(fo)

  rows = w.new_rows(rng.randrange(1, 6), unique_pk=True, null_pk=False)
  table = s.table(rows)
  if kind == "append":
    op = lambda ds, d: runner(ds).append(table)  # noqa
  elif kind == "append_from":
    cut = rng.randrange(len(rows) + 1)
    op = lambda ds, d: runner(ds).append_from(  # noqa
        lambda: iter([table.slice(0, cut), table.slice(cut)]))
  elif kind == "delete":
    f = lib.gen_filter(rng, s, depth=rng.choice([0, 0, 1]), domain=w.domain)
    op = lambda ds, d: runner(ds).delete(f.expr)  # noqa
  elif kind in ("upsert", "insert"):
    op = lambda ds, d: getattr(runner(ds), kind)(table)  # noqa
  elif kind == "load":
    def op(ds, d):
      return ds.local(fo).append_parquet(os.path.join(d, "ext", "*.parquet"))
  elif kind == "add_tag":
    op = lambda ds, d: ds.add_tag("crash_tag")  # noqa
  elif kind == "add_branch":
    op = lambda ds, d: ds.add_branch("crash_branch")  # noqa
  else:
    op = lambda ds, d: ds.remove_tag("t0")  # noqa
  return kind, op, table, rows


def c04(rng, d, tier):
  s = lib.gen_schema(rng, nested=rng.random() < 0.4)
  distributed = rng.random() < 0.2
  base = os.path.join(d, "base")
  os.makedirs(base)
  wseed = rng.randrange(1 << 30)

  def build():
    r2 = random.Random(wseed)
    w = World(r2, os.path.join(base, "ds"), s, domain=8, max_rows=6)
    for _ in range(r2.randrange(0, 5)):
      w.step()
    ds = w.handles[0]
    if r2.random() < 0.5:
      try:
        ds.add_tag("t0")
      except Exception:  # noqa
        pass
    branch = ds.storage.current_branch
    m = w.meta()
    if branch != "main" and branch not in m.refs:
      branch = "main"
    kind, op, table, rows = make_op(r2, s, w, distributed)
    os.makedirs(os.path.join(base, "ext"))
    for i in range(2):
      lib.pq.write_table(s.table(w.new_rows(2)),
                         os.path.join(base, "ext", f"e{i}.parquet"))
    return {"branch": branch, "state": describe(w.loc, s.records),
            "hash": file_hashes(w.loc, reach(w.loc, m)), "kind": kind,
            "log": w.log}

  pre = ensure(in_child(build), "history")

  # The operation is rebuilt by replaying the generator on a throwaway copy.
  def make():
    tmp = os.path.join(d, f"gen{os.getpid()}")
    r2 = random.Random(wseed)
    w = World(r2, os.path.join(tmp, "ds"), s, domain=8, max_rows=6)
    for _ in range(r2.randrange(0, 5)):
      w.step()
    ds = w.handles[0]
    if r2.random() < 0.5:
      try:
        ds.add_tag("t0")
      except Exception:  # noqa
        pass
    kind, op, table, rows = make_op(r2, s, w, distributed)
    shutil.rmtree(tmp, ignore_errors=True)
    return kind, op, table, rows
  kw = {"op": pre["kind"], "log": pre["log"], "schema": s.describe(),
        "distributed": distributed, "branch": pre["branch"]}

  def attempt(copy, mode, at, err):
    """One run of the operation in this (child) process, with a fault."""
    from space import Dataset
    kind, op, _, _ = make()
    ds = Dataset.load(os.path.join(copy, "ds"))
    if pre["branch"] != "main":
      ds.set_current_branch(pre["branch"])
    L = shim()
    L.shim_arm((copy + "/").encode(), mode, at, err)
    result, error = None, None
    try:
      result = op(ds, copy)
    except Exception as e:  # noqa
      error = e
    n = L.shim_events()
    kinds = "".join(chr(L.shim_kind(i)) for i in range(min(n, 4096)))
    L.shim_off()
    later = mid = seen = None
    if mode in (4, 5):  # the process lives on: the handle must still work
      try:
        mid = describe(os.path.join(copy, "ds"), s.records)
        if pre["branch"] == "main":
          seen = sorted(map(repr, lib.canon_rows(lib.read_rows(ds))))
      except Exception:  # noqa
        mid = seen = None  # see verify
      try:
        later = ds.local().append(s.table(extra_rows)).state.name
      except Exception as e:  # noqa
        later = repr(e)[:400]
    return {"events": n, "kinds": kinds, "later": later,
            "mid": mid, "seen": seen,
            "state": None if result is None else result.state.name,
            "error": None if error is None else repr(error)[:300],
            "failed": error is not None or (
                result is not None and result.state.name != "SUCCEEDED")}

  xr = random.Random(wseed + 1)
  extra_rows = [s.gen_row(xr, 900 + i, 8) for i in range(2)]

  n_copy = [0]

  def fresh():
    n_copy[0] += 1
    c = os.path.join(d, f"c{n_copy[0]}")
    shutil.copytree(base, c)
    return c

  c = fresh()
  full = ensure(in_child(lambda: attempt(c, 0, -1, 0)), "operation")
  post = ensure(in_child(lambda: describe(c + "/ds", s.records)), "state")
  shutil.rmtree(c)
  n = full["events"]
  if n == 0:
    return {"op": kw["op"], "trivial": True}
  pts = list(range(n))
  important = [i for i in pts if full["kinds"][i:i + 1] in "orucmlt"
               or full["kinds"][i + 1:i + 2] in "orucmlt"]
  k = 14 if tier == "quick" else 40
  chosen = rng.sample(important, min(len(important), k * 2 // 3))
  # Always the last effects: publication.
  chosen += [p for p in pts[-7:] if p not in chosen]
  rest = [p for p in pts if p not in chosen]
  chosen += rng.sample(rest, min(len(rest), k // 3))
  tried = []
  for at in sorted(set(chosen)):
    mname = rng.choice(list(MODES))
    e = rng.choice([errno.EIO, errno.ENOSPC])
    c = fresh()
    r = in_child(lambda: attempt(c, MODES[mname], at, e))
    f = {"mode": mname, "at": at, "effect": full["kinds"][at:at + 1],
         "of": n}
    if r[0] == "timeout":
      shutil.rmtree(c)
      continue
    if r[0] == "error":
      raise RuntimeError(f"{f} {r[1]}")
    out = ensure(r, "faulted operation") if r[0] != "died" else None
    tried.append((mname, f["effect"]))
    ensure(in_child(lambda: verify(c, s, pre, post, extra_rows, out, f, kw)),
           "verification")
    shutil.rmtree(c)
  return {"op": kw["op"], "distributed": distributed, "events": n,
          "faults": sorted(set(tried)), "trivial": not tried,
          "points": len(tried)}


def verify(c, s, pre, post, extra_rows, out, f, kw):
  from space import Dataset
  loc = os.path.join(c, "ds")
  mid = seen = None
  if out is not None:
    out = dict(out)
    mid, seen = out.pop("mid"), out.pop("seen")
  kw = {**kw, "fault": f, "outcome": out}
  try:
    m = lib.raw_metadata(loc)
    state = describe(loc, s.records)
    files = reach(loc, m)
  except Exception as e:  # noqa
    raise Violation("the published state is not readable after a fault",
                    error=repr(e)[:400], **kw)
  # Published files are never modified in place.
  for p, h in pre["hash"].items():
    try:
      got = file_hashes(loc, [p])[p]
    except OSError:
      got = None
    check(got == h, "a published file was modified or removed", file=p, **kw)
  later_ok = out is not None and out["later"] == "SUCCEEDED"
  state0 = state
  if out is not None and out["later"] is not None:
    check(later_ok, "an operation after a failed one does not succeed",
          later=out["later"], **kw)
    # Take the later append off again to compare with before and after.
    head = (state["head"] if pre["branch"] == "main" else
            state["refs"][pre["branch"]][0])
    parent, rows, _, _, _ = state["snapshots"][head]
    state0 = {**state, "snapshots": dict(state["snapshots"]),
              "refs": dict(state["refs"])}
    del state0["snapshots"][head]
    if pre["branch"] == "main":
      state0["head"] = parent
    else:
      state0["refs"][pre["branch"]] = (parent, state["refs"][
          pre["branch"]][1])
    check(parent in state0["snapshots"], "the later append has no parent",
          **kw)
    exp = sorted(state0["snapshots"][parent][1] +
                 list(map(repr, lib.canon_rows(extra_rows))))
    check(rows == exp, "an append after a failed operation is wrong", **kw)
  if mid is not None:
    # What was not published when the operation failed does not appear later.
    check(later_ok and state0 == mid,
          "an operation takes effect after it failed",
          difference=diff_state(mid, state0), **kw)
    if seen is not None:
      check(seen == mid["snapshots"][mid["head"]][1],
            "the handle shows what is not published", **kw)
  before, after = state0 == pre["state"], state0 == post
  check(before or after, "an interrupted operation is partly visible",
        from_before=diff_state(pre["state"], state0),
        from_after=diff_state(post, state0), **kw)
  if out is not None and not out["failed"] and out["state"] == "SUCCEEDED":
    check(after, "an operation reported success but is not visible", **kw)
  # The dataset can be opened, read and written.
  ds = Dataset.load(loc)
  for i, (_, rows, _, _, _) in state["snapshots"].items():
    got = sorted(map(repr, lib.canon_rows(lib.read_rows(ds, version=i))))
    check(got == rows, "a version reads differently after a fault",
          version=i, **kw)
  if pre["branch"] != "main":
    ds.set_current_branch(pre["branch"])
  head = (state["head"] if pre["branch"] == "main" else
          state["refs"][pre["branch"]][0])
  res = ds.local().append(s.table(extra_rows))
  check(res.state.name == "SUCCEEDED", "an append after a crash fails",
        error=res.error_message, **kw)
  got = sorted(map(repr, lib.canon_rows(lib.read_rows(Dataset.load(loc),
               version=ds.storage.current_snapshot_id(pre["branch"])))))
  exp = sorted(state["snapshots"][head][1] +
               list(map(repr, lib.canon_rows(extra_rows))))
  check(got == exp, "an append after a crash is wrong", **kw)
  return None


def c04_create(rng, d, tier):
  """Creation is all or nothing, too."""
  s = lib.gen_schema(rng)
  catalog = rng.random() < 0.5

  def op(c):
    from space import Dataset
    if catalog:
      from space import DirCatalog
      return DirCatalog(c).create_dataset("ds", s.arrow, list(s.pks),
                                          list(s.records))
    return Dataset.create(os.path.join(c, "ds"), s.arrow, list(s.pks),
                          list(s.records))

  def attempt(c, mode, at, err):
    L = shim()
    L.shim_arm((c + "/").encode(), mode, at, err)
    e = None
    try:
      op(c)
    except Exception as x:  # noqa
      e = repr(x)[:300]
    n = L.shim_events()
    L.shim_off()
    return {"events": n, "error": e}

  def verify(c, f, out):
    from space import Dataset
    loc = os.path.join(c, "ds")
    kw = {"fault": f, "outcome": out, "schema": s.describe(),
          "catalog": catalog}
    if not os.path.exists(os.path.join(loc, "metadata", "entrypoint.txtpb")):
      check(out is None or out["error"] is not None,
            "a creation reported success but there is no dataset", **kw)
      op(c)
    ds = Dataset.load(loc)
    check(lib.read_rows(ds) == [], "a new dataset is not empty", **kw)
    check(ds.schema == s.arrow or ds.schema.names == s.arrow.names,
          "a new dataset has another schema", **kw)
    xr = random.Random(1)
    rows = [s.gen_row(xr, i, 8) for i in range(2)]
    check(ds.local().append(s.table(rows)).state.name == "SUCCEEDED",
          "an append after a crash fails", **kw)
    lib.check_same_rows(rows, lib.read_rows(Dataset.load(loc)),
                        "an append after a crash is wrong", **kw)
    return None
  c = os.path.join(d, "full")
  os.makedirs(c)
  full = ensure(in_child(lambda: attempt(c, 0, -1, 0)), "creation")
  n = full["events"]
  pts = rng.sample(range(n), min(n, 8)) if n else []
  for at in pts:
    c = os.path.join(d, f"c{at}")
    os.makedirs(c)
    mname = rng.choice(list(MODES))
    r = in_child(lambda: attempt(c, MODES[mname], at, errno.EIO))
    if r[0] == "timeout":
      continue
    out = ensure(r, "faulted creation") if r[0] != "died" else None
    f = {"mode": mname, "at": at, "of": n}
    ensure(in_child(lambda: verify(c, f, out)), "verification")
  return {"events": n, "points": len(pts), "catalog": catalog,
          "trivial": not pts}
