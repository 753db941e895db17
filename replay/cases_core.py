"""Concrete contract replay: C01-C03, C05-C12, C23 (core operations)."""
from __future__ import annotations

import collections
import os

from lib import *  # noqa: F401,F403
import lib
from world import World


def _by_bytes(m):
  return {k: v.SerializeToString(deterministic=True) for k, v in m.items()}


def _world(rng, d, **kw):
  s = lib.gen_schema(rng, **kw.pop("schema", {}))
  return World(rng, os.path.join(d, "ds"), s, **kw)


# ---------------------------------------------------------------------------
def c01(rng, d, tier):
  """Every committed version keeps its content; its files never change."""
  w = _world(rng, d, n_handles=rng.choice([1, 2, 3]))
  Dataset, _ = lib.modules()
  w.kinds.update({"add_branch": 1.5, "remove_branch": 1.2, "switch": 1.5})
  seen, digests, tags = {}, {}, {}
  seen[0] = []
  n = rng.randrange(4, 11)
  for _ in range(n):
    ev = w.step()
    m = ev.post
    for sid in ev.committed():
      seen[sid] = w.rows_of(m.snapshots[sid])
      snap = m.snapshots[sid]
      files = list(snap.manifest_files.index_manifest_files) + list(
          snap.manifest_files.record_manifest_files)
      files += [r["_FILE"] for _, r in lib.raw_manifest_rows(w.loc, snap)]
      files += [r["_FILE"] for _, r in lib.raw_manifest_rows(w.loc, snap, True)]
      if snap.change_log_file:
        files.append(snap.change_log_file)
      import hashlib
      for f in files:
        h = hashlib.sha1(open(os.path.join(w.loc, f), "rb").read()).hexdigest()
        check(digests.setdefault(f, h) == h,
              "a file of a committed version was rewritten", file=f, log=w.log)
    for sid in list(ev.pre.snapshots):
      check(sid in m.snapshots, "a committed version disappeared",
            version=sid, log=w.log)
      check(m.snapshots[sid] == ev.pre.snapshots[sid],
            "metadata of a committed version changed", version=sid, log=w.log)
    if ev.kind == "add_tag" and ev.error is None:
      sid = ev.args["snapshot"]
      tags[ev.args["tag"]] = (m.refs[ev.args["tag"]].snapshot_id
                              if sid is None else sid)
    if ev.kind == "remove_tag" and ev.error is None:
      tags.pop(ev.args["tag"], None)
  import hashlib
  for f, h in digests.items():
    p = os.path.join(w.loc, f)
    check(os.path.exists(p), "a file of a committed version disappeared",
          file=f, log=w.log)
    check(hashlib.sha1(open(p, "rb").read()).hexdigest() == h,
          "a file of a committed version was rewritten", file=f, log=w.log)
  readers = [w.handles[0], Dataset.load(w.loc)]
  for sid, rows in seen.items():
    for ds in readers:
      lib.check_same_rows(rows, lib.read_rows(ds, version=sid),
                          "an old version reads differently", version=sid,
                          log=w.log)
  for t, sid in tags.items():
    lib.check_same_rows(seen[sid], lib.read_rows(readers[1], version=t),
                        "a tag reads a different version", tag=t, version=sid,
                        log=w.log)
  return {"ops": [e["op"] for e in w.log], "versions": len(seen)}


# ---------------------------------------------------------------------------
def c02(rng, d, tier):
  w = _world(rng, d, n_handles=rng.choice([1, 1, 2]))
  w.kinds.update({"add_branch": 2, "remove_branch": 1.2, "switch": 2.5})
  ever = {0}
  for _ in range(rng.randrange(4, 14)):
    ev = w.step()
    pre, post, new = ev.pre, ev.post, ev.committed()
    data_op = ev.result is not None
    if not data_op or ev.state != "SUCCEEDED":
      check(not new, "an operation that did not succeed created a version",
            log=w.log)
    else:
      check(len(new) == 1, "a successful operation must create one version",
            created=new, log=w.log)
      sid = new[0]
      check(sid > max(ever), "a version ID is not fresh and increasing",
            version=sid, log=w.log)
      snap = post.snapshots[sid]
      check(snap.snapshot_id == sid, "the version carries a different ID",
            log=w.log)
      check(snap.HasField("parent_snapshot_id") and
            snap.parent_snapshot_id == w.head(pre, ev.branch),
            "the parent is not the previous head of the branch", log=w.log,
            parent=snap.parent_snapshot_id, head=w.head(pre, ev.branch))
      check(w.head(post, ev.branch) == sid,
            "the branch does not point to its new version", log=w.log)
      ever.add(sid)
    for k, r in pre.refs.items():
      if data_op and k != ev.branch:
        check(k in post.refs and post.refs[k] == r,
              "another branch or tag changed", ref=k, log=w.log)
    if not data_op or ev.branch != "main":
      check(post.current_snapshot_id == pre.current_snapshot_id,
            "the main branch moved", log=w.log)
    if data_op:
      check(set(post.refs) == set(pre.refs), "references appeared or vanished",
            log=w.log)
    for sid in pre.snapshots:
      check(sid in post.snapshots and
            post.snapshots[sid] == pre.snapshots[sid],
            "an earlier version changed", version=sid, log=w.log)
    # What a handle sees is the head of its own branch.
    if data_op and rng.random() < 0.3:
      h = rng.choice(w.handles)
      b = h.storage.current_branch
      if b == "main" or b in post.refs:
        lib.check_same_rows(w.live(post, b), lib.read_rows(h),
                            "a handle does not read the head of its branch",
                            branch=b, log=w.log)
  return {"ops": [e["op"] for e in w.log], "versions": len(ever)}


# ---------------------------------------------------------------------------
def c03(rng, d, tier):
  """Other writers act between the start and the commit of an operation."""
  Dataset, _ = lib.modules()
  w = _world(rng, d, n_handles=3, schema={"n_records": rng.choice([0, 1]),
                                          "nested": False})
  w.kinds = {"append": 3, "delete": 1.5, "upsert": 1.5, "insert": 1,
             "add_tag": 1.5, "add_branch": 1.5, "remove_tag": 1,
             "remove_branch": 1, "switch": 1.5}
  published = {}  # every successful commit: id -> (branch, metadata bytes)

  def audit(m):
    for sid, data in published.items():
      check(sid in m.snapshots, "a committed version was lost", version=sid,
            log=w.log)
      check(m.snapshots[sid].SerializeToString(deterministic=True) == data,
            "a committed version was overwritten", version=sid, log=w.log)

  def note(ev):
    if ev.state == "SUCCEEDED":
      check(len(ev.committed()) == 1, "a successful operation is not committed",
            log=w.log)
      sid = ev.committed()[0]
      published[sid] = ev.post.snapshots[sid].SerializeToString(
          deterministic=True)
      check(w.head(ev.post, ev.branch) == sid,
            "a successful commit is not the head of its branch", log=w.log)
    if ev.state in ("FAILED", "SKIPPED") or ev.error is not None:
      check(ev.post.SerializeToString(deterministic=True) ==
            ev.pre.SerializeToString(deterministic=True),
            "a failed or skipped operation changed the dataset", log=w.log,
            state=ev.state)
    if ev.kind in ("add_tag", "add_branch", "remove_tag", "remove_branch"):
      name = ev.args.get("tag") or ev.args.get("branch")
      for k, r in ev.pre.refs.items():
        if k != name:
          check(k in ev.post.refs and ev.post.refs[k] == r,
                "a reference of another handle was lost", ref=k, log=w.log)
      for k in ev.post.refs:
        check(k == name or k in ev.pre.refs,
              "a removed reference came back", ref=k, log=w.log)
      check(ev.post.current_snapshot_id == ev.pre.current_snapshot_id,
            "a reference operation moved the main branch", log=w.log)
      if ev.error is None and ev.kind.startswith("add"):
        check(name in ev.post.refs, "an added reference is missing", log=w.log)
      if ev.error is None and ev.kind.startswith("remove"):
        check(name not in ev.post.refs, "a removed reference is still there",
              log=w.log)
    audit(ev.post)

  for _ in range(rng.randrange(2, 5)):
    note(w.step())

  for _ in range(rng.randrange(1, 4)):
    h = rng.randrange(3)
    ds = w.handles[h]
    others = [i for i in range(3) if i != h]
    inner = []
    m0 = w.meta()
    b = ds.storage.current_branch
    if b != "main" and b not in m0.refs:
      ds.set_current_branch("main")
      b = "main"
    head0 = w.head(m0, b)
    rows = w.new_rows(rng.randrange(0, 4))
    boom = rng.random() < 0.15
    n_inner = rng.randrange(0, 3)

    def source():
      if rows:
        yield w.schema.table(rows[:1])
      for _ in range(n_inner):
        ev = w.step(handle=rng.choice(others))
        note(ev)
        inner.append(ev)
      if boom:
        raise RuntimeError("injected failure in the input")
      if rows[1:]:
        yield w.schema.table(rows[1:])

    result, err = None, None
    try:
      result = ds.local(lib.gen_file_options(rng)).append_from(source)
    except Exception as e:  # noqa
      err = e
      if not boom:
        from space.core.utils import errors
        if not isinstance(e, (errors.SpaceRuntimeError,
                              errors.UserInputError)):
          raise
    m1 = inner[-1].post if inner else m0
    m2 = w.meta()
    gone = b != "main" and b not in m1.refs
    moved = gone or w.head(m1, b) != head0 or (
        b != "main" and m1.refs[b].type != m1.refs[b].BRANCH)
    w.log.append({"op": "append_from with concurrent operations", "handle": h,
                  "branch": b, "inner": len(inner), "moved": moved,
                  "rows": len(rows), "boom": boom,
                  "state": None if result is None else result.state.name})
    same = (m1.SerializeToString(deterministic=True) ==
            m2.SerializeToString(deterministic=True))
    if err is not None or moved:
      check(same, "a failing operation changed the dataset", log=w.log)
      check(err is not None or result.state.name != "SUCCEEDED",
            "an operation whose branch was modified concurrently reports "
            "success", log=w.log)
      if err is None and moved:
        check(result.state.name == "FAILED",
              "a conflicting operation must report failure", log=w.log,
              state=result.state.name)
    elif not rows:
      check(same and result.state.name == "SKIPPED",
            "an empty operation must be skipped without change", log=w.log,
            state=result.state.name)
    else:
      check(result.state.name == "SUCCEEDED",
            "a conflict-free operation failed", log=w.log,
            state=result.state.name, error=result.error_message)
      new = [i for i in m2.snapshots if i not in m1.snapshots]
      check(len(new) == 1 and w.head(m2, b) == new[0],
            "a successful operation is not the head of its branch", log=w.log)
      published[new[0]] = m2.snapshots[new[0]].SerializeToString(
          deterministic=True)
      lib.check_same_rows(w.live(m1, b) + rows, w.live(m2, b),
                          "the effect is not applied on top of what was "
                          "committed", log=w.log)
    audit(m2)
  for _ in range(rng.randrange(0, 3)):
    note(w.step())
  return {"ops": len(w.log), "commits": len(published)}


def c03_txn(rng, d, tier):
  """Explicit transactions of two handles in every order of start/commit."""
  Dataset, _ = lib.modules()
  from space.core.ops.append import LocalAppendOp
  s = lib.gen_schema(rng, n_records=0, nested=False)
  w = World(rng, os.path.join(d, "ds"), s, n_handles=2)
  order = []
  for i in range(2):
    order += [("start", i), ("commit", i)]
  # A random interleaving that keeps start before commit of each handle.
  seqs = {0: ["start", "commit"], 1: ["start", "commit"]}
  order = []
  while seqs[0] or seqs[1]:
    i = rng.choice([k for k in seqs if seqs[k]])
    order.append((seqs[i].pop(0), i))
  branch = rng.choice([None, "b"])
  if branch:
    w.handles[0].add_branch("b")
    w.handles[1].storage.reload()
    for h in (0, 1):
      if rng.random() < 0.6:
        w.handles[h].set_current_branch("b")
  # The handle is used between the start and the commit.
  k = 0
  while k < len(order):
    if k and rng.random() < 0.35:
      order.insert(k, (rng.choice(["reload", "switch", "read"]),
                       order[k][1]))
      k += 1
    k += 1
  txns, ok = {}, []
  heads, branches = {}, {}
  for step, i in order:
    st = w.handles[i].storage
    if step == "start":
      branches[i] = b = st.current_branch
      txns[i] = st.transaction()
      txns[i].__enter__()
      heads[i] = w.head(w.meta(), b)
    elif step == "reload":
      st.reload()
    elif step == "read":
      lib.read_rows(w.handles[i])
    elif step == "switch":
      w.handles[i].set_current_branch(
          "b" if branch and st.current_branch == "main" else "main")
    else:
      m1, b = w.meta(), branches[i]
      rows = w.new_rows(rng.choice([0, 2]))
      op = LocalAppendOp(w.loc, st.metadata, lib.gen_file_options(rng))
      op.write(s.table(rows))
      patch = op.finish()
      txns[i].commit(patch)
      r = txns[i].result()
      m2 = w.meta()
      moved = w.head(m1, b) != heads[i]
      exp = "FAILED" if moved else ("SUCCEEDED" if rows else "SKIPPED")
      check(r.state.name == exp, "wrong outcome of a transaction",
            expected=exp, got=r.state.name, order=order, branch=b)
      if exp != "SUCCEEDED":
        check(m1 == m2, "a transaction without success changed the dataset",
              order=order)
      else:
        check(len(m2.snapshots) == len(m1.snapshots) + 1 and
              w.head(m2, b) not in m1.snapshots,
              "a successful transaction is not committed", order=order)
        sid = w.head(m2, b)
        check(m2.snapshots[sid].parent_snapshot_id == heads[i],
              "the parent is not the previous head of the branch", order=order,
              branch=branch, parent=m2.snapshots[sid].parent_snapshot_id,
              head=heads[i])
        lib.check_same_rows(w.live(m1, b) + rows, w.live(m2, b),
                            "a transaction lost committed data", order=order)
        for o in [x for x in ("main", "b") if x != b and (
            x == "main" or branch)]:
          check(w.head(m1, o) == w.head(m2, o), "another branch moved",
                order=order, branch=o)
  return {"order": str(order), "branch": branch}


# ---------------------------------------------------------------------------
def c05(rng, d, tier):
  w = _world(rng, d, null_pk=rng.random() < 0.3,
             kinds={"append": 1, "append_from": 2},
             max_rows=rng.choice([3, 12, 40]),
             schema={"n_records": rng.choice([0, 1, 1, 2, 3])})
  exp = []
  for _ in range(rng.randrange(1, 5)):
    ev = w.step()
    if ev.rows:
      check(ev.state == "SUCCEEDED", "an append failed", log=w.log,
            error=ev.result.error_message)
    else:
      check(not ev.committed() and ev.state == "SKIPPED",
            "appending no rows created a version", log=w.log)
    exp += ev.rows
    lib.check_same_rows(exp, lib.read_rows(w.handles[0]),
                        "rows read back differ from the rows appended",
                        ordered=True, log=w.log, schema=w.schema.describe())
    if rng.random() < 0.3:
      lib.check_same_rows(exp, w.live(ev.post, "main"),
                          "rows stored differ from the rows appended",
                          ordered=True, log=w.log, schema=w.schema.describe())
  return {"schema": w.schema.describe(), "ops": w.log}


def c05_large(rng, d, tier):
  """Default thresholds with enough data to cross them."""
  s = lib.gen_schema(rng, n_records=rng.choice([0, 1]), nested=False,
                     max_extra=2)
  w = World(rng, os.path.join(d, "ds"), s)
  _, options = lib.modules()
  fo = options.FileOptions()
  fo.parquet_options.max_uncompressed_row_group_bytes = rng.choice(
      [2000, 100 * 1024])
  fo.parquet_options.max_uncompressed_file_bytes = rng.choice([5000, 2 ** 20])
  fo.array_record_options.max_uncompressed_file_bytes = rng.choice(
      [1000, 20000, 2 ** 20])
  exp, inputs = [], []
  for _ in range(rng.randrange(2, 5)):
    rows = w.new_rows(rng.randrange(50, 700))
    exp += rows
    inputs.append(s.table(rows, chunks=rng.choice([None, 7, 100])))
  r = w.handles[0].local(fo).append_from(lambda: iter(inputs))
  check(r.state.name == "SUCCEEDED", "an append failed", error=r.error_message)
  check_kw = {"options": lib.fo_desc(fo), "schema": s.describe(),
              "rows": [t.num_rows for t in inputs]}
  lib.check_same_rows(exp, lib.read_rows(w.handles[0]),
                      "rows read back differ from the rows appended",
                      ordered=True, **check_kw)
  return check_kw


# ---------------------------------------------------------------------------
def c06(rng, d, tier):
  w = _world(rng, d, null_pk=rng.random() < 0.2,
             kinds={"append": 1, "append_from": 3}, domain=rng.choice([4, 12]))
  if rng.random() < 0.3:
    w.kinds["load"] = 1
  for _ in range(rng.randrange(1, 4)):
    w.step()
  if rng.random() < 0.1:
    w.many(rng.choice([7, 12, 24]))
  if rng.random() < 0.15:
    w.many_files(rng.randrange(4, 11))
  n_del = 0
  for _ in range(rng.randrange(1, 5)):
    if rng.random() < 0.25:
      w.step()
    ev = w.step("delete")
    before = w.live(ev.pre, "main")
    keep = [r for r in before if not ev.filt.matches(r)]
    n_del += len(before) - len(keep)
    kw = {"filter": ev.filt.text, "schema": w.schema.describe(), "log": w.log}
    lib.check_same_rows(keep, w.live(ev.post, "main"),
                        "stored rows after a delete are wrong", **kw)
    lib.check_same_rows(keep, lib.read_rows(w.handles[0]),
                        "live rows after a delete are wrong", **kw)
    if len(keep) == len(before):
      check(not ev.committed(), "a delete without match created a version",
            **kw)
    else:
      check(ev.state == "SUCCEEDED", "a delete failed",
            error=ev.result.error_message, **kw)
  return {"deleted": n_del, "schema": w.schema.describe(), "log": w.log}


def c06_files(rng, d, tier):
  """Several files per manifest; whole files, parts of files, none."""
  pkt = rng.choice([pa.int64(), pa.string()])
  n_rec = rng.choice([0, 1])
  fields = [("k0", pkt), ("x0", pa.int64())] + [("rec0", pa.binary())] * n_rec
  s = Schema(fields, ["k0"], ["rec0"] * n_rec)
  w = World(rng, os.path.join(d, "ds"), s)
  _, options = lib.modules()
  fo = options.FileOptions()
  fo.parquet_options.max_uncompressed_row_group_bytes = 0
  fo.parquet_options.max_uncompressed_file_bytes = rng.choice([0, 0, 200])
  runner = w.handles[0].local(fo)
  k, seq = 0, 0
  for _ in range(rng.randrange(1, 4)):
    batches = []
    for _ in range(rng.randrange(1, 5)):
      rows = []
      for _ in range(rng.randrange(1, 4)):
        k += 1
        seq += 1
        r = {"k0": k if pkt == pa.int64() else "k%03d" % k,
             "x0": rng.choice([None, 1, 2, 3])}
        if n_rec:
          r["rec0"] = b"v%d" % seq
        rows.append(r)
      batches.append(s.table(rows))
    runner.append_from(lambda: iter(batches))
  for _ in range(rng.randrange(1, 4)):
    before = w.live(w.meta(), "main")
    lo = rng.randrange(0, k + 1)
    hi = lo + rng.choice([0, 1, 2, 3, 5, k])
    conv = (lambda v: v) if pkt == pa.int64() else (lambda v: "k%03d" % v)
    f = (pc.field("k0") > conv(lo)) & (pc.field("k0") <= conv(hi))
    keep = [r for r in before if not conv(lo) < r["k0"] <= conv(hi)]
    if rng.random() < 0.3:
      f = f & (pc.field("x0") == 1)
      keep = [r for r in before
              if not (conv(lo) < r["k0"] <= conv(hi) and r["x0"] == 1)]
    res = runner.delete(f)
    kw = {"range": [lo, hi], "filter": str(f), "state": res.state.name}
    lib.check_same_rows(keep, w.live(w.meta(), "main"),
                        "stored rows after a delete are wrong", **kw)
    lib.check_same_rows(keep, lib.read_rows(w.handles[0]),
                        "live rows after a delete are wrong", **kw)
    if len(keep) != len(before):
      check(res.state.name == "SUCCEEDED", "a delete failed",
            error=res.error_message, **kw)
  return {"rows": k}


# ---------------------------------------------------------------------------
def _keys(rows, pks):
  return [tuple(canon(r[p]) for p in pks) for r in rows]


def c07(rng, d, tier):
  w = _world(rng, d, domain=rng.choice([3, 6, 12]),
             schema={"nested": rng.random() < 0.3,
                     "n_pk": rng.choice([1, 1, 2, 3])})
  pks = w.schema.pks
  if rng.random() < 0.7:
    rows = w.new_rows(rng.randrange(1, 14), unique_pk=True)
    w.handles[0].local(lib.gen_file_options(rng)).append_from(
        lambda: iter([w.schema.table(rows[:5]), w.schema.table(rows[5:])]))
  for _ in range(rng.randrange(1, 6)):
    ev = w.step(rng.choice(["insert", "upsert"]))
    before, after = w.live(ev.pre, "main"), w.live(ev.post, "main")
    kin = _keys(ev.rows, pks)
    kw = {"kind": ev.kind, "log": w.log, "schema": w.schema.describe(),
          "keys": repr(kin)[:300]}
    dup_in = len(set(kin)) != len(kin)
    existing = set(_keys(before, pks))
    if dup_in or (ev.kind == "insert" and existing & set(kin)):
      check(ev.state != "SUCCEEDED",
            "a write with duplicated keys must be rejected", **kw)
      check(not ev.committed(), "a rejected write created a version", **kw)
      lib.check_same_rows(before, after, "a rejected write changed data", **kw)
    else:
      check(ev.state == "SUCCEEDED", "a valid write failed",
            error=ev.result and ev.result.error_message, **kw)
      exp = [r for r, k in zip(before, _keys(before, pks))
             if k not in set(kin)] + ev.rows
      lib.check_same_rows(exp, after, "stored rows after the write are wrong",
                          **kw)
      lib.check_same_rows(exp, lib.read_rows(w.handles[0]),
                          "live rows after the write are wrong", **kw)
  return {"schema": w.schema.describe(), "log": w.log}


def c07_ranges(rng, d, tier):
  """Files of few primary keys each; the rows of one write are in several
  chunks, of keys that are far apart."""
  n_pk = rng.choice([1, 1, 2])
  pkt = rng.choice([pa.int64(), pa.int32(), pa.string()])
  pre = "q" * rng.choice([0, 0, 40, 300, 5000])
  conv = ((lambda v: pre + "k%03d" % v) if pkt == pa.string() else
          (lambda v: v))
  fields = [(f"k{i}", pkt) for i in range(n_pk)] + [("x0", pa.int64())]
  s = Schema(fields, [f"k{i}" for i in range(n_pk)], [])
  w = World(rng, os.path.join(d, "ds"), s)
  keys = rng.sample(range(100), rng.randrange(1, 9))
  if rng.random() < 0.5:
    keys.sort()

  def row(v):
    w.seq += 1
    r = {f"k{i}": conv(v if i == 0 or rng.random() < .5 else v // 2)
         for i in range(n_pk)}
    return {**r, "x0": w.seq}
  rows = [row(v) for v in keys]
  runner = w.handles[0].local()
  cut = 0
  while cut < len(rows):
    step = rng.choice([1, 1, 2, 3])
    runner.append(s.table(rows[cut:cut + step]))
    cut += step
  for _ in range(rng.randrange(1, 3)):
    before = w.live(w.meta(), "main")
    kind = rng.choice(["insert", "upsert"])
    vs = rng.sample(range(100), rng.randrange(1, 5))
    new = [row(v) for v in vs]
    old = [dict(r, x0=w.seq + 1) for r in rng.sample(
        before, min(len(before), rng.choice([0, 1, 1, 2])))]
    new = [n for n in new if not any(_keys([n], s.pks) == _keys([o], s.pks)
                                     for o in old)] + old
    rng.shuffle(new)
    if len(set(_keys(new, s.pks))) != len(new) or not new:
      continue
    res, err = None, None
    try:
      res = getattr(runner, kind)(
          s.table(new, chunks=rng.choice([None, 1, 1, 2])))
    except Exception as e:  # noqa
      err = e
    after = w.live(w.meta(), "main")
    kw = {"kind": kind, "before": repr(before)[:400], "new": repr(new)[:400],
          "error": repr(err)[:200],
          "state": None if res is None else res.state.name}
    ok = res is not None and res.state.name == "SUCCEEDED"
    kin = set(_keys(new, s.pks))
    if kind == "insert" and kin & set(_keys(before, s.pks)):
      check(not ok, "a write with duplicated keys must be rejected", **kw)
      lib.check_same_rows(before, after, "a rejected write changed data", **kw)
    else:
      check(ok, "a valid write failed", **kw)
      exp = [r for r, k in zip(before, _keys(before, s.pks))
             if k not in kin] + new
      lib.check_same_rows(exp, after, "stored rows after the write are wrong",
                          **kw)
      lib.check_same_rows(exp, lib.read_rows(w.handles[0]),
                          "live rows after the write are wrong", **kw)
  return {"schema": s.describe(), "files": len(rows)}


# ---------------------------------------------------------------------------
def c08(rng, d, tier):
  prim = rng.random() < 0.6
  w = _world(rng, d, null_pk=rng.random() < 0.3, domain=rng.choice([4, 12, 40]),
             kinds={"append": 1, "append_from": 3, "load": 0.5},
             schema={"n_records": rng.choice([0, 0, 1]),
                     "n_pk": rng.choice([1, 2, 2, 3]),
                     "pk_types": rng.choice([None, [pa.int64()],
                                             [pa.int64(), pa.int32()],
                                             [pa.string()]])})
  for _ in range(rng.randrange(1, 4)):
    w.step()
  if rng.random() < 0.2:
    w.many_files(rng.randrange(4, 11))
  if rng.random() < 0.3:
    w.step("delete")
  rows = w.live(w.meta(), "main")
  n = 0
  for _ in range(rng.randrange(5, 16)):
    f = lib.gen_filter(rng, w.schema, depth=rng.choice([0, 0, 1, 2, 3]),
                       domain=w.domain,
                       fields=w.schema.pks if prim else None)
    exp = [r for r in rows if f.matches(r)]
    kw = {}
    if rng.random() < 0.3:
      kw["fields"] = list(w.schema.index_fields)
    got = lib.read_rows(w.handles[0], filter_=f.expr, **kw)
    lib.check_same_rows(exp, got, "a filtered read returns wrong rows",
                        fields=kw.get("fields"), filter=f.text,
                        schema=w.schema.describe(), log=w.log,
                        all_rows=repr(rows)[:500])
    n += len(exp)
  return {"schema": w.schema.describe(), "matched": n, "log": w.log,
          "filter": f.text}


def c08_bounds(rng, d, tier):
  """One row per file; filters at, just below and just above each value."""
  t = rng.choice([pa.int64(), pa.int32(), pa.float64(), pa.string(),
                  pa.binary()])
  conv = {"int64": lambda v: v, "int32": lambda v: v,
          "double": lambda v: v + 0.5, "string": lambda v: "k%02d" % v,
          "binary": lambda v: b"k%02d" % v}[str(t)]
  two = rng.random() < 0.5
  fields = [("k0", t)] + ([("k1", t)] if two else []) + [("x0", t)]
  s = Schema(fields, ["k0"] + (["k1"] if two else []), [])
  w = World(rng, os.path.join(d, "ds"), s)
  _, options = lib.modules()
  fo = options.FileOptions()
  fo.parquet_options.max_uncompressed_row_group_bytes = 0
  fo.parquet_options.max_uncompressed_file_bytes = rng.choice([0, 200])
  rows = [{n: conv(rng.randrange(10, 16)) for n, _ in fields}
          for _ in range(rng.randrange(1, 7))]
  w.handles[0].local(fo).append_from(
      lambda: iter([s.table([r]) for r in rows]))
  for _ in range(25):
    a, b = rng.choice(fields)[0], rng.choice(fields)[0]
    op = rng.choice(lib.OPS)
    v = conv(rng.randrange(9, 17))
    shape = rng.choice(["fl", "lf", "ff", "and", "or", "ll", "nest"])
    A = lib._arrow_cmp
    C = lib._cmp
    op2 = rng.choice(lib.OPS)
    v2 = conv(rng.randrange(9, 17))
    if shape == "fl":
      e, ev = A(op, pc.field(a), pc.scalar(v)), lambda r: C(op, r[a], v)
    elif shape == "lf":
      e, ev = A(op, pc.scalar(v), pc.field(a)), lambda r: C(op, v, r[a])
    elif shape == "ff":
      e, ev = A(op, pc.field(a), pc.field(b)), lambda r: C(op, r[a], r[b])
    elif shape == "ll":
      e, ev = A(op, pc.scalar(v), pc.scalar(v2)), lambda r: C(op, v, v2)
    else:
      e1, e2 = A(op, pc.field(a), pc.scalar(v)), A(op2, pc.field(b),
                                                   pc.scalar(v2))
      ev1, ev2 = (lambda r: C(op, r[a], v)), (lambda r: C(op2, r[b], v2))
      if shape == "and":
        e, ev = e1 & e2, lambda r: ev1(r) and ev2(r)
      elif shape == "or":
        e, ev = e1 | e2, lambda r: ev1(r) or ev2(r)
      else:
        e = (e1 & e2) | (A(op, pc.field(b), pc.field(a)) & e2)
        ev = lambda r: (ev1(r) and ev2(r)) or (C(op, r[b], r[a]) and ev2(r))
    exp = [r for r in rows if ev(r)]
    got = lib.read_rows(w.handles[0], filter_=e)
    lib.check_same_rows(exp, got, "a filtered read returns wrong rows",
                        filter=str(e), rows=repr(rows)[:500])
  return {"type": str(t), "rows": len(rows), "filter": str(e)}


# ---------------------------------------------------------------------------
def _stats_names(m):
  """Primary key field -> stats column name, from the persisted schema."""
  types = list(m.schema.fields.struct.types)
  names = list(m.schema.fields.names)

  def skip(t):
    k = t.WhichOneof("kind")
    if k == "struct":
      return sum(1 + skip(u) for u in t.struct.types)
    if k == "list":
      return skip(t.list.type)
    return 0
  out, i = {}, 0
  for t in types:
    fid = getattr(t, t.WhichOneof("kind")).type_variation_reference
    out[names[i]] = fid
    i += 1 + skip(t)
  return out


def check_manifests(w, m, snap, log):
  ids = _stats_names(m)
  files = collections.Counter()
  for mf, row in lib.raw_manifest_rows(w.loc, snap):
    path = row["_FILE"]
    files[path] += 1
    kw = {"file": path, "log": log, "schema": w.schema.describe()}
    check(files[path] == 1, "a data file is listed twice", **kw)
    p = os.path.join(w.loc, path)
    check(os.path.exists(p), "a listed data file does not exist", **kw)
    t = lib.pq.ParquetFile(p).read()
    check(row["_NUM_ROWS"] == t.num_rows, "wrong number of rows in a manifest",
          recorded=row["_NUM_ROWS"], actual=t.num_rows, **kw)
    check(row["_INDEX_COMPRESSED_BYTES"] >= 0 and
          row["_INDEX_UNCOMPRESSED_BYTES"] >= 0, "negative bytes", **kw)
    for k in w.schema.pks:
      st = row.get(f"_STATS_f{ids[k]}", "missing")
      check(st != "missing", "a primary key has no column stats", key=k, **kw)
      vals = [v for v in t.column(k).to_pylist() if v is not None and v == v]
      lo, hi = st["_MIN"], st["_MAX"]
      if vals and lo is not None:
        check(lo <= min(vals), "recorded minimum is not a lower bound", key=k,
              recorded=repr(lo), actual=repr(min(vals)), **kw)
      if vals and hi is not None:
        check(hi >= max(vals), "recorded maximum is not an upper bound", key=k,
              recorded=repr(hi), actual=repr(max(vals)), **kw)
  rec = collections.Counter()
  for mf, row in lib.raw_manifest_rows(w.loc, snap, record=True):
    kw = {"file": row["_FILE"], "log": log, "schema": w.schema.describe()}
    rec[row["_FILE"]] += 1
    check(rec[row["_FILE"]] == 1, "a record file is listed twice", **kw)
    vals = lib.raw_record_file(os.path.join(w.loc, row["_FILE"]))
    check(row["_NUM_ROWS"] == len(vals), "wrong rows of a record file",
          recorded=row["_NUM_ROWS"], actual=len(vals), **kw)
    names = [n for n, i in ids.items() if i == row["_FIELD_ID"]]
    check(names and names[0] in w.schema.records,
          "a record file is listed for a wrong field", **kw)
    check(row["_UNCOMPRESSED_BYTES"] >= sum(map(len, vals)),
          "record bytes are too small", **kw)
    row["_name"] = names[0]
    rec[("field", row["_FILE"])] = names[0]
  for path in [p for p in files]:
    t = lib.pq.ParquetFile(os.path.join(w.loc, path)).read()
    for f in w.schema.records:
      for a in t.column(f).to_pylist():
        check(rec.get(("field", a["_FILE"])) == f,
              "a referenced record file is not listed for its field",
              file=a["_FILE"], field=f, log=log)
  return list(files)


def c09(rng, d, tier):
  w = _world(rng, d, null_pk=rng.random() < 0.35)
  w.kinds.update({"add_tag": .2, "remove_tag": 0})
  if rng.random() < 0.15:
    w.schema.gen_row = _long_values(w.schema, w.schema.gen_row)
  n = 0
  for _ in range(rng.randrange(2, 8)):
    ev = w.step()
    for sid in ev.committed():
      snap = ev.post.snapshots[sid]
      files = check_manifests(w, ev.post, snap, w.log)
      fs = w.handles[ev.handle].storage.data_files(snapshot_id=sid)
      check(sorted(f.path for f in fs.index_files) == sorted(files),
            "data_files() does not list the files of the version", log=w.log)
      by = {r["_FILE"]: r for _, r in lib.raw_manifest_rows(w.loc, snap)}
      mfs = {r["_FILE"]: mf for mf, r in lib.raw_manifest_rows(w.loc, snap)}
      for f in fs.index_files:
        r = by[f.path]
        check((f.storage_statistics.num_rows,
               f.storage_statistics.index_compressed_bytes,
               f.storage_statistics.index_uncompressed_bytes) ==
              (r["_NUM_ROWS"], r["_INDEX_COMPRESSED_BYTES"],
               r["_INDEX_UNCOMPRESSED_BYTES"]),
              "data_files() statistics differ from the manifest", log=w.log)
        check(fs.index_manifest_files[f.manifest_file_id] == mfs[f.path],
              "data_files() assigns a file to a wrong manifest", log=w.log)
      n += len(files)
  return {"files": n, "schema": w.schema.describe(), "log": w.log}


def _long_values(schema, orig):
  def gen(rng, *a, **kw):
    row = orig(rng, *a, **kw)
    for n, t in schema.fields:
      if n in schema.pks and rng.random() < 0.3:
        if t == pa.string():
          row[n] = rng.choice("ab") * 5000
        elif t == pa.binary():
          row[n] = rng.choice([b"a", b"b"]) * 5000
    return row
  return gen


# ---------------------------------------------------------------------------
def check_stats(w, ev, log):
  for sid in ev.committed():
    snap = ev.post.snapshots[sid]
    parent = ev.post.snapshots[snap.parent_snapshot_id]
    st = snap.storage_statistics
    rows = lib.raw_manifest_rows(w.loc, snap)
    n = sum(lib.pq.read_metadata(os.path.join(w.loc, r["_FILE"])).num_rows
            for _, r in rows)
    kw = {"log": log, "version": sid, "schema": w.schema.describe()}
    check(st.num_rows == n, "recorded number of rows is wrong",
          recorded=st.num_rows, actual=n, **kw)
    cb = sum(r["_INDEX_COMPRESSED_BYTES"] for _, r in rows)
    ub = sum(r["_INDEX_UNCOMPRESSED_BYTES"] for _, r in rows)
    check((st.index_compressed_bytes, st.index_uncompressed_bytes) == (cb, ub),
          "recorded index bytes are wrong",
          recorded=(st.index_compressed_bytes, st.index_uncompressed_bytes),
          actual=(cb, ub), **kw)
    rb = sum(r["_UNCOMPRESSED_BYTES"]
             for _, r in lib.raw_manifest_rows(w.loc, snap, True))
    check(st.record_uncompressed_bytes == rb,
          "recorded record bytes are wrong",
          recorded=st.record_uncompressed_bytes, actual=rb, **kw)
    u = ev.result.storage_statistics_update
    for f in ("num_rows", "index_compressed_bytes", "index_uncompressed_bytes",
              "record_uncompressed_bytes"):
      check(getattr(u, f) == getattr(st, f) -
            getattr(parent.storage_statistics, f),
            "the reported statistics update is not the difference", field=f,
            reported=getattr(u, f), actual=getattr(st, f) -
            getattr(parent.storage_statistics, f), **kw)


def check_index_bytes(w, snap, log):
  """Bytes of a file: of its statistics (primary key) columns, or all columns."""
  for _, row in lib.raw_manifest_rows(w.loc, snap):
    md = lib.pq.read_metadata(os.path.join(w.loc, row["_FILE"]))
    cols = [md.row_group(g).column(c) for g in range(md.num_row_groups)
            for c in range(md.num_columns)]
    pk = [c for c in cols if c.path_in_schema in w.schema.pks]
    ok = [(sum(c.total_compressed_size for c in cs),
           sum(c.total_uncompressed_size for c in cs)) for cs in (pk, cols)]
    got = (row["_INDEX_COMPRESSED_BYTES"], row["_INDEX_UNCOMPRESSED_BYTES"])
    check(got in ok, "wrong index bytes of a data file", recorded=got,
          actual=ok, file=row["_FILE"], log=log, schema=w.schema.describe())


def c10(rng, d, tier):
  w = _world(rng, d, domain=rng.choice([4, 12]), null_pk=rng.random() < .2)
  w.kinds.update({"append": 1.5, "append_from": 3, "delete": 4, "upsert": 3,
                  "add_tag": .1, "remove_tag": 0, "switch": 1.5,
                  "add_branch": 1})
  n = 0
  for _ in range(rng.randrange(3, 11)):
    ev = w.step()
    check_stats(w, ev, w.log)
    for sid in ev.committed():
      check_index_bytes(w, ev.post.snapshots[sid], w.log)
    n += len(ev.committed())
  return {"commits": n, "log": w.log}


# ---------------------------------------------------------------------------
def _collect(diff):
  out = []
  for c in diff:
    out.append((c.snapshot_id, c.type_.name, c.data.to_pylist()))
  return out


def check_feed(w, ds, m, lo, hi, deltas, log, batch=None):
  """Compare diff(lo, hi) with the recorded deltas of every version."""
  chain, cur = [], hi
  while cur != lo:
    chain.insert(0, cur)
    cur = m.snapshots[cur].parent_snapshot_id
  kw = {"start": lo, "end": hi, "log": log, "schema": w.schema.describe()}
  feed = _collect(ds.local().diff(lo, hi, **({"batch_size": batch} if batch
                                             else {})))
  pos = {s: i for i, s in enumerate(chain)}
  last = (-1, 0)
  adds = {s: [] for s in chain}
  dels = {s: [] for s in chain}
  for sid, kind, rows in feed:
    check(sid in pos, "the feed has a change outside of the range",
          version=sid, **kw)
    cur = (pos[sid], 0 if kind == "DELETE" else 1)
    check(cur >= last, "changes are not in commit order", version=sid, **kw)
    last = cur
    (dels if kind == "DELETE" else adds)[sid].extend(rows)
  for s in chain:
    removed, added = deltas[s]
    lib.check_same_rows(added, adds[s], "the feed has wrong additions",
                        version=s, **kw)
    lib.check_same_rows([{k: r[k] for k in w.schema.pks} for r in removed],
                        dels[s], "the feed has wrong deletions", version=s,
                        **kw)
  return len(chain)


def op_delta(w, ev):
  """(removed rows, added rows) of a committed operation, by its semantics."""
  before, after = w.live(ev.pre, ev.branch), w.live(ev.post, ev.branch)
  if ev.kind in ("append", "append_from", "load", "insert"):
    return [], ev.rows
  if ev.kind == "delete":
    return [r for r in before if ev.filt.matches(r)], []
  keys = set(_keys(ev.rows, w.schema.pks))
  return [r for r in before
          if tuple(canon(r[p]) for p in w.schema.pks) in keys], ev.rows


def c11(rng, d, tier):
  w = _world(rng, d, domain=rng.choice([5, 12]),
             schema={"n_records": rng.choice([0, 0, 1])})
  w.kinds.update({"append": 2, "append_from": 3, "delete": 4, "upsert": 3,
                  "add_tag": .3, "switch": 1.2, "add_branch": .8, "load": 1})
  deltas, n = {}, 0
  if rng.random() < 0.1:
    w.many_files(rng.randrange(4, 11))
    deltas[w.meta().current_snapshot_id] = [], w.live(w.meta(), "main")
  for _ in range(rng.randrange(3, 10)):
    ev = w.step()
    for sid in ev.committed():
      deltas[sid] = op_delta(w, ev)
  m = w.meta()
  ids = list(m.snapshots)
  anc = {}
  for s in ids:
    a, cur = [], s
    while m.snapshots[cur].HasField("parent_snapshot_id"):
      cur = m.snapshots[cur].parent_snapshot_id
      a.append(cur)
    anc[s] = a
  pairs = [(a, s) for s in ids for a in anc[s]]
  rng.shuffle(pairs)
  ds = rng.choice([w.handles[0], lib.modules()[0].load(w.loc)])
  for lo, hi in pairs[:5]:
    n += check_feed(w, ds, m, lo, hi, deltas, w.log,
                    batch=rng.choice([None, 1, 3]))
  bad = [(a, s) for s in ids for a in ids if a not in anc[s]]
  rng.shuffle(bad)
  from space.core.utils import errors
  for lo, hi in bad[:3]:
    try:
      got = _collect(ds.local().diff(lo, hi))
    except errors.UserInputError:
      continue
    except errors.SpaceRuntimeError:
      continue
    raise Violation("a diff between unrelated versions is not an error",
                    start=lo, end=hi, got=repr(got)[:300], log=w.log)
  return {"versions": len(ids), "feeds": n, "log": w.log}


# ---------------------------------------------------------------------------
def c12(rng, d, tier):
  w = _world(rng, d, kinds={"append": 1, "append_from": 3, "delete": 1},
             schema={"n_records": rng.choice([0, 1, 2, 2, 3])},
             max_rows=rng.choice([6, 25]))
  for _ in range(rng.randrange(1, 5)):
    w.step()
  ds, s = w.handles[0], w.schema
  rows = w.live(w.meta(), "main")
  _, _, snap = None, None, w.meta()
  names = [n for n, _ in s.fields]
  for _ in range(rng.randrange(3, 8)):
    fields = None
    if rng.random() < 0.7:
      fields = rng.sample(names, rng.randrange(1, len(names) + 1))
    batch = rng.choice([None, 1, 2, 3, 7, 100])
    ref = rng.random() < 0.3
    version = rng.choice([None, None, snap.current_snapshot_id])
    kw = {"fields": fields, "batch_size": batch, "reference_read": ref,
          "log": w.log, "schema": s.describe()}
    filt = None
    if rng.random() < 0.3:
      filt = lib.gen_filter(rng, s, depth=1, domain=w.domain)
    exp = [r for r in rows if filt is None or filt.matches(r)]
    got, sizes = [], []
    for t in ds.local().read(filter_=filt.expr if filt else None,
                             fields=fields, version=version,
                             reference_read=ref, batch_size=batch):
      sizes.append(t.num_rows)
      check(set(t.column_names) == set(fields or names) and
            len(t.column_names) == len(fields or names),
            "a read returns wrong columns", got=t.column_names, **kw)
      got += t.to_pylist()
    if not ref:
      check(max(sizes, default=0) <= (batch or 16),
            "a batch has more rows than requested", sizes=sizes, **kw)
    else:
      for r in got:
        for f in s.records:
          if f in r:
            a = r[f]
            vals = lib.raw_record_file(os.path.join(w.loc, a["_FILE"]))
            check(0 <= a["_ROW_ID"] < len(vals), "an address is out of range",
                  address=a, **kw)
            r[f] = vals[a["_ROW_ID"]]
    exp = [{k: r[k] for k in (fields or names)} for r in exp]
    lib.check_same_rows(exp, got, "a read returns wrong values", ordered=True,
                        filter=filt.text if filt else None, **kw)
  return {"schema": s.describe(), "rows": len(rows), "log": w.log}


def c12_addresses(rng, d, tier):
  """read_record_column: any address order over several record files."""
  from space.core.ops.read import read_record_column
  from space.core.utils.paths import StoragePathsMixin
  ar = lib.array_record()
  files = {}
  for i in range(rng.randrange(1, 4)):
    vals = [b"f%d-%d" % (i, j) for j in range(rng.randrange(1, 9))]
    wr = ar.ArrayRecordWriter(os.path.join(d, f"f{i}.ar"), "group_size:1")
    for v in vals:
      wr.write(v)
    wr.close()
    files[f"f{i}.ar"] = vals
  addr = []
  for _ in range(rng.randrange(0, 15)):
    f = rng.choice(list(files))
    addr.append({"_FILE": f, "_ROW_ID": rng.randrange(len(files[f]))})
  exp = [files[a["_FILE"]][a["_ROW_ID"]] for a in addr]
  typ = pa.struct([("_FILE", pa.string()), ("_ROW_ID", pa.int32())])
  if rng.random() < 0.5:
    col = pa.chunked_array([pa.array(addr[:4], typ), pa.array(addr[4:], typ)])
    t = pa.table({"f": col})
    got = read_record_column(StoragePathsMixin(d), t, "f").to_pylist()
  else:
    t = pa.table({"_FILE": pa.array([a["_FILE"] for a in addr], pa.string()),
                  "_ROW_ID": pa.array([a["_ROW_ID"] for a in addr],
                                      pa.int32())})
    got = read_record_column(StoragePathsMixin(d), t).to_pylist()
  check(got == exp, "record values are not in address order", addresses=addr,
        expected=repr(exp)[:300], got=repr(got)[:300])
  return {"addresses": len(addr), "files": len(files)}


# ---------------------------------------------------------------------------
def c23(rng, d, tier):
  from space.core.utils import errors
  Dataset, _ = lib.modules()
  w = _world(rng, d, n_handles=rng.choice([1, 2]),
             schema={"n_records": 0, "nested": False},
             kinds={"append": 2, "delete": .5})
  names = ["main", "", "a", "b", "c", "tag 1", "1", "é"]
  cur = {i: "main" for i in range(len(w.handles))}
  hist = []
  expected = {}  # name -> (kind, id)
  for _ in range(rng.randrange(5, 16)):
    h = rng.randrange(len(w.handles))
    ds = w.handles[h]
    op = rng.choice(["step", "add_tag", "add_tag", "add_branch", "remove_tag",
                     "remove_branch", "switch", "lookup"])
    pre = w.meta()
    err, name, sid = None, rng.choice(names), None
    if cur[h] != "main" and cur[h] not in expected:
      ds.set_current_branch("main")
      cur[h] = "main"
    if op == "step":
      ev = w.step(handle=h)
      hist += w.log[-1:]
      if ev.committed() and ev.branch != "main":
        expected[ev.branch] = ("BRANCH", ev.committed()[0])
    else:
      sid = rng.choice([None, None, rng.choice(list(pre.snapshots)), 99])
      try:
        if op == "add_tag":
          ds.add_tag(name, sid) if sid is not None else ds.add_tag(name)
        elif op == "add_branch":
          ds.add_branch(name)
        elif op == "remove_tag":
          ds.remove_tag(name)
        elif op == "remove_branch":
          ds.remove_branch(name)
        elif op == "switch":
          ds.storage.reload()
          ds.set_current_branch(name)
      except (errors.SpaceRuntimeError, errors.UserInputError) as e:
        err = e
    post = w.meta()
    hist.append({"op": op, "handle": h, "name": name, "snapshot": sid,
                 "error": None if err is None else repr(err)[:80]})
    kw = {"history": hist[-12:]}
    same = (pre.SerializeToString(deterministic=True) ==
            post.SerializeToString(deterministic=True))
    if err is not None:
      check(same, "a rejected reference operation changed the dataset", **kw)
    if op in ("add_tag", "add_branch"):
      bad = (name in ("", "main") or name in expected or
             (op == "add_tag" and sid is not None and
              sid not in pre.snapshots))
      check((err is not None) == bad,
            "an invalid reference was accepted" if bad else
            "a valid reference was rejected", **kw)
      if not bad:
        tgt = pre.current_snapshot_id if sid is None or op == "add_branch" \
            else sid
        expected[name] = ("TAG" if op == "add_tag" else "BRANCH", tgt)
    elif op in ("remove_tag", "remove_branch"):
      kind = "TAG" if op == "remove_tag" else "BRANCH"
      bad = (name not in expected or expected[name][0] != kind or
             (op == "remove_branch" and cur[h] == name))
      check((err is not None) == bad,
            "an invalid removal was accepted" if bad else
            "a valid removal was rejected", **kw)
      if not bad:
        del expected[name]
    elif op == "switch":
      bad = name != "main" and (name not in expected or
                                expected[name][0] != "BRANCH")
      check((err is not None) == bad, "wrong outcome of switching a branch",
            **kw)
      if not bad:
        cur[h] = name
      check(ds.storage.current_branch == cur[h], "wrong current branch", **kw)
    got = {k: (r.ReferenceType.Name(r.type), r.snapshot_id)
           for k, r in post.refs.items()}
    check(got == expected, "references differ from the history", expected=
          repr(expected), got=repr(got), **kw)
    for k, r in post.refs.items():
      check(r.reference_name == k, "a reference carries another name", **kw)
      check(r.snapshot_id in post.snapshots, "a dangling reference", **kw)
    check(all(s in post.snapshots for s in pre.snapshots),
          "a reference operation removed a version", **kw)
    # Lookups.
    ds2 = Dataset.load(w.loc)
    for k in rng.sample(names, 3):
      try:
        v = ds2.storage.version_to_snapshot_id(k)
        check(k in expected and v == expected[k][1],
              "a lookup returns a wrong version", name=k, got=v, **kw)
      except errors.UserInputError as e:
        check(k not in expected, "a lookup of an existing reference fails",
              name=k, error=repr(e), **kw)
    for s in [99, -1]:
      try:
        ds2.storage.snapshot(s)
        raise Violation("an unknown version is found", version=s, **kw)
      except errors.UserInputError:
        pass
    for s in post.snapshots:
      check(ds2.storage.snapshot(s).snapshot_id == s,
            "a lookup by ID returns another version", **kw)
    if expected and rng.random() < 0.3:
      k = rng.choice(list(expected))
      lib.check_same_rows(w.rows_of(post.snapshots[expected[k][1]]),
                          lib.read_rows(ds2, version=k),
                          "reading a reference returns another version",
                          name=k, **kw)
    vt = ds2.versions().to_pylist()
    exp_v = collections.Counter((i, None) for i in post.snapshots)
    for k, (_, i) in expected.items():
      exp_v[(i, k)] += 1
      exp_v.pop((i, None), None)
    check(collections.Counter((r["snapshot_id"], r["tag_or_branch"])
                              for r in vt) == exp_v,
          "versions() does not list the versions and references", **kw)
  return {"ops": len(hist), "refs": len(expected)}
