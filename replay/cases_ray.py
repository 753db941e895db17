"""Replay cases of the distributed layer, views and joins (C19-C22)."""
from __future__ import annotations

import collections
import os

import fakeray
import lib
from lib import Violation, canon, check, pa, pc
from world import World
from cases_core import (check_feed, check_manifests, check_stats, op_delta,
                        _keys)


def _setup(rng):
  fakeray.install()
  fakeray.reset(rng)
  lib.modules()
  from space import RayOptions
  return RayOptions


def _ray_options(rng, RayOptions):
  return RayOptions(max_parallelism=rng.choice([1, 1, 2, 3, 4, 8]),
                    enable_row_range_block=rng.random() < 0.6)


def _read_all(runner, **kw):
  rows = []
  for t in runner.read(**kw):
    rows += t.to_pylist()
  return rows


def c19(rng, d, tier):
  RayOptions = _setup(rng)
  s = lib.gen_schema(rng, pk_types=[pa.int64(), pa.string(), pa.float64()])
  w = World(rng, os.path.join(d, "ds"), s, domain=rng.choice([5, 12, 30]),
            max_rows=rng.choice([4, 12, 30]),
            kinds={"append": 3, "append_from": 3, "delete": 3, "upsert": 2,
                   "insert": 2, "add_branch": .3, "switch": .4})
  used = []

  def make(ds, fo):
    if rng.random() < 0.15:  # local and distributed operations mix
      used.append("local")
      return ds.local(fo)
    ro = _ray_options(rng, RayOptions)
    used.append([ro.max_parallelism, ro.enable_row_range_block])
    return ds.ray(ro, fo)
  w.make_runner = make
  deltas, n = {}, 0
  if rng.random() < 0.2:
    w.many_files(rng.randrange(4, 11))
  for _ in range(rng.randrange(2, 7)):
    ev = w.step()
    kw = {"log": w.log, "ray": used, "schema": s.describe()}
    new = ev.committed()
    check(len(new) <= 1, "an operation made several versions", **kw)
    before = w.live(ev.pre, ev.branch)
    if ev.result is None:
      continue
    if ev.kind == "insert":
      old = set(_keys(before, s.pks))
      mine = _keys(ev.rows, s.pks)
      ok = len(set(mine)) == len(mine) and not old & set(mine)
      check(bool(new) == (ok and bool(ev.rows)),
            "a distributed insert is accepted or rejected wrongly",
            expected=ok, error=ev.result.error_message, **kw)
    elif ev.kind == "upsert":
      mine = _keys(ev.rows, s.pks)
      check(bool(new) == (len(set(mine)) == len(mine) and bool(ev.rows)),
            "a distributed upsert is accepted or rejected wrongly",
            error=ev.result.error_message, **kw)
    elif ev.kind == "delete":
      removed, _ = op_delta(w, ev)
      check(bool(new) == bool(removed), "a distributed delete is wrong",
            removed=len(removed), state=ev.state,
            error=ev.result.error_message, **kw)
    else:
      check(bool(new) == bool(ev.rows), "a distributed append is wrong",
            rows=len(ev.rows), state=ev.state,
            error=ev.result.error_message, **kw)
    if not new:
      check(ev.pre == ev.post, "metadata changed without a version", **kw)
      continue
    sid = new[0]
    removed, added = deltas[sid] = op_delta(w, ev)
    exp = lib.multiset(before)
    exp.subtract(lib.multiset(removed))
    exp.update(lib.multiset(added))
    got = w.live(ev.post, ev.branch)
    check(+exp == lib.multiset(got), "wrong rows after a distributed operation",
          **lib.diff_ms(+exp, lib.multiset(got)), **kw)
    check_stats(w, ev, w.log)
    check_manifests(w, ev.post, ev.post.snapshots[sid], w.log)
    n += 1
    # Distributed reads.
    ds = w.handles[ev.handle]
    ro = _ray_options(rng, RayOptions)
    bs = rng.choice([None, 1, 2, 3, 7, 50])
    kw["read"] = [ro.max_parallelism, ro.enable_row_range_block, bs]
    runner = ds.ray(ro)
    lib.check_same_rows(got, _read_all(runner, batch_size=bs),
                        "a distributed read returns wrong rows", **kw)
    f = lib.gen_filter(rng, s, 1, domain=w.domain)
    lib.check_same_rows([r for r in got if f.matches(r)],
                        _read_all(runner, filter_=f.expr, batch_size=bs),
                        "a distributed filtered read returns wrong rows",
                        filter=f.text, **kw)
    fields = rng.sample([n for n, _ in s.fields],
                        rng.randrange(1, len(s.fields) + 1))
    lib.check_same_rows([{k: r[k] for k in fields} for r in got],
                        _read_all(runner, fields=fields, batch_size=bs),
                        "a distributed read of fields returns wrong rows",
                        chosen=fields, **kw)
    # Distributed change feed of this version.
    parent = ev.post.snapshots[sid].parent_snapshot_id
    kw["log"] = w.log
    feed = list(runner.diff(parent, sid, **({"batch_size": bs} if bs else {})))
    seen_add = False
    adds, dels = [], []
    for c in feed:
      check(c.snapshot_id == sid, "a change has a wrong version", **kw)
      if c.type_.name == "ADD":
        seen_add = True
        adds += c.data.to_pylist()
      else:
        check(not seen_add, "a deletion comes after an addition", **kw)
        dels += c.data.to_pylist()
    lib.check_same_rows(added, adds, "a distributed feed has wrong additions",
                        **kw)
    lib.check_same_rows([{k: r[k] for k in s.pks} for r in removed], dels,
                        "a distributed feed has wrong deletions", **kw)
    check_feed(w, ds, ev.post, parent, sid, deltas, w.log)
  return {"versions": n, "log": w.log, "ray": used}


def c07_ray(rng, d, tier):
  """Distributed inserts and upserts against keys spread over many files."""
  RayOptions = _setup(rng)
  s = lib.gen_schema(rng, n_records=0, nested=False,
                     n_pk=rng.choice([1, 1, 2]))
  w = World(rng, os.path.join(d, "ds"), s, domain=rng.choice([6, 12, 30]))
  pks, used = s.pks, []
  rows = w.new_rows(rng.randrange(1, 14), unique_pk=True)
  for i in range(0, len(rows), 2):  # one file for each append
    w.handles[0].local().append(s.table(rows[i:i + 2]))

  def make(ds, fo):
    ro = _ray_options(rng, RayOptions)
    used.append(ro.max_parallelism)
    return ds.ray(ro, fo)
  w.make_runner = make
  for _ in range(rng.randrange(1, 4)):
    ev = w.step(rng.choice(["insert", "insert", "upsert"]))
    before, after = w.live(ev.pre, "main"), w.live(ev.post, "main")
    kin, old = _keys(ev.rows, pks), set(_keys(before, pks))
    kw = {"kind": ev.kind, "log": w.log, "schema": s.describe(),
          "parallelism": used[-1:], "files": (len(rows) + 1) // 2,
          "keys": repr(kin)[:300]}
    if len(set(kin)) != len(kin) or (ev.kind == "insert" and old & set(kin)):
      check(ev.state != "SUCCEEDED",
            "a distributed write with duplicated keys must be rejected", **kw)
      check(not ev.committed(), "a rejected write created a version", **kw)
      lib.check_same_rows(before, after, "a rejected write changed data", **kw)
    else:
      exp = [r for r, k in zip(before, _keys(before, pks))
             if k not in set(kin)] + ev.rows
      check(ev.state == "SUCCEEDED" or not ev.rows, "a valid write failed",
            error=ev.result and ev.result.error_message, **kw)
      lib.check_same_rows(exp, after, "stored rows after the write are wrong",
                          **kw)
  return {"schema": s.describe(), "log": w.log, "parallelism": used}


def c19_tasks(rng, d, tier):
  """Read tasks partition the rows; the announced row counts are right."""
  RayOptions = _setup(rng)
  s = lib.gen_schema(rng, n_records=rng.choice([0, 1]), nested=False)
  w = World(rng, os.path.join(d, "ds"), s, domain=12, max_rows=30)
  for _ in range(rng.randrange(1, 4)):
    w.step("append")
  from space.core.options import ReadOptions
  from space.ray.data_sources import SpaceDataSource
  ds = w.handles[0]
  live = w.live(w.meta(), "main")
  ro = _ray_options(rng, RayOptions)
  bs = rng.choice([None, 1, 2, 3, 5, 8, 100])
  st = ds.storage
  reader = SpaceDataSource().create_reader(st, ro, ReadOptions(batch_size=bs))
  rows = []
  tasks = reader.get_read_tasks(rng.randrange(1, 9))
  eff = bs or 16
  for t in tasks:
    blocks = list(t._read_fn())
    got = sum(b.num_rows for b in blocks)
    n = t._metadata.num_rows
    kw = {"batch_size": bs, "row_range": ro.enable_row_range_block,
          "log": w.log}
    check(n is None or n == got, "a read task announces a wrong row count",
          announced=n, actual=got, **kw)
    if ro.enable_row_range_block:
      check(got <= eff, "a row range block is too large", rows=got, **kw)
    for b in blocks:
      rows += b.to_pylist()
  lib.check_same_rows(live, rows, "read tasks lose or repeat rows",
                      batch_size=bs, row_range=ro.enable_row_range_block,
                      log=w.log)
  return {"rows": len(live), "tasks": len(tasks), "batch_size": bs,
          "row_range": ro.enable_row_range_block}


# ---------------------------------------------------------------------------
# views
# ---------------------------------------------------------------------------
class _Src:
  """A source dataset with unique int64 keys, and its views."""

  def __init__(self, rng, d, name="src"):
    self.rng = rng
    names = ["id", "x", "s", "y"]
    types = {"id": pa.int64(), "x": pa.float64(), "s": pa.string(),
             "y": pa.int64(), "rec": pa.binary()}
    self.records = ["rec"] if rng.random() < 0.5 else []
    names += self.records
    rng.shuffle(names)
    self.names = names
    self.arrow = pa.schema([(n, types[n]) for n in names])
    self.loc = os.path.join(d, name)
    self.ds = lib.modules()[0].create(self.loc, self.arrow, ["id"],
                                      self.records)
    self.seq = 0

  def row(self, k):
    self.seq += 1
    v = {"id": k, "x": float(self.rng.randrange(0, 20)),
         "s": self.rng.choice("abc") + str(self.seq), "y": self.seq,
         "rec": b"r%d" % self.seq}
    return {n: v[n] for n in self.names}

  def rows_at(self, sid=None):
    m = lib.raw_metadata(self.loc)
    sid = m.current_snapshot_id if sid is None else sid
    return lib.raw_rows(self.loc, m.snapshots[sid], self.records)

  def table(self, rows):
    return pa.Table.from_pylist(rows, schema=self.arrow)


def _mk_map(kind, c, fields):
  """A map function over numpy batches, with its row semantics."""
  if kind == "scale":
    def fn(batch):
      batch["x"] = batch["x"] * c + 1
      return batch

    def row(r):
      return {**r, "x": r["x"] * c + 1}
  elif kind == "shift":
    def fn(batch):
      batch["y"] = batch["y"] + c
      return batch

    def row(r):
      return {**r, "y": r["y"] + c}
  elif kind == "drop":
    keep = [f for f in fields if f in ("id", "x")]

    def fn(batch):
      return {k: batch[k] for k in keep}

    def row(r):
      return {k: r[k] for k in keep}
  else:
    def fn(batch):
      return {"id": batch["id"], "z": batch["x"] - batch["id"] * c}

    def row(r):
      return {"id": r["id"], "z": r["x"] - r["id"] * c}
  return fn, row


def _mk_filter(col, thr):
  def fn(r):
    return r[col] > thr
  return fn


def _gen_view(rng, src, depth, allow_new=True):
  """(view, model row function list -> rows, spec)"""
  view, model, spec = src.ds, (lambda rows: rows), []
  cols = list(src.names)
  for _ in range(depth):
    num = [c for c in cols if c in ("x", "y", "z", "id")]
    fields = None
    # The schema of a filter view keeps the fields its filter does not read, so
    # transforms on top must select their fields (existing tests pin this).
    narrow = any(x.get("narrow") for x in spec)
    if rng.random() < 0.5 or narrow:
      fields = [c for c in cols if c == "id" or rng.random() < 0.7]
      rng.shuffle(fields)
    eff = fields or cols
    types = {f.name: f.type for f in view.schema}
    if rng.random() < 0.5:
      kinds = (["scale"] if "x" in eff else []) + (
          ["shift"] if "y" in eff else []) + (
          ["drop"] if "x" in eff else []) + (
          ["new"] if "x" in eff and allow_new else [])
      if not kinds:
        continue
      kind, c = rng.choice(kinds), rng.randrange(2, 9)
      fn, row = _mk_map(kind, c, eff)
      sample = row({n: 0 for n in eff})
      out_cols = list(sample)
      schema = pa.schema([(n, pa.float64() if n == "z" else types[n])
                          for n in out_cols])
      recs = [n for n in out_cols if n in view.record_fields
              and rng.random() < 0.8]
      bs = rng.choice([None, 1, 2, 7])
      spec.append({"map": kind, "c": c, "fields": fields, "batch": bs,
                   "records": recs})
      view = view.map_batches(fn=fn, output_schema=schema,
                              input_fields=fields, output_record_fields=recs,
                              batch_size=bs)
      model = (lambda rows, m=model, row=row, eff=eff:
               [row({n: r[n] for n in eff}) for r in m(rows)])
      cols = out_cols
    else:
      cand = [c for c in num if c in eff]
      col, thr = rng.choice(cand), rng.randrange(0, 14)
      fn = _mk_filter(col, thr)
      spec.append({"filter": col, "thr": thr, "fields": fields})
      view = view.filter(fn=fn, input_fields=fields)
      model = (lambda rows, m=model, col=col, thr=thr, eff=eff:
               [{n: r[n] for n in eff} for r in m(rows) if r[col] > thr])
      # The schema of a filter view stays the one of its input.
      if fields is not None and set(fields) != set(cols):
        spec[-1]["narrow"] = True
      cols = list(eff)
  return view, model, spec, cols


def _chain(view):
  """[(kind, udf, input_fields)] from the outermost transform, and the source."""
  from space.core.datasets import Dataset
  out = []
  while not isinstance(view, Dataset):
    out.append((type(view).__name__, view.udf, list(view.input_fields)))
    view = view.input_
  return out, view


def c20(rng, d, tier):
  RayOptions = _setup(rng)
  src = _Src(rng, d)
  src.ds.local().append(src.table([src.row(k) for k in range(6)]))
  view, model, spec, cols = _gen_view(rng, src, rng.randrange(1, 5))
  if not spec:
    return {"trivial": True}
  from space.core.views import MaterializedView
  before = lib.tree_digest(src.loc)
  kw = {"view": spec, "columns": src.names}
  loc = os.path.join(d, "mv")
  if rng.random() < 0.4:
    from space.catalogs.directory import DirCatalog
    cat = DirCatalog(os.path.join(d, "cat"))
    cat.materialize("v1", view)
    loaded = DirCatalog(os.path.join(d, "cat")).dataset("v1")
  else:
    view.materialize(loc)
    loaded = MaterializedView.load(loc)
  check(isinstance(loaded, MaterializedView), "not loaded as a view", **kw)
  check(lib.tree_digest(src.loc) == before,
        "materializing or loading a view modifies the source", **kw)
  got = loaded.view
  strip = lambda sch: [(f.name, f.type) for f in sch]  # noqa: E731
  check(strip(got.schema) == strip(view.schema), "the view schema changes",
        got=str(got.schema), expected=str(view.schema), **kw)
  check(strip(loaded.storage.logical_schema) == strip(view.schema),
        "the storage schema differs from the view schema", **kw)
  check(list(got.primary_keys) == list(view.primary_keys) ==
        list(loaded.storage.primary_keys), "primary keys change", **kw)
  check(sorted(got.record_fields) == sorted(view.record_fields) ==
        sorted(loaded.storage.record_fields), "record fields change", **kw)
  exp_chain, exp_src = _chain(view)
  got_chain, got_src = _chain(got)
  check(os.path.realpath(got_src.storage.location) ==
        os.path.realpath(exp_src.storage.location), "another source", **kw)
  check([c[0] for c in exp_chain] == [c[0] for c in got_chain],
        "the transforms are of another kind or order", **kw)
  import numpy as np
  for (k, u, f), (_, v, g) in zip(exp_chain, got_chain):
    check(f == g, "input fields change", expected=f, got=g, **kw)
    check(u.batch_size == v.batch_size, "the batch size changes",
          expected=u.batch_size, got=v.batch_size, **kw)
    check(strip(u.output_schema) == strip(v.output_schema) and
          list(u.output_record_fields) == list(v.output_record_fields),
          "the output of a transform changes", **kw)
    for i in range(4):
      if k == "MapTransform":
        b = {n: np.array([i + 1.0, i * 7.0]) for n in ("id", "x", "y", "z")}
        b.update({"s": np.array(["a", "b"]), "rec": np.array([b"1", b"2"])})
        b = {n: b[n] for n in f}
        e, a = u.fn(dict(b)), v.fn(dict(b))
        check(list(e) == list(a) and all(list(e[n]) == list(a[n]) for n in e),
              "a function of the view changes", **kw)
      else:
        row = {n: i * 4 + 1 for n in ("id", "x", "y", "z")}
        check(u.fn(row) == v.fn(row), "a filter of the view changes", **kw)
  if spec[-1].get("narrow"):
    rows = [{n: r[n] for n in cols} for r in model(src.rows_at())]
  else:
    rows = model(src.rows_at())
  for vw in (view, got):
    out = _read_all(vw.ray(_ray_options(rng, RayOptions)))
    lib.check_same_rows(rows, out, "reading the view gives wrong rows", **kw)
  check(lib.tree_digest(src.loc) == before,
        "reading a view modifies the source", **kw)
  return kw


def c21(rng, d, tier):
  RayOptions = _setup(rng)
  src = _Src(rng, d)
  for _ in range(8):
    view, model, spec, cols = _gen_view(rng, src, rng.randrange(1, 3))
    # A stored view must provide every field of its schema.
    if spec and not any(x.get("narrow") for x in spec):
      break
  else:
    return {"trivial": True}
  from space.core.views import MaterializedView
  from space.core.utils.errors import UserInputError
  loc = os.path.join(d, "mv")
  mvs = [view.materialize(loc)]
  live, log, n = {}, [], 0
  target_done = 0
  kw = {"view": spec, "log": log, "columns": src.names}
  flag = os.path.join(d, "fail")
  for _ in range(rng.randrange(4, 12)):
    k = rng.random()
    if k < 0.3:
      ks = [x for x in rng.sample(range(60), rng.randrange(1, 7))
            if x not in live]
      rows = [src.row(x) for x in ks]
      if not rows:
        continue
      src.ds.local(lib.gen_file_options(rng)).append(src.table(rows))
      live.update({r["id"]: r for r in rows})
      log.append(["append", ks])
    elif k < 0.5:
      ks = rng.sample(range(60), rng.randrange(1, 5))
      rows = [src.row(x) for x in ks]
      src.ds.local(lib.gen_file_options(rng)).upsert(src.table(rows))
      live.update({r["id"]: r for r in rows})
      log.append(["upsert", ks])
    elif k < 0.68:
      lo = rng.randrange(0, 20)
      f = rng.choice([pc.field("x") < lo, pc.field("id") > lo * 3,
                      pc.field("id") == lo])
      src.ds.local(lib.gen_file_options(rng)).delete(f)
      live = {r["id"]: r for r in src.rows_at()}
      log.append(["delete", str(f)])
    elif k < 0.75:
      mvs.append(MaterializedView.load(loc))
      log.append(["load another handle of the view"])
    else:
      sid = lib.raw_metadata(src.loc).current_snapshot_id
      target = None
      if rng.random() < 0.3 and sid > target_done:
        target = rng.randrange(target_done, sid + 1)
      mv = rng.choice(mvs)
      ro = _ray_options(rng, RayOptions)
      fo = lib.gen_file_options(rng)
      bs = rng.choice([None, 1, 2, 5])
      log.append(["refresh", mvs.index(mv), target, bs, ro.max_parallelism,
                  ro.enable_row_range_block])
      end = sid if target is None else target
      try:
        res = mv.ray(ro, fo).refresh(target, bs)
      except UserInputError:  # nothing to refresh
        check(end <= target_done, "a refresh is rejected", **kw)
        res = []
      check(all(r.state.name != "FAILED" for r in res),
            "a refresh fails", errors=[r.error_message for r in res], **kw)
      target_done = end
      exp = model(src.rows_at(target_done))
      m = lib.raw_metadata(loc)
      got = lib.raw_rows(loc, m.snapshots[m.current_snapshot_id],
                         list(mv.storage.record_fields))
      lib.check_same_rows(exp, got, "the refreshed view is wrong", **kw)
      lib.check_same_rows(exp, _read_all(mv.ray(ro)),
                          "reading the refreshed view gives wrong rows", **kw)
      lib.check_same_rows(exp, lib.read_rows(mv),
                          "a local read of the refreshed view is wrong", **kw)
      dg = lib.tree_digest(loc)
      try:
        again = rng.choice(mvs).ray(ro, fo).refresh(target, bs)
      except UserInputError:
        again = []
      m2 = lib.raw_metadata(loc)
      got = lib.raw_rows(loc, m2.snapshots[m2.current_snapshot_id],
                         list(mv.storage.record_fields))
      lib.check_same_rows(exp, got, "refreshing again changes the view", **kw)
      check(lib.tree_digest(loc) == dg or all(
          r.state.name == "SKIPPED" for r in again),
          "refreshing again makes versions", **kw)
      n += 1
  return {"refreshes": n, "trivial": n == 0, **kw}


def c21_fail(rng, d, tier):
  """A refresh that fails in the middle leaves a consistent version."""
  RayOptions = _setup(rng)
  from space.core.utils.errors import UserInputError
  src = _Src(rng, d)
  schema = pa.schema([("id", pa.int64()), ("x", pa.float64())])
  bad = rng.randrange(0, 60)
  flag = os.path.join(d, "armed")

  def fn(batch):
    if bad in list(batch["id"]) and os.path.exists(flag):
      raise ValueError("injected")
    return {"id": batch["id"], "x": batch["x"] + 1}
  view = src.ds.map_batches(fn=fn, output_schema=schema,
                            input_fields=["id", "x"])
  loc = os.path.join(d, "mv")
  mv = view.materialize(loc)
  model = lambda rows: [{"id": r["id"], "x": r["x"] + 1} for r in rows]  # noqa
  log, live = [], set()
  for _ in range(rng.randrange(2, 6)):
    if rng.random() < 0.7 or not live:
      ks = [x for x in rng.sample(range(60), 8)]
      src.ds.local(lib.gen_file_options(rng)).upsert(
          src.table([src.row(x) for x in ks]))
      live |= set(ks)
      log.append(["upsert", ks])
    else:
      lo = rng.randrange(60)
      src.ds.local().delete(pc.field("id") < lo)
      log.append(["delete", lo])
  open(flag, "w").close()
  failed = False
  try:
    res = mv.ray(_ray_options(rng, RayOptions)).refresh()
    failed = any(r.state.name == "FAILED" for r in res)
  except ValueError:
    failed = True
  os.remove(flag)
  m = lib.raw_metadata(loc)
  got = lib.multiset(lib.raw_rows(loc, m.snapshots[m.current_snapshot_id]))
  sids = list(lib.raw_metadata(src.loc).snapshots)
  hits = [s for s in sids if lib.multiset(model(src.rows_at(s))) == got]
  check(hits, "a failed refresh leaves an inconsistent view", log=log, bad=bad)
  try:
    mv.ray(_ray_options(rng, RayOptions)).refresh()
  except UserInputError:  # nothing to refresh
    pass
  lib.check_same_rows(model(src.rows_at()), lib.read_rows(mv),
                      "the refresh after a failed one is wrong", log=log,
                      bad=bad)
  return {"failed": failed, "log": log, "bad": bad}


def known_c21_gap(d):
  """Source version IDs with gaps (commits on a branch): the view lags."""
  import random
  _setup(random.Random(0))
  ds = lib.modules()[0].create(os.path.join(d, "s"), pa.schema(
      [("id", pa.int64()), ("x", pa.float64())]), ["id"], [])
  view = ds.map_batches(fn=lambda b: b, output_schema=ds.schema)
  mv = view.materialize(os.path.join(d, "mv"))
  ds.local().append({"id": [1], "x": [1.0]})
  ds.add_branch("b")
  ds.set_current_branch("b")
  ds.local().append({"id": [9], "x": [9.0]})
  ds.set_current_branch("main")
  ds.local().append({"id": [2], "x": [2.0]})
  try:
    mv.ray().refresh()
    ds.local().append({"id": [3], "x": [3.0]})
    mv.ray().refresh()
    rows = lib.read_rows(mv)
  except Exception:  # noqa
    return True
  return sorted(r["id"] for r in rows) != [1, 2, 3]


# ---------------------------------------------------------------------------
# joins
# ---------------------------------------------------------------------------
def c22(rng, d, tier):
  RayOptions = _setup(rng)
  from space import JoinOptions, Range
  t = rng.choice([pa.int64(), pa.int64(), pa.int64(), pa.string(),
                  pa.float64(), pa.int32()])
  sides = []
  for i in range(2):
    fields = [("k", t), (f"v{i}", pa.int64()), (f"w{i}", pa.string())]
    recs = []
    if rng.random() < 0.5:
      fields.append((f"r{i}", pa.binary()))
      recs = [f"r{i}"]
    pks = ["k"]
    if rng.random() < 0.3:
      fields.append((f"p{i}", pa.int64()))
      pks.append(f"p{i}")
    rng.shuffle(fields)
    rng.shuffle(pks)
    s = lib.Schema(fields, pks, recs)
    w = World(rng, os.path.join(d, f"ds{i}"), s, domain=rng.choice([4, 12, 30]),
              max_rows=rng.choice([4, 12]),
              null_pk=rng.random() < 0.3,
              kinds={"append": 4, "append_from": 2, "delete": 1.5})
    for _ in range(rng.randrange(0, 5)):
      w.step()
    if rng.random() < 0.12:  # a file whose keys are all null or very long
      rows = w.new_rows(3)
      for r in rows:
        r["k"] = "q" * 5000 if t == pa.string() and rng.random() < .6 else None
      w.handles[0].local().append(s.table(rows))
    sides.append((s, w))
  (ls, lw), (rs, rw) = sides
  sel, ref = [], []
  for s, w in sides:
    f = None
    if rng.random() < 0.5:
      cand = [n for n, _ in s.fields if n != "k"]
      f = rng.sample(cand, rng.randrange(1, len(cand) + 1))
      if rng.random() < 0.5:
        f.insert(rng.randrange(len(f) + 1), "k")
    sel.append(f)
    ref.append(rng.random() < 0.4)
  lrows = lw.live(lw.meta(), "main")
  rrows = rw.live(rw.meta(), "main")
  mode = rng.choice(["none", "split", "cover", "beyond"])
  calls = []

  def partition(r):
    calls.append((r.min_, r.max_, r.include_max))
    vals = sorted({x["k"] for x in lrows + rrows if x["k"] is not None
                   and r.min_ <= x["k"] <= r.max_})
    if not (r.min_ <= r.max_) or mode == "cover":
      return [r]
    cuts = sorted({v for v in vals if r.min_ < v < r.max_
                   and rng.random() < 0.4})
    pts = [r.min_] + cuts
    out = [Range(a, b) for a, b in zip(pts, cuts)]
    out.append(Range(pts[-1], r.max_, r.include_max))
    if mode == "beyond" and t == pa.int64():  # empty ranges do no harm
      out.insert(0, Range(r.min_ - 10, r.min_))
    if rng.random() < .5:
      rng.shuffle(out)
    return out
  swap = rng.random() < 0.3
  views = [lw.handles[0], rw.handles[0]]
  pre = []
  if rng.random() < 0.25:  # joins of views
    i = rng.randrange(2)
    if not ref[i]:
      s, w = sides[i]
      thr = rng.randrange(0, 10)
      if rng.random() < 0.5:
        views[i] = views[i].filter(fn=_mk_filter(f"v{i}", thr))
        keep = [r for r in (lrows, rrows)[i] if r[f"v{i}"] is not None
                and r[f"v{i}"] > thr]
        if any(r[f"v{i}"] is None for r in (lrows, rrows)[i]):
          return {"trivial": True}
        pre.append(["filter", i])
      else:
        order = [n for n, _ in s.fields]
        rng.shuffle(order)
        tt = dict(s.fields)
        if any(r[f] is None for r in (lrows, rrows)[i] for f in order):
          return {"trivial": True}
        views[i] = views[i].map_batches(
            fn=lambda b, order=order: {n: b[n] for n in order},
            output_schema=pa.schema([(n, tt[n]) for n in order]),
            output_record_fields=s.records)
        keep = (lrows, rrows)[i]
        pre.append(["map", i, order])
      if i == 0:
        lrows = keep
      else:
        rrows = keep
  a, b = (1, 0) if swap else (0, 1)
  kw = {"key": str(t), "select": sel, "reference": ref, "mode": mode,
        "left": lw.log, "right": rw.log, "swap": swap, "views": pre,
        "schemas": [ls.describe(), rs.describe()]}
  view = views[a].join(
      views[b], keys=["k"],
      left_fields=None if sel[a] is None else list(sel[a]),
      right_fields=None if sel[b] is None else list(sel[b]),
      left_reference_read=ref[a], right_reference_read=ref[b])
  jo = JoinOptions(partition_fn=None if mode == "none" else partition)
  out = []
  for tb in view.ray(_ray_options(rng, RayOptions)).read(join_options=jo):
    check(tb.column_names == view.schema.names, "wrong columns of a join",
          got=tb.column_names, expected=view.schema.names, **kw)
    out.append(tb)
  names = set(view.schema.names)
  for i, (s, w) in enumerate(sides):
    want = set(sel[i] or [n for n, _ in s.fields]) | {"k"}
    check(want <= names, "a join misses fields", missing=list(want - names),
          **kw)
  exp = []
  by = collections.defaultdict(list)
  for r in rrows:
    if r["k"] is not None:
      by[canon(r["k"])].append(r)
  for l in lrows:
    if l["k"] is None:
      continue
    for r in by[canon(l["k"])]:
      exp.append({n: ({**l, **r})[n] for n in names})
  got = []
  for tb in out:
    rows = tb.to_pylist()
    for i, (s, w) in enumerate(sides):
      if ref[i]:
        for f in s.records:
          if f in names:
            for r in rows:
              addr = r[f]
              check(isinstance(addr, dict), "not an address", got=repr(addr),
                    **kw)
              r[f] = lib.raw_record_file(os.path.join(
                  w.loc, addr["_FILE"]))[addr["_ROW_ID"]]
    got += rows
  lib.check_same_rows(exp, got, "the join has wrong rows", **kw)
  return {**kw, "rows": len(exp), "trivial": not exp}
