"""Random histories of operations over one dataset (real code), with a log."""
from __future__ import annotations

import os

from lib import *  # noqa: F401,F403
import lib


class Event:

  def __init__(self, kind, handle, branch, args, pre, post, result, error,
               rows=None, filt=None):
    self.kind, self.handle, self.branch, self.args = kind, handle, branch, args
    self.pre, self.post, self.result, self.error = pre, post, result, error
    self.rows, self.filt = rows, filt

  @property
  def state(self):
    return None if self.result is None else self.result.state.name

  def committed(self):
    return [i for i in self.post.snapshots if i not in self.pre.snapshots]


class World:
  """One dataset at `loc`, several handles, random operations."""

  def __init__(self, rng, loc, schema, n_handles=1, domain=12, kinds=None,
               null_pk=False, fixed_options=None, allow_not=False,
               max_rows=12):
    self.rng, self.loc, self.schema = rng, loc, schema
    self.domain, self.null_pk, self.allow_not = domain, null_pk, allow_not
    self.max_rows = max_rows
    Dataset, _ = lib.modules()
    self.handles = [lib.create(loc, schema)]
    for _ in range(n_handles - 1):
      self.handles.append(Dataset.load(loc))
    self.kinds = kinds or {"append": 4, "append_from": 3, "delete": 3,
                           "upsert": 2, "insert": 1, "add_tag": 1,
                           "add_branch": 1, "switch": 1, "remove_tag": .5,
                           "remove_branch": .5, "load": .7}
    self.seq = 0
    self.fixed_options = fixed_options
    self.log = []
    self.ext = 0
    # (dataset, file options) -> runner of the operations.
    self.make_runner = lambda ds, fo: ds.local(fo)

  # -- helpers ---------------------------------------------------------------
  def meta(self):
    return lib.raw_metadata(self.loc)

  def rows_of(self, snapshot):
    return lib.raw_rows(self.loc, snapshot, self.schema.records)

  def head(self, m, branch):
    if branch == "main":
      return m.current_snapshot_id
    return m.refs[branch].snapshot_id

  def live(self, m, branch):
    return self.rows_of(m.snapshots[self.head(m, branch)])

  def new_rows(self, n=None, unique_pk=False, null_pk=None):
    null_pk = self.null_pk if null_pk is None else null_pk
    n = self.rng.randrange(0, self.max_rows) if n is None else n
    out, seen = [], set()
    for _ in range(n):
      self.seq += 1
      r = self.schema.gen_row(self.rng, self.seq, self.domain,
                              null_pk=null_pk)
      k = tuple(canon(r[p]) for p in self.schema.pks)
      if unique_pk and k in seen:
        continue
      seen.add(k)
      out.append(r)
    return out

  def many(self, n):
    """Many small commits, hence many manifests."""
    for _ in range(n):
      rows = self.new_rows(self.rng.choice([1, 1, 2]))
      self.handles[0].local().append(self.schema.table(rows))
    self.log.append({"op": "append", "times": n})

  def many_files(self, n):
    """One commit with a manifest of many files."""
    fo = lib.gen_file_options(self.rng, True)
    fo.parquet_options.max_uncompressed_row_group_bytes = 0
    fo.parquet_options.max_uncompressed_file_bytes = 0
    parts = [self.schema.table(self.new_rows(self.rng.choice([1, 1, 2])))
             for _ in range(n)]
    self.handles[0].local(fo).append_from(lambda: iter(parts))
    self.log.append({"op": "append", "files": n})

  def pick(self):
    names = list(self.kinds)
    return self.rng.choices(names, [self.kinds[k] for k in names])[0]

  def step(self, kind=None, handle=None):
    rng = self.rng
    kind = kind or self.pick()
    hi = rng.randrange(len(self.handles)) if handle is None else handle
    ds = self.handles[hi]
    pre = self.meta()
    branch = ds.storage.current_branch
    # A handle whose branch was removed by another one goes back to main.
    if branch != "main" and branch not in pre.refs:
      try:
        ds.set_current_branch("main")
      except Exception as e:  # noqa
        raise Violation("set_current_branch('main') fails", error=repr(e))
      branch = "main"
    fo = self.fixed_options or lib.gen_file_options(rng)
    runner = self.make_runner(ds, fo)
    args, rows, filt, result, error = {}, None, None, None, None
    try:
      if kind == "append":
        rows = self.new_rows()
        result = runner.append(self._input(rows))
      elif kind == "append_from":
        batches = [self.new_rows(rng.randrange(0, 7))
                   for _ in range(rng.randrange(1, 5))]
        rows = [r for b in batches for r in b]
        inputs = [self._input(b) for b in batches]
        if rng.random() < 0.5:
          result = runner.append_from(lambda: iter(inputs))
        else:
          k = rng.randrange(0, len(inputs) + 1)
          result = runner.append_from(
              [lambda: iter(inputs[:k]), lambda: iter(inputs[k:])])
        args["batches"] = [len(b) for b in batches]
      elif kind == "delete":
        filt = lib.gen_filter(rng, self.schema, depth=rng.choice([0, 0, 1, 2]),
                              allow_not=self.allow_not, domain=self.domain)
        result = runner.delete(filt.expr)
        args["filter"] = filt.text
      elif kind in ("insert", "upsert"):
        rows = self.new_rows(rng.randrange(1, 5),
                             unique_pk=rng.random() < 0.9,
                             null_pk=False)
        result = getattr(runner, kind)(self._input(rows))
      elif kind == "load":
        if self.schema.records:
          return self.step("append", hi)
        self.ext += 1
        d = self.loc.rstrip("/") + f"_ext{self.ext}"
        os.makedirs(d)
        rows = []
        for i in range(rng.randrange(0, 3)):
          part = self.new_rows(rng.randrange(1, 6))
          rows += part
          lib.pq.write_table(self.schema.table(part),
                             os.path.join(d, f"f{i}.parquet"),
                             row_group_size=rng.choice([1, 2, 100]))
        result = runner.append_parquet(os.path.join(d, "*.parquet"))
      elif kind == "add_tag":
        sid = rng.choice([None] + list(pre.snapshots))
        name = f"t{rng.randrange(6)}"
        args = {"tag": name, "snapshot": sid}
        ds.add_tag(name, sid) if sid is not None else ds.add_tag(name)
      elif kind == "add_branch":
        name = f"b{rng.randrange(4)}"
        args = {"branch": name}
        ds.add_branch(name)
      elif kind == "switch":
        name = rng.choice(["main"] + [k for k, r in pre.refs.items()
                                      if r.type == r.BRANCH])
        args = {"branch": name}
        ds.storage.reload()
        ds.set_current_branch(name)
      elif kind == "remove_tag":
        name = f"t{rng.randrange(6)}"
        args = {"tag": name}
        ds.remove_tag(name)
      elif kind == "remove_branch":
        name = f"b{rng.randrange(4)}"
        args = {"branch": name}
        ds.remove_branch(name)
      else:
        raise ValueError(kind)
    except Violation:
      raise
    except Exception as e:  # noqa
      from space.core.utils import errors
      if not isinstance(e, (errors.SpaceRuntimeError, errors.UserInputError)):
        raise
      error = e
    post = self.meta()
    ev = Event(kind, hi, branch, args, pre, post, result, error, rows, filt)
    self.log.append({"op": kind, "handle": hi, "branch": branch, **args,
                     "rows": None if rows is None else len(rows),
                     "state": ev.state,
                     "error": None if error is None else repr(error)[:120],
                     "options": lib.fo_desc(fo)})
    return ev

  def _input(self, rows):
    """A table (possibly chunked, with permuted columns) or a dict of lists."""
    rng = self.rng
    t = self.schema.table(rows, chunks=rng.choice([None, None, 1, 2]))
    k = rng.random()
    if k < 0.25:
      names = list(t.column_names)
      rng.shuffle(names)
      return t.select(names)
    simple = all(t_ in (lib.pa.int64(), lib.pa.float64(), lib.pa.string(),
                        lib.pa.bool_(), lib.pa.binary())
                 for _, t_ in self.schema.fields)
    if k < 0.4 and simple and rows and all(
        any(r[n] is not None for r in rows) for n, _ in self.schema.fields):
      return {n: [r[n] for r in rows] for n, _ in self.schema.fields}
    return t
