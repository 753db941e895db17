"""A minimal in-process stand-in for the parts of Ray the code under test uses.

Ray is not installed in this sandbox. The stand-in keeps what the properties
depend on: arguments are copied by (cloud)pickle at submission, remote calls
run in an arbitrary order (random, FIFO per actor), actors keep state, read
tasks of a data source run independently and their blocks arrive in an
arbitrary order. Everything else (scheduling, fault tolerance, memory) is
not modelled; this is recorded as an assumption.
"""
from __future__ import annotations

import math
import random
import sys
import types

import cloudpickle
import pyarrow as pa

_STATE = {"rng": random.Random(0), "pending": [], "log": []}


def reset(rng):
  _STATE["rng"] = rng
  _STATE["pending"] = []
  _STATE["log"] = []


def _copy(x):
  return cloudpickle.loads(cloudpickle.dumps(x))


class ObjectRef:
  _done = False
  _value = None
  _error = None

  def __reduce__(self):
    _resolve(self)
    return (_restore, (self._value, self._error))


def _restore(value, error):
  r = ObjectRef()
  r._done, r._value, r._error = True, value, error
  return r


def _submit(fn, args, kwargs, actor=None):
  ref = ObjectRef()
  args, kwargs = _copy((args, kwargs))
  _STATE["pending"].append((ref, fn, args, kwargs, actor))
  return ref


def _resolve(ref):
  rng = _STATE["rng"]
  while not ref._done:
    # The first pending call of each actor, and every plain task, may run next.
    ready, seen = [], set()
    for i, p in enumerate(_STATE["pending"]):
      if p[4] is not None:
        if p[4] in seen:
          continue
        seen.add(p[4])
      ready.append(i)
    i = rng.choice(ready)
    r, fn, args, kwargs, _ = _STATE["pending"].pop(i)
    try:
      r._value = _copy(fn(*args, **kwargs))
    except Exception as e:  # noqa
      r._error = e
    r._done = True


def get(refs, timeout=None):
  if isinstance(refs, list):
    for r in refs:
      _resolve(r)
    for r in refs:
      if r._error is not None:
        raise r._error
    return [_copy(r._value) for r in refs]
  _resolve(refs)
  if refs._error is not None:
    raise refs._error
  return _copy(refs._value)


def put(value):
  return _restore(_copy(value), None)


class _RemoteFunction:

  def __init__(self, fn):
    self._fn = fn

  def options(self, **_):
    return self

  def remote(self, *args, **kwargs):
    return _submit(self._fn, args, kwargs)


class _ActorMethod:

  def __init__(self, actor, name):
    self._actor, self._name = actor, name

  def options(self, **_):
    return self

  def remote(self, *args, **kwargs):
    a = self._actor
    return _submit(lambda *x, **k: getattr(a._instance(), self._name)(*x, **k),
                   args, kwargs, actor=id(a))


class _ActorHandle:

  def __init__(self, cls, args, kwargs):
    self._cls, self._args, self._kwargs = cls, *_copy((args, kwargs))
    self._obj = None

  def _instance(self):
    if self._obj is None:
      self._obj = self._cls(*self._args, **self._kwargs)
    return self._obj

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    return _ActorMethod(self, name)


class _RemoteClass:

  def __init__(self, cls):
    self._cls = cls

  def options(self, **_):
    return self

  def remote(self, *args, **kwargs):
    return _ActorHandle(self._cls, args, kwargs)


def remote(*args, **kwargs):
  if len(args) == 1 and not kwargs and callable(args[0]):
    x = args[0]
    return _RemoteClass(x) if isinstance(x, type) else _RemoteFunction(x)
  return remote


# -- ray.data ----------------------------------------------------------------
class BlockMetadata:

  def __init__(self, num_rows=None, size_bytes=None, schema=None,
               input_files=None, exec_stats=None):
    self.num_rows = num_rows


class ReadTask:

  def __init__(self, read_fn, metadata):
    self._read_fn, self._metadata = read_fn, metadata

  def __call__(self):
    out = list(self._read_fn())
    n = self._metadata.num_rows
    if n is not None and "strict_rows" in _STATE:
      got = sum(b.num_rows for b in out)
      _STATE["log"].append((n, got))
    return out


class Datasource:
  pass


class Reader:
  pass


class Dataset:

  def __init__(self, sources, order=True):
    # sources: callables returning lists of blocks; executed lazily.
    self._sources = sources

  def _blocks(self):
    rng = _STATE["rng"]
    idx = list(range(len(self._sources)))
    rng.shuffle(idx)
    out = []
    for i in idx:
      out.extend(_copy(self._sources[i])())
    return out

  def materialized(self):
    b = self._blocks()
    return b

  def iter_batches(self, batch_size=None, batch_format="default",
                   drop_last=False, **_):
    assert batch_size is None and batch_format == "pyarrow"
    for b in self._blocks():
      yield b

  def map_batches(self, fn, batch_size="default", batch_format="default", **_):
    if batch_size == "default":
      batch_size = 1024
    parent = self

    def run():
      blocks = [b for b in parent._blocks() if b.num_rows]
      if not blocks:
        return []
      out, step = [], batch_size
      # Ray may bundle several blocks into one batch; rows are never dropped.
      if step is None:
        batches = blocks
      else:
        t = pa.concat_tables(blocks)
        batches = [t.slice(o, step) for o in range(0, t.num_rows, step)]
      for b in batches:
        res = fn(_to_numpy(b))
        out.append(_from_numpy(res))
      return out
    return _derived(run)

  def filter(self, fn, **_):
    parent = self

    def run():
      out = []
      for b in parent._blocks():
        keep = [bool(fn(r)) for r in b.to_pylist()]
        out.append(b.filter(pa.array(keep, pa.bool_())))
      return out
    return _derived(run)

  def select_columns(self, cols, **_):
    parent = self
    return _derived(lambda: [b.select(cols) for b in parent._blocks()])

  def count(self):
    return sum(b.num_rows for b in self._blocks())

  def repartition(self, n, **_):
    parent = self

    def run():
      blocks = [b for b in parent._blocks() if b.num_rows]
      if not blocks or n <= 0:
        return blocks
      t = pa.concat_tables(blocks)
      step = math.ceil(t.num_rows / n)
      return [t.slice(o, step) for o in range(0, t.num_rows, step)]
    return _derived(run)


def _derived(run):
  d = Dataset([])
  d._blocks = run
  return d


def _to_numpy(t):
  return {n: t.column(n).to_numpy() for n in t.column_names}


def _from_numpy(d):
  if isinstance(d, pa.Table):
    return d
  return pa.table({k: pa.array(list(v)) if getattr(v, "dtype", None) == object
                   else pa.array(v) for k, v in d.items()})


def read_datasource(source, *, parallelism=-1, **kw):
  reader = source.create_reader(**kw)
  tasks = reader.get_read_tasks(parallelism)
  return Dataset(tasks)


def from_arrow_refs(refs):
  if not isinstance(refs, list):
    refs = [refs]
  return Dataset([_RefSource(r) for r in refs])


class _RefSource:

  def __init__(self, ref):
    self._ref = ref

  def __call__(self):
    v = get(self._ref)
    if not isinstance(v, pa.Table):  # as BlockAccessor.for_block does
      raise TypeError(f"Not a block type: {v!r}")
    return [v]


def from_arrow(tables):
  if not isinstance(tables, list):
    tables = [tables]
  return Dataset([(lambda t=t: [t]) for t in tables])


def install():
  """Register the stand-in as `ray` unless a real one is importable."""
  if "ray" in sys.modules:
    return
  ray = types.ModuleType("ray")
  for f in (get, put, remote, ObjectRef):
    setattr(ray, f.__name__, f)
  ray.init = lambda *a, **k: None
  ray.is_initialized = lambda: True
  data = types.ModuleType("ray.data")
  data.Dataset = Dataset
  data.read_datasource = read_datasource
  data.from_arrow_refs = from_arrow_refs
  data.from_arrow = from_arrow
  block = types.ModuleType("ray.data.block")
  block.Block = pa.Table
  block.BlockMetadata = BlockMetadata
  dsp = types.ModuleType("ray.data.datasource")
  dsm = types.ModuleType("ray.data.datasource.datasource")
  for m in (dsp, dsm):
    m.Datasource, m.Reader, m.ReadTask = Datasource, Reader, ReadTask
    m.WriteResult = object
  dsp.datasource = dsm
  ty = types.ModuleType("ray.types")

  class _Ref:
    def __class_getitem__(cls, _):
      return cls
  ty.ObjectRef = _Ref
  ray.data, ray.types = data, ty
  data.block, data.datasource = block, dsp
  sys.modules.update({"ray": ray, "ray.data": data, "ray.data.block": block,
                      "ray.data.datasource": dsp,
                      "ray.data.datasource.datasource": dsm,
                      "ray.types": ty})
