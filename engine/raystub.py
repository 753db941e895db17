"""The contract of the parts of Ray that google/space uses (not installed).

A remote call runs the function once on its arguments, which are passed by
value; the calls of one actor run in the order of their submission; ray.get
returns the results in the order of its argument, or raises.
"""
from __future__ import annotations

import sys
import types

from engine import core
from engine.core import VList, Unsupported
from engine.stubs import trusted

trusted("ray", "a remote call runs the function once on the values its "
        "arguments have when it is submitted; ray.get returns the results in "
        "order; a data source is read by running its read tasks once each; "
        "ray.data.from_arrow_refs holds the blocks it is given")


def value(x):
  """By value: a copy of what may change after the submission."""
  if getattr(type(x), "vc_msg", False):
    return x.copy()
  if type(x) is VList:
    return VList(x)
  return x


class Future:

  def __init__(self, result):
    self.result = result

  def vc_subst(self, sub):
    return Future(sub.obj(self.result))


class RemoteFn:
  vc_constant = True

  def __init__(self, fn):
    self.fn = fn

  def options(self, **_):
    return self

  def remote(self, *a, **k):
    return Future(self.fn(*[value(x) for x in a],
                          **{n: value(x) for n, x in k.items()}))


class Method:
  vc_constant = True

  def __init__(self, fn):
    self.fn = fn

  def options(self, **_):
    return self

  def remote(self, *a, **k):
    return Future(self.fn(*[value(x) for x in a],
                          **{n: value(x) for n, x in k.items()}))


class Handle:
  vc_constant = True

  def __init__(self, obj):
    self.obj = obj

  def __getattr__(self, n):
    if n.startswith("__"):
      raise AttributeError(n)
    return Method(getattr(self.obj, n))


class RemoteClass:
  vc_constant = True

  def __init__(self, cls):
    self.cls = cls

  def options(self, **_):
    return self

  def remote(self, *a, **k):
    return Handle(self.cls(*[value(x) for x in a],
                           **{n: value(x) for n, x in k.items()}))


def remote(*a, **k):
  if len(a) == 1 and not k and callable(a[0]):
    return RemoteClass(a[0]) if isinstance(a[0], type) else RemoteFn(a[0])
  return remote


def get(x, timeout=None):
  if isinstance(x, Future):
    return x.result
  return core.b_list(core.b_map(lambda f: f.result, x))


class Unknown:

  def __getattr__(self, n):
    if n.startswith("__"):
      raise AttributeError(n)
    raise Unsupported(f"no contract for ray.{n}")


class Dataset:
  vc_constant = True


class Base:
  pass


class ReadTask:
  """A function that reads blocks, and what is known of them."""

  def __init__(self, read_fn, metadata):
    self.read_fn, self.metadata = read_fn, metadata

  def vc_subst(self, sub):
    return ReadTask(sub.obj(self.read_fn), sub.obj(self.metadata))


class BlockMetadata:

  def __init__(self, num_rows=None, **kw):
    self.num_rows = num_rows

  def vc_subst(self, sub):
    return BlockMetadata(sub.obj(self.num_rows))


def no_contract(name):
  def f(*a, **k):
    raise Unsupported(f"no contract for {name}")
  return f


def install():
  if "ray" in sys.modules:
    return
  mk = types.ModuleType
  ray, data, block, dsp, dsm, ty = map(mk, (
      "ray", "ray.data", "ray.data.block", "ray.data.datasource",
      "ray.data.datasource.datasource", "ray.types"))
  ray.remote, ray.get, ray.data, ray.types = remote, get, data, ty
  data.Dataset, data.block, data.datasource = Dataset, block, dsp
  for n in ("read_datasource", "from_arrow_refs", "from_arrow"):
    setattr(data, n, no_contract(f"ray.data.{n}"))
  block.Block, block.BlockMetadata = Base, BlockMetadata
  dsp.datasource = dsm
  for m in (dsp, dsm):
    m.Datasource, m.Reader, m.ReadTask, m.WriteResult = (
        Base, Base, ReadTask, Base)

  class Ref:
    def __class_getitem__(cls, _):
      return cls
  ty.ObjectRef = Ref
  sys.modules.update({m.__name__: m for m in (ray, data, block, dsp, dsm,
                                              ty)})
