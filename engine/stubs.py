"""Contracts of what google/space calls: file system, paths, uuids, clocks.

Everything here is trusted: it is assumed about the dependency, not proved.
"""
from __future__ import annotations

import math
import os
import sys
import types

import z3

from engine import core, proto
from engine.core import (cx, VList, SymStr, SymNum, SymBool, Unsupported, I,
                         B, Str, wrap, term, ufun, is_sym, fstr)

TRUSTED = {}


def trusted(name, why):
  TRUSTED[name] = why


class NS:
  """A namespace that falls back to another module."""
  vc_constant = True

  def __init__(self, base=None, **kw):
    self.__dict__["_base"] = base
    self.__dict__.update(kw)

  def __getattr__(self, n):
    if self.__dict__["_base"] is None:
      raise Unsupported(f"no contract for {n}")
    return getattr(self.__dict__["_base"], n)


# ----------------------------------------------------------------------------
# logging, uuids, time
# ----------------------------------------------------------------------------
class Logging:
  vc_constant = True

  def __getattr__(self, n):
    return lambda *a, **k: None


trusted("uuid", "uuid_() and random_id() return strings never returned "
        "before, without path separators")


def uuid_():
  t = cx.fresh("uuid", Str)
  cx.ghost.setdefault("$uuids", []).append(t)
  others = cx.ghost["$uuids"][:-1]
  for o in others:
    cx.defs.append(t != o)
  cx.defs.append(t != cx.lit(""))
  return SymStr(t)


def uuids_in(x):
  """The fresh uuids that a string value is made of."""
  if not is_sym(x):
    return set()
  names = core.free_names(x.t)
  return {n for n in names if n == "uuid" or n.startswith("uuid!")}


_META = None


def meta():
  return sys.modules["space.core.storage"].meta


def proto_now():
  m = meta_stub()
  import google.protobuf.timestamp_pb2 as ts
  cls = proto.msg_class(ts.Timestamp.DESCRIPTOR)
  return cls(seconds=SymNum(cx.fresh("now", I)))


# ----------------------------------------------------------------------------
# paths
# ----------------------------------------------------------------------------
trusted("os.path", "join is associative, join(a, b) for a relative b is below "
        "a, relpath(join(a, b), a) == b for a normalized relative b (so joined "
        "paths with the same first part and different relative b differ)")


def parts(t):
  """The components of a chain of joins."""
  if z3.is_app(t) and t.decl().name() == "path.join":
    return parts(t.arg(0)) + parts(t.arg(1))
  return [t]


def chain(ts):
  r = ts[0]
  for x in ts[1:]:
    prev, r = r, ufun("path.join", Str, Str, Str)(r, x)
    if relative(x) and not core._params(r, None):
      # A relative last part can be read back off the joined path.
      cx.defs.append(ufun("path.rest", Str, Str, Str)(prev, r) == x)
  return SymStr(r) if not (len(ts) == 1 and _lit(ts[0]) is not None) else (
      _lit(ts[0]))


def _lit(t):
  n = t.decl().name() if z3.is_app(t) else ""
  return n[4:] if n.startswith("lit:") else None


def relative(t):
  """The term is known to be a normalized relative path."""
  s = _lit(t)
  if s is not None:
    return bool(s) and not s.startswith("/") and os.path.normpath(s) == s and (
        not s.startswith(".."))
  n = t.decl().name() if z3.is_app(t) else ""
  if n.startswith("fmt:"):
    return not n[4:].startswith("/") and "/" not in n and ".." not in n
  if n == "uuid" or n.startswith("uuid!"):
    return True
  return t.get_id() in {x.get_id() for x in cx.ghost.get("$relative", ())}


def declare_relative(x):
  """Assumption of a specification: x is a normalized relative path."""
  cx.ghost.setdefault("$relative", []).append(x.t)
  return x


class Path:
  """os.path"""
  vc_constant = True
  sep = "/"

  @staticmethod
  def join(a, *rest):
    if not any(is_sym(x) for x in (a,) + rest):
      return os.path.join(a, *rest)
    ts = parts(term(a))
    for x in rest:
      p = parts(term(x))
      s = _lit(p[0])
      if s is not None and s.startswith("/"):
        ts = p
      elif s is not None and len(p) == 1 and s == "":
        raise Unsupported("join with an empty component")
      else:
        ts = ts + p
    # "a/b" joined as a literal is two components.
    out = []
    for t in ts:
      s = _lit(t)
      if s is not None and "/" in s.strip("/") and not s.startswith("/"):
        out += [cx.lit(q) for q in s.split("/") if q]
      else:
        out.append(t)
    return chain(out)

  @staticmethod
  def relpath(p, start=None):
    if not is_sym(p) and not is_sym(start):
      return os.path.relpath(p, start) if start is not None else (
          os.path.relpath(p))
    a, b = parts(term(p)), parts(term(start))
    if len(a) > len(b) and all(x.eq(y) for x, y in zip(a, b)) and all(
        relative(x) for x in a[len(b):]):
      return chain(a[len(b):])
    cx.mark_imprecise("relpath of unrelated paths")
    return SymStr(ufun("path.relpath", Str, Str, Str)(term(p), term(start)))

  @staticmethod
  def basename(p):
    if not is_sym(p):
      return os.path.basename(p)
    a = parts(p.t)
    if len(a) > 1 and relative(a[-1]):
      return chain(a[-1:])
    return SymStr(ufun("path.basename", Str, Str)(p.t))

  @staticmethod
  def dirname(p):
    if not is_sym(p):
      return os.path.dirname(p)
    a = parts(p.t)
    if len(a) > 1 and relative(a[-1]):
      return chain(a[:-1])
    return SymStr(ufun("path.dirname", Str, Str)(p.t))

  @staticmethod
  def isabs(p):
    if not is_sym(p):
      return os.path.isabs(p)
    if len(parts(p.t)) == 1 and relative(p.t):
      return False
    return SymBool(ufun("path.isabs", Str, B)(parts(p.t)[0]))

  @staticmethod
  def _opaque(n):
    def f(p):
      if not is_sym(p):
        return getattr(os.path, n)(p)
      return SymStr(ufun("path." + n, Str, Str)(p.t))
    return f

  def __getattr__(self, n):
    if n in ("normpath", "abspath", "realpath", "expanduser"):
      return Path._opaque(n)
    raise Unsupported(f"os.path.{n}")


# ----------------------------------------------------------------------------
# file system
# ----------------------------------------------------------------------------
trusted("BaseFileSystem", "write_proto publishes the message at the path "
        "atomically, or raises FileExistError if asked to and the path "
        "exists; read_proto returns what is published (units fs.* prove "
        "write_proto over the contract of pyarrow.fs)")


class Effect:
  """An entry of the trace of externally visible effects."""
  vc_constant = True

  def __init__(self, kind, path, value=None, **kw):
    self.kind, self.path, self.value = kind, path, value
    self.__dict__.update(kw)

  def __repr__(self):
    return f"{self.kind}({self.path})"

  def vc_subst(self, sub):
    e = Effect(self.kind, sub.obj(self.path), sub.obj(self.value))
    for k, v in self.__dict__.items():
      if k not in ("kind", "path", "value"):
        setattr(e, k, sub.obj(v))
    return e


class FS:
  """A BaseFileSystem of one location with other writers.

  `entry()` gives what a read of the entry point returns; metadata files are
  never rewritten, so their contents are a function of their path.
  """
  vc_constant = True

  def __init__(self, world):
    self.world = world

  def create_dir(self, p):
    cx.trace.append(Effect("mkdir", p))

  def write_proto(self, file_path, msg, fail_if_exists=False):
    self.world.on_write(file_path, msg, fail_if_exists)
    cx.trace.append(Effect("write", file_path, msg.copy(),
                           guarded=fail_if_exists))

  def read_proto(self, file_path, empty_msg):
    r = self.world.on_read(file_path, type(empty_msg))
    cx.trace.append(Effect("read", file_path, r))
    return r.copy()


# ----------------------------------------------------------------------------
# injection
# ----------------------------------------------------------------------------
_modules = {}


def meta_stub():
  return _modules["meta"]


def rt_stub():
  return _modules["rt"]


def setup():
  """Replaces, in every loaded module of space, the names that refer to
  dependencies by their contracts."""
  import space.core.proto.metadata_pb2 as m
  import space.core.proto.runtime_pb2 as r
  if not _modules:
    _modules["meta"] = proto.ModuleStub(m)
    _modules["rt"] = proto.ModuleStub(r)
  inject()


def inject(extra=None):
  from engine import arrow as vc_arrow
  import absl.logging
  import os as _os
  by_id = {id(sys.modules["space.core.proto.metadata_pb2"]):
           _modules["meta"],
           id(sys.modules["space.core.proto.runtime_pb2"]): _modules["rt"],
           id(_os.path): Path(), id(math): core.Math(),
           id(absl.logging): Logging()}
  by_id.update(vc_arrow.replacements())
  uu = sys.modules.get("space.core.utils.uuids")
  pr = sys.modules.get("space.core.utils.protos")
  if uu is not None:
    for n in ("uuid_", "random_id"):
      if hasattr(uu, n):
        by_id[id(getattr(uu, n))] = uuid_
  if pr is not None and hasattr(pr, "proto_now"):
    by_id[id(pr.proto_now)] = proto_now
  for name, mod in list(sys.modules.items()):
    if not name.startswith("space") or not getattr(mod, "__vc_module__",
                                                   False):
      continue
    for k, v in list(mod.__dict__.items()):
      if id(v) in by_id and not k.startswith("__"):
        mod.__dict__[k] = by_id[id(v)]
      if isinstance(v, type) and "__dataclass_fields__" in v.__dict__:
        # Protobuf classes that are default factories of fields.
        for c in v.__init__.__closure__ or ():
          try:
            d = getattr(c.cell_contents, "DESCRIPTOR", None)
          except ValueError:
            continue
          if d is not None and isinstance(c.cell_contents, type):
            c.cell_contents = proto.msg_class(d)


class patched:
  """Replaces functions of a module or class by contracts for a while."""

  def __init__(self, obj, **kw):
    self.obj, self.kw = obj, kw

  def __enter__(self):
    self.old = {k: self.obj.__dict__.get(k, None) for k in self.kw}
    for k, v in self.kw.items():
      setattr(self.obj, k, v)

  def __exit__(self, *a):
    for k, v in self.old.items():
      if v is None:
        try:
          delattr(self.obj, k)
        except AttributeError:
          pass
      else:
        setattr(self.obj, k, v)
