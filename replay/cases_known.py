"""Probes of the listed known findings: each returns True while it fails."""
import os
import random

import lib
from lib import pa, pc


def _ds(d, fields, pks, name="s", records=()):
  return lib.modules()[0].create(os.path.join(d, name), pa.schema(fields),
                                 pks, list(records))


def c08_not(d):
  ds = _ds(d, [("id", pa.int64())], ["id"])
  ds.local().append({"id": [5, 20]})
  f = ~(pc.field("id") > 10)
  got = sorted(r["id"] for t in ds.local().read(f) for r in t.to_pylist())
  return got != [5]


def c08_nan(d):
  ds = _ds(d, [("id", pa.float64())], ["id"])
  ds.local().append({"id": [5.0, float("nan")]})
  got = [r for t in ds.local().read(pc.field("id") != 5.0)
         for r in t.to_pylist()]
  return len(got) != 1


def c07_zero(d):
  ds = _ds(d, [("id", pa.float64()), ("x", pa.int64())], ["id"])
  res = ds.local().insert({"id": [0.0, -0.0], "x": [1, 2]})
  return lib.is_ok(res) if hasattr(lib, "is_ok") else (
      sum(t.num_rows for t in ds.local().read()) == 2)


def _even(b):
  return b["x"] is not None


def c20_filter_fields(d):
  import fakeray
  fakeray.install()
  fakeray.reset(random.Random(0))
  ds = _ds(d, [("id", pa.int64()), ("x", pa.int64()), ("y", pa.int64())],
           ["id"])
  ds.local().append({"id": [1, 2], "x": [1, 2], "y": [1, 2]})
  view = ds.filter(fn=_even, input_fields=["id", "x"])
  try:
    tables = list(view.ray().read())
    return any(t.column_names != view.schema.names for t in tables)
  except Exception:  # noqa
    return True


def c21_filter_fields(d):
  import fakeray
  fakeray.install()
  fakeray.reset(random.Random(0))
  ds = _ds(d, [("id", pa.int64()), ("x", pa.int64()), ("y", pa.int64())],
           ["id"])
  view = ds.filter(fn=_even, input_fields=["id", "x"])
  mv = view.materialize(os.path.join(d, "mv"))
  ds.local().append({"id": [1, 2], "x": [1, 2], "y": [1, 2]})
  try:
    mv.ray().refresh()
    return len(lib.read_rows(mv)) != 2
  except Exception:  # noqa
    return True
