"""core/fs/arrow.py, core/utils/paths.py, core/ops/utils.py (patches) and the
manifest list of a version."""
from __future__ import annotations

import sys

import z3

from engine import core, proto, stubs
from engine.core import (cx, VList, SymStr, SymNum, And, Or, Not, Implies,
                         sym_str, sym_int, sym_bool, vc_eq, term, I, Str, Comp)
from engine.specs.runners import Token, E
from engine.specs.storage import S, M, World, open_storage, no_effect
from engine.stubs import Effect, patched, NS
from engine.unit import unit, call, Raised, error_name

stubs.trusted("pyarrow.fs", "open_output_stream creates or truncates the file "
              "it names and nothing else, the contents are complete when it "
              "is closed without an error; move replaces the target "
              "atomically; any call may raise OSError")


# ----------------------------------------------------------------------------
# file system
# ----------------------------------------------------------------------------
class Stream:
  vc_constant = True

  def __init__(self, fs, path):
    self.fs, self.path, self.data = fs, path, []
    self.open = True

  def __enter__(self):
    return self

  def __exit__(self, t, v, tb):
    self.close()
    return False

  def close(self):
    if self.open:
      self.open = False
      self.fs.files.append((self.path, list(self.data)))

  def write(self, b):
    self.fs.step("write", self.path)
    self.data.append(b)


class InFile:
  vc_constant = True

  def __init__(self, data):
    self.data = data

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def readall(self):
    return self.data

  read = readall


def distinct_if_fresh(x, y):
  """A string made of a fresh uuid is not a string made without it."""
  if stubs.uuids_in(x) - stubs.uuids_in(y):
    cx.assume(x != y)


class PaFs:
  """A pyarrow file system."""
  vc_constant = True

  def __init__(self, exists, path):
    self.log, self.files, self.exists = [], [], exists
    self.path = path

  def step(self, kind, *args):
    """One call: recorded, then it may fail."""
    self.log.append((kind,) + args)
    for x in args:
      for e in self.log:
        for y in [v for v in e[1:] if v is not False]:
          distinct_if_fresh(x, y)
      distinct_if_fresh(x, self.path)
    if cx.choose(f"{kind} fails"):
      self.log[-1] += (False,)
      raise OSError(kind)

  def get_file_info(self, path):
    r = NS(type="File" if self.exists(path) else "NotFound")
    return r

  def open_output_stream(self, path, **kw):
    self.step("open", path)
    return Stream(self, path)

  def move(self, a, b):
    self.step("move", a, b)

  def create_dir(self, p, **kw):
    self.step("mkdir", p)

  def delete_file(self, p):
    self.step("delete", p)

  def open_input_file(self, path):
    self.log.append(("read", path))
    return InFile(("content", path))

  open_input_stream = open_input_file


@unit("C04 C16", "ArrowFileSystem.write_proto",
      ["core/fs/arrow.py:ArrowFileSystem.write_proto",
       "core/fs/arrow.py:ArrowFileSystem.__init__"])
def write_proto():
  m = sys.modules["space.core.fs.arrow"]
  there = cx.choose("the file exists")
  path = sym_str("file_path")
  pf = PaFs(lambda p: there and bool(vc_eq(p, path)), path)
  msg, text = Token("message"), Token("text")
  guard = cx.choose("fail_if_exists")

  def to_text(x):
    cx.record("the message given is written", x is msg)
    return text
  with patched(m, fs=NS(LocalFileSystem=lambda *a, **k: pf,
                        FileType=NS(NotFound="NotFound", File="File",
                                    Directory="Directory")),
               proto_to_text=to_text):
    fs = m.ArrowLocalFileSystem()
    r = None
    try:
      r = call(fs.write_proto, path, msg, guard)
    except OSError as e:
      r = Raised(e)
    except core.Unsupported as e:
      if "OSError" not in str(e):
        raise
      r = Raised(OSError())
  # What happens to the file itself.
  hits = [e for e in pf.log if any(
      bool(vc_eq(x, path)) for x in e[1:])]
  if isinstance(r, Raised):
    if error_name(r) == "FileExistError":
      cx.record("an existing file is only an error if asked for",
                guard and there)
      cx.record("an existing file is left alone", not pf.log, str(pf.log))
      return
    cx.record("a failure leaves the file as it was",
              all(e[0] == "move" and e[-1] is False for e in hits),
              str(pf.log))
    return
  cx.record("an existing file is not replaced if asked not to",
            not (guard and there))
  cx.record("the file appears in one atomic step",
            len(hits) == 1 and hits[0][0] == "move" and
            hits[0] is pf.log[-1], str(pf.log))
  if not (len(hits) == 1 and hits[0][0] == "move"):
    return
  src, dst = hits[0][1:3]
  cx.prove("it is the file asked for", vc_eq(dst, path))
  done = [d for p, d in pf.files if bool(vc_eq(p, src))]
  cx.record("its contents are complete before, and are the message",
            len(done) == 1 and len(done[0]) == 1 and done[0][0] is text,
            str(pf.files))
  cx.record("the temporary file has a fresh name",
            bool(stubs.uuids_in(src)), str(src))


@unit("C04", "ArrowFileSystem.read_proto",
      ["core/fs/arrow.py:ArrowFileSystem.read_proto",
       "core/fs/arrow.py:ArrowFileSystem.create_dir"])
def read_proto():
  m = sys.modules["space.core.fs.arrow"]
  path = sym_str("file_path")
  pf = PaFs(lambda p: True, path)
  got = []
  out = Token("message")

  def parse(text, empty):
    got.append((text, empty))
    return out
  empty = Token("empty")
  with patched(m, fs=NS(LocalFileSystem=lambda *a, **k: pf),
               text_format=NS(Parse=parse)):
    fs = m.ArrowLocalFileSystem()
    r = call(fs.read_proto, path, empty)
  cx.record("read_proto returns the parsed message", r is out)
  cx.record("read_proto parses once, into the empty message",
            len(got) == 1 and got[0][1] is empty)
  if len(got) == 1:
    cx.prove("read_proto parses the contents of the file",
             vc_eq(got[0][0][1], path))
  cx.record("read_proto writes nothing",
            all(e[0] == "read" for e in pf.log), str(pf.log))


# ----------------------------------------------------------------------------
# paths
# ----------------------------------------------------------------------------
@unit("C15 C01 C04", "paths",
      ["core/utils/paths.py:StoragePathsMixin",
       "core/utils/paths.py:new_index_file_path",
       "core/utils/paths.py:new_record_file_path",
       "core/utils/paths.py:new_index_manifest_path",
       "core/utils/paths.py:new_record_manifest_path",
       "core/utils/paths.py:new_metadata_path"])
def paths_():
  p = sys.modules["space.core.utils.paths"]
  loc = sym_str("location")
  cx.assume(loc != "")
  mix = p.StoragePathsMixin(loc)
  cx.prove("location", vc_eq(mix.location, loc))
  field = sym_str("field")
  join = stubs.Path.join

  def below(x, what):
    """x is location/<relative>, with short_path and full_path inverse."""
    a = stubs.parts(term(x))
    ok = len(a) > 1 and a[0].eq(loc.t) and all(
        stubs.relative(t) for t in a[1:])
    cx.record(f"{what} is below the location", ok, str(x))
    short = mix.short_path(x)
    cx.record(f"{what}: the short path does not name the location",
              loc.t.decl().name() not in core.free_names(term(short)),
              str(short))
    cx.prove(f"{what}: short and full path are inverse",
             vc_eq(mix.full_path(short), x))
    return short
  made = []
  for what, f in (("a data file", lambda: p.new_index_file_path(mix.data_dir)),
                  ("a manifest", lambda: p.new_index_manifest_path(
                      mix.metadata_dir)),
                  ("a record manifest", lambda: p.new_record_manifest_path(
                      mix.metadata_dir)),
                  ("a metadata file", mix.new_metadata_path),
                  ("a change log", mix.new_change_log_path)):
    x, y = f(), f()
    below(x, what)
    for o, w in made + [(x, what)]:
      cx.record(f"{what} never has the name of another file",
                not (stubs.uuids_in(o) >= stubs.uuids_in(y)) and
                bool(stubs.uuids_in(y)), f"{o} {y}")
    made += [(x, what), (y, what)]
  x, y = (p.new_record_file_path(mix.data_dir, field) for _ in range(2))
  cx.record("a record file never has the name of another file",
            bool(stubs.uuids_in(y) - stubs.uuids_in(x)))
  cx.prove("a record file is in the data directory",
           vc_eq(stubs.chain(stubs.parts(x.t)[:-1]), mix.data_dir))
  cx.prove("directories are below the location",
           And(vc_eq(mix.data_dir, join(loc, "data")),
               vc_eq(mix.metadata_dir, join(loc, "metadata"))))
  cx.prove("the entry point is at its fixed place",
           vc_eq(p.entry_point_path(loc),
                 join(loc, "metadata", "entrypoint.txtpb")))
  # Absolute paths (of loaded files) stay what they are.
  cx.record("an absolute path names itself",
            mix.full_path("/external/file.parquet") ==
            "/external/file.parquet")


# ----------------------------------------------------------------------------
# patches
# ----------------------------------------------------------------------------
STATS = ("num_rows", "index_compressed_bytes", "index_uncompressed_bytes",
         "record_uncompressed_bytes")
LISTS = [(a, b) for a in ("addition", "deletion")
         for b in ("index_manifest_files", "record_manifest_files")]


@unit("C19 C10 C11", "merge_patches",
      ["core/ops/utils.py:merge_patches",
       "core/ops/utils.py:update_index_storage_stats",
       "core/ops/utils.py:update_record_stats_bytes"], budget=150)
def merge_patches():
  u = sys.modules["space.core.ops.utils"]
  P = stubs.rt_stub().Patch
  dom = core.Domain("patches", n=cx.fresh("n:patches", I))
  ix = z3.Const("ix:patches", I)
  none = z3.Function("none", I, core.B)
  mk = lambda g: proto.sym_msg(P, "patch", (g,))  # noqa
  ps = VList.of_segs([Comp(dom, ix, [(none(ix), [None]),
                                     (z3.Not(none(ix)), [mk(ix)])])])
  r = call(u.merge_patches, ps)
  cx.record("merging patches succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  some = core.exists(dom, lambda t: z3.Not(none(t)))
  if r is None:
    cx.prove("no patch is only returned when there is none", Not(some))
    return
  cx.prove("a patch is only returned when there is one", some)

  def sub(p, *names):
    """A field of the patch at an index: unset messages are empty."""
    ok = z3.BoolVal(True)
    for n in names[:-1]:
      ok = z3.And(ok, core.as_bool(p.HasField(n)))
      p = getattr(p, n)
    return ok, getattr(p, names[-1])
  for f in STATS:
    want = core.sum_over(dom, lambda t, f=f: (lambda ok, v: z3.If(
        z3.And(z3.Not(none(t)), ok), term(v), z3.IntVal(0)))(
            *sub(mk(t), "storage_statistics_update", f)))
    cx.prove(f"{f} of merged patches is their sum",
             vc_eq(getattr(r.storage_statistics_update, f), want))

  def lists(what, *names):
    got = r
    for n in names:
      got = getattr(got, n)
    segs = [s for s in got.segs if s != []]
    cx.record(f"{what}: one list for all patches", len(segs) <= 1 and all(
        isinstance(s, Comp) and hasattr(s.domain, "flat") and
        s.domain.flat.outer is dom for s in segs), str(segs))
    g, j = cx.fresh("anypatch", I), cx.fresh("anyelement", I)
    dom.note(g)
    ok, lst = sub(mk(g), *names)
    ls = [s for s in lst.segs if s != []][0]
    inside = z3.And(dom.member(g), z3.Not(none(g)), ok, j >= 0,
                    j < ls.domain.n)
    if not segs or not hasattr(segs[0].domain, "flat"):
      cx.prove(f"{what}: nothing is lost", z3.Not(inside))
      return

    @cx.case
    def _():
      """Every element of every patch is there, at its place in the order;
      nothing else is."""
      fl = segs[0].domain.flat
      cx.assume(inside)
      ls.domain.note(j)
      t = fl.at(g, j)
      cx.prove(f"{what}: an element of a patch is in the merged patch", z3.Or(
          *[z3.And(c, core.as_bool(vc_eq(items[0], ls.at(j)[0][1][0])))
            for c, items in segs[0].at(t) if len(items) == 1],
          z3.BoolVal(False)))
      cx.record(f"{what}: an element is only added once",
                all(len(items) == 1 for _, items in segs[0].alts))

    @cx.case
    def _():
      fl = segs[0].domain.flat
      t = cx.fresh("anymerged", I)
      cx.assume(fl.domain.member(t))
      fl.domain.note(t)
      a, b = fl.o(t), fl.i(t)
      dom.note(a)
      ok2, lst2 = sub(mk(a), *names)
      l2 = [s for s in lst2.segs if s != []][0]
      cx.prove(f"{what}: every element is one of a patch", z3.And(
          dom.member(a), z3.Not(none(a)), ok2, b >= 0, b < l2.domain.n))
  for a, b in LISTS:
    lists(f"{a} of {b}", a, b)
  for b in ("deleted_rows", "added_rows"):
    lists(b, "change_log", b)


# ----------------------------------------------------------------------------
# the manifests of a version
# ----------------------------------------------------------------------------
@unit("C01 C09 C10 C04", "_patch_manifests",
      ["core/storage.py:_patch_manifests", "core/storage.py:_check_duplicated"],
      bounded="at most 3 index manifests, 2 deleted and 2 added; any names",
      budget=200, paths=3000)
def patch_manifests():
  s = S()

  def upto(k, what):
    n = 0
    while n < k and cx.choose(f"more than {n} {what}"):
      n += 1
    return [sym_str(f"{what}{i}") for i in range(n)]
  old, dele, add = upto(3, "old"), upto(2, "deleted"), upto(2, "added")
  rec, radd = [sym_str("rec")], [sym_str("radd")]
  # INV: the manifests of a version are distinct.
  for i, x in enumerate(old):
    for y in old[:i]:
      cx.assume(x != y)
  mf = M().ManifestFiles(index_manifest_files=list(old),
                         record_manifest_files=list(rec))
  p = stubs.rt_stub().Patch()
  p.deletion.index_manifest_files.extend(list(dele))
  p.addition.index_manifest_files.extend(list(add))
  p.addition.record_manifest_files.extend(list(radd))
  r = call(s._patch_manifests, mf, p)
  known = And(*[Or(*[vc_eq(d, o) for o in old], False) for d in dele], True)
  keep = [o for o in old]
  if isinstance(r, Raised):
    distinct = []
    left = lambda o: And(*[o != d for d in dele], True)  # noqa
    for i, x in enumerate(add):
      for y in add[:i]:
        distinct.append(x != y)
      for o in old:
        distinct.append(Implies(left(o), x != o))
    cx.prove("a patch only fails to apply for a reason",
             Not(And(known, *distinct, rec[0] != radd[0])))
    return
  cx.prove("a manifest to delete must exist", known)
  got = mf.index_manifest_files.concrete()
  gone = lambda o: Or(*[vc_eq(o, d) for d in dele], False)  # noqa
  want = [o for o in old if not bool(gone(o))] + add
  cx.record("as many manifests as expected", len(got) == len(want),
            f"{got} {want}")
  if len(got) == len(want):
    for a, b in zip(got, want):
      cx.prove("the manifests are the old ones without the deleted ones, "
               "then the added ones, in order", vc_eq(a, b))
  for i, x in enumerate(got):
    for y in got[:i]:
      cx.prove("no manifest is listed twice", x != y)
  rr = mf.record_manifest_files.concrete()
  cx.record("as many record manifests as expected", len(rr) == 2)
  if len(rr) == 2:
    cx.prove("the record manifests are the old ones, then the added ones",
             And(vc_eq(rr[0], rec[0]), vc_eq(rr[1], radd[0])))
  cx.record("the patch is not changed",
            len(p.deletion.index_manifest_files.concrete()) == len(dele))
