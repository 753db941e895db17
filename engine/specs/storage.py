"""core/storage.py: commits, transactions, references, lookups."""
from __future__ import annotations

import sys

import z3

from engine import core, proto, stubs
from engine.core import (cx, VList, SymStr, SymNum, SymBool, And, Or, Not,
                         Implies, sym_str, sym_int, sym_bool, term, vc_eq,
                         wrap, I, B, Str, Unsupported, PathEnd)
from engine.stubs import FS, Effect, patched
from engine.unit import unit, call, Raised, error_name


def S():
  return sys.modules["space.core.storage"]


def M():
  return stubs.meta_stub()


# ----------------------------------------------------------------------------
# the world: one location, other writers
# ----------------------------------------------------------------------------
class WriteFailed(OSError):
  """The file system reports an error."""


class World:
  """Published metadata of one location.

  Rely: any writer publishes metadata that satisfies the data structure
  invariant (which the units below prove to be preserved by every operation);
  metadata files are never rewritten; only the entry point changes.
  """
  vc_constant = True

  def __init__(self, others=True):
    self.others = others     # other writers may move the entry point
    self.entry = None        # current content of the entry point
    self.published = []      # (path, message) written on this path
    self.reads = 0
    self.fail = None

  def on_read(self, path, cls):
    name = cls.__name__
    if name == "EntryPoint":
      if self.others or self.entry is None:
        e = proto.sym_msg(cls, cx.name("entry"))
        self.entry = e
      self.reads += 1
      return self.entry
    for p, m in reversed(self.published):
      e = vc_eq(p, path)
      if e is True or (e is not False and cx.entails(core.as_bool(e))):
        return m
    return metadata_at(path)

  def on_write(self, path, msg, guarded):
    if self.fail is not None and self.fail(path, msg):
      raise WriteFailed("no space left on device")
    if guarded and cx.choose("the file exists"):
      raise sys.modules["space.core.utils.errors"].FileExistError("exists")
    self.published.append((path, msg.copy()))
    if type(msg).__name__ == "EntryPoint":
      self.entry = msg.copy()


def metadata_at(path):
  """The symbolic metadata published at a path (a function of the path)."""
  pool = cx.ghost.setdefault("$meta", [])
  for p, m in pool:
    if p.eq(term(path)):
      return m
  m = proto.sym_msg(M().StorageMetadata, "meta", (term(path),))
  pool.append((term(path), m))
  assume_invariant(m)
  return m


def assume_invariant(m):
  """INV of published metadata."""
  snaps, refs = m.snapshots, m.refs
  sb, rb = snaps.base, refs.base
  cur = m.current_snapshot_id
  cx.defs.append(sb.member(term(cur)))
  sb.domain.note(term(cur))
  sb.domain.fact(lambda k: term(sb.value(k).snapshot_id) == k)
  sb.domain.fact(lambda k: k >= 0)
  rb.domain.fact(lambda r: sb.member(ref_id(rb, sb, r)))
  rb.domain.fact(lambda r: term(rb.value(r).reference_name) == r)
  rb.domain.fact(lambda r: z3.Or(term(rb.value(r).type) == 1,
                                 term(rb.value(r).type) == 2))
  rb.domain.fact(lambda r: z3.And(r != cx.lit("main"), r != cx.lit("")))


def ref_id(rb, sb, r):
  t = term(rb.value(r).snapshot_id)
  sb.domain.note(t)
  return t


def prove_invariant(m, what):
  """INV of metadata that was made by the code, for a generic snapshot and a
  generic reference."""

  @cx.case
  def _():
    k = sym_int("anysnap")
    sn = m.snapshots.peek(k)
    if sn is not None:
      cx.prove(f"{what} keeps INV: a snapshot is stored under its own ID",
               vc_eq(sn.snapshot_id, k))

  @cx.case
  def _():
    r = sym_str("anyref")
    ref = m.refs.peek(r)
    if ref is not None:
      cx.prove(f"{what} keeps INV: references name existing versions",
               m.snapshots.contains(ref.snapshot_id))
      cx.prove(f"{what} keeps INV: reference names are not empty or reserved",
               And(r != "main", r != ""))
      cx.prove(f"{what} keeps INV: a reference is stored under its own name",
               vc_eq(ref.reference_name, r))
      cx.prove(f"{what} keeps INV: a reference is a tag or a branch",
               Or(vc_eq(ref.type, 1), vc_eq(ref.type, 2)))
  cx.prove(f"{what} keeps INV: the main version exists",
           m.snapshots.contains(m.current_snapshot_id))


class FakeSchema:
  vc_constant = True


class ArrowStub:
  """schema.arrow, as far as Storage.__init__ uses it (proved elsewhere)."""
  vc_constant = True

  def __getattr__(self, n):
    return lambda *a, **k: FakeSchema()


def open_storage(world, branch=None, path=None):
  """A handle made by the real constructor over arbitrary metadata."""
  s = S()
  s.arrow = ArrowStub()
  s.create_fs = lambda loc: FS(world)
  loc = sym_str("location")
  cx.assume(loc != "")
  mp = path if path is not None else sym_str("metadata_file")
  m = metadata_at(mp).copy()
  st = s.Storage(loc, mp, m, branch)
  st.__dict__["vc_meta"] = m
  return st


def same_metadata_except(old, new, what, refs=(), snapshots=(), main=False):
  """Generic snapshot and reference: equal in old and new metadata."""

  @cx.case
  def _():
    k = sym_int("othersnap")
    for x in snapshots:
      cx.assume(k != x)
    a, b = old.snapshots.peek(k), new.snapshots.peek(k)
    cx.record(f"{what}: the set of other versions is unchanged",
              (a is None) == (b is None))
    if a is not None and b is not None:
      cx.prove(f"{what}: every other version is unchanged", vc_eq(a, b))

  @cx.case
  def _():
    r = sym_str("otherref")
    for x in refs:
      cx.assume(r != x)
    a, b = old.refs.peek(r), new.refs.peek(r)
    cx.record(f"{what}: the set of other references is unchanged",
              (a is None) == (b is None))
    if a is not None and b is not None:
      cx.prove(f"{what}: every other reference is unchanged", vc_eq(a, b))
  if not main:
    cx.prove(f"{what}: the main version is unchanged",
             vc_eq(new.current_snapshot_id, old.current_snapshot_id))
  cx.prove(f"{what}: the kind is unchanged", vc_eq(new.type, old.type))
  cx.prove(f"{what}: the schema is unchanged", vc_eq(new.schema, old.schema))
  cx.prove(f"{what}: the plan is unchanged",
           vc_eq(new.logical_plan, old.logical_plan))
  cx.prove(f"{what}: the creation time is unchanged",
           vc_eq(new.create_time, old.create_time))


def writes():
  return [e for e in cx.trace.concrete() if e.kind == "write"]


def is_entry(e):
  return type(e.value).__name__ == "EntryPoint"


def publication(st, what):
  """Order and naming of the files of one publication (C04, C01)."""
  ws = writes()
  ent = [i for i, e in enumerate(ws) if is_entry(e)]
  cx.record(f"{what}: the entry point is written once, after everything else",
            ent == [len(ws) - 1], f"writes: {ws}")
  if ent != [len(ws) - 1]:
    return None
  used = set()
  for e in ws[:-1]:
    u = stubs.uuids_in(e.path)
    cx.record(f"{what}: every other file gets a fresh name",
              bool(u - used), f"{e.path}")
    used |= u
  cx.prove(f"{what}: the entry point is written at its place",
           vc_eq(ws[-1].path, S().paths.entry_point_path(st.location)))
  metas = [e for e in ws if type(e.value).__name__ == "StorageMetadata"]
  cx.record(f"{what}: one metadata file is written", len(metas) == 1)
  if len(metas) != 1:
    return None
  full = stubs.Path.join(st.location, ws[-1].value.metadata_file)
  cx.prove(f"{what}: the entry point names the new metadata file",
           vc_eq(full, metas[0].path))
  return metas[0].value


def no_effect(what):
  cx.record(f"{what}: nothing is written", not writes(), str(writes()))


# ----------------------------------------------------------------------------
# contracts of callees
# ----------------------------------------------------------------------------
def patch_manifests_contract(mf, patch):
  """_patch_manifests: see unit storage.patch_manifests*."""
  if cx.choose("the patch does not apply"):
    raise sys.modules["space.core.utils.errors"].SpaceRuntimeError("patch")
  cx.ghost.setdefault("$patched", []).append((mf.copy(), patch))
  for k in ("index_manifest_files", "record_manifest_files"):
    v, _ = core.symbolic_list(
        cx.name("patched." + k), lambda g, k=k, nm=cx.name("pm." + k):
        SymStr(core.ufun(nm, I, Str)(g)))
    getattr(mf, k).clear()
    getattr(mf, k).extend(v)
  cx.ghost["$patched"][-1] += (mf.copy(),)


@unit("C01 C02 C10 C15 C04 C03", "Storage.commit",
      ["core/storage.py:Storage.commit", "core/storage.py:Storage.__init__",
       "core/storage.py:Storage._next_snapshot_id",
       "core/storage.py:Storage._write_metadata",
       "core/storage.py:Storage.snapshot",
       "core/storage.py:Storage.lookup_reference",
       "core/ops/utils.py:update_index_storage_stats",
       "core/ops/utils.py:update_record_stats_bytes",
       "core/utils/paths.py"], budget=150)
def commit():
  world = World()
  st = open_storage(world, sym_str("current_branch"))
  old = st._metadata.copy()
  patch = proto.sym_msg(stubs.rt_stub().Patch, "patch")
  branch = sym_str("branch")
  with patched(S(), _patch_manifests=patch_manifests_contract):
    r = call(st.commit, patch, branch)
  if isinstance(r, Raised):
    cx.record("a commit that fails publishes nothing",
              not any(is_entry(e) for e in writes()))
    cx.prove("a commit that fails keeps the metadata in memory",
             vc_eq(st._metadata.current_snapshot_id,
                   old.current_snapshot_id))
    if error_name(r) == "VersionNotFoundError":
      @cx.case
      def _():
        ref = old.refs.peek(branch)
        cx.prove("a commit on an existing branch finds its head",
                 And(branch != "main", ref is None))
    return
  main = bool(branch == "main")
  new = publication(st, "commit")
  if new is None:
    return
  if not main:
    rold, rnew = old.refs.peek(branch), new.refs.peek(branch)
    cx.record("a commit is only made on an existing branch",
              rold is not None and rnew is not None)
    if rold is None or rnew is None:
      return
    cx.prove("a commit is only made on a branch", vc_eq(rold.type, 2))
    head, nid = rold.snapshot_id, rnew.snapshot_id
    cx.prove("the branch reference stays a branch of that name",
             And(vc_eq(rnew.type, rold.type),
                 vc_eq(rnew.reference_name, rold.reference_name)))
  else:
    head, nid = old.current_snapshot_id, new.current_snapshot_id

  @cx.case
  def _():
    k = sym_int("oldid")
    if old.snapshots.peek(k) is not None:
      cx.prove("the ID of the new version exceeds every earlier ID", k < nid)
  cx.prove("the new version did not exist before",
           Not(old.snapshots.contains(nid)))
  cx.prove("the new version exists", new.snapshots.contains(nid))
  sn, hd = new.snapshots.peek(nid), old.snapshots.peek(head)
  if sn is None or hd is None:
    cx.record("both versions are found", False)
    return
  cx.prove("the new version is stored under its own ID",
           vc_eq(sn.snapshot_id, nid))
  cx.prove("the parent of the new version is the head of the branch",
           And(vc_eq(sn.HasField("parent_snapshot_id"), True),
               vc_eq(sn.parent_snapshot_id, head)))
  same_metadata_except(old, new, "commit", refs=[] if main else [branch],
                       snapshots=[nid], main=main)
  # statistics
  hs = hd.storage_statistics
  up = patch.storage_statistics_update
  for f in ("num_rows", "index_compressed_bytes", "index_uncompressed_bytes",
            "record_uncompressed_bytes"):
    cx.prove(f"{f} of the new version is that of its parent plus the update",
             vc_eq(getattr(sn.storage_statistics, f),
                   getattr(hs, f) + getattr(up, f)))
  # manifests
  g = cx.ghost.get("$patched")
  if g:
    cx.record("the manifests of the parent are patched once", len(g) == 1)
    before, p, after = g[0]
    cx.record("the patch of the operation is applied", p is patch)
    cx.prove("the manifests of the head are patched",
             vc_eq(before, hd.manifest_files))
    cx.prove("the new version has the patched manifests",
             vc_eq(sn.manifest_files, after))
  else:
    cx.mark_imprecise("manifests patched in an unknown way")
  # change log
  has = bool(patch.HasField("change_log"))
  logs = [e for e in writes() if type(e.value).__name__ == "ChangeLog"]
  cx.record("the change log is written iff the patch has one",
            len(logs) == (1 if has else 0), f"{has} {logs}")
  if has and logs:
    cx.prove("the change log of the patch is written",
             vc_eq(logs[0].value, patch.change_log))
    cx.prove("the version names its change log, relative to the location",
             vc_eq(stubs.Path.join(st.location, sn.change_log_file),
                   logs[0].path))
    cx.record("change logs are below the location",
              stubs.relative(stubs.parts(term(sn.change_log_file))[0]))
  elif not has:
    cx.prove("no change log: none is named", vc_eq(sn.change_log_file, ""))
  prove_invariant(new, "commit")
  cx.prove("the handle continues with the published metadata",
           And(vc_eq(st._metadata.current_snapshot_id,
                     new.current_snapshot_id),
               st._metadata.snapshots.contains(nid)))


# ----------------------------------------------------------------------------
# transactions
# ----------------------------------------------------------------------------
def head_of(m, branch):
  """(known, head) of a branch in a metadata message; for cases."""
  if bool(branch == "main"):
    return True, m.current_snapshot_id
  ref = m.refs.peek(branch)
  return ref is not None, (None if ref is None else ref.snapshot_id)


@unit("C03 C02 C04", "Transaction",
      ["core/storage.py:Transaction.__enter__",
       "core/storage.py:Transaction.commit",
       "core/storage.py:Transaction.result", "core/storage.py:Storage.reload",
       "core/storage.py:Storage.current_snapshot_id"], budget=150)
def transaction():
  """Between any two reads of the entry point other writers may have
  published anything."""
  world = World(others=True)
  st = open_storage(world, sym_str("current_branch"))
  branch = st.current_branch
  mf0, mine = st._metadata_file, st._metadata.copy()
  commits = []

  def storage_commit(self, patch, br):
    commits.append((patch, br, self._metadata.copy(), len(cx.trace.concrete()),
                    world.entry))
    if cx.choose("the commit fails"):
      raise sys.modules["space.core.utils.errors"].SpaceRuntimeError("x")
  has_patch = cx.choose("there is a patch")
  patch = proto.sym_msg(stubs.rt_stub().Patch, "patch") if has_patch else None

  def body():
    with st.transaction() as txn:
      cx.ghost["$start"] = (world.entry, st._metadata.copy(), world.reads)
      if cx.choose("the handle is used meanwhile"):
        # It sees the commits of other writers, or is moved to a branch.
        st.reload()
        st._current_branch = sym_str("other_branch")
      txn.commit(patch)
    return txn.result()
  with patched(S().Storage, commit=storage_commit):
    r = call(body)
  no_effect("a transaction itself")
  if "$start" not in cx.ghost:
    # The branch does not exist (any more).
    cx.record("a transaction that does not start commits nothing",
              isinstance(r, Raised) and not commits)
    return
  e0, m0, n0 = cx.ghost["$start"]
  State = sys.modules["space.core.jobs"].JobResult.State
  cx.record("the state of other writers is read when the transaction starts",
            n0 >= 1)
  cx.prove("a transaction starts from what is published",
           vc_eq(m0.current_snapshot_id, mine.current_snapshot_id
                 if bool(vc_eq(e0.metadata_file, mf0)) else metadata_at(
                     stubs.Path.join(st.location, e0.metadata_file)
                 ).current_snapshot_id))
  cx.record("the state of other writers is read again before committing",
            world.reads >= 2)
  if isinstance(r, Raised):
    if not commits:
      # The head could not be read: the branch disappeared.
      cx.record("only an unknown branch makes the transaction fail",
                error_name(r) == "VersionNotFoundError", str(r))
    return
  m1 = st._metadata
  ok0, h0 = head_of(m0, branch)
  ok1, h1 = head_of(m1, branch)
  cx.record("the branch exists at the end", ok0 and ok1)
  if not (ok0 and ok1):
    return
  changed = bool(h0 != h1)
  if changed:
    cx.record("a modified branch aborts the commit",
              not commits and r.state == State.FAILED, f"{r.state}")
    cx.record("an aborted commit reports no update",
              r.storage_statistics_update is None)
  elif not has_patch:
    cx.record("nothing to commit is reported as skipped",
              not commits and r.state == State.SKIPPED, f"{r.state}")
  else:
    cx.record("the patch is committed exactly once", len(commits) == 1)
    cx.record("a commit is reported as succeeded",
              r.state == State.SUCCEEDED, f"{r.state}")
    if len(commits) == 1:
      p, br, m, _, e = commits[0]
      cx.record("the patch of the operation is committed", p is patch)
      cx.prove("it is committed on the branch of the transaction",
               vc_eq(br, branch))
      cx.prove("it is committed on top of the head that was compared",
               vc_eq(head_of(m, branch)[1], h0))
      cx.record("nothing is read between the comparison and the commit",
                e is world.entry)
    cx.record("the update of the patch is reported",
              r.storage_statistics_update is patch.storage_statistics_update)


@unit("C03 C01 C02 C23", "Storage.reload", ["core/storage.py:Storage.reload"])
def reload_():
  world = World(others=True)
  st = open_storage(world, sym_str("current_branch"))
  loc, br, before = st.location, st.current_branch, st._metadata.copy()
  mf0 = st._metadata_file
  r = call(st.reload)
  cx.record("reload succeeds", not isinstance(r, Raised))
  no_effect("reload")
  cx.prove("the location stays", vc_eq(st.location, loc))
  cx.prove("the current branch stays", vc_eq(st.current_branch, br))
  same = bool(vc_eq(world.entry.metadata_file, mf0))
  if same:
    cx.prove("an unchanged entry point keeps the metadata",
             vc_eq(st._metadata.current_snapshot_id,
                   before.current_snapshot_id))
    cx.record("an unchanged entry point is reported", r is False)
  else:
    m = metadata_at(stubs.Path.join(loc, world.entry.metadata_file))
    cx.prove("the published metadata is loaded",
             vc_eq(st._metadata.current_snapshot_id, m.current_snapshot_id))
    cx.record("the published metadata is loaded, with all versions",
              st._metadata.snapshots.base is m.snapshots.base and
              st._metadata.refs.base is m.refs.base)
    cx.prove("the handle remembers what it loaded",
             vc_eq(st._metadata_file, world.entry.metadata_file))
    k = sym_int("anyid")
    @cx.case
    def _():
      if st._metadata.snapshots.peek(k) is not None:
        cx.prove("IDs of loaded versions are known to be used",
                 vc_eq(st._max_snapshot_id >= k, True))


# ----------------------------------------------------------------------------
# references
# ----------------------------------------------------------------------------
def ref_op(name, fn):
  world = World(others=True)
  st = open_storage(world, sym_str("current_branch"))
  mine = st._metadata.copy()
  mf0 = st._metadata_file
  r = call(fn, st)
  # What is published when the operation reads the entry point.
  base = None
  if world.reads:
    e = [x for x in cx.trace.concrete() if x.kind == "read" and
         type(x.value).__name__ == "EntryPoint"][-1].value
    if bool(vc_eq(e.metadata_file, mf0)):
      base = mine
    else:
      base = metadata_at(stubs.Path.join(st.location, e.metadata_file))
  return st, world, r, base, mine


def arg_snapshot():
  """An optional snapshot ID argument."""
  return None if cx.choose("no version is given") else sym_int("snapshot_id")


@unit("C04 C03 C01", "Storage: a write that fails",
      ["core/storage.py:Storage.commit", "core/storage.py:Storage.add_tag",
       "core/storage.py:Storage.add_branch",
       "core/storage.py:Storage._add_reference",
       "core/storage.py:Storage.remove_tag",
       "core/storage.py:Storage.remove_branch",
       "core/storage.py:Storage._remove_reference",
       "core/storage.py:Storage._write_metadata",
       "core/storage.py:Storage.reload"], budget=150)
def failed_write():
  """What was not published is never seen, also not by the handle that
  failed: after a reload, as every operation begins, it has the published
  metadata."""
  world = World(others=False)
  st = open_storage(world, sym_str("current_branch"))
  mf0, old = st._metadata_file, st._metadata.copy()
  # The handle read the entry point when it was opened.
  world.entry = proto.sym_msg(M().EntryPoint, "entry")
  cx.assume(vc_eq(world.entry.metadata_file, mf0))
  name = sym_str("ref_name")
  k = cx.choose("a commit")
  if k:
    patch = proto.sym_msg(stubs.rt_stub().Patch, "patch")
    op = lambda: st.commit(patch, "main")  # noqa
  elif cx.choose("add"):
    op = lambda: st.add_tag(name)  # noqa
  else:
    op = lambda: st.remove_tag(name)  # noqa
  failed = []

  def fail(path, msg):
    if not failed and cx.choose(f"writing {type(msg).__name__} fails"):
      failed.append(msg)
    return bool(failed)
  world.fail = fail

  def attempt():
    try:
      return call(op)
    except WriteFailed:
      return None
    except Unsupported as e:
      if isinstance(e.__cause__, WriteFailed):
        return None
      raise
  with patched(S(), _patch_manifests=patch_manifests_contract):
    r = attempt()
  if not failed:
    return
  cx.record("a failed write is reported", r is None or isinstance(r, Raised),
            str(r))
  cx.record("nothing is published by an operation that failed",
            not any(is_entry(e) for e in writes()), str(writes()))
  world.fail = None
  r = call(st.reload)
  cx.record("reload succeeds", not isinstance(r, Raised), str(r))
  same_metadata_except(old, st._metadata, "the handle after a failed write")


@unit("C23 C01 C03 C02", "Storage.add_tag/add_branch",
      ["core/storage.py:Storage.add_tag", "core/storage.py:Storage.add_branch",
       "core/storage.py:Storage._add_reference"], budget=200)
def add_reference():
  name = sym_str("ref_name")
  tag = cx.choose("a tag")
  sid = arg_snapshot() if tag else None
  st, world, r, base, mine = ref_op("add", (
      lambda s: s.add_tag(name, sid) if sid is not None else s.add_tag(name))
      if tag else (lambda s: s.add_branch(name)))
  if isinstance(r, Raised):
    no_effect("a rejected reference")
    if base is not None:
      target = base.current_snapshot_id if sid is None else sid
      cx.prove("a reference is only rejected for a reason",
               Or(vc_eq(name, ""), vc_eq(name, "main"),
                  base.refs.contains(name),
                  Not(base.snapshots.contains(target))))
    return
  cx.record("the published state is read first", base is not None)
  if base is None:
    return
  new = publication(st, "add reference")
  if new is None:
    return
  target = base.current_snapshot_id if sid is None else sid
  cx.prove("an existing, empty or reserved name is rejected",
           And(vc_eq(name != "", True), name != "main",
               Not(base.refs.contains(name))))
  cx.prove("a reference to an unknown version is rejected",
           base.snapshots.contains(target))
  ref = new.refs.peek(name)
  cx.record("the reference exists afterwards", ref is not None)
  if ref is None:
    return
  cx.prove("the reference names the version",
           vc_eq(ref.snapshot_id, target))
  cx.prove("the reference is of the right kind and name",
           And(vc_eq(ref.type, 1 if tag else 2),
               vc_eq(ref.reference_name, name)))
  same_metadata_except(base, new, "add reference", refs=[name])
  prove_invariant(new, "add reference")
  @cx.case
  def _():
    x = st._metadata.refs.peek(name)
    cx.record("the handle knows the reference", x is not None)


@unit("C23 C01 C03 C02", "Storage.remove_tag/remove_branch",
      ["core/storage.py:Storage.remove_tag",
       "core/storage.py:Storage.remove_branch",
       "core/storage.py:Storage._remove_reference"], budget=200)
def remove_reference():
  name = sym_str("ref_name")
  tag = cx.choose("a tag")
  st, world, r, base, mine = ref_op("remove", lambda s: (
      s.remove_tag(name) if tag else s.remove_branch(name)))
  kind = 1 if tag else 2
  if isinstance(r, Raised):
    no_effect("a rejected removal")
    if base is not None:
      @cx.case
      def _():
        ref = base.refs.peek(name)
        if ref is not None:
          cx.prove("a removal is only rejected for a reason",
                   Or(Not(vc_eq(ref.type, kind)),
                      And(not tag, vc_eq(name, st.current_branch))))
    return
  cx.record("the published state is read first", base is not None)
  if base is None:
    return
  new = publication(st, "remove reference")
  if new is None:
    return
  old = base.refs.peek(name)
  cx.record("only an existing reference is removed", old is not None)
  if old is None:
    return
  cx.prove("only a reference of the matching kind is removed",
           vc_eq(old.type, kind))
  if not tag:
    cx.prove("the branch in use is not removed",
             Not(vc_eq(name, st.current_branch)))
  cx.prove("the reference is gone", Not(new.refs.contains(name)))
  same_metadata_except(base, new, "remove reference", refs=[name])
  prove_invariant(new, "remove reference")


@unit("C23 C01 C02", "Storage lookups",
      ["core/storage.py:Storage.snapshot",
       "core/storage.py:Storage.version_to_snapshot_id",
       "core/storage.py:Storage.lookup_reference",
       "core/storage.py:Storage.set_current_branch",
       "core/storage.py:Storage.current_snapshot_id"], budget=120)
def lookups():
  world = World(others=False)
  st = open_storage(world, None)
  m = st._metadata.copy()
  which = 0
  while which < 4 and not cx.choose(f"lookup {which}"):
    which += 1
  name = sym_str("version")
  br0 = st.current_branch
  if which == 0:
    v = name if cx.choose("by name") else sym_int("id")
    r = call(st.version_to_snapshot_id, v)
    if type(v) is SymNum:
      cx.record("an ID is a version", not isinstance(r, Raised))
      cx.prove("an ID names its version", vc_eq(r, v))
    else:
      ref = m.refs.peek(v)
      if ref is None:
        cx.record("an unknown name is not found",
                  error_name(r) == "VersionNotFoundError", str(r))
      else:
        cx.record("a known name is found", not isinstance(r, Raised))
        if not isinstance(r, Raised):
          cx.prove("a name gives the version it names",
                   vc_eq(r, ref.snapshot_id))
  elif which == 1:
    k = sym_int("id")
    r = call(st.snapshot, k)
    sn = m.snapshots.peek(k)
    if sn is None:
      cx.record("an unknown version is not found",
                error_name(r) == "VersionNotFoundError", str(r))
    else:
      cx.record("a known version is found", not isinstance(r, Raised))
      if not isinstance(r, Raised):
        cx.prove("a version lookup returns that version", vc_eq(r, sn))
        cx.prove("the version has the ID", vc_eq(r.snapshot_id, k))
  elif which == 2:
    r = call(st.set_current_branch, name)
    ref = m.refs.peek(name)
    main = bool(name == "main")
    ok = main or (ref is not None and bool(vc_eq(ref.type, 2)))
    if ok:
      cx.record("an existing branch can be used", not isinstance(r, Raised))
      cx.prove("the branch is used", vc_eq(st.current_branch, name))
      s2 = call(st.snapshot)
      cx.record("its head is found", not isinstance(s2, Raised))
      if not isinstance(s2, Raised):
        cx.prove("the current version is the head of the branch",
                 vc_eq(s2.snapshot_id, m.current_snapshot_id if main else
                       ref.snapshot_id))
    else:
      cx.record("what is no branch cannot be used", isinstance(r, Raised))
      cx.prove("the branch stays", vc_eq(st.current_branch, br0))
  else:
    r = call(st.current_snapshot_id, name)
    if bool(name == "main"):
      cx.record("main has a head", not isinstance(r, Raised))
      cx.prove("the head of main", vc_eq(r, m.current_snapshot_id))
    else:
      ref = m.refs.peek(name)
      if ref is None:
        cx.record("an unknown branch has no head",
                  error_name(r) == "VersionNotFoundError", str(r))
      else:
        cx.record("a branch has a head", not isinstance(r, Raised))
        if not isinstance(r, Raised):
          cx.prove("the head of a branch", vc_eq(r, ref.snapshot_id))
  no_effect("a lookup")
  cx.record("a lookup changes no version or reference",
            st._metadata.snapshots.base is m.snapshots.base and
            st._metadata.refs.base is m.refs.base)


# ----------------------------------------------------------------------------
# creation
# ----------------------------------------------------------------------------
@unit("C16 C23 C04 C15", "Storage.create",
      ["core/storage.py:Storage.create",
       "core/storage.py:Storage._initialize_files",
       "core/storage.py:Storage._write_metadata"], budget=120)
def create():
  world = World(others=False)
  s = S()
  s.arrow = ArrowStub()
  s.create_fs = lambda loc: FS(world)
  valid = cx.choose("the schema is valid")
  err = sys.modules["space.core.utils.errors"]

  def validate(*a):
    cx.trace.append(Effect("validate", "", None))
    if not valid:
      raise err.UserInputError("schema")
  plan = (proto.sym_msg(M().LogicalPlan, "plan") if cx.choose("a view")
          else None)
  import substrait.type_pb2 as st_pb  # noqa
  loc = sym_str("location")
  cx.assume(loc != "")
  pks = VList(["a"])
  recs = VList(["r"])

  class Mgr:
    vc_constant = True

    def assign_field_ids(self, schema):
      return schema

  class Sub:
    vc_constant = True

    @staticmethod
    def substrait_fields(schema):
      return proto.msg_class(st_pb.NamedStruct.DESCRIPTOR)()
  with patched(s, validate_logical_schema=validate, FieldIdManager=Mgr,
               substrait_schema=Sub()):
    r = call(s.Storage.create, loc, FakeSchema(), pks, recs, plan)
  tr = cx.trace.concrete()
  if isinstance(r, Raised):
    cx.record("a failed creation publishes nothing",
              not any(is_entry(e) for e in writes()))
    if not valid:
      cx.record("an invalid schema creates nothing",
                not [e for e in tr if e.kind in ("write", "mkdir")], str(tr))
      cx.record("an invalid schema is the user's error",
                error_name(r) == "UserInputError", str(r))
    else:
      cx.record("an existing storage is reported as such",
                error_name(r) == "StorageExistError", str(r))
    return
  cx.record("an invalid schema is rejected", valid)
  m = publication(r, "create")
  if m is None:
    return
  ent = writes()[-1]
  cx.record("an existing entry point is never overwritten",
            ent.guarded is True)
  cx.record("directories exist before files are written",
            [e.kind for e in tr if e.kind in ("mkdir", "write")][:3] ==
            ["mkdir"] * 3, str(tr))
  cx.record("a new storage has one version and no reference",
            m.snapshots.base is None and m.refs.base is None and
            len(m.snapshots.live()) == 1 and not m.refs.overlay)
  sn = m.snapshots.peek(m.current_snapshot_id)
  cx.record("its version exists", sn is not None)
  if sn is not None:
    cx.prove("its version is stored under its own ID",
             vc_eq(sn.snapshot_id, m.current_snapshot_id))
    cx.record("its version is empty",
              sn.storage_statistics.num_rows == 0 and
              not sn.manifest_files.index_manifest_files.concrete() and
              not sn.manifest_files.record_manifest_files.concrete() and
              sn.HasField("parent_snapshot_id") is False)
  cx.record("its kind is recorded",
            m.type == (2 if plan is not None else 1), f"{m.type}")
  if plan is not None:
    cx.record("a view has its plan", m.HasField("logical_plan") is True)
  cx.record("keys and record fields are recorded in order",
            m.schema.primary_keys.concrete() == ["a"] and
            m.schema.record_fields.concrete() == ["r"])
  cx.prove("it is made at the location", vc_eq(r.location, loc))


@unit("C16 C15", "Storage.load", ["core/storage.py:Storage.load"])
def load_():
  world = World(others=False)
  s = S()
  s.arrow = ArrowStub()
  s.create_fs = lambda loc: FS(world)
  loc = sym_str("location")
  cx.assume(loc != "")
  r = call(s.Storage.load, loc)
  cx.record("a published storage can be loaded", not isinstance(r, Raised))
  if isinstance(r, Raised):
    return
  no_effect("load")
  reads = [e for e in cx.trace.concrete() if e.kind == "read"]
  cx.prove("the entry point of the location is read",
           vc_eq(reads[0].path, s.paths.entry_point_path(loc)))
  m = metadata_at(stubs.Path.join(loc, world.entry.metadata_file))
  cx.record("the metadata named by the entry point is loaded",
            r._metadata.snapshots.base is m.snapshots.base)
  cx.prove("the location is kept", vc_eq(r.location, loc))
  cx.prove("the main branch is used", vc_eq(r.current_branch, "main"))
