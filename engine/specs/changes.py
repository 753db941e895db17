"""core/ops/change_data.py: the change feed."""
from __future__ import annotations

import sys

import z3

from engine import core, proto, stubs
from engine.core import (cx, VList, SymStr, SymNum, And, Or, Not, Implies,
                         sym_str, sym_int, sym_bool, vc_eq, term, I, B, Str,
                         Comp, ufun, wrap, SymBool, PathEnd)
from engine.specs.runners import Token, E, Spy
from engine.specs.storage import S, M, World, open_storage, no_effect
from engine.specs.manifests import RT, only
from engine.stubs import patched, NS, FS
from engine.unit import unit, call, Raised, error_name, named


def C():
  return sys.modules["space.core.ops.change_data"]


class Lineage:
  """INV of lineages: a version that has a parent is younger than it, and the
  parent exists (units Storage.commit and Storage.create prove it kept)."""

  def __init__(self, st):
    self.base = st._metadata.snapshots.base
    b = self.base
    b.domain.fact(lambda k: z3.Implies(
        self.hp(k), z3.And(self.par(k) < k, b.member(self.touch(k)))))

  def touch(self, k):
    return self.par(k)

  def hp(self, k):
    return core.as_bool(self.base.value(k).HasField("parent_snapshot_id"))

  def par(self, k):
    return term(self.base.value(k).parent_snapshot_id)


def unroll(why):
  cx.premat["$unroll"] = [why]
  raise core.RestartUnit()


class WhileRule:
  """Hoare rule for one loop of the code under proof: the state at the head is
  replaced by an arbitrary one that satisfies the invariant.

  An invariant that does not hold says nothing about the property: the loop is
  then unrolled (bounded) and the postconditions decide.
  """
  BOUND = 4

  def __init__(self, assume, check):
    self.assume, self.check = assume, check
    self.n = 0

  @staticmethod
  def inv(name, cond):
    if not cx.prove("invariant " + name, cond):
      unroll("invariant: " + name)

  def __call__(self, site, test):
    f = [f for f in core.code_frames(sys._getframe(2))][0]
    self.n += 1
    if "$unroll" in cx.premat:
      if self.n > self.BOUND:
        raise PathEnd()
      return bool(test())
    if self.n == 1:
      self.check(f, "at the start")
      self.assume(f)
      return bool(test())
    self.check(f, "after an iteration")
    raise PathEnd()


@unit("C11 C21", "ordered_snapshot_ids",
      ["core/ops/change_data.py:ordered_snapshot_ids",
       "core/storage.py:Storage.snapshot"])
def ordered():
  world = World(others=False)
  st = open_storage(world, sym_str("current_branch"))
  lin = Lineage(st)
  base = lin.base
  start, end = sym_int("start"), sym_int("end")
  # anc(x): start is x or an ancestor of x (the least such predicate: it
  # implies start <= x, as parents are older).
  anc_f = ufun("anc", I, B)
  base.domain.note(end.t)
  base.domain.note(start.t)

  def anc(k):
    base.domain.note(k)
    return anc_f(k)
  base.domain.fact(lambda k: anc_f(k) == z3.Or(
      k == start.t, z3.And(lin.hp(k), anc_f(lin.par(k)))))
  base.domain.fact(lambda k: z3.Implies(anc_f(k), start.t <= k))

  # The chain above a version: at(0), at(1), ..., at(n-1) == end.
  n = cx.fresh("chain", I)
  at = ufun("chain", I, I)

  def find(f):
    loc = f.f_locals
    ls = [k for k, v in loc.items() if type(v) is VList]
    ms = [k for k, v in loc.items() if getattr(type(v), "vc_msg", False) and
          type(v).__name__ == "Snapshot"]
    if len(ls) != 1 or len(ms) != 1:
      unroll("the loop over the versions has another state")
    return ls[0], ms[0]

  def chain_ok(lst, what, first=None, prove=cx.prove):
    """lst is a path of parent links from `first` (a child of it) to end."""
    flat = []
    for s in lst.segs:
      if isinstance(s, list):
        flat += [("one", term(x)) for x in s]
      else:
        flat.append(("seg", s))
    prev = first
    for kind, x in flat:
      if kind == "one":
        if prev is not None:
          prove(f"{what}: each version is followed by its child",
                   z3.And(lin.hp(x), lin.par(x) == prev))
        prev = x
      else:
        prove(f"{what}: the versions come from the chain",
              x.domain.n is not None and len(x.alts) == 1)
        d = x.domain
        if cx.entails(d.n == 0):
          continue
        g = lambda t: term(x.at(t)[0][1][0])  # noqa
        d.note(z3.IntVal(0))
        d.note(d.n - 1)
        if prev is not None:
          prove(f"{what}: each version is followed by its child",
                   z3.Implies(d.n > 0, z3.And(lin.hp(g(z3.IntVal(0))), lin.par(
                       g(z3.IntVal(0))) == prev)))

        @cx.case
        def _():
          i = cx.fresh("anylink", I)
          cx.assume(z3.And(i > 0, i < d.n))
          d.note(i)
          d.note(i - 1)
          prove(f"{what}: each version is followed by its child",
                   z3.And(lin.hp(g(i)), lin.par(g(i)) == g(i - 1)))
        prev = z3.If(d.n > 0, g(d.n - 1), prev if prev is not None
                     else end.t)
    return prev

  def check(f, when):
    l, m = find(f)
    lst, cur = f.f_locals[l], f.f_locals[m]
    last = chain_ok(lst, when, term(cur.snapshot_id), WhileRule.inv)
    WhileRule.inv(f"{when}: the versions end at the end version",
             (last if last is not None else term(cur.snapshot_id)) == end.t)
    WhileRule.inv(f"{when}: no ancestor was passed over",
             anc(term(lst[0])) == anc(end.t) if lst.segs[0] else
             term(cur.snapshot_id) == end.t)
    WhileRule.inv(f"{when}: the current version exists",
             base.member(term(cur.snapshot_id)))

  def assume(f):
    l, m = find(f)
    if cx.choose("versions were listed before"):
      # a0 is the oldest listed so far, younger ones follow.
      a0, c = cx.fresh("oldest", I), cx.fresh("current", I)
      base.domain.note(a0)
      base.domain.note(c)
      cx.assume(n >= 0)
      lst, dom = core.symbolic_list(cx.name("younger"), lambda g: wrap(at(g)),
                                    n=n)

      def fact(t):
        base.domain.note(at(t))
        return z3.And(base.member(at(t)), lin.hp(at(t)), lin.par(at(t)) == (
            z3.If(t == 0, a0, at(t - 1))), at(t) > start.t)
      dom.fact(fact)
      dom.note(z3.IntVal(0))
      dom.note(n - 1)
      cx.assume(z3.And(base.member(a0), base.member(c), lin.hp(a0),
                       lin.par(a0) == c, a0 >= start.t,
                       anc(a0) == anc(end.t),
                       z3.If(n > 0, at(n - 1), a0) == end.t))
      core.write_local(f, l, VList([wrap(a0)]) + lst)
      core.write_local(f, m, st.snapshot(wrap(c)))
    # otherwise the state is that of the first iteration

  rule = WhileRule(assume, check)
  site = None
  old = dict(core.WHILE)

  class Any(dict):

    def get(self, k, d=None):
      return rule if "change_data" in k else d
  core.WHILE = Any()
  try:
    r = call(C().ordered_snapshot_ids, st, start, end)
  finally:
    core.WHILE = old
  no_effect("listing versions")
  if isinstance(r, Raised):
    en = error_name(r)
    cx.record("only input and lookup errors", en in (
        "UserInputError", "VersionNotFoundError"), str(r))
    if en == "VersionNotFoundError":
      cx.prove("a version is only missing if the end does not exist",
               Not(SymBool(base.member(end.t))))
    else:
      cx.prove("an error is only given when the start is no proper ancestor",
               z3.Or(start.t == end.t, z3.Not(base.member(end.t)),
                     z3.Not(anc(end.t))))
    return
  cx.prove("the start is an ancestor of the end", anc(end.t))
  cx.record("the result is a list", type(r) is VList)
  last = chain_ok(r, "result", start.t)
  cx.prove("the versions end at the end version", last == end.t if
           last is not None else False)
  cx.prove("the start version is not listed, the end version is",
           And(start != end))


class Logs(FS):
  """Change logs are read through the file system at a path."""

  def __init__(self, world):
    super().__init__(world)
    self.reads = []

  def read_proto(self, file_path, empty_msg):
    self.reads.append((file_path, type(empty_msg)))
    return proto.sym_msg(type(empty_msg), "log", (term(file_path),))


class SymRead:
  """FileSetReadOp by contract: an iterator of tables."""
  vc_constant = True

  def __init__(self, spy, args, tag):
    self.args, self.tag = args, tag
    n = cx.fresh("tables", I)
    cx.assume(n >= 0)
    self.n = n
    self.list, self.dom = core.symbolic_list(
        cx.name("table"), lambda g: SymNum(g), n=n)


class ReadSpy:

  def __init__(self):
    import inspect
    self.cls = sys.modules["space.core.ops.read"].FileSetReadOp
    self.sig = inspect.signature(self.cls.__init__)
    self.made = []

  def __call__(self, *a, **kw):
    b = self.sig.bind(None, *a, **kw)
    b.apply_defaults()
    args = dict(b.arguments)
    args.pop("self", None)
    op = SymRead(self, args, len(self.made))
    self.made.append(op)
    return op


def check_file_set(fs, bitmaps, what):
  """fs lists exactly the rows of the bitmaps, in order."""
  b = core.one_each(bitmaps)
  core.each_of(what, fs.index_files, b[0],
               lambda i, f: same_rows(f, b[1](i), what))


def same_rows(f, m, what):
  cx.prove(f"{what}: a file is the one of its bitmap", vc_eq(f.path, m.file))
  cx.prove(f"{what}: a file has the number of rows of its bitmap",
           vc_eq(f.storage_statistics.num_rows, m.num_rows))
  cx.prove(f"{what}: rows are selected unless all are",
           vc_eq(f.HasField("row_bitmap"), Not(m.all_rows)))
  cx.prove(f"{what}: the rows selected are those of the bitmap",
           Implies(Not(m.all_rows), vc_eq(f.row_bitmap, m)))
  cx.prove(f"{what}: no slice of a file", Not(f.HasField("row_slice")))


@unit("C11 C21 C19", "_bitmap_to_index_file",
      ["core/ops/change_data.py:_bitmap_to_index_file"])
def bitmap_to_file():
  m = proto.sym_msg(M().RowBitmap, "bitmap")
  f = call(C()._bitmap_to_index_file, m)
  cx.record("a bitmap names a file", not isinstance(f, Raised), str(f))
  if not isinstance(f, Raised):
    same_rows(f, m, "rows of a change log")


@unit("C11 C21 C01", "LocalChangeDataReadOp",
      ["core/ops/change_data.py:LocalChangeDataReadOp.__init__",
       "core/ops/change_data.py:LocalChangeDataReadOp.__iter__",
       "core/ops/change_data.py:LocalChangeDataReadOp._read_op",
       "core/ops/change_data.py:LocalChangeDataReadOp._bitmaps_to_file_set",
       "core/ops/change_data.py:_read_change_log_proto"], budget=120)
def local_change_data():
  c = C()
  world = World(others=False)
  st = open_storage(world, sym_str("current_branch"))
  sid = sym_int("version")
  sn = st._metadata.snapshots.peek(sid)
  logs = Logs(world)
  spy = ReadSpy()
  keys = Token("keys")
  opts = sys.modules["space.core.options"].ReadOptions(
      filter_=Token("filter"), fields=Token("fields"),
      reference_read=cx.choose("references are read"), batch_size=7)
  before = dict(opts.__dict__)
  s = S()
  with patched(c, create_fs=lambda p: logs, FileSetReadOp=spy,
               iter=lambda x: x.list if type(x) is SymRead else core.b_iter(
                   x)):
    with patched(s.Storage, primary_keys=property(lambda self: keys)):
      r = call(lambda: collect(c.LocalChangeDataReadOp(st, sid, opts)))
  if sn is None:
    cx.record("changes of a version that does not exist are an error",
              error_name(r) == "VersionNotFoundError", str(r))
    return
  cx.record("reading changes succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  no_effect("reading changes")
  cx.record("the change log is read", len(logs.reads) >= 1)
  for p, cls in logs.reads:
    cx.prove("the change log read is the one of the version", vc_eq(
        p, stubs.Path.join(st.location, sn.change_log_file)))
  log = proto.sym_msg(M().ChangeLog, "log",
                      (term(stubs.Path.join(st.location,
                                            sn.change_log_file)),))
  cx.record("the options of the user are not changed",
            all(opts.__dict__[k] is v or opts.__dict__[k] == v
                for k, v in before.items()) and
            set(opts.__dict__) == set(before))
  T = c.ChangeType
  # Which read gives deletions, which additions: by what they yield.
  segs = [x for x in r.segs if x != []]
  kinds = []
  for x in segs:
    cx.record("changes are yielded one by one per table", isinstance(
        x, Comp) and all(len(i) == 1 for _, i in x.alts), str(x))
    if not isinstance(x, Comp):
      return
    for g, (y,) in x.alts:
      cx.record("a change is a ChangeData", type(y) is c.ChangeData, str(y))
      op = [o for o in spy.made if o.dom is x.domain]
      cx.record("a change is of one read", len(op) == 1)
      if len(op) != 1 or type(y) is not c.ChangeData:
        return

      @cx.case
      def _(x=x):
        i = cx.fresh("anytable", I)
        cx.assume(x.domain.member(i))
        (g, (y,)), = x.at(i)
        cx.prove("no table is skipped", g)
        cx.prove("a change carries the version that made it",
                 vc_eq(y.snapshot_id, sid))
        cx.prove("the data of a change is the table read",
                 vc_eq(y.data, SymNum(i)))
      kinds.append((y.type_, op[0]))
  n_del = [o for t, o in kinds if t is T.DELETE]
  n_add = [o for t, o in kinds if t is T.ADD]
  cx.record("deletions come before additions", [t for t, _ in kinds] ==
            [T.DELETE] * len(n_del) + [T.ADD] * len(n_add), str(kinds))
  cx.record("deletions and additions are both read", len(n_del) == 1 and
            len(n_add) == 1, str(kinds))
  if len(n_del) != 1 or len(n_add) != 1:
    return
  for op, bm, what in ((n_del[0], log.deleted_rows, "deletions"),
                       (n_add[0], log.added_rows, "additions")):
    a = op.args
    cx.prove(f"{what} are read at the location of the dataset",
             vc_eq(a["location"], st.location))
    m = a["metadata"]
    cx.record(f"{what} are read with the metadata of the dataset",
              m is st._metadata)
    check_file_set(a["file_set"], bm, what)
    o = a["options"]
    cx.record(f"{what} are read with the options given",
              o.reference_read == opts.reference_read and
              o.batch_size == 7 and o.filter_ is opts.filter_, str(o))
    cx.record(f"{what}: the fields read", o.fields is (
        keys if what == "deletions" else opts.fields), str(o.fields))


def collect(it):
  return core.b_list(iter(it))


@unit("C11 C21", "read_change_data",
      ["core/ops/change_data.py:read_change_data"])
def read_change_data():
  feed(C(), "LocalChangeDataReadOp", ())


@unit("C11 C19 C21", "ray read_change_data",
      ["ray/ops/change_data.py:read_change_data"])
def ray_read_change_data():
  feed(sys.modules["space.ray.ops.change_data"], "_RayChangeDataReadOp",
       (Token("ray options"),))


def feed(c, op_name, extra):
  st, opts = Token("storage"), Token("options")
  a, b = sym_int("start"), sym_int("end")
  n = cx.fresh("versions", I)
  cx.assume(n >= 0)
  ids, dom = core.symbolic_list("version", lambda g: SymNum(ufun(
      "version", I, I)(g)), n=n)
  asked, ops = [], []

  real = sys.modules["space.core.ops.change_data"].ordered_snapshot_ids

  def ordered_ids(*a, **k):
    asked.append(list(named(real, a, k).values()))
    return ids

  def op(storage, sid, *args, **kw):
    args = list(args) + list(kw.values())
    ok = storage is st and len(args) == len(extra) + 1 and all(
        any(x is y for y in args) for x in extra + (opts,))
    cx.record("changes of a version are read with the options given", ok)
    k = ufun("changes", I, I)(term(sid))
    cx.assume(k >= 0)
    return core.symbolic_list("change", lambda g: wrap(ufun(
        "change", I, I, I)(term(sid), g)), n=k)[0]
  with patched(c, ordered_snapshot_ids=ordered_ids, **{op_name: op}):
    r = call(lambda: collect(c.read_change_data(st, a, b, *extra, opts)))
  cx.record("reading a feed succeeds", not isinstance(r, Raised), str(r))
  if isinstance(r, Raised):
    return
  cx.record("the versions between start and end are asked for", len(
      asked) == 1 and asked[0][0] is st and asked[0][1] is a and
            asked[0][2] is b)
  cx.record("every change of every version is yielded, in order",
            len(only(r)) == 1 and hasattr(only(r)[0].domain, "flat") and
            only(r)[0].domain.flat.outer is dom, str(r))
  fl = only(r)[0].domain.flat
  i, j = cx.fresh("anyversion", I), cx.fresh("anychange", I)
  dom.note(i)
  cx.assume(z3.And(dom.member(i), j >= 0,
                   j < ufun("changes", I, I)(ufun("version", I, I)(i))))
  t = fl.at(i, j)
  cx.prove("a change is not lost", Or(*[And(g, vc_eq(y[0], wrap(ufun(
      "change", I, I, I)(ufun("version", I, I)(i), j))))
      for g, y in only(r)[0].at(t) if len(y) == 1], False))
