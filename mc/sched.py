"""A controlled scheduler: every interleaving of real threads running nnx code.

Threads run under sys.settrace with opcode events in all frames whose file lies
in the nnx package; code outside (jax, numpy, the harness) runs atomically.  Only
one thread runs at a time.  Before each instruction that can touch state visible
to other threads the running thread reaches a scheduling point, where the
schedule may hand control to another thread.  Instructions on locals and the
evaluation stack only, jumps and loads of globals that are never rebound commute
with everything the other threads do and are no scheduling points.

`explore` enumerates all schedules with at most `bound` preemptions by stateless
depth-first search: a schedule is the set of its deviations from the default of
running a thread until it ends or blocks.  Every run checks that it passes the
same points as the run it was derived from (diverging replays are counted).

Import this module before nnx: locks created by nnx code are replaced by locks
that the scheduler knows about, so that a thread waiting for one is disabled.
"""
import dis
import os
import sys
import threading

from mc.core import HarnessError, Violation

_real_lock = threading.Lock
_real_rlock = threading.RLock
_current = threading.local()  # .run, .tid of a scheduled thread


def _root():
  import importlib.util
  return os.path.dirname(os.path.realpath(importlib.util.find_spec("nnx").origin)) + os.sep


ROOT = _root()


class SLock:
  """A lock that blocks in the scheduler instead of in the operating system."""

  def __init__(self, reentrant):
    self._reentrant = reentrant
    self._owner = None
    self._count = 0
    self._real = _real_rlock() if reentrant else _real_lock()

  def acquire(self, blocking=True, timeout=-1):
    run = getattr(_current, "run", None)
    if run is None:
      return self._real.acquire(blocking, timeout)
    me = _current.tid
    if self._reentrant and self._owner == me:
      self._count += 1
      return True
    while self._owner is not None:
      if not blocking:
        return False
      run.block(me, self)
    self._owner = me
    self._count = 1
    return True

  def release(self):
    run = getattr(_current, "run", None)
    if run is None:
      return self._real.release()
    if self._owner is None:
      raise RuntimeError("release unlocked lock")
    self._count -= 1
    if self._count == 0:
      self._owner = None
      run.unblock(self)

  def locked(self):
    return self._owner is not None

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *exc):
    self.release()


def _factory(reentrant, real):
  def make():
    f = sys._getframe(1)
    if os.path.realpath(f.f_code.co_filename).startswith(ROOT):
      return SLock(reentrant)
    return real()
  return make


if "nnx" in sys.modules:
  raise HarnessError("mc.sched must be imported before nnx")
threading.Lock = _factory(False, _real_lock)
threading.RLock = _factory(True, _real_rlock)

LOCAL = {
    "CACHE", "NOP", "RESUME", "POP_TOP", "PUSH_NULL", "COPY", "SWAP", "LOAD_CONST", "LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "STORE_FAST",
    "DELETE_FAST", "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT", "POP_JUMP_IF_FALSE", "POP_JUMP_IF_TRUE", "POP_JUMP_IF_NONE",
    "POP_JUMP_IF_NOT_NONE", "RETURN_VALUE", "RETURN_CONST", "RETURN_GENERATOR", "YIELD_VALUE", "BUILD_TUPLE", "BUILD_LIST", "BUILD_MAP", "BUILD_SET", "BUILD_STRING", "BUILD_CONST_KEY_MAP",
    "BUILD_SLICE", "LIST_EXTEND", "LIST_APPEND", "SET_ADD", "MAP_ADD", "LIST_TO_TUPLE", "KW_NAMES", "IS_OP", "UNARY_NOT", "MAKE_CELL", "COPY_FREE_VARS",
    "LOAD_CLOSURE", "MAKE_FUNCTION", "EXTENDED_ARG", "CHECK_EXC_MATCH", "PUSH_EXC_INFO", "POP_EXCEPT", "RERAISE", "END_FOR", "END_SEND", "FORMAT_VALUE",
    "UNPACK_SEQUENCE", "LOAD_ASSERTION_ERROR", "LOAD_BUILD_CLASS", "IMPORT_NAME", "IMPORT_FROM", "GET_LEN", "SETUP_ANNOTATIONS", "CALL_INTRINSIC_1", "RAISE_VARARGS",
}
_visible = {}
_rebound = None


def _codes(code):
  yield code
  for c in code.co_consts:
    if hasattr(c, "co_code"):
      yield from _codes(c)


def rebound_globals():
  """Names of globals assigned by nnx functions (not at module level)."""
  global _rebound
  if _rebound is None:
    _rebound = set()
    for dirpath, _, files in os.walk(ROOT):
      for f in files:
        if f.endswith(".py"):
          with open(os.path.join(dirpath, f)) as fh:
            top = compile(fh.read(), f, "exec")
          for code in _codes(top):
            for ins in dis.get_instructions(code):
              if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                _rebound.add(ins.argval)
  return _rebound


def visible(code):
  if code not in _visible:
    out = {}
    for ins in dis.get_instructions(code):
      if ins.opname in LOCAL:
        continue
      if ins.opname == "LOAD_GLOBAL" and ins.argval not in rebound_globals():
        continue
      out[ins.offset] = (code.co_name, code.co_firstlineno, ins.offset, ins.opname)
    _visible[code] = out
  return _visible[code]


class Deadlock(Exception):
  pass


class _Abort(BaseException):
  pass


class Run:
  """One execution of the threads under a schedule (plan: point index -> thread)."""

  def __init__(self, fns, plan, max_points=20000, lines=False):
    self.fns = fns
    self.plan = plan
    self.n = len(fns)
    self.points = []  # (running thread or None, chosen, enabled, label)
    self.alive = set(range(self.n))
    self.waiting = {}  # thread -> lock
    self.sems = [threading.Semaphore(0) for _ in fns]
    self.done = threading.Event()
    self.results = [None] * self.n
    self.max_points = max_points
    self.deadlock = False
    self.aborting = False
    self.lines = lines
    self.enabled = tuple(range(self.n))

  def refresh(self):
    self.enabled = tuple(t for t in sorted(self.alive) if t not in self.waiting)

  # -- called by the running thread --------------------------------------------------------------

  def choose(self, me, label, can_continue=True):
    enabled = self.enabled
    if not enabled:
      return None
    default = me if can_continue and me in enabled else enabled[0]
    to = self.plan.get(len(self.points), default)
    if to not in enabled:
      to = default
    self.points.append((me if can_continue else None, to, enabled, label))
    return to

  def point(self, me, label):
    if self.aborting:
      raise _Abort()
    i = len(self.points)
    if i not in self.plan and i <= self.max_points:
      self.points.append((me, me, self.enabled, label))
      return
    if i > self.max_points:
      self.aborting = True
      raise _Abort()
    to = self.choose(me, label)
    if to != me:
      self.sems[to].release()
      self.sems[me].acquire()
      if self.aborting:
        raise _Abort()

  def block(self, me, lock):
    self.waiting[me] = lock
    self.refresh()
    to = self.choose(me, ("block", me), can_continue=False)
    if to is None:
      self.deadlock = True
      self.abort()
      raise _Abort()
    self.sems[to].release()
    self.sems[me].acquire()
    if self.aborting:
      raise _Abort()

  def unblock(self, lock):
    for t in [t for t, l in self.waiting.items() if l is lock]:
      del self.waiting[t]
    self.refresh()

  def abort(self):
    self.aborting = True
    for s in self.sems:
      s.release()

  def finish(self, me):
    self.alive.discard(me)
    self.refresh()
    if not self.alive:
      self.done.set()
      return
    if self.aborting:
      return
    to = self.choose(me, ("end", me), can_continue=False)
    if to is None:
      self.deadlock = True
      self.abort()
    else:
      self.sems[to].release()

  # -- thread body ---------------------------------------------------------------------------------

  def _thread(self, me):
    self.sems[me].acquire()
    _current.run, _current.tid = self, me

    def local(frame, event, arg):
      if event == "opcode":
        code = frame.f_code
        vis = _visible.get(code)
        if vis is None:
          vis = visible(code)
        label = vis.get(frame.f_lasti)
        if label is not None:
          self.point(me, label)
      elif event == "line" and self.lines:
        self.point(me, (me, frame.f_code.co_name, frame.f_lineno))
      return local

    def tracer(frame, event, arg):
      if event == "call" and frame.f_code.co_filename.startswith(ROOT):
        if self.lines:
          frame.f_trace_lines = True
        else:
          frame.f_trace_opcodes = True
          frame.f_trace_lines = False
        return local
      return None

    try:
      sys.settrace(tracer)
      try:
        if not self.aborting:
          out = ("ok", self.fns[me]())
      except _Abort:
        out = ("aborted", None)
      except Exception as e:
        out = ("raised", e)
      finally:
        sys.settrace(None)
      if not self.aborting or "out" in locals():
        self.results[me] = out
    finally:
      _current.run = None
      self.finish(me)

  def go(self):
    threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
    for t in threads:
      t.start()
    first = self.choose(None, ("start",), can_continue=False)
    self.sems[first].release()
    if not self.done.wait(60):
      raise HarnessError(f"the threads made no progress after point {len(self.points)} {self.points[-3:]}")
    for t in threads:
      t.join(10)
    return self


def _plan_key(plan):
  return tuple(sorted(plan.items()))


def explore(make, check, bound, shard=(0, 1), cov=None, plan=None, lines=False):
  """Runs all schedules; `make()` gives fresh thread functions (and a context), `check(results, ctx)`
  inspects one execution.  The schedules are divided among the shards by their first preemption."""
  from mc.core import Cov

  def run(pl):
    fns, ctx = make()
    r = Run(fns, pl, lines=lines).go()
    if r.deadlock:
      raise Violation(f"deadlock with schedule {_plan_key(pl)}: {r.points[-4:]}", trace=_plan_key(pl))
    if r.aborting:
      raise Violation(f"more than {r.max_points} steps with schedule {_plan_key(pl)}", trace=_plan_key(pl))
    try:
      check(r.results, ctx)
    except Violation as e:
      raise Violation(f"{e}\n  under the schedule {_plan_key(pl)} (point: thread), switches at {switches(r)}", key=e.key, trace=_plan_key(pl))
    return r
  if plan is not None:
    return run(dict(plan))
  # warm caches (abc, protocols, jax dispatch) so that executions depend on the schedule only
  run({})
  base = run({})
  stack = [({}, base, -1, 0)]
  count = 1 if shard[0] == 0 else 0
  k, n = shard
  while stack:
    pl, r, last, used = stack.pop()
    for idx in range(last + 1, len(r.points)):
      me, chosen, enabled, label = r.points[idx]
      for alt in enabled:
        if alt == chosen:
          continue
        cost = used + (1 if me is not None else 0)
        if cost > bound:
          continue
        if used == 0 and cost == 1 and idx % n != k:
          continue  # the schedules are divided by their first preemption
        pl2 = dict(pl)
        pl2[idx] = alt
        r2 = run(pl2)
        if cost or k == 0:
          count += 1
        if [(p[0], p[3]) for p in r2.points[:idx + 1]] != [(p[0], p[3]) for p in r.points[:idx + 1]]:
          # the code keeps state between executions (a cache, say); its executions are
          # still checked, but the enumeration is no longer known to be complete
          if cov is not None:
            cov.count("diverging replays")
        if cov is not None:
          cov.trans(len(r2.points))
          cov.state(tuple((p[1], p[3]) for p in r2.points))
        # later deviations only matter while budget remains or a free choice is left
        stack.append((pl2, r2, idx, cost))
  if cov is not None:
    cov.count("schedules", count)
    cov.count("points of the default schedule (per shard)", len(base.points))
  return count


def switches(r):
  out, prev = [], None
  for i, (me, to, en, label) in enumerate(r.points):
    if prev is not None and to != prev:
      out.append((i, f"{prev}->{to}", label))
    prev = to
  return out[:12]
