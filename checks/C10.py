"""C10: a module can be mutated exactly at the trace level that created it."""
import itertools
import threading

import jax
import jax.numpy as jnp
import nnx

from mc import heap, levels
from mc.core import Section, Violation, require, require_eq

RULE = ("every nesting of transforms up to the bound x every place where the innermost function raises; at every "
        "level modules are created, merged, cloned and received, and every mutation is tried on all modules of all "
        "enclosing, current and finished levels; expected to succeed exactly when the levels are the same; states = "
        "(stack, creating level, acting level, operation, outcome), transitions = mutation attempts")
ASSUMPTIONS = ["jax.vmap and plain jax.grad do not open a trace level of their own (as the existing tests require)",
               "all submodules of a module were created at its level", "nnx.grad selects at least one entry"]
BOUNDS = {"quick": "all stacks of depth 1 and 2 over 14 transforms with and without exceptions",
          "thorough": "all stacks of depth 3"}

_OUT = object()


class Boom(Exception):
  pass


class Sub(nnx.Module):
  def __init__(self):
    self.x = nnx.Param(1)

  def __iadd__(self, v):
    self.x = self.x + v
    return self


class Mod(nnx.Module):
  def __init__(self):
    self.a = nnx.Param(1)
    self.st = "static"
    self.sub = Sub()
    self.sown = nnx.Intermediate((0,))
    self.d = nnx.Dict(k=1)


def _leaf(m):
  m.mutable_state_dict()["a"].value = 7


def _aug(m):
  m.sub += 1


def _aug_var(m):
  m.a += 1


OPS = {
    "assign var": lambda m: setattr(m, "a", 5),
    "assign new": lambda m: setattr(m, "new", 5),
    "assign static": lambda m: setattr(m, "st", "other"),
    "assign sub": lambda m: setattr(m.sub, "x", 5),
    "del": lambda m: delattr(m, "a"),
    "del static": lambda m: delattr(m, "st"),
    "pop": lambda m: m.pop_state(nnx.Param),
    "update": lambda m: m.update_state(nnx.State({"a": nnx.Param(9)})),
    "update self": lambda m: m.update_state(m.partition()),
    "sow": lambda m: m.sow(nnx.Intermediate, "sown", 1),
    "sow new": lambda m: m.sow(nnx.Intermediate, "sown2", 1),
    "leaf": _leaf,
    "aug sub": _aug,
    "aug var": _aug_var,
    "setitem": lambda m: m.d.__setitem__("k", 2),
    "setitem new": lambda m: m.d.__setitem__("z", 2),
}
WAYS = {
    "new": lambda: Mod(),
    "merged": lambda: Mod().partition().merge(),
    "clone": lambda: Mod().clone(),
    "partition merge": lambda: (lambda p: p.moduledef.merge(*p.states))(Mod().partition(nnx.Param, ...)),
}


class Run:
  def __init__(self, stack, cov, raise_at, catch_at):
    self.stack, self.cov, self.raise_at, self.catch_at = stack, cov, raise_at, catch_at
    self.live = []  # (level id, depth, {op: {way: module}})
    self.recv = []  # (level id, received module)
    self.level_id = [0]
    self.next = 0
    self.errors = []

  def create(self):
    # every module is used for one attempt that should succeed; failures leave it reusable
    return {(op, way): mk() for op in OPS for way, mk in WAYS.items() if way == "new" or op in ("assign var", "del", "assign new")}

  def attempt(self, op, fn, m, ok, what):
    self.cov.trans()
    self.cov.state((self.stack, what, op, ok))
    before = heap.observe(m)
    try:
      fn(m)
      got = True
    except nnx.TraceContextError:
      got = False
    except Boom:
      raise
    except Exception as e:
      self.errors.append(f"{what}: {op} raised {type(e).__name__}: {str(e)[:150]}")
      return
    if got != ok:
      self.errors.append(f"{what}: {op} {'succeeded' if got else 'raised TraceContextError'} but should have "
                         f"{'succeeded' if ok else 'raised TraceContextError'}")
    if not ok and heap.observe(m) != before:
      self.errors.append(f"{what}: failed {op} changed the module")
    # reading is always allowed
    try:
      m.a if hasattr(m, "a") else None
      m.get_state(), m.partition(), m.filter(nnx.Param), m.get_module_def()
      c = m.clone()
      c.extra = 1
      repr(m)
    except Exception as e:
      self.errors.append(f"{what}: reading raised {type(e).__name__}: {str(e)[:150]}")

  def act(self, depth, phase):
    cur = self.level_id[-1]
    for lid, d, mods in self.live:
      ok = lid == cur
      for (op, way), m in mods.items():
        if ok:
          continue
        self.attempt(op, OPS[op], m, False, f"{phase} depth {depth}: module of depth {d} ({way})")
    # fresh modules of the current level
    for (op, way), m in self.create().items():
      self.attempt(op, OPS[op], m, True, f"{phase} depth {depth}: module of this level ({way})")
    # long-lived modules of the current level
    for lid, d, mods in self.live:
      if lid == cur:
        for (op, way), m in mods.items():
          if op in ("assign var", "assign static", "update", "sow"):
            self.attempt(op, OPS[op], m, True, f"{phase} depth {depth}: module created earlier at this level ({way})")

  def body(self, depth, received):
    opens = depth > 0 and levels.TRANSFORMS[self.stack[depth - 1]][0]
    if depth > 0:
      if opens:
        self.next += 1
        self.level_id.append(self.next)
      else:
        self.level_id.append(self.level_id[-1])
    try:
      cur = self.level_id[-1]
      if received is not None:
        self.cov.trans()
        try:
          received.w = received.w * 1
        except nnx.TraceContextError:
          self.errors.append(f"depth {depth}: the received module cannot be mutated")
        self.recv.append((cur, depth, received))
      for lid, d, m in self.recv:
        if lid != cur:
          try:
            m.w = 0.0
            self.errors.append(f"depth {depth}: module received at depth {d} could be mutated")
          except nnx.TraceContextError:
            pass
      self.act(depth, "enter")
      self.live.append((cur, depth, self.create()))
      if depth < len(self.stack):
        try:
          levels.TRANSFORMS[self.stack[depth]][1](lambda r: self.body(depth + 1, r))
        except Boom:
          if self.catch_at != depth:
            raise
      self.act(depth, "after inner")
      if self.raise_at == depth and depth > 0:
        raise Boom()
    finally:
      if depth > 0:
        self.level_id.pop()


def run(case, cov):
  stack, raise_at, catch_at = case
  r = Run(stack, cov, raise_at, catch_at)
  r.body(0, None)
  if r.errors:
    raise Violation("; ".join(sorted(set(r.errors))[:6]))


def gen(tier):
  names = list(levels.TRANSFORMS)
  for a in names:
    yield ((a,), None, None)
    yield ((a,), 1, 0)
  for st in itertools.product(names, repeat=2):
    yield (st, None, None)
    yield (st, 2, 1)
    yield (st, 2, 0)
  if tier == "thorough":
    for st in itertools.product(names, repeat=3):
      yield (st, None, None)
      yield (st, 3, 1)


def run_threads(case, cov):
  """Module made in one thread, mutated in another, both at top level."""
  op, = case
  m = Mod()
  cov.state(case)
  cov.trans()
  out = []

  def other():
    mine = Mod()
    OPS[op](mine)
    try:
      OPS[op](m)
      out.append("ok")
    except nnx.TraceContextError:
      out.append("TraceContextError")
  t = threading.Thread(target=other)
  t.start()
  t.join()
  if not out:
    raise Violation(f"{op}: mutating a thread's own module failed in a second thread")
  if out != ["ok"]:
    raise Violation(f"{op}: module created at top level in one thread cannot be mutated at top level in another",
                    key="cross-thread-top-level")


def run_twice(case, cov):
  """A module that leaked out of one trace is not mutable in a later trace of the same function."""
  a, b, op = case
  leaked = []
  errs = []

  def body(r):
    for m in leaked:
      before = heap.observe(m)
      try:
        OPS[op](m)
        errs.append(f"{op} on a module leaked from an earlier trace succeeded")
      except nnx.TraceContextError:
        if heap.observe(m) != before:
          errs.append(f"failed {op} changed a leaked module")
    leaked.append(Mod())
  opens = levels.TRANSFORMS[a][0] and levels.TRANSFORMS[b][0]
  if not opens:
    return
  cov.state(case)
  cov.trans()
  for t in (a, b):
    n = len(leaked)
    ran = []

    def first_call_only(r):
      # some transforms trace their body more than once
      if not ran:
        ran.append(1)
        body(r)
    levels.TRANSFORMS[t][1](first_call_only)
  for m in leaked:
    try:
      OPS[op](m)
      errs.append(f"{op} on a leaked module succeeded at top level")
    except nnx.TraceContextError:
      pass
  require(not errs, "; ".join(errs))


def gen_twice(tier):
  names = list(levels.TRANSFORMS)
  return itertools.product(names, names, ("assign var", "del", "pop", "sow"))


SECTIONS = [Section("stacks", gen, run), Section("leaks", gen_twice, run_twice),
            Section("threads", lambda t: [(op,) for op in OPS], run_threads)]
