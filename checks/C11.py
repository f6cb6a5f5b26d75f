"""C11: RNG contexts work exactly at their own trace level."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import nnx

from mc import levels
from mc.core import Section, Violation, require

RULE = ("every nesting of transforms up to the bound (14 plain ones and 4 that hand a context to the inner function) x "
        "every place where the innermost function raises; at every level contexts are created, merged, copied and "
        "received, and every use is tried with the contexts of all enclosing, current and finished levels; expected to "
        "succeed exactly when the levels are the same; afterwards the position of every stream is compared with a "
        "context that saw the successful uses only; states = (stack, context, use, outcome), transitions = uses tried")
ASSUMPTIONS = ["jax.vmap and plain jax.grad do not open a trace level of their own",
               "Context.copy at another level than the original's is not tried"]
BOUNDS = {"quick": "all stacks of depth 1 and 2 over 18 transforms with and without exceptions; 6 kinds of contexts",
          "thorough": "all stacks of depth 3 over 18 transforms with and without an exception"}


class Boom(Exception):
  pass


class Carrier(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(jnp.float32(1.0))


def _ctx():
  return nnx.context(0, drop=jax.random.PRNGKey(1), flags=dict(t=True, f=False))


def _jit_ctx(body):
  nnx.jit(lambda m, x, ctx: (body(ctx), x)[1])(Carrier(), jnp.float32(0), ctx=_ctx())


def _jit0_ctx(body):
  nnx.jit(lambda m, x, ctx: (body(ctx), x)[1], stateful=False)(Carrier(), jnp.float32(0), ctx=_ctx())


def _remat_ctx(body):
  nnx.remat(lambda m, x, ctx: (body(ctx), x)[1])(Carrier(), jnp.float32(0), ctx=_ctx())


def _scan_ctx(body):
  nnx.scan(lambda m, c, x, ctx: (body(ctx), (c, x))[1], split_rngs="drop")(
      Carrier(), jnp.float32(0), jnp.arange(2.0), ctx=_ctx())


TRANSFORMS = {k: (o, (lambda run: lambda body: run(lambda _: body(None)))(run)) for k, (o, run) in levels.TRANSFORMS.items()}
TRANSFORMS.update({"nnx.jit+ctx": (True, _jit_ctx), "nnx.jit0+ctx": (True, _jit0_ctx),
                   "nnx.remat+ctx": (True, _remat_ctx), "nnx.scan+ctx": (True, _scan_ctx)})

WAYS = {
    "new": _ctx,
    "merged": lambda: _ctx().partition().merge(),
    "merged twice": lambda: _ctx().partition().merge().partition().merge(),
    "def merged": lambda: (lambda p: p.contextdef.merge(p.keys))(_ctx().partition()),
    "copied": lambda: _ctx().copy(),
    "no streams": lambda: nnx.context(flags=dict(t=True, f=False)),
}
BARE = "no streams"
OPS = {
    "draw params": lambda c: c.make_rng("params"),
    "draw drop": lambda c: c.make_rng("drop"),
    "split": lambda c: c.partition(),
}


class Ctx:
  def __init__(self, way, level, depth, ctx):
    self.way, self.level, self.depth, self.ctx = way, level, depth, ctx
    self.ops = []


class Run:
  def __init__(self, stack, cov, raise_at, catch_at):
    self.stack, self.cov, self.raise_at, self.catch_at = stack, cov, raise_at, catch_at
    self.live, self.finished, self.errors = [], [], []
    self.level_id, self.next = [0], 0

  def queries(self, c, what):
    bare = "(no streams)" in what
    try:
      got = [c.has_rng("params"), c.has_rng("drop"), c.has_rng("zzz"), c.has_flag("t"), c.has_flag("zzz"),
             c.get_flag("t"), c.get_flag("f"), c.get_flag("zzz")]
    except Exception as e:
      self.errors.append(f"{what}: a query raised {type(e).__name__}: {str(e)[:100]}")
      return
    if got != [not bare, not bare, False, True, False, True, False, None]:
      self.errors.append(f"{what}: queries gave {got}")

  def attempt(self, rec, op, phase, depth):
    ok = rec.level == self.level_id[-1]
    what = f"{phase} depth {depth}: context of depth {rec.depth} ({rec.way})"
    self.cov.trans()
    self.cov.state((self.stack, what, op, ok))
    try:
      OPS[op](rec.ctx)
      got = True
      rec.ops.append(op)
    except nnx.TraceContextError:
      got = False
    except Exception as e:
      if rec.way == BARE and isinstance(e, ValueError) and op != "split":
        return  # there is no such stream, at any level
      self.errors.append(f"{what}: {op} raised {type(e).__name__}: {str(e)[:150]}")
      return
    if rec.way == BARE and got and op != "split":
      self.errors.append(f"{what}: {op} drew from a context without streams")
    if got != ok:
      self.errors.append(f"{what}: {op} {'succeeded' if got else 'raised TraceContextError'} but should have "
                         f"{'succeeded' if ok else 'raised TraceContextError'}")
    self.queries(rec.ctx, what)

  def act(self, depth, phase):
    for rec in self.live:
      for op in OPS:
        self.attempt(rec, op, phase, depth)
    for way, mk in WAYS.items():
      rec = Ctx(way, self.level_id[-1], depth, mk())
      for op in OPS:
        self.attempt(rec, op, phase + " fresh", depth)

  def body(self, depth, received):
    opens = depth > 0 and TRANSFORMS[self.stack[depth - 1]][0]
    if depth > 0:
      if opens:
        self.next += 1
        self.level_id.append(self.next)
      else:
        self.level_id.append(self.level_id[-1])
    mine = []
    try:
      if received is not None:
        mine.append(Ctx("received", self.level_id[-1], depth, received))
        self.live.append(mine[-1])
      self.act(depth, "enter")
      for way, mk in WAYS.items():
        mine.append(Ctx(way, self.level_id[-1], depth, mk()))
        self.live.append(mine[-1])
      if depth < len(self.stack):
        try:
          TRANSFORMS[self.stack[depth]][1](lambda r: self.body(depth + 1, r))
        except Boom:
          if self.catch_at != depth:
            raise
      self.act(depth, "after inner")
      if self.raise_at == depth and depth > 0:
        raise Boom()
    finally:
      # read the stream positions while the contexts can still be used
      for rec in mine:
        if rec.way not in ("received", BARE):
          try:
            self.finished.append((rec, tuple(rec.ops), rec.ctx.partition().contextdef))
            rec.ops.append("split")
          except nnx.TraceContextError:
            self.errors.append(f"depth {depth}: context ({rec.way}) unusable at the end of its own level")
      if depth > 0:
        self.level_id.pop()

  def check_positions(self):
    keys = {"params": jax.random.PRNGKey(0), "drop": jax.random.PRNGKey(1)}
    cache = {}
    for rec, ops, cdef in self.finished:
      k = (rec.way, ops)
      if k not in cache:
        ref = WAYS[rec.way]()
        for op in ops:
          OPS[op](ref)
        m = ref.partition().merge()
        cache[k] = (np.asarray(m.make_rng("params")).tolist(), np.asarray(m.make_rng("drop")).tolist())
      m = cdef.merge(keys)
      got = (np.asarray(m.make_rng("params")).tolist(), np.asarray(m.make_rng("drop")).tolist())
      if got != cache[k]:
        self.errors.append(f"context of depth {rec.depth} ({rec.way}) is not where {ops} leave it")


def run(case, cov):
  stack, raise_at, catch_at = case
  r = Run(stack, cov, raise_at, catch_at)
  r.body(0, None)
  r.check_positions()
  if r.errors:
    raise Violation("; ".join(sorted(set(r.errors))[:6]))


def gen(tier):
  names = list(TRANSFORMS)
  for a in names:
    yield ((a,), None, None)
    yield ((a,), 1, 0)
  for st in itertools.product(names, repeat=2):
    yield (st, None, None)
    yield (st, 2, 1)
    yield (st, 2, 0)
  if tier == "thorough":
    for st in itertools.product(names, repeat=3):
      yield (st, None, None)
      yield (st, 3, 1)


def run_leak(case, cov):
  """A context that leaked out of one trace is unusable in a later trace and at top level."""
  a, b, way, op = case
  if not (TRANSFORMS[a][0] and TRANSFORMS[b][0]):
    return
  leaked, errs = [], []

  def body(r):
    for c in leaked:
      try:
        OPS[op](c)
        errs.append(f"{op} on a context leaked from an earlier trace succeeded")
      except nnx.TraceContextError:
        pass
    leaked.append(WAYS[way]())
    if r is not None:
      leaked.append(r)
  for t in (a, b):
    ran = []

    def once(r):
      if not ran:
        ran.append(1)
        body(r)
    TRANSFORMS[t][1](once)
  cov.trans(len(leaked))
  cov.state(case)
  for c in leaked:
    try:
      OPS[op](c)
      errs.append(f"{op} on a leaked context succeeded at top level")
    except nnx.TraceContextError:
      pass
    require(c.has_rng("params") and c.get_flag("t") is True, "queries on a leaked context")
  require(not errs, "; ".join(sorted(set(errs))))


def gen_leak(tier):
  return itertools.product(TRANSFORMS, TRANSFORMS, ("new", "merged"), OPS)


SECTIONS = [Section("stacks", gen, run), Section("leaks", gen_leak, run_leak)]
