"""C12: nnx.jit behaves like the plain function, including module state."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import nnx

from mc import heap
from mc.core import Section, Violation, require, require_eq, expect_raises, eqns_of

RULE = ("every module graph of a family (flat, nested, shared, cyclic) x every straight-line body up to the bound x every "
        "direct mutation between two calls; each case runs the history on two equal modules, one through nnx.jit and one "
        "through the plain function, and compares result, module attributes, kinds, metadata, static attributes and "
        "sharing after every step; placement options are compared with where the results live and with jax.jit's own, lowering and the options of the compiled program with those of jax.jit; states = observed module states, transitions = calls and mutations")
ASSUMPTIONS = ["small integers in float32, so that compiled and eager arithmetic agree exactly",
               "bodies only change node attributes: static changes, deletions and new submodules inside a jitted call are not "
               "carried out by design"]
BOUNDS = {"quick": "4 graphs x bodies up to length 2 over 14 operations x 9 mutations; 4 graphs without state x 26 bodies that create some x second calls; histories of 4 kinds of contexts, option histories; 2 host devices; devices, backends and in/out shardings; updates and results without array leaves over 1 and 2 variables",
          "thorough": "bodies up to length 3 and two mutations between three calls"}

f32 = jnp.float32


class Sub(nnx.Module):
  def __init__(self, v):
    self.k = nnx.Param(f32(v), sharding=("a",))
    self.s = nnx.BatchStat(f32(v + 1), note="n1")

  def bump(self, x):
    self.s = self.s + x
    return self.k * x


class Top(nnx.Module):
  def __init__(self, kind):
    self.w = nnx.Param(jnp.array([1.0, 2.0], f32))
    self.n = nnx.BatchStat(f32(3))
    self.arr = jnp.array([4.0], f32)
    self.mode = 2
    self.one = Sub(5)
    if kind == "shared":
      self.two = self.one
    elif kind == "cycle":
      self.two = Sub(6)
      self.one.up = self
    elif kind == "nested":
      self.two = Sub(6)
      self.two.deep = Sub(7)
    else:
      self.two = Sub(6)


def _set(name, f):
  def op(m, x):
    setattr(m, name, f(m, x))
    return x
  return op


def _new_on(get, name, make):
  def op(m, x):
    t = get(m)
    if not hasattr(t, name):
      setattr(t, name, make(x))
    else:
      setattr(t, name, make(x).value if isinstance(make(x), nnx.Variable) else make(x))
    return x
  return op


def _sow(m, x):
  m.sow(nnx.Intermediate, "sown", x)
  m.two.sow(nnx.Intermediate, "sown", x + 1)
  return x


def _sub_write(m, x):
  m.one.k = m.one.k + x
  return m.two.k


def _swap(m, x):
  m.one.k, m.two.k = m.two.k, m.one.k
  return x


def _upd(m, x):
  m.update_state(nnx.State({"w": nnx.Param(m.w + x)}))
  return x


OPS = {
    "read w": lambda m, x: x + m.w.sum(),
    "read mode": lambda m, x: x * m.mode,
    "write w": _set("w", lambda m, x: m.w * 2 + x),
    "write n": _set("n", lambda m, x: m.n + m.w.sum()),
    "write n var": _set("n", lambda m, x: nnx.BatchStat(m.n + x)),
    "write arr": _set("arr", lambda m, x: m.arr + x),
    "write shared": _sub_write,
    "swap": _swap,
    "new param": _new_on(lambda m: m, "new", lambda x: nnx.Param(x + 1)),
    "new on sub": _new_on(lambda m: m.two, "fresh", lambda x: nnx.BatchStat(x + 2, note="n1")),
    "new array": _new_on(lambda m: m.one, "anew", lambda x: x + 3),
    "sow": _sow,
    "method": lambda m, x: m.two.bump(x),
    "update_state": _upd,
}


def body_of(names):
  def f(m, x):
    out = x
    for n in names:
      out = OPS[n](m, out)
    return out
  return f


def _del_new(m):
  if hasattr(m, "new"):
    del m.new


def _replace_sub(m):
  m.one = Sub(9)


def _unshare(m):
  m.two = Sub(8)


MUTS = {
    "none": lambda m: None,
    "w": lambda m: setattr(m, "w", m.w + 1),
    "static": lambda m: setattr(m, "mode", m.mode + 1),
    "new static": lambda m: setattr(m, "extra", "e"),
    "add": lambda m: setattr(m, "added", nnx.Cache(f32(1))),
    "del": _del_new,
    "pop": lambda m: m.pop_state(nnx.Intermediate),
    "replace sub": _replace_sub,
    "unshare": _unshare,
}


def same(got, want, what):
  require_eq(heap.enc(got), heap.enc(want), what)


def run(case, cov):
  kind, names, muts, stateful = case
  f = body_of(names)
  jf = nnx.jit(f, stateful=stateful)
  a, b = Top(kind), Top(kind)
  ids = {}
  for i, mut in enumerate(muts + ("none",)):
    x = f32(i + 2)
    before = heap.observe(a)
    ids = {k: id(v) for k, v in heap.attrs_of(a).items() if isinstance(v, nnx.Module)}
    got = jf(a, x)
    c = b if stateful else b.clone()
    want = f(c, x)
    cov.trans()
    same(got, want, f"call {i}: result")
    if not stateful:
      require_eq(heap.observe(a), before, f"call {i}: stateful=False changed the module")
    require_eq(heap.observe(a), heap.observe(b), f"call {i}: module")
    require_eq({k: id(v) for k, v in heap.attrs_of(a).items() if isinstance(v, nnx.Module)}, ids,
               f"call {i}: submodule objects were replaced")
    MUTS[mut](a)
    MUTS[mut](b)
    cov.trans()
    require_eq(heap.observe(a), heap.observe(b), f"after mutation {mut}")
    cov.state(heap.observe(a))


def gen(tier):
  kinds = ("flat", "nested", "shared", "cycle")
  bodies = [()] + [(a,) for a in OPS] + list(itertools.product(OPS, OPS))
  for kind, names in itertools.product(kinds, bodies):
    for mut in MUTS:
      if len(names) == 2 and mut not in ("none", "w", "static", "unshare") and tier == "quick":
        continue
      yield (kind, names, (mut,), True)
    yield (kind, names, ("w",), False)
  if tier == "thorough":
    for kind, names in itertools.product(kinds, [(a,) for a in OPS]):
      for m1, m2 in itertools.product(MUTS, repeat=2):
        yield (kind, names, (m1, m2), True)
    for kind, names in itertools.product(kinds, itertools.product(OPS, repeat=3)):
      yield (kind, names, ("w",), True)


# ---- contexts, options, exceptions

def _drawer(m, x, ctx):
  ks = [ctx.make_rng(n) for n in ("drop", "drop", "params") if ctx.has_rng(n)]
  m.n = m.n + (2.0 if ctx.get_flag("t") else 1.0) + (10.0 if ctx.has_flag("t") else 0.0)
  m.sow(nnx.Intermediate, "sown", x)
  m.one.fresh = nnx.Cache(m.n)
  return ks


STREAMS = {"both": dict(params=0, drop=1), "drop": dict(drop=1), "params": dict(params=0), "none": {}}
CTX_OPS = ("call", "draw", "split", "call0")


def run_ctx(case, cov):
  flag, seq, streams = case
  mk = lambda: nnx.context(**STREAMS[streams], flags={} if flag is None else {"t": flag})
  a, b, ca, cb = Top("shared"), Top("shared"), mk(), mk()
  jf, jf0 = nnx.jit(_drawer), nnx.jit(_drawer, stateful=False)
  seen = []
  for op in seq:
    cov.trans()
    if op == "draw":
      ka, kb = ([c.make_rng(n) for n in STREAMS[streams]] for c in (ca, cb))
    elif op == "split":
      ka, kb = ([d.make_rng(n) for d in (c.partition().merge(),) for n in STREAMS[streams]] for c in (ca, cb))
    else:
      before = heap.observe(a)
      ka = (jf if op == "call" else jf0)(a, f32(1), ctx=ca)
      kb = _drawer(b if op == "call" else b.clone(), f32(1), cb.partition().merge())
      if op == "call0":
        require_eq(heap.observe(a), before, "stateful=False changed the module")
    ka = [np.asarray(k).tolist() for k in ka]
    require_eq(ka, [np.asarray(k).tolist() for k in kb], f"{op}: keys differ from the plain function with a forked context")
    for k in ka:
      require(k not in seen, f"{op}: key drawn twice")
      seen.append(k)
    require_eq(heap.observe(a), heap.observe(b), f"{op}: module")
    cov.state((flag, seq, heap.observe(a), len(seen)))


def gen_ctx(tier):
  n = 3 if tier == "quick" else 4
  for flag in (None, True, False):
    for k in range(1, n + 1):
      for seq in itertools.product(CTX_OPS, repeat=k):
        yield (flag, seq, "both")
        for streams in ("drop", "params", "none") if k < 3 else ():
          yield (flag, seq, streams)


class Boom(Exception):
  pass


def run_opts(case, cov):
  kind, opt, stateful = case
  a, b = Top(kind), Top(kind)
  cov.state(case)

  def f(m, x, k=1, *, flag="a", y=0.0):
    assert isinstance(k, int) or opt not in ("argnums", "argnums list")
    assert isinstance(flag, str)
    m.w = m.w * k + x + (1 if flag == "a" else 2)
    m.one.k = m.one.k + y
    return {"r": m.w.sum() * k, "f": (x, [y])}
  kw = {"argnums": dict(static_argnums=2, static_argnames="flag"), "argnums list": dict(static_argnums=(2,), static_argnames=["flag"]),
        "names": dict(static_argnames=("flag", "k")), "plain": dict(static_argnames="flag"), "donate": dict(donate_argnums=(1,), static_argnames="flag"),
        "inline": dict(inline=True, static_argnames="flag"), "unused": dict(keep_unused=True, static_argnames="flag"),
        "shardings": dict(static_argnames="flag", out_shardings=jax.sharding.SingleDeviceSharding(jax.devices()[0]))}[opt]
  jf = nnx.jit(f, stateful=stateful, **kw)
  for k, flag, y in ((1, "a", 1.0), (2, "a", 1.0), (2, "b", 2.0), (1, "a", 3.0)):
    x = jnp.array([1.0, float(k)], f32)
    if opt == "names":
      got = jf(a, x, k=k, flag=flag, y=f32(y))
    elif opt == "shardings":
      got = jf(a, x, k, flag=flag)
      y = 0.0
    else:
      got = jf(a, x, k, flag=flag, y=f32(y))
    c = b if stateful else b.clone()
    want = f(c, jnp.array([1.0, float(k)], f32), k, flag=flag, y=f32(y))
    cov.trans()
    require_eq(jax.tree_map(lambda v: np.asarray(v).tolist(), got), jax.tree_map(lambda v: np.asarray(v).tolist(), want), "result")
    require_eq(heap.observe(a), heap.observe(b), "module")


def gen_opts(tier):
  return itertools.product(("flat", "shared", "cycle"),
                           ("plain", "argnums", "argnums list", "names", "donate", "inline", "unused", "shardings"), (True, False))


def run_raise(case, cov):
  """A raising body leaves the module as it was and the jitted function and module usable."""
  kind, names, first = case
  f = body_of(names)
  boom = [False]

  def g(m, x):
    out = f(m, x)
    if boom[0]:
      raise Boom()
    return out
  a, b = Top(kind), Top(kind)
  jf = nnx.jit(g)
  if first:
    same(jf(a, f32(2)), f(b, f32(2)), "first call")
    a.fresh_static = b.fresh_static = 1  # force a retrace
  before = heap.observe(a)
  boom[0] = True
  expect_raises(Boom, lambda: jf(a, f32(3)), "raising body")
  require_eq(heap.observe(a), before, "a raising call changed the module")
  boom[0] = False
  a.w = a.w + 1
  b.w = b.w + 1
  same(jf(a, f32(4)), f(b, f32(4)), "call after an exception")
  require_eq(heap.observe(a), heap.observe(b), "module after an exception")
  cov.trans(4)
  cov.state(heap.observe(a))


def gen_raise(tier):
  return itertools.product(("flat", "shared", "cycle"), [(o,) for o in OPS], (False, True))


def run_misc(case, cov):
  cov.state(case)
  cov.trans()
  if case == "not a module":
    for bad in (1, None, nnx.State({}), Top("flat").partition(), Top):
      expect_raises(TypeError, lambda: nnx.jit(lambda m: 0)(bad), f"nnx.jit on {type(bad).__name__}")
  elif case == "lower":
    a = Top("shared")
    before = heap.observe(a)
    low = nnx.jit(body_of(("write w", "sow")), stateful=True).lower(a, f32(1))
    require("main" in low.as_text(), "lower gives no program")
    low.compile()
    require_eq(heap.observe(a), before, "lower changed the module")
  elif case == "two modules":
    jf = nnx.jit(body_of(("write w", "method")))
    mods = [Top(k) for k in ("flat", "shared", "flat", "cycle", "nested", "shared")]
    refs = [m.clone() for m in mods]
    for r in range(3):
      for m, ref in zip(mods, refs):
        same(jf(m, f32(r)), body_of(("write w", "method"))(ref, f32(r)), "interleaved modules: result")
        require_eq(heap.observe(m), heap.observe(ref), "interleaved modules")
  elif case == "no args":
    a, b = Top("cycle"), Top("cycle")

    def f(m):
      m.w = m.w + m.one.k
      return None
    require(nnx.jit(f)(a) is None and f(b) is None, "None result")
    require_eq(heap.observe(a), heap.observe(b), "no args")


PLACES = ("nothing", "in", "out", "in and out", "device", "backend", "bad backend", "out tree", "in tree")


def run_places(case, cov):
  """Options that say where a computation runs reach jax.jit and change nothing else."""
  kind, opt, stateful, names = case
  cov.state(case)
  a, b = Top(kind), Top(kind)
  dev = jax.devices()[1]
  there = jax.sharding.SingleDeviceSharding(dev)
  kw = {"nothing": {}, "in": dict(in_shardings=there), "out": dict(out_shardings=there), "in and out": dict(in_shardings=there, out_shardings=there),
        "device": dict(device=dev), "backend": dict(backend="cpu"), "bad backend": dict(backend="nosuch"),
        "out tree": dict(out_shardings=(there, None) if stateful else None), "in tree": dict(in_shardings=(None, there))}[opt]
  f = body_of(names)
  jf = nnx.jit(f, stateful=stateful, **kw)
  before = heap.observe(a)
  if opt == "bad backend":
    expect_raises(RuntimeError, lambda: jf(a, f32(1)), "unknown backend")
    require_eq(heap.observe(a), before, "failed call changed the module")
    return
  where = 1 if opt in ("in", "out", "in and out", "device", "in tree") or opt == "out tree" and stateful else 0
  for i in range(2):
    got = jf(a, f32(i + 1))
    want = f(b if stateful else b.clone(), f32(i + 1))
    cov.trans()
    same(got, want, f"call {i}: result")
    require_eq(heap.observe(a), heap.observe(b), f"call {i}: module")
    devs = {d.id for x in jax.tree_util.tree_leaves(got) for d in x.devices()}
    require(devs <= {where}, lambda: f"call {i}: the result is on devices {devs}, expected {where}")
    if stateful:
      devs = {d.id for x in jax.tree_util.tree_leaves(a.get_state()) if isinstance(x, jax.Array) for d in x.devices()}
      require(devs <= {where}, lambda: f"call {i}: the module is on devices {devs}")


def gen_places(tier):
  return itertools.product(("flat", "shared", "cycle"), PLACES, (True, False), (("write w",), ("write w", "sow"), ("method",)))


PROGRAM = {"inline": (False, True), "keep_unused": (False, True), "donate_argnums": ((), (1,), (0,), (0, 1))}


def run_program(case, cov):
  """inline, keep_unused and donate_argnums arrive in the traced program (a CPU ignores them otherwise)."""
  kind, inline, keep, donate, stateful = case
  cov.state(case)
  cov.trans()
  f = body_of(("write w",))
  kw = dict(inline=inline, keep_unused=keep, donate_argnums=donate)
  s, d = Top(kind).partition()
  jf = nnx.jit(f, stateful=stateful, **{k: v for k, v in kw.items() if v})
  eqns = list(eqns_of(jax.make_jaxpr(lambda s, x: jf(d.merge(s), x))(s, f32(1)).jaxpr, "pjit"))
  mine = [e for e in eqns if len(e.invars) == len(jax.tree_util.tree_leaves(s)) + 1]
  require_eq(len(mine), 0 if inline else 1, "jitted blocks in the program")
  if inline:
    return
  e = mine[0]
  n = len(e.invars) - 1
  want = dict(inline=inline, keep_unused=keep, donated_invars=(0 in donate,) * n + (1 in donate,))
  require_eq({k: e.params[k] for k in want}, want, "options in the program")


def gen_program(tier):
  return itertools.product(("flat", "cycle"), (False, True), (False, True), PROGRAM["donate_argnums"], (False, True))


def run_lower(case, cov):
  """lower: nothing happens to the module and the context, and the compiled program is the function on pure modules."""
  kind, names, stateful, ctx, calls = case
  cov.state(case)
  a, b = Top(kind), Top(kind)

  def f(m, x, *, ctx=None):
    out = body_of(names)(m, x)
    return (out, jax.random.uniform(ctx.make_rng("drop"))) if ctx is not None else out
  jf = nnx.jit(f, stateful=stateful)
  c1, c2 = (nnx.context(0, drop=1), nnx.context(0, drop=1)) if ctx else (None, None)
  kw = dict(ctx=c1) if ctx else {}
  for i in range(calls):
    same(jf(a, f32(i), **kw), f(b if stateful else b.clone(), f32(i), **(dict(ctx=c2.partition().merge()) if ctx else {})), "call before lower")
  before = heap.observe(a)
  comp = jf.lower(a, f32(3), **kw).compile()
  require_eq(heap.observe(a), before, "lower changed the module")
  cov.trans()
  pure = a.partition()
  if ctx:  # lower forks the context like a call, the compiled program is for that fork
    fork = c2.partition()
    kw = dict(ctx=fork)
  c = b.clone()
  want = f(c, f32(4), **(dict(ctx=fork.merge()) if ctx else {}))
  if ctx:
    same(c1.make_rng("drop"), c2.make_rng("drop"), "context after lower")
  got = comp(pure, f32(4), **kw)
  if stateful:
    state, got = got
    same(state, c.get_state(), "state from the compiled program")
  same(got, want, "result of the compiled program")
  require_eq(heap.observe(a), before, "the compiled program changed the module")
  for bad in (1, None, pure):
    expect_raises(TypeError, lambda: jf.lower(bad, f32(3)), "lower without a module")


def gen_lower(tier):
  for kind in ("flat", "shared", "cycle"):
    for o in OPS:
      for stateful in (True, False):
        for ctx in (False, True):
          for calls in (0, 1) if tier == "quick" else (0, 1, 2):
            yield kind, (o,), stateful, ctx, calls


class Bare(nnx.Module):
  """No state of its own: the calls create it."""

  def __init__(self, kind):
    self.mode = 2
    if kind != "alone":
      self.one = Bare("alone")
      self.two = self.one if kind == "shared" else Bare("alone")
    if kind == "cycle":
      self.one.up = self


def _bare(get, name, make):
  def op(m, x):
    t = get(m)
    if name in vars(t):
      setattr(t, name, getattr(t, name) + x)
    else:
      setattr(t, name, make(x))
    return x + m.mode
  return op


_last = lambda m: getattr(m, "two", m)
BARE = {"nothing": lambda m, x: x * m.mode, "param": _bare(lambda m: m, "w", lambda x: nnx.Param(x)), "array": _bare(_last, "a", lambda x: x + 1),
        "stat": _bare(_last, "s", lambda x: nnx.BatchStat(x, note="n1")), "sow": lambda m, x: _last(m).sow(nnx.Intermediate, "h", x),
        "tree": _bare(lambda m: m, "t", lambda x: nnx.Param(x, sharding=("a",)))}


def run_bare(case, cov):
  kind, calls, pop = case
  a, b = Bare(kind), Bare(kind)
  for i, (names, stateful) in enumerate(calls):
    def f(m, x):
      return [BARE[n](m, x) for n in names]
    before = heap.observe(a)
    got = nnx.jit(f, stateful=stateful)(a, f32(i + 1))
    want = f(b if stateful else b.clone(), f32(i + 1))
    same(got, want, f"call {i}: result")
    if not stateful:
      require_eq(heap.observe(a), before, "stateful=False changed the module")
    require_eq(heap.observe(a), heap.observe(b), f"call {i}: module")
    if pop:
      same(a.pop_state(...), b.pop_state(...), f"popped after call {i}")
      require_eq(heap.observe(a), heap.observe(b), f"module without its state after call {i}")
    cov.trans()
    cov.state((kind, heap.observe(a)))


def gen_bare(tier):
  bodies = [(n,) for n in BARE] + [p for p in itertools.permutations([n for n in BARE if n != "nothing"], 2)]
  for kind in ("alone", "flat", "shared", "cycle"):
    for names in bodies:
      for stateful in (True, False):
        yield kind, ((names, stateful),), False
      for second in bodies[:len(BARE)]:
        for pop in (True, False):
          yield kind, ((names, True), (second, True)), pop


# ---- updates and results without arrays

CELLS = {"none": None, "tuple": (), "dict": {}, "nested": (None, {"a": ()}), "array": 0.0, "keep": 0.0}
OUTS = {"none": lambda m, x: None, "tuple": lambda m, x: (), "value": lambda m, x: x, "state": lambda m, x: nnx.State({}), "pair": lambda m, x: (None, {})}


class Few(nnx.Module):
  """A module whose variables are just the given ones."""

  def __init__(self, kinds, sub):
    t = self
    if sub:
      self.one = t = Bare("alone")
      self.two = self.one
    for i, k in enumerate(kinds):
      setattr(t, f"v{i}", nnx.Param(f32(i), sharding=("a",)) if k == "P" else nnx.BatchStat(f32(i), note="n1"))


def run_leafless(case, cov):
  kinds, sub, cells, out, stateful, static = case
  cov.state(case)

  def f(m, x):
    t = m.one if sub else m
    for i, c in enumerate(cells):
      if c == "del":
        delattr(t, f"v{i}")
      elif c == "array":
        setattr(t, f"v{i}", x)
      elif c != "keep":
        setattr(t, f"v{i}", CELLS[c])
    if static:
      t.mode = "new"
    return OUTS[out](m, x)
  a, b = Few(kinds, sub), Few(kinds, sub)
  before = heap.observe(a)
  for i in range(1 if "del" in cells else 2):
    got = nnx.jit(f, stateful=stateful)(a, f32(i + 5))
    want = f(b if stateful else b.clone(), f32(i + 5))
    cov.trans()
    same(got, want, f"{case}: result of call {i}")
    require_eq(heap.observe(a), heap.observe(b), f"{case}: module after call {i}")
  if not stateful:
    require_eq(heap.observe(a), before, f"{case}: stateful=False changed the module")


def gen_leafless(tier):
  for n in (1, 2):
    for cells in itertools.product(("none", "tuple", "nested", "array", "keep"), repeat=n):
      for sub, stateful in itertools.product((False, True), repeat=2):
        for out in OUTS if n == 1 or tier == "thorough" else ("none", "value"):
          yield "PB"[:n] if n == 2 else "B", sub, cells, out, stateful, False
      if n == 1:
        yield "P", False, cells, "none", True, False


SECTIONS = [Section("updates without arrays", gen_leafless, run_leafless), Section("histories", gen, run), Section("stateless modules", gen_bare, run_bare), Section("contexts", gen_ctx, run_ctx), Section("options", gen_opts, run_opts),
            Section("exceptions", gen_raise, run_raise), Section("placement", gen_places, run_places), Section("lower", gen_lower, run_lower),
            Section("program", gen_program, run_program),
            Section("misc", lambda t: ["not a module", "lower", "two modules", "no args"], run_misc)]
