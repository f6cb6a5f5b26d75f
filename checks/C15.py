"""C15: nnx.scan equals the unrolled loop over layers."""
import itertools
from types import SimpleNamespace

import jax
import jax.numpy as jnp
import numpy as np
import nnx

from mc import heap
from mc.core import Section, Violation, require, require_eq, expect_raises, eqns_of

RULE = ("every combination of length, direction, unroll, variable axes, carried/broadcast filters and variables created by the "
        "body; in/out axes; RNG splitting; initialization in class and decorator form; inconsistent lengths; call histories; refusals; the class form with every option, and the options the compiled loop carries. "
        "The reference is a Python loop over plain namespaces holding the slices; states = configurations with their resulting "
        "module, transitions = scans run")
ASSUMPTIONS = ["float32 with small integers, exact in both forms", "bodies do not modify broadcast variables that exist before the call",
               "scan initialization with a context is given a length"]
BOUNDS = {"quick": "lengths 1-3, unroll 1-2, 10 variable configurations, all subsets of created variables; 14 function names",
          "thorough": "lengths 1-4, unroll 1-4, both call forms, in/out axes with every creation set"}

f32 = jnp.float32


class VarB(nnx.Variable):
  pass


class VarT(nnx.Variable):
  pass


class Sub(nnx.Module):
  def __init__(self):
    self.k = nnx.Param(jnp.zeros((), f32), sharding=None, note="n1")


class Layer(nnx.Module):
  """Holds stacked variables; the entries are set by `fill`."""

  def __init__(self):
    self.mode = 2
    self.sub = Sub()
    self.again = self.sub


# path -> (kind, rank of one layer)
VARS = {"w": (nnx.Param, 1), "sub/k": (nnx.Param, 0), "s": (nnx.BatchStat, 1), "c": (nnx.Cache, 0), "bc": (VarB, 1), "t": (VarT, 2)}
NEW = {"axis": ("nw", nnx.Param), "carry": ("nc", nnx.Cache), "bcast": ("nb", VarB), "axis2": ("ns", nnx.BatchStat)}

# name -> (variable_axes, variable_broadcast, kinds: kind -> axis | "carry" | "bcast")
CONFIGS = {
    "P0": ({nnx.Param: 0}, VarB, {nnx.Param: 0}),
    "P0S0": ({nnx.Param: 0, nnx.BatchStat: 0}, VarB, {nnx.Param: 0, nnx.BatchStat: 0}),
    "P0S1": ({nnx.Param: 0, nnx.BatchStat: 1}, VarB, {nnx.Param: 0, nnx.BatchStat: 1}),
    "S-1": ({nnx.BatchStat: -1}, VarB, {nnx.BatchStat: -1}),
    "PS tuple": ({(nnx.Param, nnx.BatchStat): 0}, VarB, {nnx.Param: 0, nnx.BatchStat: 0}),
    "carry": ({}, None, {}),
    "T2": ({nnx.Param: 0, VarT: 2}, VarB, {nnx.Param: 0, VarT: 2}),
    "T1": ({VarT: 1, nnx.BatchStat: -1}, None, {VarT: 1, nnx.BatchStat: -1}),
    "T-3": ({VarT: -3, nnx.BatchStat: -2}, None, {VarT: -3, nnx.BatchStat: -2}),
    "S1 no bcast": ({nnx.BatchStat: 1}, None, {nnx.BatchStat: 1}),
}


def role(cfg, kind):
  kinds = CONFIGS[cfg][2]
  if kind in kinds:
    return kinds[kind]
  if CONFIGS[cfg][1] is VarB and kind is VarB:
    return "bcast"
  return "carry"


def initial(cfg, L):
  """{path: full array (stacked when it has an axis)}."""
  out, base = {}, 1
  for path, (kind, rank) in VARS.items():
    r = role(cfg, kind)
    shape = (2,) * rank
    if isinstance(r, int):
      arr = np.stack([np.arange(int(np.prod(shape)), dtype=np.float32).reshape(shape) + base + 3 * i for i in range(L)],
                     axis=r)
    else:
      arr = np.arange(int(np.prod(shape)), dtype=np.float32).reshape(shape) + base
    out[path] = arr
    base += 1
  return out


def put(m, path, kind, val):
  *p, n = path.split("/")
  for q in p:
    m = getattr(m, q)
  if n in vars(m):
    setattr(m, n, val)
  else:
    setattr(m, n, kind(val, note="n1") if kind is nnx.Param else kind(val))


def fill(cfg, L, cls=Layer):
  m = cls()
  for path, arr in initial(cfg, L).items():
    put(m, path, VARS[path][0], jnp.asarray(arr))
  return m


def ns_layer():
  m = SimpleNamespace(mode=2, sub=SimpleNamespace())
  m.again = m.sub
  return m


def ns_put(m, path, val):
  *p, n = path.split("/")
  for q in p:
    m = getattr(m, q)
  setattr(m, n, val)


def ns_get(m, path):
  for q in path.split("/"):
    m = getattr(m, q)
  return m


def make_body(cfg, new, draw=None):
  def body(m, carry, x, *extra, ctx=None, scale=1.0, **kw):
    plain = isinstance(m, SimpleNamespace)
    assert not kw

    def create(name, kind, val):
      if plain or hasattr(m, name):
        setattr(m, name, val)
      else:
        setattr(m, name, kind(val))
    xs = sum(jnp.sum(v) * (i + 1) for i, v in enumerate(jax.tree_util.tree_leaves(x)))
    c = carry["c"] * 2 + m.w.sum() + xs * m.mode + m.again.k * scale + sum(extra)
    if role(cfg, nnx.Param) != "carry":
      c = c + m.bc[1]
    m.s = m.s * 2 + carry["c"] % 7
    m.c = m.c * 2 + xs
    c = c + m.t[0, 1]
    m.t = m.t + jnp.array([[1, 2], [3, 4]], f32) * carry["c"]
    m.sub.k = m.again.k + 1
    for n in new:
      name, kind = NEW[n]
      r = role(cfg, kind)
      if r == "carry":
        old = getattr(m, name) if hasattr(m, name) else 0
        create(name, kind, old * 2 + xs + 1)
      elif r == "bcast":
        if hasattr(m, name):
          c = c + getattr(m, name)[0] % 5
        else:
          create(name, kind, jnp.stack([xs, c]))
      else:
        create(name, kind, jnp.stack([xs + 2, c]))
    y = {"o": jnp.stack([c, xs, m.c]), "t": (m.s,), "m": m.t + jnp.array([[0, xs], [c % 5, 3]], f32)}
    if draw is not None:
      y["k"] = [ctx.make_rng(d) for d in draw]
      y["f"] = f32(ctx.get_flag("t") or 0)
    return {"c": c % 64, "n": carry["n"] + 1}, y
  return body


def loop(cfg, new, L, init, carry, xs, in_axes, out_axes, reverse, extra=(), kw={}, draw=None, ctx_of=None):
  """The unrolled loop: returns (carry, outputs stacked, {path: final array})."""
  body = make_body(cfg, new, draw)
  shared = {}  # carried and broadcast values
  for path, (kind, _) in VARS.items():
    if not isinstance(role(cfg, kind), int):
      shared[path] = init[path]
  final = {}
  ys = [None] * L
  stacked = {}
  order = list(range(L))[::-1] if reverse else list(range(L))
  for step, i in enumerate(order):
    m = ns_layer()
    for path, (kind, _) in VARS.items():
      r = role(cfg, kind)
      ns_put(m, path, jnp.asarray(np.take(init[path], i, axis=r)) if isinstance(r, int) else jnp.asarray(shared[path]))
    for path in shared:
      if path not in VARS:
        setattr(m, path, shared[path])
    before_b = {p: v for p, v in shared.items() if (VARS[p][0] if p in VARS else {v[0]: v[1] for v in NEW.values()}[p]) is VarB and role(cfg, VarB) == "bcast"}
    x = jax.tree_util.tree_map(lambda v: jnp.asarray(v), take(xs, in_axes, i))
    k = dict(kw)
    if ctx_of:
      k["ctx"] = ctx_of(i)
    carry, ys[i] = body(m, carry, x, *extra, **k)
    for path in list(VARS) + [NEW[n][0] for n in new]:
      kind = VARS[path][0] if path in VARS else {v[0]: v[1] for v in NEW.values()}[path]
      r = role(cfg, kind)
      val = np.asarray(ns_get(m, path))
      if isinstance(r, int):
        stacked.setdefault(path, [None] * L)[i] = val
      elif path not in before_b:
        shared[path] = val
  for path, vals in stacked.items():
    kind = VARS[path][0] if path in VARS else {v[0]: v[1] for v in NEW.values()}[path]
    final[path] = np.stack(vals, axis=role(cfg, kind))
  final.update(shared)
  return carry, stack(ys, out_axes), final


def take(xs, axes, i):
  if isinstance(axes, int):
    return jax.tree_util.tree_map(lambda v: np.take(v, i, axis=axes), xs)
  return {k: take(xs[k], axes[k], i) for k in xs}


def stack(ys, axes):
  if isinstance(axes, int):
    return jax.tree_util.tree_map(lambda *v: np.stack([np.asarray(a) for a in v], axis=axes), *ys)
  return {k: stack([y[k] for y in ys], axes[k]) for k in ys[0]}


def tolist(t):
  return jax.tree_util.tree_map(lambda v: (str(np.asarray(v).dtype), np.asarray(v).tolist()), t)


def entries(m):
  out = {}
  for path, v in m.get_state().items():
    require(isinstance(v, nnx.Variable), f"{path} is a {type(v).__name__}")
    require(not isinstance(v.value, jax.core.Tracer), f"{path} holds a tracer")
    if VARS.get(path, (None,))[0] is nnx.Param:
      require_eq(v.note, "n1", f"metadata of {path}")
    out[path] = (type(v).__name__, np.asarray(v.value).tolist())
  return out


def want_entries(final):
  out = {}
  for path, arr in final.items():
    kind = VARS[path][0] if path in VARS else {v[0]: v[1] for v in NEW.values()}[path]
    path = path.replace("sub/", "again/")
    out[path] = (kind.__name__, np.asarray(arr).tolist())
  return out


def canon(path):
  return path.replace("sub/", "again/")


def options(cfg, **kw):
  axes, bcast, _ = CONFIGS[cfg]
  return dict(variable_axes=axes, variable_broadcast=bcast, **kw)


def compare(m, got, want, final, what):
  (gc, gy), (wc, wy) = got, want
  require_eq(tolist(gc), tolist(wc), f"{what}: carry")
  require_eq(tolist(gy), tolist(wy), f"{what}: outputs")
  e = entries(m)
  require_eq(e, want_entries(final), f"{what}: module variables")
  require(m.sub is m.again and m.mode == 2, f"{what}: structure changed")


CARRY = lambda: {"c": f32(1), "n": jnp.int32(0)}


def run(case, cov):
  cfg, L, reverse, unroll, new, give_len = case
  m = fill(cfg, L)
  body = make_body(cfg, new)
  init = initial(cfg, L)
  for _ in range(1):
    xs = {"a": np.arange(2 * L, dtype=np.float32).reshape(L, 2) + 1}
    g = nnx.scan(body, **options(cfg, reverse=reverse, unroll=unroll, length=L if give_len else None))
    got = g(m, CARRY(), jax.tree_map(jnp.asarray, xs), f32(3), scale=f32(2))
    wc, wy, final = loop(cfg, new, L, init, CARRY(), xs, 0, 0, reverse, (f32(3),), {"scale": f32(2)})
    compare(m, got, (wc, wy), final, str(case))
    cov.trans()
  cov.state((case, repr(entries(m))))


def subsets(xs):
  return [c for n in range(len(xs) + 1) for c in itertools.combinations(xs, n)]


def gen(tier):
  Ls, unrolls = ((1, 2, 3), (1, 2)) if tier == "quick" else ((1, 2, 3, 4), (1, 2, 3, 4))
  for cfg, L, reverse, unroll, new in itertools.product(CONFIGS, Ls, (False, True), unrolls, subsets(list(NEW)[:3])):
    if tier == "quick" and unroll == 2 and len(new) == 2:
      continue
    yield (cfg, L, reverse, unroll, new, (L + unroll) % 2 == 0)
  for cfg, new in itertools.product(("P0S0", "P0S1", "S-1"), (("axis2",), ("axis2", "carry", "bcast"))):
    for L, reverse in itertools.product((1, 3), (False, True)):
      yield (cfg, L, reverse, 1, new, True)


# ---- in and out axes

IN = {"0": 0, "1": 1, "-1": -1, "tree": {"a": 0, "b": 1}, "tree2": {"a": 1, "b": -1}, "tree3": {"a": -2, "b": 2}, "tree4": {"a": 0, "b": -2}}
OUT = {"0": 0, "1": 1, "-1": -1, "tree": {"o": 1, "t": 0, "m": 2}, "tree2": {"o": -1, "t": 1, "m": 1},
       "tree3": {"o": -2, "t": 0, "m": -2}}


def run_axes(case, cov):
  i, o, cfg, L, reverse, new = case
  m = fill(cfg, L)
  in_axes, out_axes = IN[i], OUT[o]
  step = [{"a": np.array([1.0, 2.0], np.float32) + k, "b": np.array([[k, 5.0], [7.0, 2 * k]], np.float32)} for k in range(L)]
  xs = stack(step, in_axes)
  body = make_body(cfg, new)
  g = nnx.scan(body, **options(cfg, reverse=reverse, in_axes=in_axes, out_axes=out_axes))
  got = g(m, CARRY(), jax.tree_map(jnp.asarray, xs))
  wc, wy, final = loop(cfg, new, L, initial(cfg, L), CARRY(), xs, in_axes, out_axes, reverse)
  compare(m, got, (wc, wy), final, str(case))
  cov.trans()
  cov.state(case)


def run_class(case, cov):
  """The same loop through nnx.Scan: its call, a named method, and its call on a method."""
  form, cfg, L, reverse, unroll, i, o, new, sp = case
  body = make_body(cfg, new, ("drop", "params") if sp else None)

  class Lifted(Layer):
    def __call__(self, *args, **kw):
      return body(self, *args, **kw)

    def named(self, *args, **kw):
      return body(self, *args, **kw)
  in_axes, out_axes = IN[i], OUT[o] if not sp else {**OUT[o], "k": 0} if isinstance(OUT[o], dict) else OUT[o]
  sc = nnx.Scan(Lifted, **options(cfg, reverse=reverse, unroll=unroll, length=L, in_axes=in_axes, out_axes=out_axes, **(dict(split_rngs=SPLITS_ALL[sp][0]) if sp else {})))()
  require_eq((type(sc), type(sc.scan_module)), (nnx.Scan, Lifted), "lifted module")
  m = sc.scan_module = fill(cfg, L, Lifted)
  step = [{"a": np.array([1.0, 2.0], np.float32) + k, "b": np.array([[k, 5.0], [7.0, 2 * k]], np.float32)} for k in range(L)]
  xs = stack(step, in_axes)
  ctx, ref = (nnx.context(0, drop=1), nnx.context(0, drop=1)) if sp else (None, None)
  call = sc if form == "call" else sc.call if form == "call call" else sc.call.named
  got = call(CARRY(), jax.tree_map(jnp.asarray, xs), f32(3), scale=f32(2), **(dict(ctx=ctx) if sp else {}))
  ctx_of = None
  if sp:
    split = SPLITS_ALL[sp][1]
    keys, cdef = ref.partition()
    sk = {n: jax.random.split(keys[n], L) for n in split}
    ctx_of = lambda i: cdef.merge({n: sk[n][i] if n in sk else keys[n] for n in keys})
  wc, wy, final = loop(cfg, new, L, initial(cfg, L), CARRY(), xs, in_axes, out_axes, reverse, (f32(3),), {"scale": f32(2)},
                       draw=("drop", "params") if sp else None, ctx_of=ctx_of)
  require(sc.scan_module is m, "the call replaced the lifted module")
  compare(m, got, (wc, wy), final, str(case))
  cov.trans()
  cov.state(case)


def run_program(case, cov):
  """The traced program is one loop with the given length, direction and unrolling."""
  form, L, reverse, unroll = case
  cov.state(case)
  cov.trans()
  kw = options("P0S0", **{k: v for k, v in dict(reverse=reverse, unroll=unroll).items() if v is not None})
  body = make_body("P0S0", ())

  class Lifted(Layer):
    def __call__(self, *args):
      return body(self, *args)

  def f(s, d, xs):
    m = d.merge(s)
    if form == "function":
      return nnx.scan(body, **kw)(m, CARRY(), xs)
    sc = nnx.Scan(Lifted, **kw, length=L)()
    sc.scan_module = m
    return sc(CARRY(), xs)
  s, d = fill("P0S0", L, Lifted).partition()
  eqns = list(eqns_of(jax.make_jaxpr(lambda s, xs: f(s, d, xs))(s, {"a": jnp.ones((L, 2))}).jaxpr, "scan"))
  got = [(e.params["length"], e.params["reverse"], e.params["unroll"]) for e in eqns]
  require_eq(got, [(L, bool(reverse), unroll or 1)], "loops in the program (length, reverse, unroll)")


CLASS_OPTS = [(False, 1, "0", "0"), (True, 1, "0", "0"), (False, 2, "0", "0"), (False, 1, "1", "0"), (False, 1, "0", "1"), (False, 1, "tree2", "0"),
              (True, 2, "tree", "tree2"), (False, 1, "-1", "-1"), (True, 1, "tree3", "tree3")]


def gen_class(tier):
  news = ((), ("carry", "axis")) if tier == "quick" else subsets(list(NEW)[:3])
  for form in ("call", "call call", "named"):
    for cfg in ("P0S1", "carry") if tier == "quick" else ("P0", "P0S0", "P0S1", "S-1", "carry", "PS tuple"):
      for reverse, unroll, i, o in CLASS_OPTS:
        for new in news:
          yield form, cfg, 3, reverse, unroll, i, o, new, None
    for sp in ("drop", "all", "none", "map"):
      for reverse in (False, True):
        yield form, "P0S0", 2, reverse, 1, "0", "0", (), sp


def gen_axes(tier):
  news = ((), ("carry",)) if tier == "quick" else subsets(list(NEW)[:3])
  return itertools.product(IN, OUT, ("P0S1", "carry"), (1, 2, 3), (False, True), news)


# ---- RNG splitting

SPLITS = {"none": (None, ()), "drop": ("drop", ("drop",)), "all": (..., ("drop", "params")), "list": (["params", "drop"], ("drop", "params")),
          "params list": (["params"], ("params",)), "fn": (lambda n: n == "drop", ("drop",)), "map": ({"drop": True, "params": False}, ("drop",)),
          "unknown": ("zzz", ()), "empty": ([], ())}
SPLITS2 = {"nested": ([["drop"], {"params": True}], ("drop", "params")), "map of lists": ({("drop", "zzz"): True, "params": False}, ("drop",)),
           "map all": ({...: False, "params": True}, ("params",)), "with none": ((None, "drop"), ("drop",)), "with all": (("zzz", ...), ("drop", "params")),
           "map twice": ({"drop": True, ...: True}, ("drop", "params")), "tuple": (("drop", "drop"), ("drop",)), "map none": ({None: True}, ()),
           "list fn": ([lambda n: n.startswith("p"), "zzz"], ("params",)), "prefix": ("dro", ()), "longer": ("drops", ()), "empty map": ({}, ())}
SPLITS_ALL = {**SPLITS, **SPLITS2}


def run_rng(case, cov):
  sp, L, reverse, new, pre, which = case
  flt, split = SPLITS_ALL[sp]
  mk, have = CTXS[which]
  split = tuple(n for n in split if n in have)
  ctx, ref = mk(), mk()
  for c in (ctx, ref):
    for _ in range(pre if "drop" in have else 0):
      c.make_rng("drop")
  m = fill("P0S0", L)
  draw = tuple(n for n in ("drop", "params", "drop") if n in have)
  body = make_body("P0S0", new, draw)
  xs = {"a": np.arange(2 * L, dtype=np.float32).reshape(L, 2) + 1}
  init = initial("P0S0", L)
  g = nnx.scan(body, **options("P0S0", reverse=reverse, split_rngs=flt))
  allkeys = []
  for rep in range(2):
    got = g(m, CARRY(), jax.tree_map(jnp.asarray, xs), ctx=ctx)
    keys, cdef = ref.partition()
    sk = {n: jax.random.split(keys[n], L) for n in split}
    ctx_of = lambda i: cdef.merge({n: sk[n][i] if n in sk else keys[n] for n in keys})
    wc, wy, final = loop("P0S0", new, L, init, CARRY(), xs, 0, 0, reverse, draw=draw, ctx_of=ctx_of)
    cov.trans()
    if rep == 0:
      compare(m, got, (wc, wy), final, str(case))
    require_eq(tolist(got[1]["k"]), tolist(wy["k"]), f"call {rep}: keys")
    for j, name in enumerate(draw):
      ks = [tuple(k) for k in np.asarray(got[1]["k"][j]).tolist()]
      if name in split:
        require(len(set(ks)) == L, "split stream repeats keys between layers")
      else:
        require(len(set(ks)) == 1, "unsplit stream differs between layers")
      allkeys += set((name, j, k) for k in ks)
    if new:
      break  # created variables are part of the module now
  require(len(set((n, k) for n, j, k in allkeys)) == len(allkeys), "a key was drawn twice")
  # the outer context moved on by exactly one split
  for n in ("drop", "params"):
    require_eq(ctx.has_rng(n), n in have, "context after the scan")
    if n in have:
      require_eq(tolist(ctx.make_rng(n)), tolist(ref.make_rng(n)), "context after the scan")
  require_eq(ctx.get_flag("t"), ref.get_flag("t"), "flags after the scan")
  cov.state(case)


CTXS = {"both": (lambda: nnx.context(0, drop=1, flags=dict(t=True)), ("drop", "params")),
        "drop": (lambda: nnx.context(drop=1), ("drop",)), "params": (lambda: nnx.context(0, flags=dict(t=False)), ("params",)),
        "flags": (lambda: nnx.context(flags=dict(t=True)), ()), "empty": (lambda: nnx.context(), ())}


def gen_rng(tier):
  yield from itertools.product(SPLITS, (1, 3) if tier == "quick" else (1, 2, 3, 4), (False, True), ((), ("carry", "axis")), (0, 2), ("both",))
  yield from itertools.product(SPLITS, (2,), (False, True) if tier == "thorough" else (False,), ((),), (1,), tuple(CTXS)[1:])
  yield from itertools.product(SPLITS2, (2,), (False,), ((),), (0,), ("both", "params"))


# ---- initialization

class Init(nnx.Module):
  def __init__(self, n, *, ctx, scale=1.0):
    self.w = nnx.Param(jax.random.normal(ctx.make_rng("params"), (n, 2)) * scale)
    self.s = nnx.BatchStat(jnp.full((n,), scale, f32))
    self.sub = Sub2(n, ctx=ctx)
    self.again = self.sub
    self.c = nnx.Cache(jnp.arange(float(n)))
    self.bc = VarB(f32(n))
    self.mode = n

  def __call__(self, carry, x):
    self.c = self.c + x
    return carry + self.w.sum() * 0 + x, x * 2

  def named(self, carry, x, k):
    return carry * k + x, (x,)


class Sub2(nnx.Module):
  def __init__(self, n, *, ctx):
    self.k = nnx.Param(jax.random.normal(ctx.make_rng("drop"), (n,)), sharding=("d",))


INIT_AXES = {"P0": {nnx.Param: 0}, "P1": {nnx.Param: 1}, "P-1": {nnx.Param: -1}, "P0S1": {nnx.Param: 0, nnx.BatchStat: 1},
             "PS": {(nnx.Param, nnx.BatchStat): 0}}


def run_init(case, cov):
  form, axes, sp, L, bc = case
  flt, split = SPLITS[sp]
  n = 2
  kw = dict(variable_axes=INIT_AXES[axes], variable_broadcast=VarB if bc else None, split_rngs=flt, length=L)
  ctx, ref = nnx.context(0, drop=1), nnx.context(0, drop=1)
  if form == "class":
    outer = nnx.Scan(Init, **kw)(n, ctx=ctx, scale=2.0)
    m = outer.scan_module
  else:
    class Dec(nnx.Module):
      __init__ = nnx.scan(Init.__init__, is_init=True, **kw) if form == "decorator flag" else nnx.scan(Init.__init__, **kw)
      __call__ = nnx.scan(Init.__call__, **kw)
      named = nnx.scan(Init.named, **kw)
    m = Dec(n, ctx=ctx, scale=2.0)
    outer = m
  keys, cdef = ref.partition()
  sk = {k: jax.random.split(keys[k], L) for k in split}
  layers = [Init(n, ctx=cdef.merge({k: sk[k][i] if k in sk else keys[k] for k in keys}), scale=2.0) for i in range(L)]
  got = {}
  for path, v in m.get_state().items():
    require(not isinstance(v.value, jax.core.Tracer), f"tracer at {path}")
    got[path] = (type(v).__name__, np.asarray(v.value).shape, v.sharding)
  want, vals = {}, {}
  for path, v0 in layers[0].get_state().items():
    kind = type(v0)
    ax = [a for f, a in INIT_AXES[axes].items() if kind is f or (isinstance(f, tuple) and kind in f)]
    arrs = [np.asarray(l.get_state()[path].value) for l in layers]
    if ax and not (arrs[0].ndim == 0):
      arr = np.stack(arrs, axis=ax[0])
    elif ax:
      arr = np.stack(arrs)
    else:
      arr = arrs[0]
    vals[path] = arr
    want[path] = (kind.__name__, arr.shape, v0.sharding)
  require_eq(got, want, "entries after init")
  for path, arr in vals.items():
    require(np.allclose(np.asarray(m.get_state()[path].value), arr, atol=1e-5), f"values of {path} differ from the separately built layers")
    for i, j in itertools.combinations(range(L), 2):
      if path.endswith("w") and "params" in split or path.endswith("k") and "drop" in split:
        a = [np.asarray(l.get_state()[path].value) for l in layers]
        require(not np.allclose(a[i], a[j]), "layers initialized alike")
  require(m.sub is m.again and m.mode == n, "structure after init")
  require_eq(tolist(ctx.make_rng("drop")), tolist(ref.make_rng("drop")), "context after init")
  # the lifted module can be called
  before_c = np.asarray(m.c)
  x = jnp.arange(float(L))
  c, y = outer(f32(1), x)
  require_eq((float(c), np.asarray(y).tolist()), (1 + sum(range(L)), (np.arange(L) * 2.0).tolist()), "call after init")
  require_eq(np.asarray(m.c).tolist(), (before_c + sum(range(L))).tolist(), "carried variable after call")
  c, y = (outer.call.named if form == "class" else outer.named)(f32(1), x, f32(2))
  w = 1.0
  for i in range(L):
    w = w * 2 + i
  require_eq((float(c), np.asarray(y[0]).tolist()), (w, np.arange(float(L)).tolist()), "named method")
  cov.trans(3)
  cov.state(case)


def gen_init(tier):
  sps = ("all", "drop", "list", "params list", "fn") if tier == "quick" else [s for s in SPLITS]
  return itertools.product(("class", "decorator", "decorator flag"), INIT_AXES, sps, (1, 2, 3), (True, False))


def run_reject(case, cov):
  """Calls that cannot mean anything are refused and leave module and context as they were."""
  what, form = case
  cov.state(case)
  cov.trans()

  def make(kw, *args, **kwargs):
    if form == "class":
      return nnx.Scan(Init, **kw)(*args, **kwargs)

    class Dec(nnx.Module):
      __init__ = nnx.scan(Init.__init__, **kw)
    return Dec(*args, **kwargs)
  ctx = nnx.context(0, drop=1)
  ref = nnx.context(0, drop=1)
  axes = {nnx.Param: 0}
  if what == "no length":
    expect_raises(ValueError, lambda: make(dict(variable_axes=axes), 2, ctx=ctx), "variable_axes without a length")
  elif what == "no length split":
    for flt in ("drop", ..., ["params"]):
      expect_raises(ValueError, lambda: make(dict(split_rngs=flt), 2, ctx=nnx.context(0, drop=1)), "split_rngs without a length")
  elif what == "context":
    for bad in (1, nnx.context(0).partition(), {"params": jax.random.PRNGKey(0)}, "ctx"):
      expect_raises(TypeError, lambda: make(dict(variable_axes=axes, length=2), 2, ctx=bad), f"{type(bad).__name__} as ctx of a constructor")
  elif what == "call context":
    for bad in (1, nnx.context(0).partition(), {"params": jax.random.PRNGKey(0)}, "ctx"):
      m = fill("P0S0", 2)
      before = heap.observe(m)
      g = nnx.scan(lambda m, c, x, ctx: (c, x), **options("P0S0"))
      expect_raises(TypeError, lambda: g(m, f32(0), jnp.ones((2,)), ctx=bad), f"{type(bad).__name__} as ctx of a call")
      require_eq(heap.observe(m), before, "refused call changed the module")
  elif what == "filter":
    for bad in (3, 2.5, object()):
      expect_raises(TypeError, lambda: make(dict(variable_axes=axes, split_rngs=bad, length=2), 2, ctx=nnx.context(0, drop=1)), f"rng filter {bad}")
      expect_raises(TypeError, lambda: nnx.scan(lambda m, c, x, ctx: (c, x), **options("P0S0", split_rngs=[bad]))(
          fill("P0S0", 2), f32(0), jnp.ones((2,)), ctx=nnx.context(0, drop=1)), f"rng filter with {bad}")
  if what == "no length":
    require_eq(tolist(ctx.make_rng("drop")), tolist(ref.make_rng("drop")), "refused constructor drew from the context")


# ---- lengths, errors, histories

def run_len(case, cov):
  kind, lv, lx, lo = case
  cov.state(case)
  cov.trans()
  cfg = "P0S0"
  m = fill(cfg, lv) if kind != "no vars" else fill("carry", 1)
  before = heap.observe(m)
  cfg = "carry" if kind == "no vars" else cfg
  xs = None if lx is None else {"a": jnp.ones((lx, 2))} if kind != "ragged" else {"a": jnp.ones((lx, 2)), "b": jnp.ones((lx + 1, 2))}
  g = nnx.scan(lambda m, c, x: ({"c": c["c"] + 1, "n": c["n"]}, c["c"]), **options(cfg, length=lo))
  lens = set(([] if kind == "no vars" else [lv]) + ([] if lx is None else [lx]) + ([] if lo is None else [lo]))
  if kind == "ragged":
    lens |= {lx, lx + 1}
  if len(lens) != 1:
    expect_raises(ValueError, lambda: g(m, CARRY(), xs), f"lengths {lens}")
    require_eq(heap.observe(m), before, "failed scan changed the module")
  else:
    c, y = g(m, CARRY(), xs)
    L = lens.pop()
    require_eq((float(c["c"]), np.asarray(y).tolist()), (1.0 + L, [1.0 + i for i in range(L)]), "result")


def gen_len(tier):
  for lv, lx, lo in itertools.product((1, 2, 3), (None, 1, 2, 3), (None, 0, 1, 2, 3)):
    yield ("vars", lv, lx, lo)
    if lv == 1:
      yield ("no vars", lv, lx, lo)
    if lx:
      yield ("ragged", lv, lx, lo)


class Boom(Exception):
  pass


HOPS = ("call", "rcall", "set", "new", "raise", "apply", "jit")


def run_hist(case, cov):
  cfg, seq = case
  L = 2
  m = fill(cfg, L)
  body = make_body(cfg, ())
  state = initial(cfg, L)
  carry = CARRY()
  xs = {"a": np.arange(2 * L, dtype=np.float32).reshape(L, 2) + 1}
  jx = jax.tree_map(jnp.asarray, xs)
  f = {r: nnx.scan(body, **options(cfg, reverse=r)) for r in (False, True)}
  flag = [False]

  def bad(m, c, x):
    out = body(m, c, x)
    if flag[0]:
      raise Boom()
    return out
  fb = nnx.scan(bad, **options(cfg))
  for op in seq:
    cov.trans()
    if op in ("call", "rcall", "apply", "jit", "new"):
      if op == "jit":
        got = nnx.jit(lambda m, c, x: f[False](m, c, x))(m, carry, jx)
      elif op == "apply":
        before = heap.observe(m)
        p = m.partition()
        m2 = p.merge()
        got = f[False](m2, carry, jx)
        require_eq(heap.observe(m), before, "scan of a merged copy changed the original")
        m = m2
      elif op == "new":
        got = nnx.scan(body, **options(cfg))(m, carry, jx)
      else:
        got = f[op == "rcall"](m, carry, jx)
      wc, wy, state = loop(cfg, (), L, state, carry, xs, 0, 0, op == "rcall")
      compare(m, got, (wc, wy), state, f"{seq} {op}")
      state = {k: np.mod(v, 32).astype(np.float32) for k, v in state.items()}
      for k, v in state.items():
        put(m, k, VARS[k][0], jnp.asarray(v))
      carry = wc
    elif op == "set":
      state["s"] = state["s"] + 1
      m.s = jnp.asarray(state["s"])
    else:
      before = heap.observe(m)
      flag[0] = True
      expect_raises(Boom, lambda: fb(m, carry, jx), "raising body")
      flag[0] = False
      require_eq(heap.observe(m), before, "raising scan changed the module")
      m.c = m.c + 1
      state["c"] = state["c"] + 1
  cov.state((case, heap.observe(m)))


def gen_hist(tier):
  for cfg in ("P0S1", "carry") if tier == "quick" else CONFIGS:
    for seq in itertools.product(HOPS, repeat=2 if tier == "quick" else 3):
      yield (cfg, seq)


# ---- names of the scanned function

NAMES = ("init", "_init", "_init_", "__init", "init__", "initialize", "__call__", "call", "__post_init__", "setup", "create", "<lambda>", "__new__", "apply")


def run_names(case, cov):
  """What a function does under scan does not depend on its name (only `__init__` is a constructor, unless is_init says otherwise)."""
  cfg, L, name, form, is_init = case
  m = fill(cfg, L)
  body = make_body(cfg, ("carry",))
  kw = {} if is_init is None else {"is_init": is_init}
  if form == "function":
    body.__name__ = name
    g = nnx.scan(body, **options(cfg), **kw)
  elif form == "qualname":
    body.__name__ = name
    body.__qualname__ = "Init.__init__"
    g = nnx.scan(body, **options(cfg), **kw)
  else:  # looked up on a class
    def method(self, carry, x, *extra, **k):
      return body(self, carry, x, *extra, **k)
    method.__name__ = name
    cls = type("Named", (Layer,), {"run": nnx.scan(method, **options(cfg), **kw)})
    m = fill(cfg, L, cls)
    g = cls.run
  xs = {"a": np.arange(2 * L, dtype=np.float32).reshape(L, 2) + 1}
  got = g(m, CARRY(), jax.tree_map(jnp.asarray, xs), f32(3), scale=f32(2))
  wc, wy, final = loop(cfg, ("carry",), L, initial(cfg, L), CARRY(), xs, 0, 0, False, (f32(3),), {"scale": f32(2)})
  compare(m, got, (wc, wy), final, str(case))
  cov.state((case, repr(entries(m))))
  cov.trans()


def run_named_init(case, cov):
  """is_init=False: a function that happens to be called __init__ is an ordinary body when told so."""
  L, _ = case
  cfg = "P0S1"
  body = make_body(cfg, ())
  body.__name__ = "__init__"
  m = fill(cfg, L)
  xs = {"a": np.arange(2 * L, dtype=np.float32).reshape(L, 2) + 1}
  got = nnx.scan(body, is_init=False, **options(cfg))(m, CARRY(), jax.tree_map(jnp.asarray, xs), f32(3), scale=f32(2))
  wc, wy, final = loop(cfg, (), L, initial(cfg, L), CARRY(), xs, 0, 0, False, (f32(3),), {"scale": f32(2)})
  compare(m, got, (wc, wy), final, str(case))
  cov.state(case)
  cov.trans()


def gen_names(tier):
  return itertools.product(("P0", "P0S1"), (1, 3), NAMES, ("function", "qualname", "method"), (None, False))


SECTIONS = [Section("calls", gen, run), Section("axes", gen_axes, run_axes), Section("rngs", gen_rng, run_rng),
            Section("classes", gen_class, run_class),
            Section("program", lambda t: itertools.product(("function", "class"), (2, 3, 5), (None, False, True), (None, 1, 2, 3)), run_program),
            Section("refusals", lambda t: itertools.product(("no length", "no length split", "context", "call context", "filter"), ("class", "decorator")), run_reject),
            Section("init", gen_init, run_init), Section("lengths", gen_len, run_len), Section("histories", gen_hist, run_hist),
            Section("names", gen_names, run_names), Section("named init", lambda t: [(1, 0), (2, 0), (3, 0)], run_named_init)]
