"""C34: compositions of transforms equal the composition of their meanings."""
import itertools
from types import SimpleNamespace

import jax
import jax.numpy as jnp
import numpy as np
import nnx

from mc.core import Section, Violation, require, require_eq

RULE = ("every stack of transforms up to the depth bound over a menu of twelve transforms x side effects at every level x call histories "
        "(repeated calls, a static attribute changed between calls), x an exception at every level, early or late, caught at "
        "every outer level or not at all, x the ambient computation (none, jax.jit, jax.vmap, jax.grad); the reference evaluates "
        "the same program on exact polynomials (loops for scan, formal differentiation for grad, identity for jit and remat); "
        "states = (stack, effects, module after each call), transitions = calls")
ASSUMPTIONS = ["float64 with integers; compared exactly below 2^45, with a relative tolerance of 1e-9 beyond",
               "variables broadcast by scan are not modified", "static attributes are not modified inside transforms"]
BOUNDS = {"quick": "depth <= 2 of 12 transforms, depth 3 of 5 transforms with 2 effect assignments",
          "thorough": "depth <= 3 of 12 transforms, depth 4 of 5 transforms"}

jax.config.update("jax_enable_x64", True)  # integers are exact below 2^53
f32 = jnp.float64
XS = (1, 2)  # the scanned argument


class Poly:
  """Polynomial with exact coefficients in symbols (integers): {sorted tuple of symbols: coefficient}."""
  __slots__ = ("t",)

  def __init__(self, t=None):
    self.t = t or {}

  @classmethod
  def of(cls, v):
    return v if isinstance(v, Poly) else cls({(): v} if v else {})

  def __add__(self, o):
    t = dict(self.t)
    for k, c in Poly.of(o).t.items():
      t[k] = t.get(k, 0) + c
      if not t[k]:
        del t[k]
    return Poly(t)
  __radd__ = __add__

  def __mul__(self, o):
    t = {}
    for k2, c2 in Poly.of(o).t.items():
      for k1, c1 in self.t.items():
        k = tuple(sorted(k1 + k2))
        t[k] = t.get(k, 0) + c1 * c2
    return Poly({k: c for k, c in t.items() if c})
  __rmul__ = __mul__

  def diff(self, v):
    t = {}
    for k, c in self.t.items():
      n = k.count(v)
      if n:
        r = list(k)
        r.remove(v)
        t[tuple(r)] = t.get(tuple(r), 0) + c * n
    return Poly(t)

  def subst(self, env):
    out = Poly()
    for k, c in self.t.items():
      p = Poly({(): c})
      rest = []
      for s in k:
        if s in env:
          p = p * env[s]
        else:
          rest.append(s)
      out = out + p * Poly({tuple(rest): 1})
    return out

  def value(self):
    assert all(k == () for k in self.t), "free symbols"
    return self.t.get((), 0)


def tmap(f, *xs):
  """Elementwise on nested lists of the reference."""
  if isinstance(xs[0], list):
    return [tmap(f, *ys) for ys in zip(*xs)]
  return f(*xs)


def agree(got, want, what):
  """Exact while integers are exact in float64, relative to the largest entry beyond."""
  got, flatwant = np.asarray(got), flat(want)
  require_eq(got.shape, np.shape(want), f"{what}: shape")
  top = max(map(abs, flatwant))
  if top < 2 ** 45:
    require_eq(got.tolist(), want, what)
  else:
    for g, w in zip(got.reshape(-1).tolist(), flatwant):
      require(abs(g - w) <= 1e-9 * top, lambda: f"{what}: {g} instead of {w}")


def flat(x):
  return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


_sym = itertools.count(1)

# ------------------------------------------------------------------ modules


class Sub(nnx.Module):
  pass


class Top(nnx.Module):
  pass


PATHS = {"a": "Param", "arr": "array", "one/k": "Param", "one/s": "BatchStat", "s": "BatchStat"}
BASE = {"a": 2, "arr": 3, "one/k": 1, "one/s": -2, "s": 3}
KIND = {"Param": nnx.Param, "BatchStat": nnx.BatchStat}


def values(shapes, offset=0):
  """Nested lists of integers by path."""
  out = {}
  for path, kind in PATHS.items():
    shape = shapes[kind]
    n = int(np.prod(shape, dtype=int))
    out[path] = (np.arange(n) % 3 + BASE[path] + offset).reshape(shape).tolist()
  return out


def build(vals):
  m, sub = Top(), Sub()
  m.one = m.two = sub
  m.mode = 2
  for path, kind in PATHS.items():
    tgt, name = (sub, path[4:]) if path.startswith("one/") else (m, path)
    v = jnp.asarray(vals[path], f32)
    setattr(tgt, name, v if kind == "array" else KIND[kind](v, sharding=("p",), note=path))
  return m


def plain(vals):
  m = SimpleNamespace(mode=2, one=SimpleNamespace())
  m.two = m.one
  put(m, {p: tmap(Poly.of, v) for p, v in vals.items()})
  return m


def put(m, vals):
  for path, v in vals.items():
    tgt, name = (m.one, path[4:]) if path.startswith("one/") else (m, path)
    setattr(tgt, name, v)


def take(m):
  return {p: getattr(m.one, p[4:]) if p.startswith("one/") else getattr(m, p) for p in PATHS}


def copy(m, vals=None):
  c = SimpleNamespace(mode=m.mode, one=SimpleNamespace())
  c.two = c.one
  put(c, take(m) if vals is None else vals)
  return c


# ------------------------------------------------------------------ functions

class Boom(Exception):
  pass


def is_plain(m):
  return isinstance(m, SimpleNamespace)


def ew(m, f, *xs):
  """f elementwise, the first argument decides the shape."""
  if is_plain(m):
    if isinstance(xs[0], list):
      return tmap(lambda y: f(y, *xs[1:]), xs[0])
    return f(*xs)
  return f(*xs)


def pre(m, effect, x):
  if effect in ("stat", "both"):
    m.s = ew(m, lambda s: s + 1, m.s)
    m.arr = m.arr + x
  if effect in ("param", "both"):
    m.a = ew(m, lambda a: a * 2, m.a)


def post(m, effect, r):
  if effect in ("stat", "both"):
    m.one.s = ew(m, lambda s, r: s + r, m.one.s, r)
  if effect in ("param", "both"):
    m.two.k = ew(m, lambda k: k + 1, m.one.k)


def body(m, x):
  r = m.a * m.one.k * x + m.s * m.a * m.mode + m.two.s + m.two.k * m.one.k * x + m.arr * x
  return r


# ------------------------------------------------------------------ transforms
# each takes F(m, x) -> scalar and returns G(m, x) -> scalar

def comb(items):
  """Scalar that tells all gradient entries apart."""
  total, i = 0, 1
  for vals in items:
    for v in vals:
      total = total + v * i
      i += 1
  return total


def real_grad(F, kind, **kw):
  aux = kw.get("has_aux")
  Fx = (lambda m, x: (lambda r: (r, {"aux": r * 3}))(F(m, x))) if aux else F
  g = nnx.grad(Fx, **({} if kind == "Param" else {"wrt": KIND[kind]}), **kw)

  def G(m, x):
    out = g(m, x)
    grads, extra = (out[0], out[1]["aux"]) if aux else (out, 0)
    paths = sorted(grads)
    require_eq(paths, [p for p in sorted(PATHS) if PATHS[p] == kind], "paths of the gradients")
    for p in paths:
      require_eq((type(grads[p]).__name__, grads[p].note), (kind, p), "kind and metadata of the gradients")
    return comb([list(jnp.reshape(grads[p].value, (-1,))) for p in paths]) + extra
  return G


def ref_grad(F, kind, stateful=True, has_aux=False):
  def G(m, x):
    vals = take(m)
    env, syms = {}, {}
    fresh = dict(vals)

    def sym(v):
      s = next(_sym)
      env[s] = v
      return Poly({(s,): 1})
    for p in sorted(PATHS):
      if PATHS[p] == kind:
        fresh[p] = tmap(sym, vals[p])
        syms[p] = [next(iter(q.t))[0] for q in flat(fresh[p])]
    c = copy(m, fresh)
    r = F(c, x)
    grads = comb([[r.diff(s).subst(env) for s in syms[p]] for p in sorted(syms)])
    if stateful:
      put(m, {p: tmap(lambda v: v.subst(env), v) for p, v in take(c).items()})
    return grads + (r.subst(env) * 3 if has_aux else 0)
  return G


def real_scan(F, reverse=False, **kw):
  def Fs(m, c, x, k):
    r = F(m, x)
    return c + r, r * k
  s = nnx.scan(Fs, reverse=reverse, **kw)

  def G(m, x):
    c, ys = s(m, x, jnp.asarray(XS, f32), f32(2))
    return c + ys[0] + ys[1] * 3
  return G


def ref_scan(F, axes=(), reverse=False):
  def G(m, x):
    c = copy(m)
    stacked = {p: list(v) for p, v in take(m).items() if PATHS[p] in axes}
    carry, ys = Poly.of(x), [None] * len(XS)
    for i in (reversed(range(len(XS))) if reverse else range(len(XS))):
      put(c, {p: v[i] for p, v in stacked.items()})
      r = F(c, Poly.of(XS[i]))
      now = take(c)
      for p in stacked:
        stacked[p][i] = now[p]
      carry = carry + r
      ys[i] = r * 2
    put(m, {**take(c), **stacked})
    return carry + ys[0] + ys[1] * 3
  return G


def ref_id(F, stateful=True):
  def G(m, x):
    c = copy(m)
    r = F(c, x)
    if stateful:
      put(m, take(c))
    return r
  return G


REAL = {
    "jit": lambda F: nnx.jit(F),
    "remat": lambda F: nnx.remat(F),
    "grad": lambda F: real_grad(F, "Param"),
    "scan": lambda F: real_scan(F),
    "scanP": lambda F: real_scan(F, variable_axes={nnx.Param: 0}),
    "jitN": lambda F: nnx.jit(F, stateful=False),
    "gradA": lambda F: real_grad(F, "Param", has_aux=True),
    "gradN": lambda F: real_grad(F, "Param", stateful=False),
    "gradS": lambda F: real_grad(F, "BatchStat"),
    "scanPS": lambda F: real_scan(F, variable_axes={nnx.Param: 0, nnx.BatchStat: 0}),
    "scanR": lambda F: real_scan(F, variable_axes={nnx.BatchStat: 0}, reverse=True, length=2, unroll=2),
    "scanB": lambda F: real_scan(F, variable_broadcast=nnx.Param),
}
REF = {
    "jit": ref_id, "remat": ref_id, "grad": lambda F: ref_grad(F, "Param"), "scan": ref_scan,
    "scanP": lambda F: ref_scan(F, ("Param",)), "jitN": lambda F: ref_id(F, False),
    "gradA": lambda F: ref_grad(F, "Param", has_aux=True), "gradN": lambda F: ref_grad(F, "Param", stateful=False),
    "gradS": lambda F: ref_grad(F, "BatchStat"), "scanPS": lambda F: ref_scan(F, ("Param", "BatchStat")),
    "scanR": lambda F: ref_scan(F, ("BatchStat",), reverse=True), "scanB": ref_scan,
}
AXES = {"scanP": ("Param",), "scanPS": ("Param", "BatchStat"), "scanR": ("BatchStat",)}
CORE = ("jit", "remat", "grad", "scan", "scanP")
ALL = tuple(REAL)

# effects at the levels: the wrapping functions and the body
EFFECTS = {"none": ("none", "none"), "stat": ("stat", "stat"), "param": ("param", "param"), "both": ("both", "both"),
           "body stat": ("none", "stat"), "body param": ("none", "param"), "outer both": ("both", "none")}
PARAMFREE = ("none", "stat", "body stat")


def shapes(stack):
  out = {"Param": (), "BatchStat": (), "array": ()}
  for t in stack:
    for k in AXES.get(t, ()):
      out[k] += (len(XS),)
  return out


def program(stack, effects, table, fault=None):
  """fault: (level, "early"/"late", catching level or None); level i is the function under the i-th transform."""
  outer, inner = EFFECTS[effects]
  depth = len(stack)

  def level(i):
    effect = inner if i == depth else outer
    call = body if i == depth else table[stack[i]](level(i + 1))

    def f(m, x):
      pre(m, effect, x)
      if fault and fault[:2] == (i, "early"):
        raise Boom(i)
      if fault and fault[2] == i:
        try:
          r = call(m, x)
        except Boom:
          r = m.arr * 5
      else:
        r = call(m, x)
      post(m, effect, r)
      if fault and fault[:2] == (i, "late"):
        raise Boom(i)
      return r
    return f
  return level(0) if fault and 0 in (fault[0], fault[2]) else table[stack[0]](level(1))


def check_module(m, ref, what):
  require(m.one is m.two, f"{what}: sharing lost")
  require_eq(m.mode, ref.mode, f"{what}: static attribute")
  require_eq(sorted(vars(m)), sorted(vars(BARE)), f"{what}: attributes")
  want = {p: tmap(Poly.value, v) for p, v in take(ref).items()}
  state = dict(m.get_state().items())
  require_eq(sorted(state), sorted(PATHS), f"{what}: paths")
  for p, v in state.items():
    kind = type(v).__name__ if isinstance(v, nnx.Variable) else "array"
    require_eq(kind, PATHS[p], f"{what}: kind of {p}")
    if kind != "array":
      require_eq((v.sharding, v.note), (("p",), p), f"{what}: metadata of {p}")
      v = v.value
    require(not isinstance(v, jax.core.Tracer), lambda: f"{what}: a tracer is left in {p}")
    agree(v, want[p], f"{what}: value of {p}")


BARE = build(values({"Param": (), "BatchStat": (), "array": ()}))


def check_out(out, want, what):
  require(not isinstance(out, jax.core.Tracer), f"{what}: result is a tracer")
  agree(out, Poly.of(want).value(), f"{what}: result")


# ------------------------------------------------------------------ sections

def usable(stack, effects):
  return "scanB" not in stack or effects in PARAMFREE


def stacks(alphabet, depth):
  return itertools.product(alphabet, repeat=depth)


def gen_calls(tier):
  for d in (1, 2):
    for st in stacks(ALL, d):
      for e in EFFECTS:
        if usable(st, e) and (tier != "quick" or d == 1 or e in ("both", "stat", "body param")):
          yield (st, e)
  for st in stacks(CORE, 3):
    yield (st, "both")
  if tier != "quick":
    for st in stacks(ALL, 3):
      for e in ("both", "stat", "body param"):
        if usable(st, e) and not (set(st) <= set(CORE) and e == "both"):
          yield (st, e)
    for st in stacks(CORE, 4):
      yield (st, "both")


def run_calls(case, cov):
  stack, effects = case
  vals = values(shapes(stack))
  m, ref = build(vals), plain(vals)
  f, g = program(stack, effects, REAL), program(stack, effects, REF)
  what = f"{'('.join(stack)}, effects {effects}"
  for n, (x, mode) in enumerate(((2, 2), (1, 2), (2, 1))):
    if n == 2 and len(stack) > 2:
      break
    m.mode = ref.mode = mode
    out, want = f(m, f32(x)), g(ref, Poly.of(x))
    check_out(out, want, f"{what}, call {n}")
    check_module(m, ref, f"{what}, call {n}")
    cov.trans()
    cov.state((stack, effects, n))
  # another module of the same structure and values is not affected by the first
  if len(stack) < 3:
    m2, ref2 = build(vals), plain(vals)
    check_out(f(m2, f32(2)), g(ref2, Poly.of(2)), f"{what}, second module")
    check_module(m2, ref2, f"{what}, second module")
    check_module(m, ref, f"{what}, first module after the second was used")


def faults(depth):
  for lvl in range(1, depth + 1):
    for when in ("early", "late"):
      for catch in (None, *range(lvl)):
        yield (lvl, when, catch)


def gen_faults(tier):
  for d in (1, 2):
    for st in stacks(ALL, d):
      e = "both" if usable(st, "both") else "stat"
      yield (st, e, True)
  for st in stacks(CORE, 3):
    yield (st, "both", tier != "quick")
  if tier != "quick":
    for st in stacks(ALL, 3):
      if not set(st) <= set(CORE):
        yield (st, "both" if usable(st, "both") else "stat", False)


def run_faults(case, cov):
  stack, effects, catching = case
  vals = values(shapes(stack))
  for fault in faults(len(stack)):
    lvl, when, catch = fault
    if catch is not None and catch != lvl - 1 and not catching:
      continue
    if catch not in (None, 0) and not catching:
      continue
    if len(stack) == 2 and catch not in (None, 0) and when == "early" and not set(stack) <= set(CORE):
      continue
    m, ref = build(vals), plain(vals)
    f, g = program(stack, effects, REAL, fault), program(stack, effects, REF, fault)
    what = f"{'('.join(stack)}, {when} exception at level {lvl} caught at {catch}"
    outs = []
    for fn, mod, x in ((f, m, f32(2)), (g, ref, Poly.of(2))):
      try:
        outs.append(("ok", fn(mod, x)))
      except Boom as e:
        outs.append(("boom", e.args))
    require_eq(outs[0][0], outs[1][0], f"{what}: outcome")
    if outs[0][0] == "ok":
      check_out(outs[0][1], outs[1][1], what)
    check_module(m, ref, what)
    # the module can be used and modified afterwards
    m.a = m.a + 1
    ref.a = tmap(lambda v: v + 1, ref.a)
    m.one.s = m.one.s * 2
    ref.one.s = tmap(lambda v: v * 2, ref.one.s)
    check_module(m, ref, f"{what}, modified afterwards")
    cov.trans()
    cov.outcome(f"exception {outs[0][0]}")
    cov.state((stack, fault))
  f, g = program(stack, effects, REAL), program(stack, effects, REF)
  if len(stack) < 2 or catching and len(stack) == 3:
    check_out(f(m, f32(1)), g(ref, Poly.of(1)), f"{stack}: called after exceptions")
    check_module(m, ref, f"{stack}: called after exceptions")


AMBIENT = ("jit", "vmap", "grad", "jit vmap", "scan", "remat")


def gen_ambient(tier):
  for amb in AMBIENT:
    for st in stacks(ALL, 1):
      yield (amb, st)
    if tier != "quick" or amb in ("jit", "vmap"):
      for st in stacks(CORE, 2):
        yield (amb, st)
  if tier != "quick":
    for amb in AMBIENT:
      for st in stacks(ALL, 2):
        if not set(st) <= set(CORE):
          yield (amb, st)


def run_ambient(case, cov):
  """The module lives inside a plain jax transformation."""
  amb, stack = case
  effects = "both" if usable(stack, "both") else "stat"
  sh = shapes(stack)
  f, g = program(stack, effects, REAL), program(stack, effects, REF)

  def whole(vals, x):
    m = build(vals)
    r1 = f(m, x)
    m.s = m.s + 1
    r2 = f(m, x)
    st = {p: v.value if isinstance(v, nnx.Variable) else v for p, v in m.get_state().items()}
    return r1 + r2 * 3, st

  def ref(vals, x):
    m = copy(plain(values(sh)), vals)
    r1 = g(m, x)
    m.s = tmap(lambda s: s + 1, m.s)
    r2 = g(m, x)
    return r1 + r2 * 3, take(m)

  inputs = [values(sh, o) for o in (0, 1)]
  arrays = [{p: jnp.asarray(v, f32) for p, v in vals.items()} for vals in inputs]
  wants = [ref({p: tmap(Poly.of, v) for p, v in vals.items()}, Poly.of(2)) for vals in inputs]
  x = f32(2)

  def same(got, want, what):
    agree(got[0], Poly.of(want[0]).value(), f"{what}: result")
    for p in PATHS:
      agree(got[1][p], tmap(Poly.value, want[1][p]), f"{what}: {p}")
    cov.trans()
  what = f"{'('.join(stack)} inside jax.{amb}"
  if amb == "jit":
    fn = jax.jit(whole)
    for a, w in zip(arrays, wants):
      same(fn(a, x), w, what)
  elif amb == "remat":
    same(jax.checkpoint(whole)(arrays[0], x), wants[0], what)
  elif amb in ("vmap", "jit vmap"):
    fn = jax.vmap(whole, in_axes=(0, None))
    if amb != "vmap":
      fn = jax.jit(fn)
    out, st = fn(jax.tree_map(lambda *v: jnp.stack(v), *arrays), x)
    for i, w in enumerate(wants):
      same((out[i], {p: v[i] for p, v in st.items()}), w, f"{what}, entry {i}")
  elif amb == "scan":
    _, (out, st) = jax.lax.scan(lambda c, v: (c, whole(v, x)), 0, jax.tree_map(lambda *v: jnp.stack(v), *arrays))
    for i, w in enumerate(wants):
      same((out[i], {p: v[i] for p, v in st.items()}), w, f"{what}, entry {i}")
  else:
    # derivative of the result with respect to all initial values
    grads, st = jax.grad(whole, has_aux=True)(arrays[0], x)
    env = {}

    def sym(v):
      s = next(_sym)
      env[s] = Poly.of(v)
      return Poly({(s,): 1})
    fresh = {p: tmap(sym, v) for p, v in inputs[0].items()}
    r, rst = ref(fresh, Poly.of(2))
    for p in PATHS:
      want = tmap(lambda q: r.diff(next(iter(q.t))[0]).subst(env).value(), fresh[p])
      agree(grads[p], want, f"{what}: derivative with respect to {p}")
    same((wants[0][0].value(), st), wants[0], what)
  cov.state(case)


SECTIONS = [
    Section("stacks", gen_calls, run_calls, timeout=600),
    Section("exceptions", gen_faults, run_faults, timeout=600),
    Section("ambient", gen_ambient, run_ambient, timeout=600),
]
