"""C14: nnx.grad differentiates exactly the selected state and keeps updates."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import nnx

from mc import heap
from mc.core import Section, Violation, require, require_eq, expect_raises

RULE = ("every module graph of a family x every polynomial with up to two monomials from a menu (terms that reach shared and "
        "cyclic references by different paths) x wrt filter x stateful x has_aux x side effect (also writes to the "
        "differentiated variables before the loss); gradients are compared with symbolic differentiation of the polynomial, "
        "updates with the plain function; states = (graph, filter, module after), transitions = grad calls")
ASSUMPTIONS = ["float32 with small integers, where all operations are exact", "selected entries are floating point scalars, except in the section on options"]
BOUNDS = {"quick": "4 graphs x 45 polynomials x 9 filters (one selects nothing) x 4 modes, 7 side effects; under jit, nested grad, repeated calls; 19 forms of auxiliary output; "
                   "allow_int, holomorphic, reduce_axes x 5 dtypes squared x 4 losses against jax.grad",
          "thorough": "polynomials with up to three monomials, all side effects with all polynomials"}

f32 = jnp.float32


class Sub(nnx.Module):
  def __init__(self, v):
    self.k = nnx.Param(f32(v), sharding=("a",))
    self.s = nnx.BatchStat(f32(v + 1), note="n1")


class Top(nnx.Module):
  def __init__(self, kind):
    self.a = nnx.Param(f32(2))
    self.b = nnx.Param(f32(3))
    self.s = nnx.BatchStat(f32(4))
    self.arr = jnp.asarray(5, f32)
    self.mode = 2
    self.one = Sub(6)
    self.two = self.one if kind == "shared" else Sub(7)
    if kind == "cycle":
      self.one.up = self
      self.two.other = self.one


KINDS = ("flat", "shared", "cycle")
REFS = {"a": "a", "b": "b", "s": "s", "arr": "arr", "one.k": "one/k", "one.s": "one/s", "two.k": "two/k", "two.s": "two/s"}


def canonical(kind):
  out = dict(REFS)
  if kind == "shared":
    out["two.k"], out["two.s"] = "one/k", "one/s"
  if kind == "cycle":
    out["one.up.a"], out["two.other.k"] = "a", "one/k"
  return out


TYPES = {"a": "Param", "b": "Param", "s": "BatchStat", "arr": "array", "one/k": "Param", "one/s": "BatchStat",
         "two/k": "Param", "two/s": "BatchStat"}


def values(kind):
  return {"a": 2, "b": 3, "s": 4, "arr": 5, "one/k": 6, "one/s": 7, **({} if kind == "shared" else {"two/k": 7, "two/s": 8})}


def get(m, ref):
  for p in ref.split("."):
    m = getattr(m, p)
  return m


MONO = [  # coefficient, references
    (1, ("a",)), (3, ("a", "a")), (2, ("a", "b")), (1, ("one.k", "two.k")), (2, ("one.k", "a")), (1, ("s", "a")),
    (1, ("two.s", "two.k")), (5, ("arr", "b")), (1, ("one.s",))]
MONO_CYCLE = MONO + [(1, ("one.up.a", "a")), (2, ("two.other.k", "one.k"))]


class Poly:
  """Polynomial over canonical entries: {sorted tuple of variables: coefficient}."""

  def __init__(self, terms=()):
    self.t = {}
    for c, vs in terms:
      k = tuple(sorted(vs))
      self.t[k] = self.t.get(k, 0) + c

  def diff(self, v):
    out = Poly()
    for k, c in self.t.items():
      n = k.count(v)
      if n:
        r = list(k)
        r.remove(v)
        out.t[tuple(r)] = out.t.get(tuple(r), 0) + c * n
    return out

  def square(self):
    return Poly([(c1 * c2, k1 + k2) for k1, c1 in self.t.items() for k2, c2 in self.t.items()])

  def add(self, o):
    return Poly([(c, k) for p in (self, o) for k, c in p.t.items()])

  def scale(self, var, c):
    """Substitutes c*var for var."""
    return Poly([(co * c ** k.count(var), k) for k, co in self.t.items()])

  def at(self, env):
    return float(sum(c * np.prod([env[v] for v in k]) if k else c for k, c in self.t.items()))


def poly(kind, terms, x):
  can = canonical(kind)
  return Poly([(c * x, tuple(can[r] for r in refs)) for c, refs in terms])


FILTERS = {
    "default": (None, lambda p, t: t == "Param"),
    "Param": (nnx.Param, lambda p, t: t == "Param"),
    "BatchStat": (nnx.BatchStat, lambda p, t: t == "BatchStat"),
    "all": (..., lambda p, t: True),
    "tuple": ((nnx.Param, nnx.BatchStat), lambda p, t: t in ("Param", "BatchStat")),
    "path": (lambda path, v: path.startswith("one"), lambda p, t: p.startswith("one")),
    "not": (nnx.Not(nnx.Param), lambda p, t: t != "Param"),
    "array": (jax.Array, lambda p, t: t == "array"),
    "nothing": (lambda path, v: False, lambda p, t: False),
}


def eff_none(m, loss, x):
  pass


def eff_stat(m, loss, x):
  m.s = m.s + 2


def eff_traced(m, loss, x):
  m.s = loss
  m.two.s = m.two.s * 2 + loss


def eff_param(m, loss, x):
  m.a = m.a * 2


def eff_new(m, loss, x):
  m.fresh = nnx.Param(loss, sharding=("z",))
  m.two.fresh = nnx.Cache(x + 1)


def eff_sow(m, loss, x):
  m.sow(nnx.Intermediate, "sown", loss)
  m.two.sow(nnx.Intermediate, "sown", x)


def eff_pre(m, x):
  m.a = m.a * 2


EFFECTS = {"none": eff_none, "stat": eff_stat, "traced": eff_traced, "param": eff_param, "new": eff_new, "sow": eff_sow, "pre": eff_none}


def make_fn(terms, effect, aux):
  def f(m, x):
    if effect == "pre":
      eff_pre(m, x)
    loss = f32(0)
    for c, refs in terms:
      t = c * x
      for r in refs:
        t = t * get(m, r)
      loss = loss + t
    EFFECTS[effect](m, loss, x)
    return (loss, {"aux": loss * 2, "x": [x]}) if aux else loss
  return f


def nograd(wrt):
  return {} if FILTERS[wrt][0] is None else {"wrt": FILTERS[wrt][0]}


def check_grads(g, kind, wrt, p, env, effect, what):
  if effect == "pre":
    p = p.scale("a", 2)
  want = {path: p.diff(path).at(env) for path in env if FILTERS[wrt][1](path, TYPES.get(path, "Param"))}
  require(isinstance(g, nnx.State), f"{what}: gradients are {type(g).__name__}")
  got = {}
  for path, v in g.items():
    require(not isinstance(v.value if isinstance(v, nnx.Variable) else v, jax.core.Tracer), f"{what}: tracer in gradients")
    got[path] = float(v.value if isinstance(v, nnx.Variable) else v)
    kindname = type(v).__name__ if isinstance(v, nnx.Variable) else "array"
    require_eq(kindname, TYPES[path], f"{what}: kind of {path}")
    if path in ("one/k", "two/k"):
      require_eq(v.sharding, ("a",), f"{what}: sharding of {path}")
    if path in ("one/s", "two/s"):
      require_eq(v.note, "n1", f"{what}: metadata of {path}")
  require_eq(got, want, f"{what}: gradients")


def env_of(m):
  out = {}
  for k, v in m.get_state().items():
    v = v.value if isinstance(v, nnx.Variable) else v
    if not isinstance(v, tuple):
      out[k] = float(v)
  return out


def run(case, cov):
  kind, ti, wrt, stateful, aux, effect = case
  mono = MONO_CYCLE if kind == "cycle" else MONO
  terms = [mono[i] for i in ti]
  f = make_fn(terms, effect, aux)
  m, ref = Top(kind), Top(kind)
  gf = nnx.grad(f, stateful=stateful, has_aux=aux, **nograd(wrt))
  for i, xv in enumerate((2, 3)):
    x = f32(xv)
    env = {k: v for k, v in env_of(m).items() if k in TYPES}
    p = poly(kind, terms, xv)
    before = heap.observe(m)
    out = gf(m, x)
    cov.trans()
    if stateful:
      r = f(ref, x)
    else:
      r = f(ref.clone(), x)
      require_eq(heap.observe(m), before, f"call {i}: stateful=False changed the module")
    if aux:
      require(isinstance(out, tuple) and len(out) == 2, f"call {i}: result with aux has the wrong form")
      out, a = out
      require_eq(heap.enc(a), heap.enc(r[1]), f"call {i}: aux")
    # entries that appeared during the first call are part of the module now
    if i == 1 and effect in ("new", "sow") and stateful and wrt != "BatchStat" and wrt != "array":
      require(set(k for k in env) <= set(k for k in m.get_state()), "entries lost")
      out = nnx.State({k: v for k, v in out.items() if k in TYPES})
    check_grads(out, kind, wrt, p, env, effect, f"call {i}")
    require_eq(heap.observe(m), heap.observe(ref), f"call {i}: module")
    cov.state((wrt, heap.observe(m)))


def gen(tier):
  for kind in KINDS:
    n = len(MONO_CYCLE if kind == "cycle" else MONO)
    polys = [(i,) for i in range(n)] + list(itertools.combinations(range(n), 2))
    if tier == "thorough":
      polys += list(itertools.combinations(range(n), 3))
    for ti in polys:
      for wrt in FILTERS:
        for stateful, aux in ((True, False), (False, True)):
          for effect in ("none", "traced"):
            if len(ti) > 1 and effect == "traced" and tier == "quick" and aux:
              continue
            yield (kind, ti, wrt, stateful, aux, effect)
    for ti in polys if tier == "thorough" else [(0,), (3, 4), (2, 6)]:
      for wrt, stateful, aux, effect in itertools.product(FILTERS, (True, False), (True, False), EFFECTS):
        yield (kind, ti, wrt, stateful, aux, effect)


def run_nested(case, cov):
  kind, ti, wrt, how, effect = case
  mono = MONO_CYCLE if kind == "cycle" else MONO
  terms = [mono[i] for i in ti]
  f = make_fn(terms, effect, False)
  m, ref = Top(kind), Top(kind)
  x = f32(2)
  env = env_of(m)
  p = poly(kind, terms, 2)
  cov.trans()
  if how == "jit":
    g = nnx.jit(lambda m, x: nnx.grad(f, **nograd(wrt))(m, x))(m, x)
    f(ref, x)
    check_grads(g, kind, wrt, p, env, effect, "under nnx.jit")
  elif how == "inner jit":
    g = nnx.grad(nnx.jit(f), **nograd(wrt))(m, x)
    f(ref, x)
    check_grads(g, kind, wrt, p, env, effect, "of nnx.jit")
  elif how == "functional":
    flt = FILTERS[wrt][0]
    (diff, rest), d = m.partition(nnx.Param if flt is None else (lambda p, v: True) if flt is ... else flt, ...)
    before = heap.observe(m)
    g = jax.grad(lambda diff: f(d.merge(diff, rest), x))(diff)
    check_grads(g, kind, wrt, p, env, effect, "by hand")
    require_eq(heap.observe(m), before, "functional form changed the module")
    return
  elif how == "second":
    def outer(m, x):
      g = nnx.grad(f, **nograd(wrt))(m, x)
      return sum((v.value if isinstance(v, nnx.Variable) else v) ** 2 for v in g.values())
    g = nnx.grad(outer, **nograd(wrt))(m, x)
    f(ref, x)
    pp = p.scale("a", 2) if effect == "pre" else p
    q = Poly()
    for path in env:
      if FILTERS[wrt][1](path, TYPES[path]):
        q = q.add(pp.diff(path).square())
    check_grads(g, kind, wrt, q, env, "none", "second order")
  elif how == "remat":
    g = nnx.grad(lambda m, x: nnx.remat(f)(m, x), **nograd(wrt))(m, x)
    f(ref, x)
    check_grads(g, kind, wrt, p, env, effect, "of nnx.remat")
  require_eq(heap.observe(m), heap.observe(ref), f"{how}: module")
  cov.state((how, heap.observe(m)))


def gen_nested(tier):
  polys = [(0,), (1,), (3,), (2, 3), (5, 6), (1, 4), (7, 8)]
  for kind, ti, wrt, how, effect in itertools.product(
      KINDS, polys, ("default", "all", "path", "BatchStat"), ("jit", "inner jit", "functional", "second", "remat"),
      ("none", "stat", "traced", "new", "pre") if tier == "quick" else EFFECTS):
    yield (kind, ti, wrt, how, effect)


class Boom(Exception):
  pass


def run_misc(case, cov):
  what, kind, stateful, aux = case
  cov.state(case)
  cov.trans()
  m = Top(kind)
  before = heap.observe(m)
  if what == "raise":
    def f(m, x):
      m.s = m.s + m.a
      raise Boom()
    expect_raises(Boom, lambda: nnx.grad(f, stateful=stateful, has_aux=aux)(m, f32(1)), "raising body")
    require_eq(heap.observe(m), before, "a raising call changed the module")
    m.a = f32(9)
  elif what == "not a module":
    for bad in (1, None, m.partition(), m.get_state()):
      expect_raises(TypeError, lambda: nnx.grad(lambda m: 1.0)(bad), "not a module")
  elif what == "vector args":
    def f(m, t, y):
      l = (t["v"] * m.a).sum() + y * m.two.k
      m.s = l
      return (l, t) if aux else l
    t = {"v": jnp.array([1.0, 2.0], f32)}
    out = nnx.grad(f, stateful=stateful, has_aux=aux)(m, t, f32(4))
    g = out[0] if aux else out
    require_eq(float(g["a"].value), 3.0, "gradient with pytree arguments")
    require_eq(float(g["one/k" if kind == "shared" else "two/k"].value), 4.0, "gradient with pytree arguments")
    require_eq(float(m.s), float(6 + 4 * (6 if kind == "shared" else 7)) if stateful else 4.0, "kept value")
  elif what == "array param":
    class V(nnx.Module):
      def __init__(self):
        self.w = nnx.Param(jnp.arange(4.0).reshape(2, 2))
        self.t = nnx.Param({"k": jnp.ones(2), "l": (jnp.zeros(()),)})
    v = V()

    def f(m):
      l = (m.w ** 2).sum() + (m.t["k"] * m.w[0]).sum() + 3 * m.t["l"][0]
      return (l, 1) if aux else l
    out = nnx.grad(f, stateful=stateful, has_aux=aux)(v)
    g = out[0] if aux else out
    require_eq(np.asarray(g["w"].value).tolist(), [[1.0, 3.0], [4.0, 6.0]], "array gradient")
    require_eq(heap.enc(jax.tree_map(lambda a: np.asarray(a).tolist(), g["t"].value)), heap.enc({"k": [0.0, 1.0], "l": (3.0,)}), "pytree gradient")


class Thing(nnx.Pytree):
  def __init__(self, v):
    self.v = nnx.Node(v)
    self.k = "k"


AUX = {  # every structure of auxiliary output
    "none": lambda l: None, "()": lambda l: (), "{}": lambda l: {}, "[]": lambda l: [], "leaf": lambda l: l * 2, "int": lambda l: 3,
    "pair": lambda l: (l, l + 1), "triple": lambda l: (l, (), {"k": None}), "1-tuple": lambda l: (l,), "list": lambda l: [l, [l]],
    "dict": lambda l: {"b": l, "a": 1}, "nested none": lambda l: {"a": None, "b": ()}, "none pair": lambda l: (None, None),
    "state": lambda l: nnx.State({"q": nnx.BatchStat(l, note="n")}), "empty state": lambda l: nnx.State({}),
    "variable": lambda l: nnx.Param(l, sharding=("a",)), "pytree": lambda l: Thing(l), "empty tuples": lambda l: ((), ((), [])),
    "array": lambda l: jnp.ones((2, 0)) * l,
}


def show(a):
  if isinstance(a, Thing):
    return ("Thing", show(a.v), a.k)
  if isinstance(a, nnx.State):
    return ("State", {k: show(v) for k, v in a.items()})
  if isinstance(a, nnx.Variable):
    return (type(a).__name__, show(a.value), getattr(a, "sharding", None), getattr(a, "note", None))
  if isinstance(a, dict):
    return {k: show(v) for k, v in a.items()}
  if isinstance(a, (tuple, list)):
    return (type(a).__name__,) + tuple(show(v) for v in a)
  require(not isinstance(a, jax.core.Tracer), "tracer in the auxiliary output")
  return a if a is None else (np.shape(a), np.asarray(a).tolist())


def run_aux(case, cov):
  name, kind, stateful, wrt = case
  cov.state(case)
  cov.trans()

  def f(m, x):
    l = m.a * m.a * x
    m.s = m.s + l
    return (l, AUX[name](l))
  m = Top(kind)
  out = nnx.grad(f, has_aux=True, stateful=stateful, **nograd(wrt))(m, f32(3))
  require(type(out) is tuple and len(out) == 2, f"result with aux {name} is {out}")
  g, a = out
  require(isinstance(g, nnx.State), "gradients")
  require_eq(float(g["a"].value), 12.0, "gradient")
  require_eq(show(a), show(AUX[name](f32(12))), f"aux {name}")
  require_eq(float(m.s), 16.0 if stateful else 4.0, "update")


def gen_aux(tier):
  return itertools.product(AUX, KINDS, (True, False), ("default", "all", "Param"))


class Pair(nnx.Module):
  def __init__(self, da, db):
    self.a = nnx.Param(jnp.arange(1, 3).astype(da))
    self.b = nnx.Param(jnp.asarray(3, db), note="n1")
    self.s = nnx.BatchStat(f32(1))


DTYPES = ("float32", "int32", "complex64", "bfloat16", "bool")


def run_options(case, cov):
  """The options of nnx.grad mean what they mean for jax.grad on the same function of a dictionary."""
  da, db, allow_int, holo, loss, stateful, aux, axis = case
  cov.state(case)
  cov.trans()

  def math(a, b, x):
    l = (a * a * 3).sum() * x + b * x
    if loss == "real":
      l = jnp.real(l).astype(jnp.float32)
    elif loss == "vector":
      l = a * x
    elif loss == "bf16":
      l = l.astype(jnp.bfloat16)
    return jax.lax.psum(l, "i") if axis and loss != "vector" else l

  def plain(d, x):
    l = math(d["a"], d["b"], x)
    return (l, x) if aux else l

  def f(m, x):
    l = math(m.a, m.b, x)
    m.s = m.s + 1
    return (l, x) if aux else l
  reduce_axes = ("i",) if axis == "reduce" else ()
  opts = dict(allow_int=allow_int, holomorphic=holo, has_aux=aux, reduce_axes=reduce_axes)
  m = Pair(da, db)
  before = heap.observe(m)
  d = {"a": m.a, "b": m.b}
  first = lambda o: o[0] if aux else o

  def call(fn):
    if axis:
      return jax.vmap(fn, axis_name="i")(jnp.arange(2.0))
    return fn(f32(2))
  err = want = None
  try:
    want = call(lambda x: first(jax.grad(plain, **opts)(d, x)))
  except TypeError as e:
    err = e
  gf = nnx.grad(f, stateful=stateful, **opts)
  kept = []

  def run_nnx(x):
    mod = Pair(da, db) if axis else m
    g = first(gf(mod, x))
    kept.append(float(mod.s))
    return g
  if err is not None:
    expect_raises(TypeError, lambda: call(run_nnx), "jax.grad refuses this with TypeError")
    require_eq(heap.observe(m), before, "a refused call changed the module")
    return
  g = call(run_nnx)
  require_eq(kept, [2.0 if stateful else 1.0], "updates")
  require_eq(sorted(g), ["a", "b"], "entries of the gradients")
  for k in "ab":
    require_eq(type(g[k]).__name__, "Param", "kind of a gradient")
    x, y = g[k].value, want[k]
    require_eq((str(x.dtype), x.shape), (str(y.dtype), y.shape), f"dtype and shape of the gradient of {k}")
    require_eq(np.asarray(x).tolist(), np.asarray(y).tolist(), f"gradient of {k}")
  require_eq(g["b"].note, "n1", "metadata of a gradient")


def gen_options(tier):
  for da, db in itertools.product(DTYPES, DTYPES):
    for allow_int, holo, loss in itertools.product((False, True), (False, True), ("same", "real", "vector", "bf16")):
      for stateful, aux in itertools.product((True, False), (False, True)):
        yield (da, db, allow_int, holo, loss, stateful, aux, None)
  for stateful, aux, axis in itertools.product((True, False), (False, True), ("plain", "reduce")):
    yield ("float32", "float32", False, False, "same", stateful, aux, axis)


SECTIONS = [Section("direct", gen, run), Section("nested", gen_nested, run_nested),
            Section("misc", lambda t: itertools.product(("raise", "not a module", "vector args", "array param"), KINDS, (True, False), (True, False)), run_misc),
            Section("aux", gen_aux, run_aux), Section("options", gen_options, run_options)]
