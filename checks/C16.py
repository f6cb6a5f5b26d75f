"""C16: nnx.remat changes neither values, gradients, state nor randomness."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import nnx

from mc import heap
from mc.core import Section, Violation, require, require_eq, expect_raises, eqns_of

RULE = ("every body up to the length bound over writes, aliased writes, new variables, sows, draws and nested calls x form "
        "(function, decorated method, class, class with named method) x surrounding transform (none, nnx.grad, nnx.jit, "
        "nnx.scan, nnx.remat, grad of jit) x options (prevent_cse, policy, static_argnums); the options the rematerialized program carries; the same history is run on an "
        "equal module without rematerialization and with a forked context; states = (configuration, module), transitions = calls")
ASSUMPTIONS = ["float32 with small integers, random values compared with tolerance 1e-5"]
BOUNDS = {"quick": "bodies up to length 2 over 11 operations (one writes bare arrays, nodes and pytrees), 5 forms, 8 surroundings, 2 calls each; contexts with streams, with flags only, and empty; 8 changes x 12 results that may be empty",
          "thorough": "bodies up to length 3, all options with all bodies"}

f32 = jnp.float32


class Sub(nnx.Module):
  def __init__(self, v):
    self.k = nnx.Param(f32(v), sharding=("a",))
    self.s = nnx.BatchStat(f32(v + 1), note="n1")


def _w(m, x, n, ctx):
  return x + m.w.sum() * 2


def _sq(m, x, n, ctx):
  return x * m.one.k + m.two.k * m.two.k


def _stat(m, x, n, ctx):
  m.n = m.n + x
  return x


def _alias(m, x, n, ctx):
  m.one.s = m.one.s + x
  return x + m.two.s


def _new(m, x, n, ctx):
  if not hasattr(m, "fresh"):
    m.fresh = nnx.Cache(x)
    m.two.fresh = nnx.BatchStat(x + 1, note="n1")
  else:
    m.fresh = m.fresh + x
  return x


def _sow(m, x, n, ctx):
  m.sow(nnx.Intermediate, "sown", x)
  return x


def _param(m, x, n, ctx):
  m.w = m.w + x
  return x


def _draw(m, x, n, ctx):
  if ctx is None:
    return x
  return x + jax.random.randint(ctx.make_rng("drop"), (), 0, 8).astype(f32)


def _nodes(m, x, n, ctx):
  m.arr = m.arr + x
  m.nd = (m.nd[0] * 2, m.nd[1] + x)
  m.two.pt = heap.PT(m.two.pt.a + x, m.two.pt.b)
  return x + m.arr.sum() + m.nd[0]


def _flag(m, x, n, ctx):
  return x + (0 if ctx is None else 4 if ctx.get_flag("t") else 2)


def _static(m, x, n, ctx):
  return x * len(range(n)) if isinstance(n, int) else x * n


OPS = {"w": _w, "sq": _sq, "stat": _stat, "alias": _alias, "new": _new, "sow": _sow, "param": _param, "draw": _draw, "flag": _flag,
       "static": _static, "nodes": _nodes}


class Top(nnx.Module):
  def __init__(self, kind="flat", names=()):
    self.w = nnx.Param(jnp.array([1.0, 2.0], f32))
    self.n = nnx.BatchStat(f32(3))
    self.one = Sub(5)
    self.two = self.one if kind == "shared" else Sub(6)
    if kind == "cycle":
      self.one.up = self
    if "nodes" in names:
      self.arr = jnp.array([1.0, 3.0], f32)
      self.nd = nnx.Node((f32(2), f32(7)))
      self.two.pt = nnx.TreeNode(heap.PT(f32(4), 5))
    self.names = names

  def __call__(self, x, n, *, ctx=None):
    for name in self.names:
      x = OPS[name](self, x, n, ctx)
    return x

  def named(self, x, n, *, ctx=None):
    return self(x, n, ctx=ctx) * 2, {"x": x}


POLICIES = {"None": None, "nothing": jax.checkpoint_policies.nothing_saveable, "everything": jax.checkpoint_policies.everything_saveable,
            "dots": jax.checkpoint_policies.checkpoint_dots}
OPTIONS = {"default": {}, "no cse": dict(prevent_cse=False), "nothing": dict(policy=POLICIES["nothing"]),
           "everything": dict(policy=POLICIES["everything"]), "static int": dict(static_argnums=1), "static tuple": dict(static_argnums=(1,)),
           "static last": dict(static_argnums=-1), "all": dict(prevent_cse=False, policy=POLICIES["dots"], static_argnums=(1,))}
FORMS = ("function", "method", "class", "class named", "method named")


def build(form, kind, names, opts):
  """(module, caller(m, x, n, ctx)) with rematerialization."""
  if form == "function":
    g = nnx.remat(lambda m, x, n, *, ctx=None: m(x, n, ctx=ctx), **opts)
    return Top(kind, names), lambda m, x, n, ctx: g(m, x, n, ctx=ctx)
  if form in ("method", "method named"):
    class Dec(Top):
      __init__ = nnx.remat(Top.__init__, **opts)
      run = nnx.remat(Top.__call__, **opts)
      named = nnx.remat(Top.named, **opts)
    if form == "method":
      return Dec(kind, names), lambda m, x, n, ctx: m.run(x, n, ctx=ctx)
    return Dec(kind, names), lambda m, x, n, ctx: m.named(x, n, ctx=ctx)
  m = nnx.Remat(Top, **opts)(kind, names)
  if form == "class":
    return m, lambda m, x, n, ctx: m(x, n, ctx=ctx)
  return m, lambda m, x, n, ctx: m.call.named(x, n, ctx=ctx)


def plain(form, kind, names):
  m = Top(kind, names)
  if form in ("class named", "method named"):
    return m, lambda m, x, n, ctx: m.named(x, n, ctx=ctx)
  return m, lambda m, x, n, ctx: m(x, n, ctx=ctx)


def scalar(out):
  return out[0] if isinstance(out, tuple) else out


def outer_call(how, call, m, x, n, ctx):
  if how == "none":
    return call(m, x, n, ctx)
  if how == "grad":
    def f(m, x):
      return scalar(call(m, x, n, None))
    return nnx.grad(f, wrt=nnx.Param)(m, x)
  if how == "grad aux":
    def f(m, x):
      out = call(m, x, n, None)
      return scalar(out), out
    return nnx.grad(f, wrt=(nnx.Param, nnx.BatchStat), has_aux=True)(m, x)
  if how == "jit":
    return nnx.jit(lambda m, x, ctx=None: call(m, x, n, ctx))(m, x, **({} if ctx is None else {"ctx": ctx}))
  if how == "grad jit":
    return nnx.grad(nnx.jit(lambda m, x: scalar(call(m, x, n, None))))(m, x)
  if how == "jit grad":
    return nnx.jit(lambda m, x: nnx.grad(lambda m, x: scalar(call(m, x, n, None)))(m, x))(m, x)
  if how == "scan":
    def body(m, c, x, ctx=None):
      return c + scalar(call(m, x, n, ctx)), x * 2
    return nnx.scan(body)(m, f32(0), jnp.stack([x, x + 1]), **({} if ctx is None else {"ctx": ctx}))
  if how == "remat":
    return nnx.remat(lambda m, x, ctx=None: call(m, x, n, ctx))(m, x, ctx=ctx)
  raise KeyError(how)


HOWS = ("none", "grad", "grad aux", "jit", "grad jit", "jit grad", "scan", "remat")


def norm(form, t):
  if isinstance(t, nnx.State):
    return {p.replace("remat_module/", ""): (type(v).__name__, getattr(v, "sharding", None), norm(form, v.value)) for p, v in t.items()}
  if isinstance(t, dict):
    return {k: norm(form, v) for k, v in t.items()}
  if isinstance(t, (tuple, list)):
    return [norm(form, v) for v in t]
  require(not isinstance(t, jax.core.Tracer), "tracer in the result")
  a = np.asarray(t)
  return (str(a.dtype), a.tolist())


def inner(form, m):
  return m.remat_module if form.startswith("class") else m


def obs(m):
  return tuple((("Top" if c == "Dec" else c), row) for c, row in heap.observe(m))


CONTEXTS = {False: lambda: None, True: lambda: nnx.context(0, drop=1, flags=dict(t=True)),
            "flags": lambda: nnx.context(flags=dict(t=True)), "flag off": lambda: nnx.context(flags=dict(t=False)),
            "empty": lambda: nnx.context()}


def run(case, cov):
  form, kind, names, how, optname, with_ctx = case
  opts = OPTIONS[optname]
  n = 3 if "static" in optname or optname == "all" else f32(3)
  a, ca = build(form, kind, names, opts)
  b, cb = plain(form, kind, names)
  mk = CONTEXTS[with_ctx]
  xa, xb = mk(), mk()
  for i, xv in enumerate((1, 2)):
    x = f32(xv)
    # the context is forked once per rematerialized call
    fork = (lambda c: c.partition().merge()) if with_ctx else (lambda c: None)
    got = outer_call(how, ca, a, x, n, xa)
    want = outer_call(how, lambda m, x, n, ctx: cb(m, x, n, None if ctx is None else fork(ctx)), b, x, n, xb)
    cov.trans()
    require_eq(norm(form, got), norm(form, want), f"call {i}: result")
    require_eq(obs(inner(form, a)), obs(b), f"call {i}: module")
  if with_ctx not in (False, True):
    require_eq([xa.get_flag("t"), xa.has_flag("zzz"), xa.has_rng("drop")], [xb.get_flag("t"), xb.has_flag("zzz"), False], "context afterwards")
  elif with_ctx:
    require_eq(np.asarray(xa.make_rng("drop")).tolist(), np.asarray(xb.make_rng("drop")).tolist(), "context afterwards")
  cov.state((form, how, obs(b)))


def gen(tier):
  bodies1 = [(a,) for a in OPS]
  bodies2 = list(itertools.product(OPS, OPS))
  kinds = ("flat", "shared", "cycle")
  for form, kind, names, how in itertools.product(FORMS, kinds, bodies1, HOWS):
    for wc in (False, True):
      if wc and not (how in ("none", "jit", "scan", "remat") and names[0] in ("draw", "flag", "stat")):
        continue
      if how == "scan" and names[0] in ("new", "sow"):
        continue  # a sown tuple grows, which no scan allows
      yield (form, kind, names, how, "default", wc)
    if how in ("none", "jit", "scan", "remat") and names[0] in ("flag", "stat"):
      for wc in ("flags", "flag off", "empty"):
        yield (form, kind, names, how, "default", wc)
  for i, names in enumerate(bodies2):
    for kind in ("shared",) if tier == "quick" else kinds:
      for how in ("none", "grad aux", "jit grad") if tier == "quick" else HOWS:
        for form in ("function",) if tier == "quick" else ("function", "class"):
          if how == "scan" and ("new" in names or "sow" in names):
            continue
          yield (form, kind, names, how, "default", False)
      if "draw" in names:
        yield ("class", kind, names, "none", "default", True)
  for form, opt, names, how in itertools.product(FORMS, OPTIONS, [("static", "sq"), ("param", "static"), ("stat", "draw")],
                                                 ("none", "grad", "jit", "scan", "remat")):
    yield (form, "shared", names, how, opt, False)
  if tier == "thorough":
    for names in itertools.product(OPS, repeat=3):
      for how in ("none", "grad aux"):
        yield ("function", "cycle", names, how, "default", False)


class Boom(Exception):
  pass


def run_raise(case, cov):
  form, kind, how = case
  cov.state(case)
  cov.trans()

  class Bad(Top):
    def __call__(self, x, n, *, ctx=None):
      self.n = self.n + 1
      self.one.s = self.one.s + 1
      if self.mode:
        raise Boom()
      return x
  if form == "class":
    a = nnx.Remat(Bad)(kind, ())
    call = lambda m, x, n, ctx: m(x, n, ctx=ctx)
  else:
    a = Bad(kind, ())
    g = nnx.remat(lambda m, x, n: m(x, n))
    call = lambda m, x, n, ctx: g(m, x, n)
  t = inner(form, a)
  t.mode = True
  before = heap.observe(a)
  expect_raises(Boom, lambda: outer_call(how, call, a, f32(1), f32(1), None), "raising body")
  require_eq(heap.observe(a), before, "a raising call changed the module")
  t.mode = False
  outer_call(how, call, a, f32(1), f32(1), None)
  steps = 2 if how == "scan" else 1
  require_eq(float(t.n), 3.0 + steps, "module after a later call")
  t.n = f32(0)


def run_residual(case, cov):
  """Rematerialization takes effect: nothing of the body is saved under the strictest policy."""
  form, pol = case
  cov.state(case)
  cov.trans()

  def body(m, x):
    return jnp.sin(jnp.sin(m.w * x)).sum()
  m = Top("flat")
  s, d = m.partition()
  g = nnx.remat(body, policy=POLICIES[pol]) if form == "remat" else body

  def f(s, x):
    return g(d.merge(s), x)
  jaxpr = str(jax.make_jaxpr(jax.grad(f))(s, f32(2)))
  saved = "checkpoint" in jaxpr or "remat" in jaxpr
  require_eq(saved, form == "remat", "presence of rematerialization in the program")


def run_program(case, cov):
  """The program that is traced has one rematerialized block with the given options."""
  form, opt, cse, inside = case
  cov.state(case)
  cov.trans()
  opts = dict(OPTIONS[opt], **({} if cse is None else dict(prevent_cse=cse)))
  m, call = build(form, "shared", ("w",), opts)
  s, d = m.partition()

  def f(s, x):
    mod = d.merge(s)
    if inside == "jit":
      return nnx.jit(lambda mod, x: call(mod, x, 3, None))(mod, x)
    return call(mod, x, 3, None)
  eqns = list(eqns_of(jax.make_jaxpr(f)(s, f32(2)).jaxpr, name_of_remat()))
  require_eq(len(eqns), 1, "rematerialized blocks")
  require_eq(eqns[0].params["prevent_cse"], opts.get("prevent_cse", True), "prevent_cse in the program")
  require(eqns[0].params["policy"] is opts.get("policy"), lambda: f"policy in the program is {eqns[0].params['policy']}")


def name_of_remat():
  return jax.make_jaxpr(jax.checkpoint(lambda x: x * 2))(1.0).jaxpr.eqns[0].primitive.name


# ---- static arguments at every position

RESULTS = {"none": lambda m, x: None, "tuple": lambda m, x: (), "dict": lambda m, x: {}, "list": lambda m, x: [], "none pair": lambda m, x: (None, None),
           "state": lambda m, x: nnx.State({}), "none of two": lambda m, x: (None, x), "value": lambda m, x: x, "zero": lambda m, x: x * 0, "module state": lambda m, x: m.filter(nnx.Param),
           "scalar": lambda m, x: 0, "false": lambda m, x: False}
CHANGES = {"nothing": lambda m, x: None, "stat": lambda m, x: setattr(m, "n", m.n + x), "alias": lambda m, x: setattr(m.one, "s", m.one.s + x), "none": lambda m, x: setattr(m, "n", None),
           "all none": lambda m, x: [setattr(a, k, None) for a, k in ((m, "w"), (m, "n"), (m.one, "k"), (m.one, "s"), (m.two, "k"), (m.two, "s"))],
           "empty": lambda m, x: setattr(m, "n", ()), "new": lambda m, x: setattr(m.two, "fresh", nnx.Cache(x)), "new none": lambda m, x: setattr(m, "fresh", nnx.Cache(None))}


def run_results(case, cov):
  """Whatever a rematerialized call returns, its changes arrive."""
  form, kind, change, result, how, calls = case
  cov.state(case)

  def body(m, x):
    CHANGES[change](m, x)
    return RESULTS[result](m, x)

  class Res(Top):
    def __call__(self, x):
      return body(self, x)

    def named(self, x):
      return body(self, x)
  b = Res(kind)
  if form == "function":
    a, g = Res(kind), nnx.remat(body)
  elif form == "method":
    Res.run = nnx.remat(Res.__call__)
    a, g = Res(kind), lambda m, x: m.run(x)
  elif form == "class":
    a, g = nnx.Remat(Res)(kind), lambda m, x: m(x)
  else:
    a, g = nnx.Remat(Res)(kind), lambda m, x: m.call.named(x)
  wrap = {"none": lambda f: f, "jit": nnx.jit, "remat": nnx.remat}[how]
  for i in range(calls):
    got = wrap(g)(a, f32(i + 1))
    want = body(b, f32(i + 1))
    cov.trans()
    require_eq(heap.enc(norm_none(form, got)), heap.enc(norm_none(form, want)), f"{case}: result of call {i}")
    require_eq(obs2(inner(form, a)), obs2(b), f"{case}: module after call {i}")


def norm_none(form, t):
  if isinstance(t, nnx.State):
    return {p.replace("remat_module/", ""): norm_none(form, v.value) for p, v in t.items()}
  if isinstance(t, dict):
    return {k: norm_none(form, v) for k, v in t.items()}
  if isinstance(t, (tuple, list)):
    return [norm_none(form, v) for v in t]
  return None if t is None else norm(form, t)[1]


def gen_results(tier):
  for form, change, result in itertools.product(("function", "method", "class", "class named"), CHANGES, RESULTS):
    for kind in ("flat", "shared", "cycle"):
      yield form, kind, change, result, "none", 2 if change in ("stat", "alias", "nothing") else 1
    for how in ("jit", "remat"):
      if tier == "thorough" or result in ("none", "tuple", "value"):
        yield form, "shared", change, result, how, 1


def run_static(case, cov):
  form, nargs, static, spelled, how = case
  seen = []

  class Top2(Top):
    def __call__(self, *args):
      seen.append(args)
      out = self.w.sum()
      for i, a in enumerate(args):
        if isinstance(a, str):
          out = out * len(a)
        elif isinstance(a, int):
          out = out + sum(range(a))
        else:
          out = out * 2 + a * (i + 1)
      self.n = self.n + out
      return out

    def named(self, *args):
      return self(*args)
  opts = {}
  opts["static_argnums"] = tuple(x for x in ([i for i in static] if spelled != "neg" else [i - nargs for i in static]))
  if spelled == "mixed":
    opts["static_argnums"] = tuple(i if k % 2 else i - nargs for k, i in enumerate(static))
  elif spelled == "reversed":
    opts["static_argnums"] = tuple(static[::-1])
  elif spelled == "int":
    opts["static_argnums"] = static[0]
  vals = ["abc", 4, "de"]
  args = tuple(vals[i] if i in static else f32(i + 2) for i in range(nargs))
  b = Top2("shared")
  if form == "function":
    a = Top2("shared")
    g = nnx.remat(lambda m, *args: m(*args), **opts)
  elif form == "method":
    class Dec(Top2):
      __call__ = nnx.remat(Top2.__call__, **opts)
    a = Dec("shared")
    g = lambda m, *args: m(*args)
  elif form == "class":
    a = nnx.Remat(Top2, **opts)("shared")
    g = lambda m, *args: m(*args)
  else:
    a = nnx.Remat(Top2, **opts)("shared")
    g = lambda m, *args: m.call.named(*args)

  def outer(call, m):
    if how == "grad":
      return nnx.grad(lambda m: call(m, *args), wrt=nnx.Param)(m)
    if how == "jit":
      return nnx.jit(lambda m: call(m, *args))(m)
    return call(m, *args)
  for _ in range(2):
    got = outer(g, a)
    n = len(seen)
    want = outer(lambda m, *args: m(*args), b)
    cov.trans()
    for run in seen[:n]:
      require_eq(len(run), nargs, "number of arguments")
      for i, v in enumerate(run):
        if i in static:
          require(type(v) is type(args[i]) and v == args[i], f"static argument {i} arrived as {v!r}")
        else:
          require(isinstance(v, jax.Array), f"argument {i} arrived as {v!r}")
    del seen[:]
    require_eq(norm(form, got), norm(form, want), "result")
    require_eq(obs2(inner(form, a)), obs2(b), "module")
  cov.state(case)


def obs2(m):
  return tuple(row for c, row in heap.observe(m))


def gen_static(tier):
  for nargs in (1, 2, 3):
    for k in range(nargs + 1):
      for static in itertools.combinations(range(nargs), k):
        for spelled in ("pos", "neg", "mixed", "reversed", "int"):
          if spelled == "int" and k != 1 or spelled in ("mixed", "reversed") and k < 2:
            continue
          yield from itertools.product(("function", "method", "class", "class named"), (nargs,), (static,), (spelled,), ("none", "grad", "jit"))


SECTIONS = [Section("calls", gen, run), Section("results", gen_results, run_results), Section("static arguments", gen_static, run_static),
            Section("exceptions", lambda t: itertools.product(("function", "class"), ("flat", "shared", "cycle"), ("none", "grad", "jit", "scan", "remat")), run_raise),
            Section("program", lambda t: itertools.product(FORMS, OPTIONS, (None, True, False), ("none", "jit")), run_program),
            Section("takes effect", lambda t: itertools.product(("remat", "plain"), POLICIES), run_residual)]
