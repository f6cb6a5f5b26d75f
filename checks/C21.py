"""C21: TrainState histories equal the plain optax loop over plain dictionaries."""
import functools
import itertools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import nnx
import optax

from mc.core import Section, Violation, require, require_eq

RULE = ("every sequence up to the depth bound of operations (gradient steps with three gradients, with extra fields, under jit, apply by name and by "
        "state, replace of each field, flattening) each applied to any earlier train state of the history, against an optax loop over plain "
        "dictionaries; all states of the history are compared after each operation; states = contents of all train states, transitions = operations")
ASSUMPTIONS = ["values after jit are compared to relative 1e-5", "the optimizers of optax themselves are the oracle for the update rule"]
BOUNDS = {"quick": "5 optimizers, 9 extra field sets, depth 2 over 20 operations; depth 3 over 10 operations for 2 optimizers; "
                   "apply with every order of up to 3 of 9 names and states; 6 parameter structures x 9 optimizers x 9 pairs of dtypes, 7 initial steps",
          "thorough": "6 optimizers, depth 3 over 20 operations; depth 4 over 8 operations"}


class Mod(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(jnp.asarray([1.0, -2.0]), sharding=("a",))
    self.b = nnx.Param(jnp.asarray(0.5))
    self.n = nnx.BatchStat(jnp.asarray(3.0))
    self.k = 2

  def __call__(self, x):
    self.n = self.n + 1.0
    return self.w * x + self.b * self.k

  def other(self, x):
    return x - self.b


TXS = {"sgd": lambda: optax.sgd(0.5), "momentum": lambda: optax.sgd(0.25, momentum=0.5), "adam": lambda: optax.adam(0.1),
       "decay": lambda: optax.chain(optax.add_decayed_weights(0.1), optax.sgd(0.5)),
       "sched": lambda: optax.sgd(optax.exponential_decay(1.0, 1, 0.5)),
       "clip": lambda: optax.chain(optax.clip_by_global_norm(1.0), optax.adam(0.1))}
EXTRAS = {
    "none": lambda: {},
    "stats only": lambda: {"stats": "S"},
    "node": lambda: {"stats": "S", "ex": nnx.Node(jnp.asarray(7.0))},
    "param": lambda: {"stats": "S", "ex": nnx.Param(jnp.asarray(7.0), sharding=("z",))},
    "static": lambda: {"stats": "S", "ex": nnx.Static(7.0)},
    "raw static": lambda: {"stats": "S", "ex": 7.0},
    "none static": lambda: {"stats": "S", "ex": None},
    "falsy static": lambda: {"stats": "S", "ex": 0, "empty": (), "no": False},
    "raw array": lambda: {"stats": "S", "ex": jnp.asarray(7.0)},
}
_TX = {}
X = jnp.asarray([1.0, 3.0])
P0 = {"b": np.float32(0.5), "w": np.asarray([1.0, -2.0], np.float32)}
GRADS = {"g1": {"b": np.float32(1.0), "w": np.asarray([0.5, -1.0], np.float32)},
         "g2": {"b": np.float32(-2.0), "w": np.asarray([4.0, 0.25], np.float32)},
         "g0": {"b": np.float32(0.0), "w": np.asarray([0.0, 0.0], np.float32)}}


def tx_of(name):
  if name not in _TX:
    _TX[name] = TXS[name]()
  return _TX[name]


@functools.lru_cache(None)
def parts():
  m = Mod()
  (params, stats), md = m.partition(nnx.Param, nnx.BatchStat)
  return params, stats, md


def state_of(d):
  return nnx.State({"b": nnx.Param(jnp.asarray(d["b"])), "w": nnx.Param(jnp.asarray(d["w"]), sharding=("a",))})


_upd = {}


def upd(name):
  """The plain loop: one update over a plain dictionary of arrays."""
  if name not in _upd:
    tx = tx_of(name)

    def f(params, opt, g):
      u, opt = tx.update(g, opt, params)
      return optax.apply_updates(params, u), opt
    _upd[name] = jax.jit(f)
  return _upd[name]


class Model:
  def __init__(self, **kw):
    self.__dict__.update(kw)

  def but(self, **kw):
    return Model(**{**self.__dict__, **kw})


def initial(txn, extra):
  params, stats, md = parts()
  kw = {k: (stats if v == "S" else v) for k, v in EXTRAS[extra]().items()}
  tx = tx_of(txn)
  s = nnx.TrainState(md, params=params, tx=tx, **kw)
  fields = {}
  for k, v in kw.items():
    if isinstance(v, nnx.State):
      fields[k] = ("State", {"n": 3.0})
    elif isinstance(v, nnx.Container):
      fields[k] = (type(v).__name__, v.value)
    else:
      fields[k] = ("array" if isinstance(v, jax.Array) else "static", v)
  return s, Model(params={k: jnp.asarray(v) for k, v in P0.items()}, opt=tx.init({k: jnp.asarray(v) for k, v in P0.items()}), step=0,
                  fields=fields, md=md, tx=tx)


def leaves(x):
  return [np.asarray(l) for l in jtu.tree_leaves(x)]


def close(a, b):
  return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-5, atol=1e-6) for x, y in zip(a, b))


NODE = ("State", "Node", "Param", "array")


def compare(s, m, what):
  require(type(s) is nnx.TrainState, lambda: f"{what}: type {type(s)}")
  require(isinstance(s.params, nnx.State) and tuple(s.params) == ("b", "w"), lambda: f"{what}: params are {s.params}")
  for k in ("b", "w"):
    v = s.params[k]
    require(type(v) is nnx.Param and v.sharding == (("a",) if k == "w" else None), lambda: f"{what}: params entry {k} is {v}")
  require(close(leaves(s.params), leaves(m.params)), lambda: f"{what}: params {leaves(s.params)}, want {leaves(m.params)}")
  require(close(leaves(s.opt_state), leaves(m.opt)), lambda: f"{what}: optimizer state {leaves(s.opt_state)}, want {leaves(m.opt)}")
  require(int(s.step) == m.step, lambda: f"{what}: step {s.step}, want {m.step}")
  require(s.moduledef == m.md, lambda: f"{what}: definition {s.moduledef}")
  require(s.tx is m.tx, lambda: f"{what}: optimizer replaced")
  have = {k for k in vars(s) if not k.startswith("_pytree__")}
  require_eq(have, {"params", "opt_state", "step", "moduledef", "tx"} | set(m.fields), f"{what}: fields")
  for k in ("params", "opt_state", "step"):
    require(isinstance(vars(s)[k], (nnx.Node, nnx.TreeNode)), lambda: f"{what}: {k} is a {type(vars(s)[k])}")
  for k, (kind, v) in m.fields.items():
    raw = vars(s)[k]
    if kind == "State":
      require(isinstance(raw, nnx.State) and tuple(raw) == ("n",) and type(raw["n"]) is nnx.BatchStat
              and np.allclose(raw["n"].value, v["n"]), lambda: f"{what}: field {k} is {raw}, want {v}")
    elif kind == "array":
      require(isinstance(raw, (jax.Array, np.ndarray)) and np.allclose(raw, v), lambda: f"{what}: field {k} is {raw}, want {v}")
    elif kind == "static":
      require(not isinstance(raw, (nnx.Container, jax.Array)) and raw == v, lambda: f"{what}: field {k} is {raw!r}, want {v!r}")
    else:
      require(type(raw).__name__ == kind and np.allclose(raw.value, v), lambda: f"{what}: field {k} is {raw}, want {kind} {v}")
      if kind == "Param":
        require(raw.sharding == ("z",), lambda: f"{what}: sharding of {k}")
  # what is traced by jax are exactly the node fields
  want = leaves(m.opt) + leaves(m.params) + [np.asarray(m.step)]
  for k, (kind, v) in m.fields.items():
    if kind in NODE:
      want += leaves(v)
  n = len(jtu.tree_leaves(s))
  require(n == len(want), lambda: f"{what}: {n} leaves, want {len(want)}")


_jit = {}


def jit_step(s, g):
  if "step" not in _jit:
    _jit["step"] = jax.jit(lambda s, g: s.apply_gradients(g))
  return _jit["step"](s, g)


def forward(d, n, x):
  return d["w"] * x + d["b"] * 2, n + 1


OPS = ("g1", "g2", "g0", "g1+stats", "g2+ex", "g1+step", "jit g1", "jit loop", "apply names", "apply states", "apply method", "apply store", "grad",
       "step=", "params=", "params=State", "opt=", "stats=", "ex=", "flatten", "map", "unknown", "md=", "set", "noop")
SMALL = ("g1", "g2", "g2+ex", "jit g1", "apply store", "params=", "opt=", "ex=", "flatten", "grad")


def step(s, m, op, ctxt, what):
  """Applies an operation; returns (new state, new model) or None when the operation makes none."""
  txn = ctxt["tx"]
  has_stats, has_ex = "stats" in m.fields, "ex" in m.fields

  def grads(gname, fields=None, step=None):
    p, o = upd(txn)(m.params, m.opt, {k: jnp.asarray(v) for k, v in GRADS[gname].items()})
    return m.but(params=p, opt=o, step=m.step + 1 if step is None else step, fields=fields or m.fields)
  if op in GRADS:
    return s.apply_gradients(state_of(GRADS[op])), grads(op)
  if op == "g1+stats":
    if not has_stats:
      return None
    new = nnx.State({"n": nnx.BatchStat(jnp.asarray(11.0))})
    return s.apply_gradients(state_of(GRADS["g1"]), stats=new), grads("g1", {**m.fields, "stats": ("State", {"n": 11.0})})
  if op in ("g2+ex", "ex="):
    if not has_ex:
      return None
    kind, old = m.fields["ex"]
    v = (old or 0) + 1.5
    f = {**m.fields, "ex": (kind, v)}
    if op == "ex=":
      return s.replace(ex=v), m.but(fields=f)
    return s.apply_gradients(state_of(GRADS["g2"]), ex=v), grads("g2", f)
  if op == "g1+step":  # the step is set by apply_gradients itself, a second value cannot be given
    try:
      s.apply_gradients(state_of(GRADS["g1"]), step=9)
    except TypeError:
      return None
    raise Violation(f"{what}: accepted two values for the step")
  if op == "jit g1":
    return jit_step(s, state_of(GRADS["g1"])), grads("g1")
  if op == "jit loop":
    if "loop" not in _jit:
      _jit["loop"] = jax.jit(lambda s, g: jax.lax.fori_loop(0, 2, lambda i, s: s.apply_gradients(g), s))
    m2 = grads("g2")
    p, o = upd(txn)(m2.params, m2.opt, {k: jnp.asarray(v) for k, v in GRADS["g2"].items()})
    return _jit["loop"](s, state_of(GRADS["g2"])), m2.but(params=p, opt=o, step=m.step + 2)
  if op.startswith("apply"):
    if not has_stats:
      try:
        s.apply("params", "stats")
      except AttributeError:
        return None
      raise Violation(f"{what}: unknown field accepted by apply")
    n = m.fields["stats"][1]["n"]
    if op == "apply method":
      y, pure = s.apply("stats", "params").other(X)
      require(np.allclose(y, X - m.params["b"], rtol=1e-5), lambda: f"{what}: output {y}")
      require(np.allclose(pure.get_state()["n"].value, n), lambda: f"{what}: statistics")
      return None
    if op == "apply states":
      y, pure = s.apply(s.stats, s.params)(X)
    else:
      y, pure = s.apply("params", "stats")(X)
    wy, wn = forward(m.params, n, X)
    require(np.allclose(y, wy, rtol=1e-5), lambda: f"{what}: output {y}, want {wy}")
    st = pure.get_state()
    require(np.allclose(st["n"].value, wn) and close(leaves(st.filter(nnx.Param)), leaves(m.params)), lambda: f"{what}: updates {st}")
    if op == "apply store":
      return s.replace(stats=pure.filter(nnx.BatchStat)), m.but(fields={**m.fields, "stats": ("State", {"n": float(wn)})})
    return None
  if op == "grad":
    if not has_stats:
      return None

    def loss(p):
      y, pure = s.apply(p, "stats")(X)
      return jnp.sum(y * y), pure.filter(nnx.BatchStat)
    g, stats = jax.grad(loss, has_aux=True)(s.params)
    n = m.fields["stats"][1]["n"]
    y, _ = forward(m.params, n, X)
    gd = {"w": 2 * y * X, "b": jnp.sum(2 * y * 2)}
    p, o = upd(txn)(m.params, m.opt, gd)
    return s.apply_gradients(g, stats=stats), m.but(params=p, opt=o, step=m.step + 1,
                                                    fields={**m.fields, "stats": ("State", {"n": float(n) + 1})})
  if op == "step=":
    return s.replace(step=jnp.asarray(40)), m.but(step=40)
  if op in ("params=", "params=State"):
    d = {"b": jnp.asarray(9.0), "w": jnp.asarray([8.0, 7.0])}
    v = state_of(d)
    return s.replace(params=nnx.TreeNode(v) if op == "params=" and False else v), m.but(params=d)
  if op == "opt=":
    return s.replace(opt_state=s.tx.init(s.params)), m.but(opt=m.tx.init(m.params))
  if op == "stats=":
    if not has_stats:
      return None
    return (s.replace(stats=nnx.State({"n": nnx.BatchStat(jnp.asarray(-1.0))})),
            m.but(fields={**m.fields, "stats": ("State", {"n": -1.0})}))
  if op == "flatten":
    l, td = jtu.tree_flatten(s)
    l2, td2 = jtu.tree_flatten(jtu.tree_unflatten(td, l))
    require(td == td2, lambda: f"{what}: structure changes by flattening")
    return jtu.tree_unflatten(td, l), m
  if op == "map":
    return jtu.tree_map(lambda x: x, s), m
  if op == "unknown":
    for f in (lambda: s.replace(zzz=1), lambda: s.apply_gradients(state_of(GRADS["g1"]), zzz=1)):
      try:
        f()
      except (ValueError, TypeError):
        continue
      raise Violation(f"{what}: unknown field accepted")
    return None
  if op == "md=":
    d2 = Mod()
    d2.k = 2
    md = d2.get_module_def()
    return s.replace(moduledef=md), m
  if op == "set":
    for k in ("step", "params", "tx", "new"):
      try:
        setattr(s, k, 1)
      except AttributeError:
        continue
      raise Violation(f"{what}: {k} could be assigned")
    return None
  if op == "noop":
    return s.replace(), m
  raise AssertionError(op)


def fingerprint(s):
  return [l.tobytes() for l in leaves(s)]


def run(case, cov):
  txn, extra, depth, ops, first = case
  ops = SMALL if ops == "small" else OPS
  ctxt = {"tx": txn}
  s, m = initial(txn, extra)
  compare(s, m, f"{case[:2]} initially")

  def go(hist, objs):
    for i in range(min(len(objs), 3)):
      for op in (ops if hist else (first,)):
        h = hist + ((i, op),)
        what = f"TrainState({txn}, {extra}) after {h}"
        fps = [f for _, _, f in objs]
        r = step(objs[i][0], objs[i][1], op, ctxt, what)
        cov.trans()
        for j, (o, mm, f) in enumerate(objs):
          require(fingerprint(o) == f, lambda: f"{what}: earlier state {j} changed")
        new = objs
        if r is not None:
          require(all(r[0] is not o[0] for o in objs), lambda: f"{what}: returned an earlier state")
          compare(r[0], r[1], what)
          new = [(r[0], r[1], fingerprint(r[0]))] + objs if len(hist) % 2 == 0 else objs + [(r[0], r[1], fingerprint(r[0]))]
        cov.state((txn, extra, tuple(b"".join(f) for _, _, f in new)))
        if len(h) < depth:
          go(h, new)
        else:
          cov.count("histories")
          for o, mm, f in new:
            compare(o, mm, what + " (all states)")
  go((), [(s, m, fingerprint(s))])


# ---- apply: names and states in every order, the later entry counts

APPLY = {
    "params": ("params", {"b": 0.5, "w": [1.0, -2.0]}), "stats": ("stats", {"n": 3.0}),
    "own params": (lambda s: s.params, {"b": 0.5, "w": [1.0, -2.0]}), "own stats": (lambda s: s.stats, {"n": 3.0}),
    "n": (lambda s: nnx.State({"n": nnx.BatchStat(jnp.asarray(20.0))}), {"n": 20.0}),
    "b": (lambda s: nnx.State({"b": nnx.Param(jnp.asarray(30.0))}), {"b": 30.0}),
    "nb": (lambda s: nnx.State({"n": nnx.BatchStat(jnp.asarray(40.0)), "b": nnx.Param(jnp.asarray(41.0))}), {"n": 40.0, "b": 41.0}),
    "all": (lambda s: nnx.State.merge(s.params, s.stats), {"b": 0.5, "w": [1.0, -2.0], "n": 3.0}), "alt": ("alt", {"b": 50.0, "n": 51.0}),
}


def run_apply(case, cov):
  names = case
  cov.state(case)
  cov.trans()
  params, stats, md = parts()
  s = nnx.TrainState(md, params=params, tx=tx_of("sgd"), stats=stats,
                     alt=nnx.State({"b": nnx.Param(jnp.asarray(50.0)), "n": nnx.BatchStat(jnp.asarray(51.0))}))
  want = {}
  args = []
  for n in names:
    a, d = APPLY[n]
    args.append(a if isinstance(a, str) else a(s))
    want.update(d)
  before = fingerprint(s)
  y, pure = s.apply(*args)(X)
  wy, wn = forward({k: jnp.asarray(want[k]) for k in ("w", "b")}, want["n"], X)
  require(np.array_equal(y, wy), lambda: f"apply({names}): output {y}, want {wy}")
  st = pure.get_state()
  require_eq({k: np.asarray(v.value).tolist() for k, v in st.items()}, {**want, "n": wn}, f"apply({names}): state")
  z, _ = s.apply(*args).other(X)
  require(np.array_equal(z, X - want["b"]), lambda: f"apply({names}).other: output {z}")
  require(fingerprint(s) == before, f"apply({names}) changed the train state")


def gen_apply(tier):
  for n in range(1, 4 if tier == "quick" else 5):
    for names in itertools.permutations(APPLY, n):
      if {"b", "w", "n"} <= {k for x in names for k in APPLY[x][1]}:
        yield names


def gen(tier):
  q = tier == "quick"
  for txn in (("sgd", "momentum", "adam", "sched", "decay") if q else tuple(TXS)):
    for extra in (EXTRAS if not q or txn in ("sgd", "adam") else ("node", "raw static")):
      for first in OPS:
        yield txn, extra, 2 if q else 3, "all", first
  for txn in (("momentum", "adam") if q else ("momentum", "adam", "sched")):
    for extra in ((("node",) if txn == "adam" else ("raw static",)) if q else ("node", "raw static", "param")):
      for first in SMALL:
        yield txn, extra, 3 if q else 4, "small", first


# ---- starting points: dtypes, parameter structures, initial steps, optimizers that look at the structure

SHAPES = {
    "flat": {"b": (), "w": (2,)},
    "nested": {"a/w": (2, 1), "b/c/k": (3,), "z": ()},
    "tree": {"t": {"k": (2,), "l": ((), (1,))}, "w": (2,)},
    "nothing": {"e": None, "w": (2,)},
    "raw": {"b": (), "w!": (2,)},
    "empty": {},
}
START_TXS = {
    "sgd": lambda: optax.sgd(0.5), "adam": lambda: optax.adam(0.25), "adamw": lambda: optax.adamw(0.25, weight_decay=0.5),
    "f32 updates": lambda: optax.stateless(lambda u, p: jtu.tree_map(lambda x: -0.25 * x.astype(jnp.float32), u)),
    "multisteps": lambda: optax.MultiSteps(optax.sgd(0.5), 2).gradient_transformation(),
    "masked": lambda: optax.masked(optax.sgd(0.5), lambda p: jtu.tree_map(lambda x: x.ndim > 0, p)),
    "lamb": lambda: optax.lamb(0.125), "ema": lambda: optax.chain(optax.ema(0.5), optax.scale(-0.5)),
    "finite": lambda: optax.apply_if_finite(optax.sgd(0.5), 1),
}
START_STEPS = {"default": None, "0": 0, "5": 5, "-1": -1, "np": np.int64(7), "jnp": jnp.asarray(9), "float": 2.0}


def _fill(shape, dtype, base):
  if isinstance(shape, dict):
    return {k: _fill(v, dtype, base + i) for i, (k, v) in enumerate(shape.items())}
  if shape is None:
    return None
  if shape and not isinstance(shape[0], int):
    return tuple(_fill(v, dtype, base + i) for i, v in enumerate(shape))
  return (jnp.arange(int(np.prod(shape))).reshape(shape) * 0.5 - base * 0.25).astype(dtype)


def _start_state(shapes, dtype, base):
  vals = _fill(shapes, dtype, base)
  return nnx.State({k.rstrip("!"): v if k.endswith("!") else nnx.Param(v, sharding=("q",), note=k) for k, v in vals.items()}), vals


def exact(x):
  return [(str(np.asarray(l).dtype), np.asarray(l).shape, repr(np.asarray(l).astype(np.float64).tolist())) for l in jtu.tree_leaves(x)]


def run_start(case, cov):
  shape, pd, gd, txn, stepn, bad = case
  what = f"TrainState {case}"
  params, plain = _start_state(SHAPES[shape], pd, 1)
  tx = START_TXS[txn]()
  md = Mod().get_module_def()
  given = START_STEPS[stepn]
  kw = {} if given is None else {"step": given}
  opt = tx.init(plain)
  s = nnx.TrainState(md, params=params, tx=tx, **kw)
  want_step = jnp.asarray(0 if given is None else given)
  for i in range(4):
    require_eq(exact(s.params), exact(plain), f"{what} after {i} steps: params")
    require_eq(exact(s.opt_state), exact(opt), f"{what} after {i} steps: optimizer state")
    require_eq(exact(s.step), exact(want_step), f"{what} after {i} steps: step")
    for k in SHAPES[shape]:
      v = s.params[k.rstrip("!")]
      if k.endswith("!"):
        require(not isinstance(v, nnx.Container), lambda: f"{what}: raw entry became {v}")
      else:
        require(type(v) is nnx.Param and v.sharding == ("q",) and v.note == k, lambda: f"{what}: entry {k} is {v}")
    cov.state((case, i))
    if i == 3:
      break
    g, gp = _start_state(SHAPES[shape], gd, 3 * i - 2)
    if bad and i == 1:
      g, gp = jtu.tree_map(lambda x: x * jnp.nan, (g, gp))
    u, opt = tx.update(gp, opt, plain)
    plain = optax.apply_updates(plain, u)
    s = s.apply_gradients(g)
    want_step = want_step + 1
    cov.trans()


def gen_start(tier):
  for shape, txn in itertools.product(SHAPES, START_TXS):
    for pd, gd in itertools.product(("float32", "bfloat16", "float16"), repeat=2):
      if txn == "multisteps" and pd != gd:
        continue  # optax itself wants one dtype here
      yield shape, pd, gd, txn, "default", False
    for stepn in START_STEPS:
      yield shape, "float32", "float32", txn, stepn, False
    if txn == "finite":
      yield shape, "float32", "float32", txn, "5", True


SECTIONS = [Section("apply", gen_apply, run_apply), Section("histories", gen, run, timeout=600), Section("starting points", gen_start, run_start)]
