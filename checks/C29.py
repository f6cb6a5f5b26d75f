"""C29: BatchNorm and LayerNorm equal their definition in float64 for every small configuration; statistics follow the momentum rule over every call sequence."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import nnx

from checks.C27 import BF16, F16, F32, I32, fill, init, join, keys_for, num
from mc.core import Section, expect_raises, require, require_eq

RULE = ("the full product of shapes of ranks 2-4, axes (positive, negative, tuples), scale, bias, momentum and epsilon; the product of dtypes; every sequence of calls over "
        "call argument, attribute and context flag; every combination of reduction and feature axes of LayerNorm; statistics shared over a mapped axis and groups of it; each "
        "call compared with the definition in float64; states = configurations and statistics reached, transitions = calls")
ASSUMPTIONS = ["values are compared with a relative tolerance of 1e-4 in float32, 1e-2 in float16, 5e-2 in bfloat16"]
BOUNDS = {"quick": "7 shapes, all axes, 3 momenta, 2 epsilons; sequences of 3 calls over 12 call forms and 3 attribute values, also by init and functionally; 4 dtypes x 3 parameter dtypes x 4 input dtypes; complex inputs in all train-or-use histories of length 3",
          "thorough": "12 shapes, 5 momenta, sequences of 4 calls; the dtype product for every shape"}

C64 = "complex64"
TOL = {F32: 1e-4, F16: 1e-2, BF16: 5e-2, "complex64": 1e-4}


def close(got, want, dtype, what):
  require(isinstance(got, jax.Array), lambda: f"{what}: returned {type(got).__name__}")
  require_eq(str(got.dtype), dtype, f"{what}: dtype")
  require_eq(tuple(got.shape), tuple(want.shape), f"{what}: shape")
  g = np.asarray(got) if dtype == "complex64" else num(got)
  require(np.allclose(g, want, rtol=TOL[dtype], atol=TOL[dtype] * max(1.0, float(np.max(np.abs(want), initial=0)))), lambda: f"{what}: got {g.tolist()} want {want.tolist()}")


def data(shape, dtype, off=0):
  """Distinct values without symmetries."""
  n = int(np.prod(shape))
  v = np.asarray([((i * 7 + i * i * 3 + off * 5) % 11) - 4 for i in range(n)], np.float32).reshape(shape)
  if dtype == "complex64":
    return jnp.asarray(v + 1j * np.roll(v, 1).reshape(shape))
  return jnp.asarray(v).astype(dtype)


def wide(x):
  return np.asarray(x).astype(np.complex128) if jnp.iscomplexobj(x) else num(x)


def stats(x, axes):
  x = wide(x)
  mean = x.mean(axes, keepdims=True)
  return mean, (np.abs(x - mean) ** 2).mean(axes, keepdims=True)


def ref_norm(x, mean, var, scale, bias, feats, eps):
  """mean and var keep the reduced axes; scale and bias run over the feature axes in ascending order."""
  x = wide(x)
  shape = [x.shape[a] if a in feats else 1 for a in range(x.ndim)]
  y = (x - mean) / np.sqrt(var + eps)
  if scale is not None:
    y = y * num(scale).reshape(shape)
  if bias is not None:
    y = y + num(bias).reshape(shape)
  return y


def bn_like(v, x, axis):
  return num(v).reshape([x.shape[a] if a == axis else 1 for a in range(x.ndim)])


class BNModel:
  """Reference BatchNorm over float64 statistics."""

  def __init__(self, n, momentum):
    self.mean, self.var, self.m = np.zeros(n), np.ones(n), momentum

  def __call__(self, x, axis, running, scale, bias, eps):
    red = tuple(a for a in range(x.ndim) if a != axis)
    if running:
      mean = self.mean.reshape([x.shape[a] if a == axis else 1 for a in range(x.ndim)])
      var = self.var.reshape(mean.shape)
    else:
      mean, var = stats(x, red)
      self.mean = self.m * self.mean + (1 - self.m) * mean.ravel()
      self.var = self.m * self.var + (1 - self.m) * var.ravel()
    return ref_norm(x, mean, var, scale, bias, (axis,), eps)


def bn(n, use_scale, use_bias, ctx=None, **kw):
  calls = []
  m = nnx.BatchNorm(n, use_scale=use_scale, use_bias=use_bias, scale_init=init(calls, 0), bias_init=init(calls, 3), ctx=ctx or nnx.context(7), **kw)
  pdt = str(jnp.dtype(kw.get("param_dtype", jnp.float32)))
  require_eq([c[1:] for c in calls], [((n,), pdt)] * (use_scale + use_bias), "initializers called for")
  require_eq(len({str(k) for k, _, _ in calls}), len(calls), "parameters initialized with equal keys")
  return m


def check_state(m, n, use_scale, use_bias, pdt, what):
  st = m.get_state()
  for p, v in st.items():
    kind = nnx.BatchStat if p in ("mean", "var") else nnx.Param
    require(type(v) is kind, lambda: f"{what}: {p} is a {type(v).__name__}")
  want = {"mean": ((n,), F32), "var": ((n,), F32)}
  if use_scale:
    want["scale"] = ((n,), pdt)
  if use_bias:
    want["bias"] = ((n,), pdt)
  require_eq({p: (tuple(v.value.shape), str(v.value.dtype)) for p, v in st.items() if v.value is not None}, want, f"{what}: state")
  return {p: num(v.value) for p, v in st.items() if v.value is not None}


def check_stats(m, model, what):
  for name in ("mean", "var"):
    got, want = num(getattr(m, name)), getattr(model, name)
    require(np.allclose(got, want, rtol=1e-4, atol=1e-4), lambda: f"{what}: running {name} is {got.tolist()} want {want.tolist()}")


def same_params(before, after, what, names=("scale", "bias")):
  for p in names:
    if p in before:
      require(np.array_equal(before[p], after[p]), lambda: f"{what}: changed {p} from {before[p]} to {after[p]}")


def run_bn(case, cov):
  shape, axis, use_scale, use_bias, momentum, eps, dtype, pdt, idt = case
  ax = (axis if isinstance(axis, int) else axis[0]) % len(shape)
  n = shape[ax]
  kw = {} if momentum is None else dict(momentum=momentum)
  if eps is not None:
    kw["epsilon"] = eps
  m = bn(n, use_scale, use_bias, axis=axis, dtype=dtype and jnp.dtype(dtype), param_dtype=jnp.dtype(pdt), **kw)
  model = BNModel(n, 0.99 if momentum is None else momentum)
  out = dtype or join(*([idt] + ([pdt] if use_scale or use_bias else [])))
  st = check_state(m, n, use_scale, use_bias, pdt, "BatchNorm")
  for i, running in enumerate((False, True, False, True)):
    x = data(shape, idt, i // 2)
    y = m(x, running)
    want = model(x, ax, running, m.scale if use_scale else None, m.bias if use_bias else None, 1e-5 if eps is None else eps)
    close(y, want, out, f"{case} call {i} running={running}")
    check_stats(m, model, f"{case} call {i}")
    st2 = check_state(m, n, use_scale, use_bias, pdt, f"{case} call {i}")
    same_params(st, st2, f"{case} call {i}", ("scale", "bias") if not running else ("scale", "bias", "mean", "var"))
    st = st2
    cov.trans()
  cov.state(case)


SHAPES = ((3, 2), (2, 3), (4, 1), (2, 3, 2), (1, 3, 2), (2, 2, 1, 3), (2, 1, 3, 2))
MORE = ((1, 1), (5, 4), (3, 4, 5), (1, 1, 1), (2, 3, 2, 3))


def bn_axes(shape):
  r = len(shape)
  return list(range(-r, r)) + [(r - 1,), (-1,), (0,)]


def gen_bn(tier):
  full = tier == "thorough"
  dts = list(itertools.product((None, F32, F16, BF16), (F32, F16, BF16), (F32, F16, BF16, I32)))
  for shape in SHAPES + (MORE if full else ()):
    for axis in bn_axes(shape):
      for s, b, mo, e in itertools.product((True, False), (True, False), (None, 0.5, 0.0, 1.0, 0.9) if full else (None, 0.5, 0.0), (None, 0.1)):
        yield shape, axis, s, b, mo, e, None, F32, F32
      if full or shape in ((3, 2), (2, 3, 2)) and axis in (-1, 1):
        for s, b in ((True, True), (False, True), (True, False), (False, False)):
          for dt in dts:
            yield (shape, axis, s, b, 0.5, None) + dt


# -- histories of calls ------------------------------------------------------------------------------------------------------


def ctx_of(c):
  return {"none": None, "no flag": nnx.context(0), "other flag": nnx.context(0, flags={"deterministic": True, "train": False}),
          "true": nnx.context(0, flags={"use_running_average": True}), "false": nnx.context(0, flags={"use_running_average": False})}[c]


CALLS = tuple(itertools.product((None, True, False), ("none", "other flag", "true", "false")))


def run_history(case, cov):
  attr, form, calls = case
  m = bn(2, True, True, momentum=0.5, use_running_average=attr)
  model = BNModel(2, 0.5)
  for i, (arg, c) in enumerate(calls):
    x = data((3, 2), F32, i)
    flag = {"true": True, "false": False}.get(c)
    running = next((v for v in (arg, attr, flag) if v is not None), None)
    before = check_state(m, 2, True, True, F32, f"{case} before call {i}")
    ctx = ctx_of(c)
    if form == "positional":
      go = lambda: m(x, arg, ctx=ctx)
    elif form == "keyword":
      go = lambda: m(x, **({} if arg is None else {"use_running_average": arg}), **({} if ctx is None else {"ctx": ctx}))
    elif form == "init":
      go = lambda: m.init(x, arg, ctx=ctx)
    else:
      def go():
        nonlocal m
        state, md = m.partition()
        y, (state, md) = md.apply(state)(x, arg, ctx=ctx)
        m = md.merge(state)
        return y
    if running is None:
      expect_raises(ValueError, go, f"{case} call {i}: no switch given")
    else:
      y = go()
      close(y, model(x, 1, running, m.scale, m.bias, 1e-5), F32, f"{case} call {i}")
    after = check_state(m, 2, True, True, F32, f"{case} after call {i}")
    check_stats(m, model, f"{case} after call {i}")
    same_params(before, after, f"{case} call {i}", ("scale", "bias") if running is False else ("scale", "bias", "mean", "var"))
    cov.trans()
    cov.state((attr, i, np.round(model.mean, 6).tolist(), np.round(model.var, 6).tolist(), running))


def gen_history(tier):
  for attr in (None, True, False):
    for calls in itertools.product(CALLS, repeat=3):
      yield attr, "positional", calls
    for form in ("keyword", "functional", "init"):
      for calls in itertools.product(CALLS, repeat=2 if tier == "quick" else 3):
        yield attr, form, calls
    if tier == "thorough":
      for calls in itertools.product(CALLS[::2] + CALLS[1:2], repeat=4):
        yield attr, "positional", calls


# -- LayerNorm ----------------------------------------------------------------------------------------------------------------


def axes_tuple(a, r):
  return tuple(sorted({i % r for i in ((a,) if isinstance(a, int) else a)}))


def run_ln(case, cov):
  shape, red, feat, use_scale, use_bias, eps, dtype, pdt, idt = case
  r = len(shape)
  ra, fa = axes_tuple(red, r), axes_tuple(feat, r)
  n = int(np.prod([shape[a] for a in fa]))
  calls = []
  kw = {} if eps is None else dict(epsilon=eps)
  m = nnx.LayerNorm(n, reduction_axes=red, feature_axes=feat, use_scale=use_scale, use_bias=use_bias, dtype=dtype and jnp.dtype(dtype), param_dtype=jnp.dtype(pdt),
                    scale_init=init(calls, 0), bias_init=init(calls, 3), ctx=nnx.context(7), **kw)
  require_eq([c[1:] for c in calls], [((n,), pdt)] * (use_scale + use_bias), "initializers called for")
  require_eq(len({str(k) for k, _, _ in calls}), len(calls), "parameters initialized with equal keys")

  def state(what):
    st = m.get_state()
    require(all(type(v) is nnx.Param for v in st.values()), lambda: f"{what}: the state has entries that are not parameters")
    got = {p: v.value for p, v in st.items() if v.value is not None}
    require_eq({p: (tuple(v.shape), str(v.dtype)) for p, v in got.items()}, {p: ((n,), pdt) for p, u in (("scale", use_scale), ("bias", use_bias)) if u}, f"{what}: state")
    return {p: num(v) for p, v in got.items()}
  before = state(f"{case}")
  out = dtype or ("complex64" if idt == "complex64" else join(*([idt] + ([pdt] if use_scale or use_bias else []))))
  for i in range(2):
    x = data(shape, idt, i)
    mean, var = stats(x, ra)
    want = ref_norm(x, mean, var, m.scale if use_scale else None, m.bias if use_bias else None, fa, 1e-6 if eps is None else eps)
    close(m(x), want, out, f"{case} call {i}")
    same_params(before, state(f"{case} after call {i}"), f"{case} call {i}")
    cov.trans()
  cov.state(case)


def subsets(shape):
  r = len(shape)
  out = [-1, 0, (-1,), (-2, -1), (1, -1), tuple(range(r)), (-1, 0)]
  if r > 2:
    out += [(2, 1), 1, (0, 2)]
  return [a for a in out if isinstance(a, int) or len({i % r for i in a}) == len(a)]


def gen_ln(tier):
  full = tier == "thorough"
  for shape in SHAPES + (MORE if full else ()):
    for red, feat in itertools.product(subsets(shape), repeat=2):
      for s, b in itertools.product((True, False), repeat=2):
        yield shape, red, feat, s, b, None, None, F32, F32
      yield shape, red, feat, True, True, 0.1, None, F32, F32
  for shape in ((2, 3), (2, 3, 2)) + (SHAPES if full else ()):
    for s, b in itertools.product((True, False), repeat=2):
      for dt in itertools.product((None, F32, F16, BF16), (F32, F16, BF16), (F32, F16, BF16, I32)):
        yield (shape, -1, -1, s, b, None) + dt
      yield shape, -1, -1, s, b, 0.1, None, F32, "complex64"
  yield (3,), -1, -1, True, True, None, None, F32, F32


# -- numbers at which naive formulas fail -----------------------------------------------------------------------------------------


def run_hard(case, cov):
  layer, kind, mag, n = case
  dt = F16 if kind == "half" else BF16 if kind == "bhalf" else F32
  if kind == "const":
    x = jnp.full((n, 2), mag, F32)
  else:
    x = (data((n, 2), F32) * (mag / 8)).astype(dt)
  if layer == "bn":
    m = nnx.BatchNorm(2, ctx=nnx.context(0))
    y = m(x, False)
    mean, var = stats(x, (0,))
    for name, old, new in (("mean", 0, mean), ("var", 1, var)):
      got = num(getattr(m, name))
      require(np.all(np.isfinite(got)), f"{case}: running {name} is {got}")
      want = 0.99 * old + 0.01 * new.ravel()
      # cancellation in E[x^2] - E[x]^2 loses digits, never the sign
      require(name == "mean" or np.all(got > 0.98), f"{case}: running variance {got}")
      require(np.allclose(got, want, rtol=1e-3, atol=1e-6 * mag * mag * 0.1 + 1e-5), lambda: f"{case}: running {name} is {got} want {want}")
    y2 = m(x, True)
    require(np.all(np.isfinite(num(y2))), f"{case}: running averages give {y2}")
  else:
    m = nnx.LayerNorm(n, ctx=nnx.context(0))
    x = x.T
    y = m(x)
    mean, var = stats(x, (1,))
  require(np.all(np.isfinite(num(y))), f"{case}: result is {y}")
  if kind != "const":
    want = (num(x) - (mean if layer == "ln" else mean)) / np.sqrt(var + (1e-5 if layer == "bn" else 1e-6))
    require(np.allclose(num(y), want, atol=3e-2), lambda: f"{case}: got {num(y)} want {want}")
  cov.trans()
  cov.state(case)


def gen_hard(tier):
  for layer in ("bn", "ln"):
    for n in range(2, 9 if tier == "quick" else 33):
      for k in range(1, 25 if tier == "quick" else 200):
        yield layer, "const", round(k * 97.3 + 0.1 * k, 4), n
      for kind, mag in itertools.product(("half", "bhalf"), (1.0, 300.0, 2000.0)):
        yield layer, kind, mag, n


# -- statistics over a mapped axis --------------------------------------------------------------------------------------------------


def run_mapped(case, cov):
  layer, how, groups, use_scale, running, rank, dt = case
  g = 4
  x = data({0: (g, 2), 1: (g, 3, 2), 2: (g, 2, 2, 2)}[rank], dt)
  kw = dict(axis_name="batch", axis_index_groups=groups, use_scale=use_scale, scale_init=init([], 0), bias_init=init([], 3), ctx=nnx.context(0))
  if layer == "bn":
    m = nnx.BatchNorm(2, momentum=0.5, **kw)
  else:
    m = nnx.LayerNorm(2, **kw)
  state, md = m.partition()

  def f(x):
    y, (st, _) = md.apply(state)(x, running) if layer == "bn" else md.apply(state)(x)
    return y, (st["mean"].value, st["var"].value) if layer == "bn" else ()
  cnum = lambda v: np.asarray(v).astype(np.complex128) if dt == C64 else num(v)
  y, sts = (jax.vmap if how == "vmap" else jax.pmap)(f, axis_name="batch")(x)
  gs = groups or [list(range(g))]
  for grp in gs:
    xg = cnum(x)[np.asarray(grp)]
    if layer == "bn":
      if running:
        mean, var = np.zeros(2), np.ones(2)
      else:
        flat = xg.reshape(-1, 2)
        mean, var = flat.mean(0), flat.var(0)
      eps = 1e-5
    else:
      # the features are spread over the mapped axis
      mean = xg.mean((0, -1), keepdims=True)
      var = (np.abs(xg - mean) ** 2).mean((0, -1), keepdims=True)
      eps = 1e-6
    want = (xg - mean) / np.sqrt(var + eps)
    if use_scale:
      want = want * num(m.scale)
    want = want + num(m.bias)
    for j, i in enumerate(grp):
      require(np.allclose(cnum(y)[i], want[j], rtol=1e-4, atol=1e-4), lambda: f"{case}: member {i} got {cnum(y)[i]} want {want[j]}")
      if layer == "bn":
        for s, old, new in ((sts[0], 0, mean), (sts[1], 1, var)):
          w = old if running else 0.5 * old + 0.5 * new.ravel()
          require(np.allclose(num(s)[i], w, rtol=1e-4, atol=1e-4), lambda: f"{case}: statistics of member {i} are {num(s)[i]} want {w}")
  cov.trans()
  cov.state(case)


def gen_mapped(tier):
  for layer, s, rank, dt in itertools.product(("bn", "ln"), (True, False), (0, 1, 2), (F32, C64)):
    if layer == "bn" and dt == C64:
      continue  # the running mean is real
    for running in (False, True) if layer == "bn" else (False,):
      yield layer, "vmap", None, s, running, rank, dt
      yield layer, "pmap", None, s, running, rank, dt
      for groups in ([[0, 1], [2, 3]], [[0, 2], [1, 3]], [[3, 0], [2, 1]], [[0], [1], [2], [3]]):
        yield layer, "pmap", groups, s, running, rank, dt


# -- initialization --------------------------------------------------------------------------------------------------------------------


def run_init(case, cov):
  layer, s, b, seed, used, pdt = case
  ctx = nnx.context(params=seed, dropout=1)
  for _ in range(used):
    ctx.make_rng("params")
  ks = keys_for(seed, used + s + b + 1)
  cls = nnx.BatchNorm if layer == "bn" else nnx.LayerNorm
  m = cls(3, use_scale=s, use_bias=b, param_dtype=jnp.dtype(pdt), ctx=ctx)
  got = {p: v.value for p, v in m.get_state().items() if v.value is not None}
  want = {}
  if s:
    want["scale"] = jnp.ones((3,), pdt)
  if b:
    want["bias"] = jnp.zeros((3,), pdt)
  if layer == "bn":
    want.update(mean=jnp.zeros((3,)), var=jnp.ones((3,)))
  require_eq(sorted(got), sorted(want), "state")
  for p in want:
    require(got[p].dtype == want[p].dtype and np.array_equal(num(got[p]), num(want[p])), lambda: f"{case}: initial {p} is {got[p]}, want {want[p]}")
  require(np.array_equal(np.asarray(ctx.make_rng("params")), np.asarray(ks[-1])), f"{case}: the number of keys taken is not {s + b}")
  # a feature axis of another size is refused
  for x in (data((2, 4), F32), data((2, 2), F32)):
    if s or b:
      expect_raises(Exception, (lambda: m(x, False)) if layer == "bn" else (lambda: m(x)), f"{case}: {x.shape[1]} features into a layer of 3")
    if layer == "bn":
      expect_raises(Exception, lambda: m(x, True), f"{case}: {x.shape[1]} features with running statistics of 3")
  cov.trans()
  cov.state(case)


def gen_init(tier):
  yield from itertools.product(("bn", "ln"), (True, False), (True, False), (0, 1), (0, 2), (F32, F16, BF16))


# -- complex inputs -----------------------------------------------------------------------------------------------------------


def run_complex(case, cov):
  """Batch norm keeps the mean (complex) and the variance (real) of complex inputs."""
  shape, axis, momentum, modes, jit = case
  cov.state(case)
  n = shape[axis]
  m = nnx.BatchNorm(n, use_scale=False, use_bias=False, axis=axis, momentum=momentum, ctx=nnx.context(7))
  model = BNModel(n, momentum)
  model.mean = model.mean.astype(complex)
  f = nnx.jit(lambda m, x, r: m(x, use_running_average=r), static_argnums=2) if jit else (lambda m, x, r: m(x, use_running_average=r))
  for i, running in enumerate(modes):
    x = data(shape, "complex64", i)
    y = f(m, x, running)
    close(y, model(x, axis % len(shape), running, None, None, 1e-5), "complex64", f"{case} call {i}")
    for name in ("mean", "var"):
      got, want = np.asarray(getattr(m, name)), getattr(model, name)
      require(np.allclose(got, want, rtol=1e-4, atol=1e-4), lambda: f"{case} call {i}: running {name} is {got.tolist()} want {want.tolist()}")
    cov.trans()


def gen_complex(tier):
  for shape, axis in (((3, 2), -1), ((2, 3), 0), ((2, 3, 2), 1), ((4, 1), 1)):
    for momentum, jit in itertools.product((0.5, 0.9, 0.0), (False, True)):
      for k in (1, 2, 3):
        for modes in itertools.product((False, True), repeat=k):
          yield shape, axis, momentum, modes, jit


SECTIONS = [Section("complex inputs", gen_complex, run_complex), Section("batch norm", gen_bn, run_bn), Section("call histories", gen_history, run_history), Section("layer norm", gen_ln, run_ln),
            Section("hard numbers", gen_hard, run_hard), Section("mapped axes", gen_mapped, run_mapped), Section("initialization", gen_init, run_init)]
