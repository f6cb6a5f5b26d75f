"""C37: activation functions and initializers compute what their names say, for every half precision number and configuration."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np
import nnx

from mc.core import Section, expect_raises, require, require_eq

RULE = ("every activation function on every bfloat16 and every float16 number (all exponents, signs, zeros, denormals, infinities, NaN), as float32 and in its own precision, "
        "against its formula in float64; row functions on every row over a small value set, axis and shape; every initializer with every shape, dtype, axis choice and seed "
        "against its bounds, moments or algebra; states = configurations, transitions = numbers and arrays compared")
ASSUMPTIONS = ["results in half precision agree to 2 percent of the scale of the result, in float32 to 3e-5", "random initializers are only constrained by support, moments within 6 standard deviations and "
               "dependence on the key, not by their bits"]
BOUNDS = {"quick": "25 activations x 131072 numbers x 3 precisions x {plain, jit}; rows of 3 over 9 values, rows of 4 with infinities; 18 initializers x 8 shapes x 4 dtypes x 2 seeds",
          "thorough": "rows of 4, 8 seeds"}

f64 = np.float64


def sigmoid(x):
  return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def softplus(x):
  return np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))


def mul(x, s):
  """x * s where s tends to zero faster than x grows."""
  return np.where(s == 0, 0.0 * np.sign(x), x * s)


SELU_A, SELU_S = 1.6732632423543772848170429916717, 1.0507009873554804934193349852946
POINT = {
    "relu": lambda x: np.maximum(x, 0), "relu6": lambda x: np.clip(x, 0, 6), "sigmoid": sigmoid, "silu": lambda x: mul(x, sigmoid(x)), "swish": lambda x: mul(x, sigmoid(x)),
    "log_sigmoid": lambda x: -softplus(-x), "softplus": softplus, "soft_sign": lambda x: x / (1 + np.abs(x)), "hard_tanh": lambda x: np.clip(x, -1, 1), "tanh": np.tanh,
    "hard_sigmoid": lambda x: np.clip(x + 3, 0, 6) / 6, "hard_silu": lambda x: mul(x, np.clip(x + 3, 0, 6) / 6), "hard_swish": lambda x: mul(x, np.clip(x + 3, 0, 6) / 6),
    "leaky_relu": lambda x, negative_slope=0.01: np.where(x >= 0, x, negative_slope * x), "elu": lambda x, alpha=1.0: np.where(x > 0, x, alpha * np.expm1(np.minimum(x, 0))),
    "celu": lambda x, alpha=1.0: np.maximum(x, 0) + np.minimum(0, alpha * np.expm1(np.minimum(x, 0) / alpha)),
    "selu": lambda x: SELU_S * np.where(x > 0, x, SELU_A * np.expm1(np.minimum(x, 0))),
    "gelu": lambda x, approximate=True: (mul(x, 0.5 * (1 + np.tanh(math.sqrt(2 / math.pi) * (x + 0.044715 * x ** 3)))) if approximate else
                                         mul(x, 0.5 * np.asarray([math.erfc(-v / math.sqrt(2)) if np.isfinite(v) else 0.0 for v in x.ravel()]).reshape(x.shape))),
}
OPTIONS = {"leaky_relu": ({}, {"negative_slope": 0.25}, {"negative_slope": 0.0}), "elu": ({}, {"alpha": 0.5}, {"alpha": 2.0}), "celu": ({}, {"alpha": 0.5}, {"alpha": 2.0}),
           "gelu": ({}, {"approximate": False})}


def numbers(kind):
  bits = np.arange(2 ** 16, dtype=np.uint16)
  if kind == "bfloat16":
    return (bits.astype(np.uint32) << 16).view(np.float32)
  return bits.view(np.float16).astype(np.float32)


def run_point(case, cov):
  name, oi, src, dtype, form = case
  cov.state(case)
  opts = OPTIONS.get(name, ({},))[oi]
  f = getattr(nnx, name)
  x = numbers(src)
  # denormals of float32 count as zero
  x = np.where(np.abs(x) < 2.0 ** -126, 0 * x, x)
  g = (lambda v: f(v, **opts))
  if form == "jit":
    g = jax.jit(g)
  y = g(jnp.asarray(x).astype(dtype).reshape(256, 256))
  require_eq((str(y.dtype), y.shape), (dtype, (256, 256)), f"{case}: dtype and shape")
  got = np.asarray(y.astype(jnp.float32), f64).ravel()
  x = np.asarray(jnp.asarray(x).astype(dtype).astype(jnp.float32), f64)  # the number the function was given
  fin = np.isfinite(x) & (np.abs(x) < 1e37)
  with np.errstate(all="ignore"):
    want = POINT[name](np.where(fin, x, 0.0), **opts)
  if dtype == "float32":
    tol = 3e-5 * np.abs(want) + 2e-6 * np.minimum(1, np.abs(x)) + 1e-37
  else:
    # rounding of the argument and of a few intermediate results; cancellation near the zero of the result
    tol = 0.02 * np.abs(want) + (0.02 if dtype == "bfloat16" else 0.004) * np.minimum(4, np.abs(x)) + 1e-6
    fin &= np.abs(x) < (1e4 if dtype == "float16" else 1e30)
  with np.errstate(all="ignore"):
    bad = fin & ~(np.abs(got - want) <= tol)
  cov.trans(int(fin.sum()))
  i = int(np.argmax(bad))
  require(not bad.any(), lambda: f"{case}: {int(bad.sum())} numbers differ, {name}({x[i]!r}) is {got[i]!r}, want {want[i]!r}")
  nan = np.isnan(x)
  require(np.isnan(got[nan]).all() or name in ("relu6", "hard_tanh", "relu"), f"{case}: NaN becomes a number")


def gen_point(tier):
  for name in POINT:
    for oi in range(len(OPTIONS.get(name, ({},)))):
      for form in ("plain", "jit"):
        for src in ("bfloat16", "float16"):
          yield (name, oi, src, "float32", form)
        yield (name, oi, "bfloat16", "bfloat16", form)
        yield (name, oi, "float16", "float16", form)


# -- functions of rows ---------------------------------------------------------------------------------------------------------------

VALS = (-1000.0, -3.0, -0.5, 0.0, 0.25, 1.0, 2.0, 88.0, 1000.0)


def lse(x, axis, keepdims=False):
  m = x.max(axis=axis, keepdims=True)
  r = m + np.log(np.exp(x - m).sum(axis=axis, keepdims=True))
  return r if keepdims else r.squeeze(axis)


def norm(x, axis=-1, mean=None, variance=None, eps=1e-5):
  m = x.mean(axis=axis, keepdims=True) if mean is None else mean
  v = x.var(axis=axis, keepdims=True) if variance is None else variance
  return (x - m) / np.sqrt(v + eps)


def glu(x, axis=-1):
  a, b = np.split(x, 2, axis)
  return a * sigmoid(b)


ROW = {
    "softmax": (lambda x, axis=-1: np.exp(x - lse(x, axis, True)), ({}, {"axis": 0}, {"axis": -2}, {"axis": 1})), "log_softmax": (lambda x, axis=-1: x - lse(x, axis, True), ({}, {"axis": 0}, {"axis": -2})),
    "logsumexp": (lambda x, axis=None, keepdims=False: lse(x.reshape(-1), 0) if axis is None else lse(x, axis, keepdims), ({}, {"axis": 0}, {"axis": -1}, {"axis": 1, "keepdims": True})),
    "normalize": (norm, ({}, {"axis": 0}, {"epsilon": 0.5}, {"mean": 1.0, "variance": 4.0})), "standardize": (norm, ({}, {"axis": 0}, {"epsilon": 0.5}, {"mean": 1.0, "variance": 4.0})),
    "glu": (glu, ({}, {"axis": 0}, {"axis": 1})),
}


def rows(n):
  return np.asarray(list(itertools.product(VALS, repeat=n)), np.float32)


def run_row(case, cov):
  name, oi, n, form = case
  cov.state(case)
  ref, optsets = ROW[name]
  opts = dict(optsets[oi])
  x = rows(n)
  if name == "glu":
    x = x[:, :n - n % 2] if n % 2 else x
    if opts.get("axis") == 0:
      x = x[:len(x) - len(x) % 2]
  f = lambda v: getattr(nnx, name)(v, **opts)
  y = (jax.jit(f) if form == "jit" else f)(jnp.asarray(x))
  ropts = dict(opts)
  if "epsilon" in ropts:
    ropts["eps"] = ropts.pop("epsilon")
  want = ref(x.astype(f64), **ropts)
  require_eq(tuple(y.shape), tuple(want.shape), f"{case}: shape")
  got = np.asarray(y, f64)
  cov.trans(len(x))
  tol = 2e-3 if name in ("normalize", "standardize") else 1e-4
  bad = ~(np.abs(got - want) <= tol * (1 + np.abs(want)))
  require(not bad.any(), lambda: f"{case}: rows {x[np.unique(np.argwhere(bad)[:3, 0])].tolist() if bad.ndim else x[:3]}: {got[bad][:3]} want {want[bad][:3]}")


def gen_row(tier):
  n = 3 if tier == "quick" else 4
  for name, (_, optsets) in ROW.items():
    for oi in range(len(optsets)):
      for k in range(2 if name == "glu" else 1, n + 1):
        for form in ("plain", "jit"):
          yield (name, oi, k, form)


INFS = {"logsumexp": (-np.inf, -1000.0, -3.0, 0.0, 2.0, np.inf), "softmax": (-np.inf, -1000.0, -3.0, 0.0, 2.0),
        "log_softmax": (-np.inf, -1000.0, -3.0, 0.0, 2.0)}


def run_inf(case, cov):
  """Entries that are minus infinity (masked) count nothing; a row of nothing else has the log of zero."""
  name, n, form, axis = case
  cov.state(case)
  x = np.asarray(list(itertools.product(INFS[name], repeat=n)), np.float32)
  if name != "logsumexp":
    x = x[np.isfinite(x).any(axis=1)]
  a = x if axis == 1 else np.ascontiguousarray(x.T)
  f = lambda v: getattr(nnx, name)(v, axis=axis)
  y = np.asarray((jax.jit(f) if form == "jit" else f)(jnp.asarray(a)), f64)
  y = y if axis == 1 or name == "logsumexp" else y.T
  cov.trans(len(x))
  for i, row in enumerate(x.astype(f64)):
    fin = row[np.isfinite(row)]
    l = np.inf if (row == np.inf).any() else -np.inf if not len(fin) else float(lse(fin, 0))
    want = l if name == "logsumexp" else [-np.inf if v == -np.inf else v - l for v in row]
    if name == "softmax":
      want = np.exp(want)
    got = y[i]
    require(np.allclose(got, want, rtol=1e-5, atol=1e-5), lambda: f"{case}: {name}({row.tolist()}) is {got}, want {want}")


def gen_inf(tier):
  return itertools.product(INFS, (1, 2, 3, 4), ("plain", "jit"), (0, 1))


def run_hot(case, cov):
  n, axis, dtype, idt, shape = case
  cov.state(case)
  cov.trans()
  idx = (np.arange(int(np.prod(shape))) % (n + 2) - 1).reshape(shape).astype(idt)
  kw = {} if dtype is None else {"dtype": jnp.dtype(dtype)}
  y = nnx.one_hot(jnp.asarray(idx), n, axis=axis, **kw)
  r = len(shape) + 1
  want = np.zeros((*shape, n))
  for p in np.ndindex(*shape):
    if 0 <= idx[p] < n:
      want[p + (int(idx[p]),)] = 1
  want = np.moveaxis(want, -1, axis % r)
  require_eq((tuple(y.shape), np.asarray(y, f64).tolist()), (want.shape, want.tolist()), f"{case}")
  require_eq(str(y.dtype), dtype or "float32", f"{case}: dtype")


def gen_hot(tier):
  for shape in ((), (3,), (5,), (2, 3), (0,), (2, 1, 2)):
    for axis in range(-len(shape) - 1, len(shape) + 1):
      for n, dtype, idt in itertools.product((1, 2, 3, 4), (None, "float16", "int32", "bool"), ("int32", "int8")):
        yield (n, axis, dtype, idt, shape)


# -- initializers ---------------------------------------------------------------------------------------------------------------------

SHAPES = ((64, 96), (96, 64), (1, 4000), (8, 8, 50), (3, 3, 20, 30), (4, 1000), (50, 4, 30), (5, 5))
VS = {  # scale, mode, distribution
    "lecun_normal": (1.0, "fan_in", "truncated"), "lecun_uniform": (1.0, "fan_in", "uniform"), "glorot_normal": (1.0, "fan_avg", "truncated"),
    "glorot_uniform": (1.0, "fan_avg", "uniform"), "xavier_normal": (1.0, "fan_avg", "truncated"), "xavier_uniform": (1.0, "fan_avg", "uniform"),
    "he_normal": (2.0, "fan_in", "truncated"), "he_uniform": (2.0, "fan_in", "uniform"), "kaiming_normal": (2.0, "fan_in", "truncated"), "kaiming_uniform": (2.0, "fan_in", "uniform")}
AXES = ({}, {"in_axis": -1, "out_axis": -2}, {"in_axis": 0, "out_axis": 1}, {"in_axis": -2, "out_axis": -1, "batch_axis": 0})
CUSTOM = tuple(itertools.product((0.5, 3.0), ("fan_in", "fan_out", "fan_avg"), ("uniform", "normal", "truncated_normal")))


def fans(shape, in_axis=-2, out_axis=-1, batch_axis=()):
  r = len(shape)
  one = lambda a: {a % r} if isinstance(a, int) else {b % r for b in a}
  i, o, b = one(in_axis), one(out_axis), one(batch_axis)
  size = lambda s: math.prod(shape[k] for k in s)
  rest = size(set(range(r)) - i - o - b)
  return size(i) * rest, size(o) * rest


def moments(v, mean, std, bound, what):
  """Mean, standard deviation and support of n independent numbers."""
  n = v.size
  require(np.all(np.isfinite(v)), f"{what}: not finite")
  require(abs(v.mean() - mean) <= 6 * std / math.sqrt(n) + 1e-2 * std, f"{what}: mean {v.mean()}, want {mean}")
  if n >= 1000:
    require(abs(v.std() / std - 1) <= 6 / math.sqrt(n) + 0.01, f"{what}: standard deviation {v.std()}, want {std}")
  if bound is not None:
    lo, hi = bound
    slack = 1e-2 * (hi - lo)
    require(v.min() >= lo - slack and v.max() <= hi + slack, f"{what}: range [{v.min()}, {v.max()}], want [{lo}, {hi}]")
    if n >= 1000:  # and it is used up to the ends
      require(v.min() <= lo + 0.1 * (hi - lo) and v.max() >= hi - 0.1 * (hi - lo), f"{what}: range [{v.min()}, {v.max()}], want [{lo}, {hi}]")
  if n > 8:
    require(len(np.unique(v)) > min(n, 256) // 4, f"{what}: repeated numbers")


def init_of(name, i):
  """(initializer, distribution, parameters)"""
  I = nnx.initializers
  if name in VS:
    scale, mode, dist = VS[name]
    return getattr(I, name)(**AXES[i]), dist, (scale, mode, AXES[i])
  if name == "variance_scaling":
    (scale, mode, dist), ax = CUSTOM[i % len(CUSTOM)], AXES[i // len(CUSTOM)]
    return I.variance_scaling(scale, mode, dist, **ax), {"truncated_normal": "truncated"}.get(dist, dist), (scale, mode, ax)
  if name == "uniform":
    s = (None, 0.5, 3.0)[i]
    return (I.uniform() if s is None else I.uniform(s)), "range", (0.0, 1e-2 if s is None else s)
  if name == "normal":
    s = (None, 0.5, 3.0)[i]
    return (I.normal() if s is None else I.normal(s)), "gauss", 1e-2 if s is None else s
  raise AssertionError(name)


def run_random(case, cov):
  name, i, shape, dtype, seed = case
  cov.state(case)
  cov.trans()
  f, dist, par = init_of(name, i)
  if dist in ("truncated", "uniform", "normal") and par[2].get("batch_axis") == 0 and len(shape) < 3:
    return
  key = jax.random.PRNGKey(seed)
  y = f(key, shape, jnp.dtype(dtype))
  require_eq((tuple(y.shape), str(y.dtype)), (shape, dtype), f"{case}: shape and dtype")
  require(np.array_equal(np.asarray(f(key, shape, jnp.dtype(dtype)).astype(jnp.float32)), np.asarray(y.astype(jnp.float32))), f"{case}: equal keys give different values")
  other = f(jax.random.PRNGKey(seed + 100), shape, jnp.dtype(dtype))
  require(not np.array_equal(np.asarray(other.astype(jnp.float32)), np.asarray(y.astype(jnp.float32))), f"{case}: different keys give equal values")
  v = np.asarray(y.astype(jnp.float32), f64).ravel()
  if dist == "range":
    lo, hi = par
    moments(v, (lo + hi) / 2, (hi - lo) / math.sqrt(12), (lo, hi), f"{case}")
  elif dist == "gauss":
    moments(v, 0.0, par, None, f"{case}")
  else:
    scale, mode, ax = par
    fi, fo = fans(shape, **ax)
    std = math.sqrt(scale / {"fan_in": fi, "fan_out": fo, "fan_avg": (fi + fo) / 2}[mode])
    bound = None
    if dist == "uniform":
      bound = (-std * math.sqrt(3), std * math.sqrt(3))
    elif dist == "truncated":
      bound = (-2 * std / 0.87962566103423978, 2 * std / 0.87962566103423978)
      if v.size < 4000:
        require(np.abs(v).max() <= bound[1] * 1.01, f"{case}: values beyond two standard deviations")
        bound = None
    if dist == "normal" and v.size >= 4000:
      require(np.abs(v).max() > 2.6 * std, f"{case}: a truncated distribution")
    moments(v, 0.0, std, bound, f"{case}")


def gen_random(tier):
  seeds = range(2 if tier == "quick" else 8)
  for name, n in [(k, len(AXES)) for k in VS] + [("uniform", 3), ("normal", 3), ("variance_scaling", len(CUSTOM) * len(AXES))]:
    for i in range(n):
      for shape in SHAPES:
        for dtype in ("float32", "bfloat16", "float16") if name != "variance_scaling" else ("float32",):
          for seed in seeds if dtype == "float32" else (0,):
            yield (name, i, shape, dtype, seed)


def run_exact(case, cov):
  name, shape, dtype = case
  cov.state(case)
  cov.trans()
  I = nnx.initializers
  key = jax.random.PRNGKey(3)
  dt = jnp.dtype(dtype)
  if name in ("zeros", "ones"):
    y = getattr(I, name)()(key, shape, dt)
    want = np.full(shape, 0.0 if name == "zeros" else 1.0)
  elif name.startswith("constant"):
    c = {"constant 2": 2.0, "constant -0.5": -0.5, "constant row": np.arange(shape[-1] if shape else 1, dtype=np.float32)}[name]
    if isinstance(c, np.ndarray) and not shape:
      return
    y = I.constant(c)(key, shape, dt)
    want = np.broadcast_to(c, shape)
  elif name == "orthogonal":
    if len(shape) < 2 or 0 in shape:
      return
    for scale, axis in ((1.0, -1), (2.0, -1), (1.0, 0)):
      y = I.orthogonal(scale, axis)(key, shape, jnp.float32)
      require_eq(tuple(y.shape), shape, f"{case}: shape")
      m = np.moveaxis(np.asarray(y, f64), axis, -1).reshape(-1, shape[axis])
      g = m.T @ m if m.shape[0] >= m.shape[1] else m @ m.T
      require(np.allclose(g, scale ** 2 * np.eye(len(g)), atol=1e-4), f"{case}: not orthogonal: {g}")
    return
  elif name == "delta_orthogonal":
    if len(shape) not in (3, 4, 5) or 0 in shape:
      return
    if shape[-1] < shape[-2]:
      expect_raises(ValueError, lambda: I.delta_orthogonal()(key, shape, jnp.float32), f"{case}: more inputs than outputs")
      return
    y = np.asarray(I.delta_orthogonal(2.0)(key, shape, jnp.float32), f64)
    require_eq(tuple(y.shape), shape, f"{case}: shape")
    mid = tuple((s - 1) // 2 for s in shape[:-2])
    c = y[mid]
    require(np.allclose(c @ c.T, 4 * np.eye(shape[-2]), atol=1e-4), f"{case}: the centre is not orthogonal")
    y[mid] = 0
    require(not y.any(), f"{case}: numbers outside of the centre")
    return
  require_eq((tuple(y.shape), str(y.dtype)), (shape, dtype), f"{case}: shape and dtype")
  require_eq(np.asarray(y.astype(jnp.complex64)).tolist(), np.asarray(jnp.asarray(want).astype(dt).astype(jnp.complex64)).tolist(), f"{case}")


def gen_exact(tier):
  shapes = ((), (0,), (1,), (3,), (2, 3), (3, 2), (3, 3), (2, 0), (1, 2, 3), (3, 3, 2), (3, 3, 2, 4), (3, 1, 2, 2), (1, 3, 5, 2, 3), (2, 2, 2, 2), (4, 5, 3, 3))
  return itertools.product(("zeros", "ones", "constant 2", "constant -0.5", "constant row", "orthogonal", "delta_orthogonal"), shapes,
                           ("float32", "float16", "bfloat16", "int32", "complex64"))


SECTIONS = [Section("numbers", gen_point, run_point), Section("rows", gen_row, run_row), Section("infinities", gen_inf, run_inf), Section("one_hot", gen_hot, run_hot), Section("random initializers", gen_random, run_random),
            Section("exact initializers", gen_exact, run_exact)]
