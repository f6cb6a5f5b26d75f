"""C27: Linear and Embed equal a scalar reference for every small shape, dtype and option."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import nnx

from mc.core import Section, Violation, expect_raises, require, require_eq

RULE = ("the full product of feature sizes, batch shapes, bias, dtype, param dtype and input dtype, with integer-valued parameters and inputs so that every dtype is "
        "exact; every result compared bit for bit with a loop over scalars, through the method, jit, a functional call and after replacing the parameters; states = "
        "configurations, transitions = calls")
ASSUMPTIONS = ["numerical precision settings of the backend are not modelled: values are small integers, exact in every float type"]
BOUNDS = {"quick": "features 1-3 (and no input features), all batch shapes of rank <= 3 with sizes 0-2 in the default dtypes, 5 dtypes x 4 param dtypes x 6 input dtypes for 5 shapes",
          "thorough": "the full product of shapes and dtypes"}

F32, F16, BF16, I32 = "float32", "float16", "bfloat16", "int32"
BATCH = [s for r in range(4) for s in itertools.product(range(3), repeat=r)]


def fill(shape, dtype, off=0):
  """Small integers, different at neighbouring positions."""
  n = int(np.prod(shape))
  v = [(i * 3 + i * i + off) % 5 - 2 for i in range(n)]
  if dtype == "bool":
    v = [i > 0 for i in v]
  elif dtype.startswith("uint"):
    v = [abs(i) for i in v]
  return jnp.asarray(np.asarray(v, dtype=np.float32 if dtype != "bool" else bool).reshape(shape)).astype(dtype)


def join(*dts):
  """The float type that the given types promote to."""
  fl = {d for d in dts if d in (F32, F16, BF16)}
  if len(fl) == 1:
    return fl.pop()
  return F32


def num(x):
  return np.asarray(jnp.asarray(x).astype(F32), dtype=np.float64)


def same(got, want, dtype, what):
  require(isinstance(got, jax.Array), lambda: f"{what}: returned {type(got).__name__}")
  require_eq(str(got.dtype), dtype, f"{what}: dtype")
  require_eq(tuple(got.shape), tuple(want.shape), f"{what}: shape")
  require(np.array_equal(num(got), want), lambda: f"{what}: got {num(got).tolist()} want {want.tolist()}")


def ref_linear(x, k, b):
  x, k = num(x), num(k)
  out = np.zeros(x.shape[:-1] + (k.shape[1],))
  for idx in np.ndindex(*x.shape[:-1]):
    for o in range(k.shape[1]):
      s = 0.0 if b is None else float(num(b)[o])
      for i in range(k.shape[0]):
        s += float(x[idx + (i,)]) * float(k[i, o])
      out[idx + (o,)] = s
  return out


def init(calls, off):
  def f(key, shape, dtype):
    calls.append((np.asarray(jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key).tolist(), tuple(shape), str(jnp.dtype(dtype))))
    return fill(shape, str(jnp.dtype(dtype)), off)
  return f


def params_of(m):
  """Path -> (kind, array or None), through the public state."""
  return {p: (type(v), None if v.value is None else v.value) for p, v in m.get_state().items()}


def check_params(m, want, what):
  got = params_of(m)
  for p, (kind, v) in got.items():
    require(kind is nnx.Param, lambda: f"{what}: {p} is a {kind.__name__}")
  require_eq({p: (tuple(v.shape), str(v.dtype)) for p, (_, v) in got.items() if v is not None}, want, f"{what}: parameters")


def run_linear(case, cov):
  i, o, batch, bias, dtype, pdt, idt = case
  calls = []
  m = nnx.Linear(i, o, use_bias=bias, dtype=dtype and jnp.dtype(dtype), param_dtype=jnp.dtype(pdt), kernel_init=init(calls, 0), bias_init=init(calls, 1), ctx=nnx.context(7))
  shapes = {"kernel": ((i, o), pdt)}
  if bias:
    shapes["bias"] = ((o,), pdt)
  require_eq(sorted((s, d) for _, s, d in calls), sorted(shapes.values()), "initializers called for")
  require_eq(len({str(k) for k, _, _ in calls}), len(calls), "parameters initialized with equal keys")
  check_params(m, shapes, "Linear")
  x = fill(batch + (i,), idt, 2)
  if dtype == I32:
    expect_raises(ValueError, lambda: m(x), f"{case}: integer dtype")
    cov.trans()
    return cov.state(case)
  out = dtype or join(pdt, idt)
  st0 = m.get_state()
  for rnd in range(2):
    if rnd:
      m.kernel = fill((i, o), pdt, 4)
      if bias:
        m.bias = fill((o,), pdt, 3)
      st0 = m.get_state()
    want = ref_linear(x, m.kernel, m.bias if bias else None)
    same(m(x), want, out, f"{case} round {rnd}")
    cov.trans()
    state, md = m.partition()
    y, (st, _) = md.apply(state)(x)
    same(y, want, out, f"{case} round {rnd} functional")
    cov.trans()
    check_params(m, shapes, "Linear after calls")
    for p in shapes:
      require(np.array_equal(num(m.get_state()[p].value), num(st0[p].value)), f"{case}: the call changed {p}")
      require(np.array_equal(num(st[p].value), num(st0[p].value)), f"{case}: the functional call changed {p}")
  # inputs with another number of features are refused
  if 0 not in batch:
    bad = fill(batch + (i + 1,), idt)
    expect_raises(Exception, lambda: m(bad), f"{case}: {i + 1} features into a layer of {i}")
    cov.trans()
  cov.state(case)


DT_SHAPES = [(1, 1, ()), (2, 3, (2,)), (3, 1, (0,)), (1, 2, (2, 1, 2)), (3, 2, (1, 0))]


def gen_linear(tier):
  fs = list(itertools.product((1, 2, 3), repeat=2)) + [(0, o) for o in (1, 2, 3)]
  dts = list(itertools.product((None, F32, F16, BF16, I32), (F32, F16, BF16, I32), (F32, F16, BF16, I32, "bool", "uint8")))
  seen = set()
  for i, o in fs:
    for batch in BATCH:
      for bias in (True, False):
        for dt in dts if tier == "thorough" else [(None, F32, F32)]:
          c = (i, o, batch, bias) + dt
          seen.add(c)
          yield c
  for (i, o, batch), bias, dt in itertools.product(DT_SHAPES, (True, False), dts):
    c = (i, o, batch, bias) + dt
    if c not in seen:
      yield c


def ref_embed(e, idx):
  e = num(e)
  idx = np.asarray(idx)
  out = np.zeros(idx.shape + (e.shape[1],))
  for p in np.ndindex(*idx.shape):
    for f in range(e.shape[1]):
      out[p + (f,)] = e[int(idx[p]), f]
  return out


def run_embed(case, cov):
  n, f, batch, dtype, pdt, idt = case
  calls = []
  m = nnx.Embed(n, f, dtype=dtype and jnp.dtype(dtype), param_dtype=jnp.dtype(pdt), embedding_init=init(calls, 0), ctx=nnx.context(7))
  require_eq([c[1:] for c in calls], [((n, f), pdt)], "initializers called for")
  shapes = {"embedding": ((n, f), pdt)}
  check_params(m, shapes, "Embed")
  out = dtype or pdt
  size = int(np.prod(batch))
  idx = (np.arange(size) * 2 + 1).reshape(batch) % n
  for rnd in range(2):
    if rnd:
      m.embedding = fill((n, f), pdt, 2)
    e0 = num(m.embedding)
    if idt in (F32, F16, BF16, "bool", "complex64"):
      expect_raises(ValueError, lambda: m(jnp.asarray(idx).astype(idt)), f"{case}: non-integer input")
      expect_raises(ValueError, lambda: m(np.asarray(idx).astype(idt)), f"{case}: non-integer numpy input")
      cov.trans(2)
    else:
      want = ref_embed(m.embedding, idx)
      same(m(jnp.asarray(idx).astype(idt)), want, out, f"{case} round {rnd}")
      same(m(np.asarray(idx).astype(idt)), want, out, f"{case} round {rnd} numpy input")
      state, md = m.partition()
      y, _ = md.apply(state)(jnp.asarray(idx).astype(idt))
      same(y, want, out, f"{case} round {rnd} functional")
      cov.trans(3)
      if not idt.startswith("u"):  # counted from the end
        same(m(jnp.asarray(idx - n).astype(idt)), want, out, f"{case} round {rnd} negative indices")
        same(jax.jit(lambda i: m(i))(np.asarray(idx - n).astype(idt)), want, out, f"{case} round {rnd} negative indices")
        cov.trans(2)
    # attend
    if idt in (F32, F16, BF16, I32):
      q = fill(batch + (f,), idt, 1)
      if out == I32:
        expect_raises(ValueError, lambda: m.attend(q), f"{case}: attend in an integer dtype")
      else:
        same(m.attend(q), ref_linear(q, num(m.embedding).T, None), out, f"{case} attend round {rnd}")
        if f > 1 or batch:
          bad = fill(batch + (f + 1,), idt)
          if 0 not in batch:
            expect_raises(Exception, lambda: m.attend(bad), f"{case}: attend with {f + 1} features")
      cov.trans()
    require(np.array_equal(num(m.embedding), e0), f"{case}: the call changed the embedding")
    check_params(m, shapes, "Embed after calls")
  cov.state(case)


def gen_embed(tier):
  ns = list(itertools.product((1, 2, 3), repeat=2))
  dts = list(itertools.product((None, F32, F16, BF16, I32), (F32, F16, BF16, I32), ("int32", "int8", "uint8", "int16", "uint32", F32, F16, BF16, "bool", "complex64")))
  seen = set()
  for n, f in ns:
    for batch in BATCH:
      for dt in dts if tier == "thorough" else [(None, F32, "int32"), (None, F32, F32)]:
        c = (n, f, batch) + dt
        seen.add(c)
        yield c
  for (n, f, batch), dt in itertools.product(DT_SHAPES, dts):
    c = (n, f, batch) + dt
    if c not in seen:
      yield c


# -- initialization, options ------------------------------------------------------------------------------------------------


def keys_for(seed, n, stream="params"):
  ctx = nnx.context(**{stream: seed}) if stream != "default" else nnx.context(seed)
  return [ctx.make_rng("params") for _ in range(n)]


def run_init(case, cov):
  """Default initializers get the next keys of the params stream, in a fixed number, and nothing else matters."""
  layer, seed, used, other = case
  streams = {"params": seed}
  if other:
    streams["dropout"] = 3
  ctx = nnx.context(**streams)
  for _ in range(used):
    ctx.make_rng("params")
  if other:
    ctx.make_rng("dropout")
  make = {"linear": lambda c: nnx.Linear(2, 3, ctx=c), "nobias": lambda c: nnx.Linear(2, 3, use_bias=False, ctx=c), "embed": lambda c: nnx.Embed(3, 2, ctx=c),
          "half": lambda c: nnx.Linear(2, 3, param_dtype=jnp.float16, dtype=jnp.float32, ctx=c)}[layer]
  need = {"linear": 2, "nobias": 1, "embed": 1, "half": 2}[layer]
  ks = keys_for(seed, used + need + 1)
  m = make(ctx)
  cov.trans()
  got = {p: v.value for p, v in m.get_state().items() if v.value is not None}
  dt = jnp.float16 if layer == "half" else jnp.float32
  if layer == "embed":
    want = {"embedding": jax.nn.initializers.variance_scaling(1.0, "fan_in", "normal", out_axis=0)(ks[used], (3, 2), dt)}
  else:
    want = {"kernel": jax.nn.initializers.lecun_normal()(ks[used], (2, 3), dt)}
    if layer != "nobias":
      want["bias"] = jnp.zeros((3,), dt)
  require_eq(sorted(got), sorted(want), "parameters")
  for p in want:
    require(got[p].dtype == want[p].dtype and np.array_equal(num(got[p]), num(want[p])), lambda: f"{case}: initial {p} is {got[p]}, want {want[p]}")
  require(np.array_equal(np.asarray(ctx.make_rng("params")), np.asarray(ks[used + need])), f"{case}: the number of keys taken from the stream is not {need}")
  cov.state(case)


def gen_init(tier):
  yield from itertools.product(("linear", "nobias", "embed", "half"), (0, 1, 2), (0, 1, 2), (False, True))


def run_options(case, cov):
  prec, use_bias, how = case
  calls = []

  def dot(a, b, dims, precision=None, **kw):
    calls.append((dims, precision))
    return jax.lax.dot_general(a, b, dims, precision=precision, **kw)
  m = nnx.Linear(2, 3, precision=prec, use_bias=use_bias, dot_general=dot, kernel_init=init([], 0), bias_init=init([], 1), ctx=nnx.context(0))
  x = fill((2, 2), F32)
  want = ref_linear(x, m.kernel, m.bias if use_bias else None)
  if how == "jit":
    y = jax.jit(lambda s, x: m.partition()[1].apply(s)(x)[0])(m.get_state(), x)
  elif how == "clone":
    y = m.clone()(x)
  elif how == "pure":
    y, _ = m.partition()[1].apply(m.get_state())(x)
  elif how == "grad":
    y = m(x)
    calls.clear()
    g = jax.grad(lambda s: m.partition()[1].apply(s)(x)[0].sum())(m.get_state())
    wk = np.repeat(num(x).sum(0)[:, None], 3, axis=1)
    require(np.array_equal(num(g["kernel"].value), wk), lambda: f"{case}: gradient {g['kernel'].value}")
    if use_bias:
      require(np.array_equal(num(g["bias"].value), np.full(3, 2.0)), lambda: f"{case}: gradient {g['bias'].value}")
  else:
    y = m(x)
  same(y, want, F32, f"{case}")
  require(calls and all(p == prec for _, p in calls), lambda: f"{case}: dot_general was called with {calls}")
  cov.trans()
  cov.state(case)


def gen_options(tier):
  yield from itertools.product((None, "highest", "default", "float32"), (True, False), ("plain", "jit", "clone", "pure", "grad"))


SECTIONS = [Section("linear", gen_linear, run_linear), Section("embed", gen_embed, run_embed), Section("initialization", gen_init, run_init),
            Section("options", gen_options, run_options)]
