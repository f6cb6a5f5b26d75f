"""C30: Dropout over every switch source, rate, broadcast set, stream and shape, and every history of calls sharing streams."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import nnx

from mc.core import Section, expect_raises, require, require_eq

RULE = ("the full product of switch sources (call argument, attribute, context flag, no context), rates and context kinds; of shapes, broadcast dimensions, rates, dtypes "
        "and streams; every sequence of calls of layers sharing streams, with the keys consumed compared with an untouched context; states = configurations and stream "
        "positions, transitions = calls")
ASSUMPTIONS = ["the mask is only constrained by its definition (one key, shared along broadcast dimensions, kept fraction within 6 standard deviations, and equal masks for all dtypes), not by its bits"]
BOUNDS = {"quick": "3 x 3 x 5 switch sources x 6 rates; 8 shapes, all broadcast subsets, 3 rates, 3 dtypes, 4 streams; sequences of 3 calls over 9 call forms; 7 rates x 4 dtypes with 60000 elements; 7 mask-free switches x 7 dtypes x 3 shapes x 4 forms",
          "thorough": "sequences of 4 calls; 30 seeds per mask configuration"}


def nums(x):
  return np.asarray(jnp.asarray(x).astype(jnp.float32), np.float64)


def inp(shape, dtype="float32", special=False):
  n = int(np.prod(shape))
  v = np.asarray([(i % 7 + 1) * (-1) ** i for i in range(n)], np.float32).reshape(shape)
  if special and n:
    f = v.reshape(-1)
    f[0::3] = np.nan
    f[1::3] = np.inf
  return jnp.asarray(v).astype(dtype)


CTX = {
    "none": (None, None),
    "no flag": (lambda: nnx.context(dropout=3), None),
    "other flag": (lambda: nnx.context(dropout=3, flags={"train": False, "use_running_average": True}), None),
    "true": (lambda: nnx.context(dropout=3, flags={"deterministic": True}), True),
    "false": (lambda: nnx.context(dropout=3, flags={"deterministic": False}), False),
}


def keep_ok(y, x, rate, bdims, what):
  """The result is a mask of the scaled input, the mask being shared along the broadcast dimensions; returns the mask."""
  y, x = nums(y), nums(x)
  require_eq(y.shape, x.shape, f"{what}: shape")
  kept = ~(y == 0)
  want = x / (1 - rate)
  a, b = y[kept], want[kept]
  require(np.allclose(a, b, rtol=2e-2 if rate not in (0.5, 0.75) else 1e-2, equal_nan=True), lambda: f"{what}: got {y.tolist()} for {x.tolist()}")
  full = kept
  for d in bdims:
    require(np.all(full == np.take(full, [0], axis=d)) if full.shape[d] else True, lambda: f"{what}: the mask differs along broadcast dimension {d}: {full.tolist()}")
  return kept


def next_keys(ctx, names):
  return {n: np.asarray(ctx.make_rng(n)).tolist() for n in names}


def run_switch(case, cov):
  arg, attr, c, rate, form = case
  mk, flag = CTX[c]
  m = nnx.Dropout(rate, deterministic=attr)
  det = next((v for v in (arg, attr, flag) if v is not None), None)
  ctx, twin = (mk(), mk()) if mk else (None, None)
  x = inp((2, 3))

  def go():
    kw = {} if form == "short" and arg is None else {"deterministic": arg}
    if not (form == "short" and ctx is None):
      kw["ctx"] = ctx
    if form == "functional":
      s, md = m.partition()
      return md.apply(s)(x, **kw)[0]
    return m(x, **kw)
  used = 0
  if det is None:
    expect_raises(ValueError, go, f"{case}: no switch")
  elif det or rate == 0:
    require(np.array_equal(nums(go()), nums(x)), f"{case}: the input was changed")
  elif rate == 1:
    require(np.array_equal(nums(go()), np.zeros((2, 3))), f"{case}: rate 1 is not zero")
  elif ctx is None:
    expect_raises(ValueError, go, f"{case}: no context")
  else:
    # a context that gives the same key gives the same result
    keep_ok(go(), x, rate, (), f"{case}")
    used = 1
  if ctx is not None:
    for _ in range(used):
      twin.make_rng("dropout")
    require_eq(next_keys(ctx, ["dropout"]), next_keys(twin, ["dropout"]), f"{case}: keys consumed (expected {used})")
  require_eq((m.rate, m.deterministic, m.rng_collection, tuple(m.broadcast_dims)), (rate, attr, "dropout", ()), f"{case}: attributes")
  require_eq(len(m.get_state()), 0, "Dropout has state")
  cov.trans()
  cov.state(case)


def gen_switch(tier):
  yield from itertools.product((None, True, False), (None, True, False), CTX, (0.0, 0, 0.25, 0.5, 1.0, 1), ("full", "short", "functional"))


def run_prec(case, cov):
  """Equal keys give equal masks whatever the precision of the inputs."""
  rate, shape, bdims, form = case
  cov.state(case)
  m = nnx.Dropout(rate, broadcast_dims=bdims)
  masks = {}
  for dtype in ("float32", "bfloat16", "float16", "complex64"):
    cov.trans()
    x = jnp.ones(shape, dtype)
    f = lambda x: m(x, deterministic=False, ctx=nnx.context(dropout=5))
    y = jax.jit(f)(x) if form == "jit" else f(x)
    require_eq(str(y.dtype), dtype, f"{case}: dtype")
    masks[dtype] = np.asarray(y != 0)
  for dtype, k in masks.items():
    require(np.array_equal(k, masks["float32"]), lambda: f"{case}: the mask for {dtype} differs from that for float32 in {int((k != masks['float32']).sum())} places")


def gen_prec(tier):
  yield from itertools.product((0.1, 0.3, 0.35, 0.5, 0.7, 0.9, 0.999), ((200, 300), (60, 100, 10)), ((), (0,), (-1,)), ("plain", "jit"))


def run_edges(case, cov):
  """Results that involve no mask keep the shape and dtype of the input."""
  rate, det, dtype, shape, form = case
  m = nnx.Dropout(rate)
  x = jnp.asarray(np.arange(int(np.prod(shape))).reshape(shape) % 5 - 2).astype(dtype)
  f = lambda x: m(x, deterministic=det, ctx=nnx.context(dropout=1))
  y = {"plain": f, "jit": jax.jit(f), "vmap": jax.vmap(f), "numpy": lambda x: f(np.asarray(x))}[form](x)
  require_eq((str(y.dtype), tuple(y.shape)), (dtype, shape), f"{case}: dtype and shape")
  want = np.zeros(shape) if rate == 1 and not det else np.asarray(x.astype(jnp.complex64))
  require(np.array_equal(np.asarray(jnp.asarray(y).astype(jnp.complex64)), want), lambda: f"{case}: got {y} for {x}")
  cov.trans()
  cov.state(case)


def gen_edges(tier):
  for rate, det in ((0.0, False), (0, False), (1.0, False), (1, False), (0.5, True), (1.0, True), (0.0, True)):
    yield from itertools.product((rate,), (det,), ("float32", "float16", "bfloat16", "complex64", "int32", "uint8", "bool"), ((3,), (2, 3), (2, 0)), ("plain", "jit", "vmap", "numpy"))


SHAPES = ((), (4,), (0,), (2, 3), (2, 0), (3, 1), (2, 2, 3), (1, 2, 2, 2))


def run_mask(case, cov):
  shape, bdims, rate, dtype, stream, special, seeds = case
  kw = {} if stream is None else {"rng_collection": stream}
  name = stream or "dropout"
  m = nnx.Dropout(rate, broadcast_dims=bdims, **kw)
  x = inp(shape, dtype, special)
  for seed in range(seeds):
    mk = lambda: nnx.context(**{"params": 11, "dropout": 12, "noise": 13, name: seed})
    ctx, twin, again = mk(), mk(), mk()
    y = m(x, deterministic=False, ctx=ctx)
    require_eq(str(y.dtype), dtype, f"{case}: dtype")
    keep_ok(y, x, rate, bdims, f"{case} seed {seed}")
    require(np.array_equal(nums(m(x, deterministic=False, ctx=again)), nums(y), equal_nan=True), f"{case}: equal keys gave different results")
    twin.make_rng(name)
    names = sorted({"params", "dropout", "noise", name})
    require_eq(next_keys(ctx, names), next_keys(twin, names), f"{case}: keys consumed")
    cov.trans(2)
    if seed == 0 and dtype == "float32" and rate == 0.5:
      # compiled and functional calls agree
      s, md = m.partition()
      key = jax.random.PRNGKey(seed)
      f = lambda x, k: md.apply(s)(x, deterministic=False, ctx=nnx.context(**{name: k}))[0]
      a, b = f(x, key), jax.jit(f)(x, key)
      require(np.allclose(nums(a), nums(b), equal_nan=True), f"{case}: jit gives {b}, not {a}")
      cov.trans(2)
  cov.state(case)


def bsubsets(shape):
  r = len(shape)
  for n in range(r + 1):
    for c in itertools.combinations(range(r), n):
      yield c
      if c:
        yield tuple(d - r for d in c)


def gen_mask(tier):
  n = 2 if tier == "quick" else 30
  for shape in SHAPES:
    for b in bsubsets(shape):
      for rate, dtype in itertools.product((0.25, 0.5, 0.75), ("float32", "float16", "bfloat16")):
        yield shape, b, rate, dtype, None, False, n
      for stream in ("dropout", "noise", "params"):
        yield shape, b, 0.5, "float32", stream, False, n
      yield shape, b, 0.5, "float32", None, True, n


def run_stat(case, cov):
  """On large inputs: kept fraction, and the mask really varies along the other dimensions."""
  shape, bdims, rate, seed = case
  m = nnx.Dropout(rate, broadcast_dims=bdims)
  x = jnp.ones(shape)
  ctx = nnx.context(dropout=seed)
  masks = [keep_ok(m(x, deterministic=False, ctx=ctx), x, rate, bdims, f"{case}") for _ in range(2)]
  own = np.ones(len(shape), bool)
  own[list(bdims)] = False
  for mask in masks:
    red = mask[tuple(slice(None) if o else slice(0, 1) for o in own)]
    n = red.size
    f = red.mean()
    require(abs(f - (1 - rate)) <= 6 * np.sqrt(rate * (1 - rate) / n), lambda: f"{case}: kept fraction {f} of {n}")
    for d in range(len(shape)):
      if own[d] and shape[d] > 1:
        require(not np.all(red == np.take(red, [0], axis=d)), f"{case}: the mask does not vary along dimension {d}")
  require(not np.array_equal(masks[0], masks[1]), f"{case}: two calls used the same mask")
  cov.trans(2)
  cov.state(case)


def gen_stat(tier):
  for shape in ((400,), (40, 50), (20, 10, 30)):
    for b in bsubsets(shape):
      if len(b) == len(shape) or np.prod([s for i, s in enumerate(shape) if i not in {d % len(shape) for d in b}]) < 20:
        continue
      for rate in (0.01, 0.1, 0.3, 0.5, 0.9):
        n = np.prod([s for i, s in enumerate(shape) if i not in {d % len(shape) for d in b}])
        if rate * n < 20 or (1 - rate) * n < 20:
          # too few elements to expect variation along every dimension
          if rate not in (0.3, 0.5):
            continue
        for seed in range(2 if tier == "quick" else 10):
          yield shape, b, rate, seed


# -- histories of calls -------------------------------------------------------------------------------------------------------


LAYERS = {
    "a": dict(rate=0.5), "b": dict(rate=0.25, rng_collection="noise"), "c": dict(rate=0.5, rng_collection="params", broadcast_dims=(0,)),
    "zero": dict(rate=0.0), "one": dict(rate=1.0), "det": dict(rate=0.5, deterministic=True), "missing": dict(rate=0.5, rng_collection="absent"),
}
OPS = [(l, None) for l in LAYERS] + [("a", True), ("det", False)]


def run_seq(case, cov):
  form, ops = case
  layers = {k: nnx.Dropout(**v) for k, v in LAYERS.items()}
  mk = lambda: nnx.context(params=1, dropout=2, noise=3, flags={"deterministic": False})
  ctx = mk()
  counts = {"params": 0, "dropout": 0, "noise": 0}
  x = inp((2, 3))
  seen = {}
  for i, (l, arg) in enumerate(ops):
    m, cfg = layers[l], LAYERS[l]
    if form == "clone":
      m = m.clone()
    det = arg if arg is not None else cfg.get("deterministic", False)
    name = cfg.get("rng_collection", "dropout")
    call = lambda: m(x, ctx=ctx) if arg is None else m(x, deterministic=arg, ctx=ctx)
    if det or cfg["rate"] == 0:
      require(np.array_equal(nums(call()), nums(x)), f"{case} step {i}: the input was changed")
    elif cfg["rate"] == 1:
      require(not nums(call()).any(), f"{case} step {i}: rate 1 is not zero")
    elif name not in counts:
      expect_raises(Exception, call, f"{case} step {i}: stream {name} does not exist")
    else:
      y = nums(call())
      keep_ok(y, x, cfg["rate"], cfg.get("broadcast_dims", ()), f"{case} step {i}")
      # the same layer on a fresh context advanced to the same position gives the same result
      twin = mk()
      for _ in range(counts[name]):
        twin.make_rng(name)
      require(np.array_equal(nums(m(x, deterministic=False, ctx=twin)), y), f"{case} step {i}: the result does not only depend on the next key of {name}")
      counts[name] += 1
    twin = mk()
    cov.trans()
    cov.state((form, sorted(counts.items()), l, arg))
  twin = mk()
  for n, c in counts.items():
    for _ in range(c):
      twin.make_rng(n)
  require_eq(next_keys(ctx, sorted(counts)), next_keys(twin, sorted(counts)), f"{case}: keys consumed")


def gen_seq(tier):
  for ops in itertools.product(OPS, repeat=3 if tier == "quick" else 4):
    yield "plain", ops
  for ops in itertools.product(OPS, repeat=2):
    yield "clone", ops


def run_grad(case, cov):
  rate, det, shape = case
  m = nnx.Dropout(rate, deterministic=det)
  x = inp(shape)
  f = lambda x: m(x, ctx=nnx.context(dropout=5)).sum()
  g = nums(jax.grad(f)(x))
  y = nums(m(x, ctx=nnx.context(dropout=5)))
  want = y / nums(x)
  require(np.allclose(g, want, rtol=1e-5), lambda: f"{case}: gradient {g} want {want}")
  cov.trans()
  cov.state(case)


def gen_grad(tier):
  yield from itertools.product((0.0, 0.25, 0.5, 1.0), (True, False), SHAPES)


SECTIONS = [Section("edges", gen_edges, run_edges), Section("precision", gen_prec, run_prec), Section("switches", gen_switch, run_switch), Section("masks", gen_mask, run_mask), Section("fractions", gen_stat, run_stat),
            Section("histories", gen_seq, run_seq), Section("gradients", gen_grad, run_grad)]
