"""C28: Conv equals a sliding-window loop for every small configuration; malformed settings raise."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import nnx

from checks.C27 import BF16, F16, F32, I32, check_params, fill, init, join, keys_for, num, same
from mc.core import Section, expect_raises, require, require_eq

RULE = ("the full product of the configuration domains in 1 and 2 spatial dimensions with integer-valued kernels and inputs (exact in every dtype), compared with a "
        "sliding-window loop; the product of features, groups, bias, mask and batch shapes; the product of dtypes; every malformed setting; states = configurations, "
        "transitions = calls")
ASSUMPTIONS = ["named paddings together with input dilation are unsupported and have to raise"]
BOUNDS = {"quick": "1D: kernels 1-3, lengths 1-4, 4 strides, 11 paddings, 2 input and 3 kernel dilations; 2D: 3 kernels, 2 sizes, 4 strides, 8 paddings, 2x2 dilations; 6 feature/group sets x bias x mask x 7 batch shapes",
          "thorough": "the same with all feature sets and batch shapes for every geometry, kernels up to 4, lengths up to 6"}


def tup(x, r):
  return (1,) * r if x is None else (x,) * r if isinstance(x, int) else tuple(x)


def taps(n, k, s, pad, di, dk):
  """For one dimension: per output position the list of (input position, kernel position)."""
  eff = (k - 1) * dk + 1
  size = (n - 1) * di + 1 if n else 0
  if pad == "CIRCULAR":
    return [[((j * s + t * dk - (eff - 1) // 2) % n, t) for t in range(k)] for j in range((n - 1) // s + 1)]
  if pad == "SAME":
    out = -(-n // s)
    total = max((out - 1) * s + eff - n, 0)
    lo, hi = total // 2, total - total // 2
  elif pad == "VALID":
    lo = hi = 0
  elif pad == "CAUSAL":
    lo, hi = eff - 1, 0
  else:
    lo, hi = pad
  res = []
  for j in range(max((size + lo + hi - eff) // s + 1, 0)):
    row = []
    for t in range(k):
      p = j * s + t * dk - lo
      if 0 <= p < size and p % di == 0:
        row.append((p // di, t))
    res.append(row)
  return res


def ref_conv(x, w, b, rank, strides, padding, di, dk, groups):
  x, w = num(x), num(w)
  strides, di, dk = tup(strides, rank), tup(di, rank), tup(dk, rank)
  if isinstance(padding, str):
    pads = [padding] * rank
  elif isinstance(padding, int):
    pads = [(padding, padding)] * rank
  else:
    pads = [(p, p) if isinstance(p, int) else tuple(p) for p in padding]
  batch, spatial, cin = x.shape[:x.ndim - rank - 1], x.shape[x.ndim - rank - 1:-1], x.shape[-1]
  dims = [taps(n, k, s, p, a, c) for n, k, s, p, a, c in zip(spatial, w.shape, strides, pads, di, dk)]
  cout = w.shape[-1]
  gi, go = cin // groups, cout // groups
  out = np.zeros(batch + tuple(len(d) for d in dims) + (cout,))
  for pos in np.ndindex(*(len(d) for d in dims)):
    for combo in itertools.product(*(d[p] for d, p in zip(dims, pos))):
      src = tuple(c[0] for c in combo)
      ker = tuple(c[1] for c in combo)
      for o in range(cout):
        g = o // go
        for i in range(gi):
          out[(Ellipsis,) + pos + (o,)] += x[(Ellipsis,) + src + (g * gi + i,)] * w[ker + (i, o)]
  if b is not None:
    out = out + num(b)
  return out


MASKS = {"none": None, "some": lambda k: k * fill(k.shape, "bool", 1).astype(k.dtype), "zero": lambda k: jnp.zeros_like(k)}


def run_conv(case, cov):
  kernel, sizes, strides, padding, di, dk, (cin, cout, groups), bias, mask, batch, dtype, pdt, idt = case
  rank = len(kernel)
  calls, used = [], []

  def conv(lhs, rhs, *args, **kw):
    used.append((str(lhs.dtype), str(rhs.dtype), kw.get("precision")))
    return jax.lax.conv_general_dilated(lhs, rhs, *args, **kw)
  m = nnx.Conv(cin, cout, kernel, strides, padding=padding, input_dilation=di, kernel_dilation=dk, feature_group_count=groups, use_bias=bias, mask_fn=MASKS[mask],
               dtype=dtype and jnp.dtype(dtype), param_dtype=jnp.dtype(pdt), precision="highest", kernel_init=init(calls, 0), bias_init=init(calls, 1),
               conv_general_dilated=conv, ctx=nnx.context(7))
  kshape = tuple(kernel) + (cin // groups, cout)
  shapes = {"kernel": (kshape, pdt)}
  if bias:
    shapes["bias"] = ((cout,), pdt)
  require_eq(sorted((s, d) for _, s, d in calls), sorted(shapes.values()), "initializers called for")
  require_eq(len({str(k) for k, _, _ in calls}), len(calls), "parameters initialized with equal keys")
  check_params(m, shapes, "Conv")
  x = fill(batch + sizes + (cin,), idt, 2)
  if dtype == I32:
    expect_raises(ValueError, lambda: m(x), f"{case}: integer dtype")
    cov.trans()
    return cov.state(case)
  if isinstance(padding, str) and any(d != 1 for d in tup(di, rank)):
    # not supported; what is not supported has to raise
    expect_raises(Exception, lambda: m(x), f"{case}: {padding} padding with input dilation")
    cov.trans()
    cov.outcome("unsupported")
    return cov.state(case)
  out = dtype or join(pdt, idt)
  k0 = num(m.kernel)
  w = num(m.kernel) if MASKS[mask] is None else num(MASKS[mask](m.kernel))
  want = ref_conv(x, jnp.asarray(w, jnp.float32), m.bias if bias else None, rank, strides, padding, di, dk, groups)
  same(m(x), want, out, f"{case}")
  require(used and all(u == (out, out, "highest") for u in used), lambda: f"{case}: conv called with {used}")
  cov.trans()
  require(np.array_equal(num(m.kernel), k0), f"{case}: the call changed the kernel")
  check_params(m, shapes, "Conv after the call")
  if bias:
    m.bias = fill((cout,), pdt, 3)
    want = ref_conv(x, jnp.asarray(w, jnp.float32), m.bias, rank, strides, padding, di, dk, groups)
    state, md = m.partition()
    same(md.apply(state)(x)[0], want, out, f"{case} functional, other bias")
    cov.trans()
  cov.state(case)


FEATS = ((1, 1, 1), (2, 2, 1), (2, 2, 2), (2, 4, 2), (1, 2, 1), (4, 2, 2))
BATCHES = ((2,), (), (1,), (0,), (2, 1), (2, 0), (1, 2, 2))
PADS1 = ("SAME", "VALID", "CIRCULAR", "CAUSAL", 0, 1, 2, (1,), ((0, 1),), ((2, 1),), ((0, 0),))
PADS2 = ("SAME", "VALID", "CIRCULAR", 0, 1, (1, 0), ((0, 1), (1, 0)), (2, (0, 1)))
DEF = (None, F32, F32)


def geoms(tier):
  kmax, nmax = (3, 4) if tier == "quick" else (4, 6)
  for k, n, s, p, di, dk in itertools.product(range(1, kmax + 1), range(1, nmax + 1), (1, 2, 3, (2,)), PADS1, (1, 2), (1, 2, (2,))):
    yield (k,), (n,), s, p, di, dk
  for k, n, s, p, di, dk in itertools.product(((1, 2), (2, 2), (3, 1)) if tier == "quick" else itertools.product((1, 2, 3), repeat=2), ((2, 3), (3, 1)) if tier == "quick" else itertools.product((1, 2, 3), repeat=2),
                                             (1, 2, (1, 2), (2, 1)), PADS2, (1, (2, 1)), (1, (1, 2))):
    yield k, n, s, p, di, dk


SOME = (((2,), (3,), 1, "SAME", 1, 1), ((3,), (4,), 2, "CIRCULAR", 1, 2), ((2,), (2,), None, "CAUSAL", None, None), ((2, 2), (2, 3), (1, 2), ((0, 1), (1, 0)), 1, 1))


def gen_conv(tier):
  n = 0
  for i, g in enumerate(geoms(tier)):
    if tier == "thorough" and len(g[0]) == 1:
      for f in FEATS:
        yield g + (f, True, "none", (2,)) + DEF
      for b in BATCHES[1:]:
        yield g + ((2, 2, 1), True, "none", b) + DEF
    else:
      yield g + ((2, 2, 1), True, "none", (2,)) + DEF
  for g in SOME:
    for f, bias, mask, b in itertools.product(FEATS, (True, False), MASKS, BATCHES):
      yield g + (f, bias, mask, b) + DEF
  for g, b in ((SOME[0], (2,)), (SOME[1], ()), (SOME[3], (1, 2, 2))):
    for dt in itertools.product((None, F32, F16, BF16, I32), (F32, F16, BF16, I32), (F32, F16, BF16, I32, "bool")):
      for bias in (True, False) if tier == "thorough" or len(g[0]) == 1 else (True,):
        yield g + ((2, 2, 1), bias, "none", b) + dt


# -- malformed settings ------------------------------------------------------------------------------------------------------

BAD = {
    "kernel int": dict(kernel_size=3),
    "groups do not divide inputs": dict(in_features=3, feature_group_count=2, out_features=2),
    "groups do not divide outputs": dict(in_features=2, feature_group_count=2, out_features=3),
    "causal 2d": dict(rank=2, padding="CAUSAL"),
    "too few pads": dict(rank=2, padding=(1,)),
    "too few pairs": dict(rank=2, padding=((1, 1),)),
    "too many pads": dict(padding=(1, 1)),
    "no pads": dict(padding=()),
    "list pair": dict(padding=([0, 1],)),
    "long pair": dict(padding=((0, 1, 2),)),
    "short pair": dict(padding=((1,),)),
    "float pad": dict(padding=1.5),
    "float pads": dict(padding=(1.5,)),
    "string pads": dict(padding=("SAME",)),
    "none pad": dict(padding=None),
    "unknown padding": dict(padding="REFLECT"),
    "too many strides": dict(strides=(1, 1)),
    "too few strides": dict(rank=2, strides=(1,)),
    "too many input dilations": dict(input_dilation=(1, 1)),
    "too few input dilations": dict(rank=2, input_dilation=(1,)),
    "too many kernel dilations": dict(kernel_dilation=(1, 1)),
    "too few kernel dilations": dict(rank=2, kernel_dilation=(1,)),
    "too few kernel dilations circular": dict(rank=2, kernel_dilation=(1,), padding="CIRCULAR"),
    "too many kernel dilations circular": dict(kernel_dilation=(1, 2), padding="CIRCULAR"),
    "too many kernel dilations causal": dict(kernel_dilation=(1, 2), padding="CAUSAL"),
    "zero stride": dict(strides=0),
    "wrong features": dict(x_features=3),
    "too few features": dict(x_features=1),
    "features of one group": dict(in_features=4, feature_group_count=2, out_features=2, x_features=2),
    "no spatial axis": dict(x_rank=-1),
    "scalar": dict(x_rank=-2),
    "integer dtype": dict(dtype=jnp.int32),
}


def run_bad(case, cov):
  name, batch, bias = case
  kw = dict(BAD[name])
  rank = kw.pop("rank", 1)
  xf = kw.pop("x_features", None)
  xr = kw.pop("x_rank", 0)
  cin = kw.pop("in_features", 2)
  cout = kw.pop("out_features", 2)
  ks = kw.pop("kernel_size", (2,) * rank)
  x = fill(batch + (3,) * rank + (xf or cin,), F32)
  if xr:
    if batch:
      return
    x = x[0] if xr == -1 else x[0, 0]
    if name == "no spatial axis":
      x = fill((cin,), F32)

  def go():
    m = nnx.Conv(cin, cout, ks, kw.get("strides", 1), **{k: v for k, v in kw.items() if k != "strides"}, use_bias=bias, ctx=nnx.context(0))
    return m(x)
  expect_raises(Exception, go, f"{case}")
  # the same call with well-formed settings works
  nnx.Conv(2, 2, (2,) * rank, use_bias=bias, ctx=nnx.context(0))(fill(batch + (3,) * rank + (2,), F32))
  cov.trans()
  cov.state(case)


def gen_bad(tier):
  yield from itertools.product(BAD, BATCHES[:3] + BATCHES[4:5], (True, False))


# -- initialization ----------------------------------------------------------------------------------------------------------


def run_init(case, cov):
  kernel, (cin, cout, groups), bias, seed, used, pdt = case
  ctx = nnx.context(params=seed, dropout=1)
  for _ in range(used):
    ctx.make_rng("params")
  need = 2 if bias else 1
  ks = keys_for(seed, used + need + 1)
  m = nnx.Conv(cin, cout, list(kernel), feature_group_count=groups, use_bias=bias, param_dtype=jnp.dtype(pdt), ctx=ctx)
  got = {p: v.value for p, v in m.get_state().items() if v.value is not None}
  want = {"kernel": jax.nn.initializers.lecun_normal()(ks[used], tuple(kernel) + (cin // groups, cout), jnp.dtype(pdt))}
  if bias:
    want["bias"] = jnp.zeros((cout,), jnp.dtype(pdt))
  require_eq(sorted(got), sorted(want), "parameters")
  for p in want:
    require(got[p].dtype == want[p].dtype and np.array_equal(num(got[p]), num(want[p])), lambda: f"{case}: initial {p} is {got[p]}, want {want[p]}")
  require(np.array_equal(np.asarray(ctx.make_rng("params")), np.asarray(ks[used + need])), f"{case}: the number of keys taken from the stream is not {need}")
  # defaults: stride 1, SAME, no dilation
  x = fill((2,) + (3,) * len(kernel) + (cin,), F32)
  if pdt == F32:
    m.kernel = fill(want["kernel"].shape, F32)
    same(m(x), ref_conv(x, m.kernel, m.bias if bias else None, len(kernel), 1, "SAME", 1, 1, groups), F32, f"{case} defaults")
  cov.trans()
  cov.state(case)


def gen_init(tier):
  yield from itertools.product(((1,), (3,), (2, 2), (1, 3), (2, 1, 2)), FEATS[1:4], (True, False), (0, 5), (0, 2), (F32, F16))


SECTIONS = [Section("conv", gen_conv, run_conv), Section("malformed", gen_bad, run_bad), Section("initialization", gen_init, run_init)]
