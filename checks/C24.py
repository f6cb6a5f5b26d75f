"""C24: partition specs and sharding metadata stay aligned with array axes."""
import itertools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import nnx
from jax.sharding import PartitionSpec

from mc.core import Section, Violation, require, require_eq

RULE = ("every variable rank, scan axis (also negative), full, partial, empty, inner-None and absent sharding, with and without partition name, in class "
        "and decorator form, over initialization and repeated calls; the sharding is inspected inside the body, after initialization and after "
        "each call; every kind of leaf, with and without sharding, inside a scanned module; every tree up to the bound for get_partition_spec; states = configurations, transitions = scans or calls")
ASSUMPTIONS = ["metadata is compared up to trailing None entries, which mean the same layout", "variables hold arrays or non-array leaves"]
BOUNDS = {"quick": "ranks 0-3, all 2(r+1) axes, lengths 1 and 2, 2 calls, 4 partition names (also None and none); pairs of 10 kinds of leaves; two variable types with all axis pairs at rank 2; trees with 3 leaves of 14 kinds",
          "thorough": "also lengths 3, 3 calls, all axis pairs for ranks 1-3"}

NAME = "layers"
PNAME = {True: NAME, "none": None, "other": "a"}  # the partition name of a configuration; False: none given


def shardings(rank):
  full = tuple("abcd"[:rank])
  out = [None] + [full[:i] for i in range(rank + 1)]
  if rank >= 1:
    out.append((None,) * (rank - 1) + ("z",))
  if rank >= 2:
    out.append(("y",) + (None,) * (rank - 1))
  if rank >= 3:
    out.append((None, "w", None))
  if rank >= 1:  # the user's own names may include the partition name
    out.append((NAME,))
  if rank >= 2:
    out.append((NAME, "b"))
    out.append((None, NAME))
  return out


def norm(s):
  if s is None:
    return None
  s = list(s)
  while s and s[-1] is None:
    s.pop()
  return tuple(s)


class Custom(nnx.Variable):
  pass


KIND = {"P": nnx.Param, "S": nnx.BatchStat, "C": Custom}
SEEN = []


def body_of(new, kinds):
  def body(self, carry, x=None):
    log = {}
    for (k, i), (rank, sh) in self.spec.items():
      var = vars(self)[f"{k}{i}"]
      log[k, i] = (type(var), var.sharding, getattr(var, "note", None), getattr(var.value, "shape", None))
      setattr(self, f"{k}{i}", var.value + 1)
      var = vars(self)[f"{k}{i}"]
      log[k, i, "after"] = (type(var), var.sharding, getattr(var, "note", None), getattr(var.value, "shape", None))
    if new:
      for k, rank in new:
        for i, sh in enumerate(shardings(rank)):
          if not hasattr(self, f"new{k}{i}"):
            setattr(self, f"new{k}{i}", KIND[k](jnp.zeros((2,) * rank) + carry, sharding=sh, note="new"))
    SEEN.append(log)
    return carry + 1.0, None
  return body


def make(spec, new, axes, bcast, L, name, form):
  """spec: {(kind, i): (rank, sharding)}"""
  kw = dict(variable_axes={KIND[k]: a for k, a in axes.items()}, variable_broadcast=KIND[bcast] if bcast else None, length=L)
  if name:
    kw["metadata_params"] = {nnx.PARTITION_NAME: PNAME[name]}

  def init(self, *, ctx=None):
    self.spec = spec
    for (k, i), (rank, sh) in spec.items():
      setattr(self, f"{k}{i}", KIND[k](jnp.zeros((2,) * rank), sharding=sh, note="n"))
  body = body_of(new, spec)
  if form == "class":
    Layer = type(nnx.Module)("Layer", (nnx.Module,), {"__init__": init, "__call__": body})
    m = nnx.Scan(Layer, **kw)()
    return m, m.scan_module
  if form == "decorator":
    Layer = type(nnx.Module)("Layer", (nnx.Module,), {"__init__": nnx.scan(init, is_init=True, **kw), "__call__": nnx.scan(body, **kw)})
    m = Layer()
    return m, m


def expected(rank, sh, axis, name, L):
  """(sharding, shape) of the stacked variable."""
  pos = axis if axis >= 0 else axis + rank + 1
  shape = [2] * rank
  shape.insert(pos, L)
  if sh is None or not name:
    return norm(sh), tuple(shape)
  full = list(sh) + [None] * (rank - len(sh))
  full.insert(pos, PNAME[name])
  return norm(full), tuple(shape)


def check_outside(m, names, axes, name, L, what, note):
  for attr, (k, rank, sh) in names.items():
    var = vars(m)[attr]
    require(type(var) is KIND[k] and getattr(var, "note", None) == note, lambda: f"{what}: {attr} is {var}")
    if k in axes:
      want, shape = expected(rank, sh, axes[k], name, L)
    else:
      want, shape = norm(sh), (2,) * rank
    require(var.value.shape == shape, lambda: f"{what}: {attr} has shape {var.value.shape}, want {shape}")
    require(norm(var.sharding) == want and (var.sharding is None) == (sh is None), lambda: f"{what}: {attr} (rank {rank}, sharding {sh}) has sharding {var.sharding}, want {want}")
    require(var.sharding is None or isinstance(var.sharding, tuple), lambda: f"{what}: sharding of {attr} is {var.sharding!r}")
    spec = nnx.get_partition_spec(m.get_state())[attr]
    wspec = PartitionSpec(*var.sharding) if var.sharding else PartitionSpec()
    require(spec == wspec, lambda: f"{what}: partition spec of {attr} is {spec}, want {wspec}")


def run(case, cov):
  ranks, axes, bcast, L, name, form, calls, new = case
  ranks, axes = dict(ranks), dict(axes)
  spec = {(k, i): (r, sh) for k, r in ranks.items() for i, sh in enumerate(shardings(r))}
  names = {f"{k}{i}": (k, r, sh) for (k, i), (r, sh) in spec.items()}
  newvars = tuple((k, ranks[k]) for k in new)
  what = f"scan {case}"
  scan, m = make(spec, newvars, axes, bcast, L, name, form)
  check_outside(m, names, axes, name, L, what + " after init", "n")
  cov.trans()
  for c in range(calls):
    del SEEN[:]
    carry, _ = scan(0.0, None)
    require(float(carry) == L, f"{what}: carry {carry}")
    require(SEEN, f"{what}: body not run")
    for log in SEEN:
      for key, (typ, sh, note, shape) in log.items():
        rank, want = spec[key[:2]]
        require(typ is KIND[key[0]] and note == "n" and shape == (2,) * rank, f"{what}: in the body {key} is {typ} {note} {shape}")
        require(norm(sh) == norm(want) and (sh is None) == (want is None), f"{what} call {c}: in the body {key} has sharding {sh}, want {want}")
    check_outside(m, names, axes, name, L, f"{what} after call {c}", "n")
    if newvars:
      check_outside(m, {f"new{k}{i}": (k, r, sh) for k, r in newvars for i, sh in enumerate(shardings(r))}, axes, name, L, f"{what} new variables after call {c}", "new")
    cov.trans()
    for k, r in ranks.items():
      v = np.asarray(vars(m)[f"{k}0"].value)
      if k in axes:
        require((v == c + 1).all(), f"{what}: values {v}")
  cov.state(case)


def gen(tier):
  full = tier == "thorough"
  calls = 3 if full else 2
  for form in ("class", "decorator"):
    for name in (True, False, "none", "other"):
      if name not in (True, False) and form == "decorator" and not full:
        continue
      for rank in range(4):
        for axis in range(-(rank + 1), rank + 1):
          for L in ((1, 2, 3) if full else (2,)):
            yield (("P", rank),), (("P", axis),), None, L, name, form, calls, ()
          if name is True:
            yield (("P", rank), ("C", 1)), (("P", axis),), None, 1 if rank == 1 else 2, name, form, 1, ("P", "C") if form == "class" else ("P",)
  for r in ((1, 2, 3) if full else (2,)):
    for a, b in itertools.product(range(-(r + 1), r + 1), repeat=2):
      yield (("P", r), ("S", r), ("C", 1)), (("P", a), ("S", b)), None, 2, True, "class" if (a + b) % 2 else "decorator", 1, ()


# -- partition specs ---------------------------------------------------------------------------------------------------------

LEAF = {
    "param": (lambda: nnx.Param(jnp.ones((2, 3)), sharding=("a", "b")), PartitionSpec("a", "b")),
    "partial": (lambda: nnx.Param(jnp.ones((2, 3)), sharding=("a",)), PartitionSpec("a")),
    "inner none": (lambda: nnx.BatchStat(np.ones((2, 3)), sharding=(None, "b")), PartitionSpec(None, "b")),
    "empty": (lambda: nnx.Param(jnp.ones((2,)), sharding=()), PartitionSpec()),
    "absent": (lambda: nnx.Param(jnp.ones((2,))), PartitionSpec()),
    "node": (lambda: nnx.Node(jnp.ones((2,))), PartitionSpec()),
    "node sharding": (lambda: nnx.Node(jnp.ones((2,)), sharding=("q",)), PartitionSpec("q")),
    "node none sharding": (lambda: nnx.Node(jnp.ones((2,)), sharding=None), PartitionSpec()),
    "non array": (lambda: nnx.Param(3), None),
    "non array sharded": (lambda: nnx.Param("x", sharding=("a",)), PartitionSpec("a")),
    "array": (lambda: jnp.ones((2,)), PartitionSpec()),
    "numpy": (lambda: np.ones(()), PartitionSpec()),
    "shape": (lambda: jax.ShapeDtypeStruct((2,), jnp.float32), PartitionSpec()),
    "param shape": (lambda: nnx.Param(jax.ShapeDtypeStruct((2,), jnp.float32), sharding=("a",)), PartitionSpec("a")),
    "absent shape": (lambda: nnx.Param(jax.ShapeDtypeStruct((2,), jnp.float32)), PartitionSpec()),
    "int": (lambda: 3, None),
    "str": (lambda: "s", None),
}
SHAPES = {
    "state": lambda a, b, c: nnx.State({"x": a, "y/z": b, "w": c}),
    "dict": lambda a, b, c: {"x": a, "y": {"z": b, "w": [c]}},
    "list": lambda a, b, c: [a, (b, [c])],
    "mixed": lambda a, b, c: ({"s": nnx.State({"x": a, "y": b})}, c, None),
}


def run_spec(case, cov):
  shape, ks = case
  tree = SHAPES[shape](*[LEAF[k][0]() for k in ks])
  before = str(tree)
  got = nnx.get_partition_spec(tree)
  want = SHAPES[shape](*[LEAF[k][1] for k in ks])
  require(str(tree) == before, f"{case}: the tree was changed")
  lf = lambda x: x is None or isinstance(x, PartitionSpec)
  gl, gt = jtu.tree_flatten(got, is_leaf=lf)
  wl, wt = jtu.tree_flatten(want, is_leaf=lf)
  require(gt == wt, lambda: f"{case}: structure {gt}, want {wt}")
  require(gl == wl and [type(x) for x in gl] == [type(x) for x in wl], lambda: f"{case}: specs {gl}, want {wl}")
  cov.trans()
  cov.state(case)


def gen_spec(tier):
  for shape in SHAPES:
    for ks in itertools.product(LEAF, repeat=3):
      yield shape, ks


class Inner(nnx.Module):
  def __init__(self, ks):
    for i, k in enumerate(ks):
      setattr(self, f"v{i}", LEAF[k][0]())


class Outer(nnx.Module):
  def __init__(self, ks):
    self.a = Inner(ks[:1])
    self.b = Inner(ks[1:])
    self.shared = self.b
    self.v = LEAF[ks[0]][0]()


def run_module(case, cov):
  """Specs of module states, of shapes under eval_shape, and of pytrees."""
  ks = case
  m = Outer(ks)
  spec = nnx.get_partition_spec(m.get_state())
  want = {}
  for path, k in (("a/v0", ks[0]), ("b/v0", ks[1]), ("b/v1", ks[2]), ("v", ks[0])):
    if k in ("int", "str", "shape"):
      continue
    want[path] = LEAF[k][1]
  require_eq(dict(spec), want, f"{ks}: specs of the state")
  require(type(spec) is nnx.State, "type of the result")
  if not set(ks) & {"int", "str", "shape", "param shape", "absent shape", "non array sharded"}:
    ab = jax.eval_shape(lambda: Outer(ks).get_state())
    want2 = {p: (PartitionSpec() if s is None else s) for p, s in want.items()}  # ints become abstract arrays
    require_eq(dict(nnx.get_partition_spec(ab)), want2, f"{ks}: specs of the abstract state")
  cov.trans()
  cov.state(case)


def gen_module(tier):
  yield from itertools.product(LEAF, repeat=3)


# -- every kind of leaf inside a scanned module ------------------------------------------------------------------------------

SCANNED = ("param", "partial", "inner none", "empty", "absent", "node", "node sharding", "node none sharding", "array", "tree")


def leaf_of(kind):
  if kind == "array":
    return jnp.zeros((2, 3))
  if kind == "tree":  # a node that holds a tree of arrays
    return nnx.TreeNode({"k": jnp.zeros((2, 3))})
  c = LEAF[kind][0]()
  return c.replace(value=jnp.zeros((2, 3)))


def arr(v):
  v = v.value if isinstance(v, nnx.Container) else v
  return v["k"] if isinstance(v, dict) else v


def run_kinds(case, cov):
  ks, filt, axis, name, form = case
  what = f"scan of kinds {case}"
  log = []

  def init(self, *, ctx=None):
    for i, k in enumerate(ks):
      setattr(self, f"v{i}", leaf_of(k))

  def body(self, carry, x=None):
    log.append([(type(vars(self)[f"v{i}"]), getattr(vars(self)[f"v{i}"], "sharding", "no"), arr(vars(self)[f"v{i}"]).shape) for i in range(len(ks))])
    for i in range(len(ks)):
      v = getattr(self, f"v{i}")
      setattr(self, f"v{i}", jtu.tree_map(lambda a: a + 1, v))
    return carry + 1.0, None
  kw = dict(variable_axes={{"types": (nnx.Node, nnx.TreeNode, jax.Array), "true": lambda p, v: True}[filt]: axis}, length=2)
  if name:
    kw["metadata_params"] = {nnx.PARTITION_NAME: PNAME[name]}
  if form == "class":
    Layer = type(nnx.Module)("Layer", (nnx.Module,), {"__init__": init, "__call__": body})
    scan = nnx.Scan(Layer, **kw)()
    m = scan.scan_module
  else:
    Layer = type(nnx.Module)("Layer", (nnx.Module,), {"__init__": nnx.scan(init, is_init=True, **kw), "__call__": nnx.scan(body, **kw)})
    scan = m = Layer()
  fresh = [leaf_of(k) for k in ks]
  for c in range(3):
    for i, k in enumerate(ks):
      got, was = vars(m)[f"v{i}"], fresh[i]
      require(type(got) is type(was), lambda: f"{what}: v{i} became {type(got)} after {c} calls")
      shape = [2, 3]
      shape.insert(axis if axis >= 0 else axis + 3, 2)
      require(arr(got).shape == tuple(shape) and (np.asarray(arr(got)) == c).all(), lambda: f"{what}: v{i} is {arr(got)} after {c} calls")
      require(hasattr(got, "sharding") == hasattr(was, "sharding"), lambda: f"{what}: v{i} gained or lost sharding after {c} calls")
      if isinstance(got, nnx.Container) and hasattr(was, "sharding"):
        want = expected(2, was.sharding, axis, name, 2)[0]
        require(norm(got.sharding) == want and (got.sharding is None) == (was.sharding is None), lambda: f"{what}: v{i} has sharding {got.sharding}, want {want}, after {c} calls")
    if c < 2:
      del log[:]
      scan(0.0, None)
      require(log, f"{what}: body not run")
      for row in log:
        for (t, sh, shape), was in zip(row, fresh):
          require(t is type(was) or (not isinstance(was, nnx.Container) and issubclass(t, jax.Array)), lambda: f"{what}: in the body a {type(was)} is a {t}")
          require(shape == (2, 3), f"{what}: in the body the shape is {shape}")
          if isinstance(was, nnx.Container):
            w = getattr(was, "sharding", "no")
            require(sh == w or (isinstance(w, tuple) and norm(sh) == norm(w)), lambda: f"{what}: in the body the sharding is {sh}, want {w}")
    cov.trans()
  cov.state(case)


def gen_kinds(tier):
  for form, name, axis, filt in itertools.product(("class", "decorator"), (True, False), (0, 1, -1, -2), ("types", "true")):
    for k in SCANNED:
      yield (k,), filt, axis, name, form
    if axis in (0, -1) and filt == "types":
      for ks in itertools.combinations(SCANNED, 2) if tier == "quick" else itertools.product(SCANNED, repeat=2):
        yield ks, filt, axis, name, form


SECTIONS = [Section("kinds", gen_kinds, run_kinds), Section("scan", gen, run), Section("partition spec", gen_spec, run_spec), Section("module state", gen_module, run_module)]
