"""C20: flax state dictionaries of pytrees round-trip and reject mismatches."""
import copy
import itertools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import nnx
import optax
from flax import serialization as ser

from mc.core import Section, Violation, require, require_eq

RULE = ("every nesting up to the depth bound of pytrees of four class forms whose child field is raw, Node, Param or TreeNode of a "
        "list, tuple or dict, compared with nested dictionaries; then every single deletion and every single addition of a key at "
        "every level of the state dictionary; states = (structure, dictionary), transitions = restore calls")
ASSUMPTIONS = ["plain dicts, lists and named tuples inside node fields follow flax (missing keys are errors, extra keys of plain dicts are ignored)",
               "State values are leaves for flax"]
BOUNDS = {"quick": "depth 3 with 4 class forms and 13 child kinds (two of them classes without node fields) at the outer two levels (2 and 4 innermost), all single deletions and additions",
          "thorough": "depth 3 with all forms and kinds at every level, all single and paired deletions and additions"}


class P(nnx.Pytree):
  def __init__(self, child, leaf, st, arr):
    self.child = child
    self.leaf = nnx.Param(leaf, sharding=("a",), note="n")
    self.st = nnx.Static(st)
    self.raw = "raw%s" % st
    self.arr = arr


class M(nnx.Pytree, mutable=True):
  def __init__(self, child, leaf, st, arr):
    self.arr = arr
    self.st = nnx.Static(st)
    self.raw = "raw%s" % st
    self.leaf = nnx.BatchStat(leaf, note="m")
    self.child = child


def _dc(frozen, name):
  ns = {"__annotations__": {n: object for n in ("child", "leaf", "st", "arr", "raw")},
        "child": nnx.field(), "leaf": nnx.var_field(nnx.Param, sharding=("b", None)), "st": nnx.static_field(), "arr": nnx.field(),
        "raw": nnx.field(default="r")}
  return nnx.dataclass(frozen=frozen)(type(nnx.Pytree)(name, (nnx.Pytree,), ns))


D, F = _dc(False, "D"), _dc(True, "F")
class E(nnx.Pytree):
  """No node fields: its state is empty."""

  def __init__(self):
    self.st = nnx.Static(1)
    self.raw = "r"


class EM(nnx.Pytree, mutable=True):
  pass


@nnx.dataclass
class ED(nnx.Pytree):
  st: int = nnx.static_field(default=1)


EMPTY = {"E": E, "EM": EM, "ED": ED}
FORMS = {"P": P, "M": M, "D": D, "F": F}
KINDS = ("empty", "empties", "raw", "node", "param", "list", "tuple", "dict", "dictlist", "static", "two", "none", "nones")


class Gen:
  def __init__(self, base):
    self.n = base

  def __call__(self):
    self.n += 1
    return self.n


def wrap(kind, child, g):
  if kind == "raw":
    return child
  if kind == "empty":
    return E()
  if kind == "empties":
    return nnx.TreeNode({"x": [EM(), child], "y": ED()})
  if kind == "node":
    return nnx.Node(child)
  if kind == "param":
    return nnx.Param(child, sharding=("c",), q=1)
  if kind == "list":
    return nnx.TreeNode([g(), child])
  if kind == "tuple":
    return nnx.TreeNode((child, g()))
  if kind == "dict":
    return nnx.TreeNode({"x": child, "y": g()})
  if kind == "dictlist":
    return nnx.Node({"l": [child, {"z": g()}]})
  if kind == "static":
    return nnx.Static("not part of the state")
  if kind == "none":
    return nnx.TreeNode(None)
  if kind == "nones":
    return nnx.Param({"x": None, "y": child, "z": [None]})
  if kind == "two":
    return nnx.TreeNode([child, copy.copy(child) if isinstance(child, nnx.Pytree) else g()])


def build(spec, g):
  """spec: () leaf int or (form, kind, spec)."""
  if not spec:
    return nnx.Node(g()) if False else g()
  form, kind, sub = spec
  if form in EMPTY:
    return EMPTY[form]()
  child = build(sub, g)
  if kind == "raw" and not sub:
    child = np.asarray([child])
  return FORMS[form](child=wrap(kind, child, g), leaf=g(), st=len(str(spec)), arr=np.asarray([g()]))


def sdict(x):
  """Expected state dictionary of an object, from its attributes."""
  if isinstance(x, nnx.Pytree):
    out = {}
    for k, v in vars(x).items():
      if k.startswith("_pytree__"):
        continue
      if isinstance(v, nnx.Static):
        continue
      if isinstance(v, (nnx.Node, nnx.TreeNode)):
        out[k] = sdict(v.value)
      elif isinstance(v, (nnx.Pytree, np.ndarray, jax.Array, nnx.State)):
        out[k] = sdict(v)
    return out
  if isinstance(x, dict):
    return {k: sdict(v) for k, v in x.items()}
  if isinstance(x, tuple) and hasattr(x, "_fields"):
    return {k: sdict(getattr(x, k)) for k in x._fields}
  if isinstance(x, (list, tuple)):
    return {str(i): sdict(v) for i, v in enumerate(x)}
  return x


def freeze(x):
  if isinstance(x, dict):
    return ("dict",) + tuple(sorted((k, freeze(v)) for k, v in x.items()))
  if isinstance(x, (np.ndarray, jax.Array)):
    return ("arr", str(x.dtype), x.shape, tuple(np.asarray(x).ravel().tolist()))
  if isinstance(x, nnx.State):
    return ("state",) + tuple((k, freeze(v)) for k, v in x.items())
  return x


def desc(x):
  """Everything observable about an object."""
  if isinstance(x, nnx.Pytree):
    return (type(x).__name__,) + tuple((k, desc(v)) for k, v in sorted(vars(x).items()) if not k.startswith("_pytree__"))
  if isinstance(x, nnx.Container):
    return (type(x).__name__, tuple((k, desc(v)) for k, v in sorted(vars(x).items())))
  if isinstance(x, dict):
    return ("dict",) + tuple((k, desc(v)) for k, v in sorted(x.items()))
  if isinstance(x, (list, tuple)):
    return (type(x).__name__,) + tuple(desc(v) for v in x)
  if isinstance(x, nnx.State):
    return ("State",) + tuple((k, desc(v)) for k, v in x.items())
  if isinstance(x, (np.ndarray, jax.Array)):
    return freeze(x)
  if callable(x):
    return ("fn", id(x))
  return (type(x).__name__, x) if isinstance(x, (int, str, float, type(None))) else (type(x).__name__, repr(x))


def levels(x, path=()):
  """(path, whether unknown keys must be refused, keys) of every dictionary level of the state of x."""
  if isinstance(x, nnx.Pytree):
    d = sdict(x)
    yield path, True, tuple(d)
    for k in d:
      v = vars(x)[k]
      yield from levels(v.value if isinstance(v, nnx.Container) else v, path + (k,))
  elif isinstance(x, dict):
    yield path, False, tuple(x)
    for k, v in x.items():
      yield from levels(v, path + (k,))
  elif isinstance(x, tuple) and hasattr(x, "_fields"):
    yield path, True, x._fields
    for k in x._fields:
      yield from levels(getattr(x, k), path + (k,))
  elif isinstance(x, (list, tuple)):
    yield path, "size", tuple(str(i) for i in range(len(x)))  # flax only compares the number of items
    for i, v in enumerate(x):
      yield from levels(v, path + (str(i),))


def edit(d, path, fn):
  d = dict(d)
  if not path:
    fn(d)
    return d
  d[path[0]] = edit(d[path[0]], path[1:], fn)
  return d


def refuse(target, bad, what):
  before, bfr = desc(target), freeze(bad)
  try:
    ser.from_state_dict(target, bad)
  except ValueError:
    pass
  except Exception as e:
    raise Violation(f"{what}: raised {type(e).__name__} ({str(e)[:200]}) instead of ValueError")
  else:
    raise Violation(f"{what}: accepted")
  require(desc(target) == before, f"{what}: the target was changed")
  require(freeze(bad) == bfr, f"{what}: the dictionary was changed")


def roundtrip(src, dst, what, cov):
  s0, d0 = desc(src), desc(dst)
  sd = ser.to_state_dict(src)
  require_eq(freeze(sd), freeze(sdict(src)), f"{what}: state dictionary")
  require(desc(src) == s0, f"{what}: saving changed the object")
  sd0 = freeze(sd)
  out = ser.from_state_dict(dst, sd)
  cov.trans()
  require(out is not dst, f"{what}: restored in place")
  require_eq(desc(out), s0, f"{what}: restored object")
  require(desc(dst) == d0, f"{what}: restoring changed the target")
  require(freeze(sd) == sd0, f"{what}: restoring changed the dictionary")
  if jtu.tree_structure(src) != jtu.tree_structure(out):
    raise Violation(f"{what}: tree structure {jtu.tree_structure(out)}")
  # the restored object is as (im)mutable as the class says
  try:
    out.leaf = 5
    changed = True
  except AttributeError:
    changed = False
  if hasattr(out, "leaf"):
    require(changed == (type(out) is M), f"{what}: mutability of the restored object")
    require(desc(dst) == d0, f"{what}: the restored object is tied to the target")
  try:
    out.zzz = 5
    raise Violation(f"{what}: field added to the restored object")
  except AttributeError:
    pass
  return sd


def value_at(x, path):
  for k in path:
    if isinstance(x, nnx.Pytree):
      x = getattr(x, k)
    elif isinstance(x, dict):
      x = x[k]
    elif isinstance(x, tuple) and hasattr(x, "_fields"):
      x = getattr(x, k)
    else:
      x = x[int(k)]
  return x


def leaf_paths(d, path=()):
  for k, v in d.items():
    if isinstance(v, dict):
      yield from leaf_paths(v, path + (k,))
    elif not isinstance(v, nnx.State):
      yield path + (k,)


def mutations(x, sd):
  for path, strict, keys in levels(x):
    for k in keys:
      yield ("del",) + path + (k,), edit(sd, path, lambda d: d.pop(k))
      if strict is True:
        yield ("rename",) + path + (k,), edit(sd, path, lambda d: d.__setitem__("zz", d.pop(k)))
    if strict:
      yield ("add",) + path, edit(sd, path, lambda d: d.__setitem__("zz", 1))
      if isinstance(x, nnx.Pytree) and not path:
        for st in ("st", "raw", "_pytree__sorted_fields"):
          if st in vars(x):
            yield ("add static", st), edit(sd, path, lambda d: d.__setitem__(st, 1))


def run(case, cov):
  spec, pairs = case
  src, dst = build(spec, Gen(0)), build(spec, Gen(1000))
  what = f"{spec}"
  sd = roundtrip(src, dst, what, cov)
  cov.state((spec, freeze(sd)))
  muts = list(mutations(src, sd))
  for m, bad in muts:
    refuse(dst, bad, f"{what} {m}")
    cov.trans()
    cov.state((spec, m))
  if pairs:
    for m, bad in muts:
      for m2, bad2 in mutations(src, sd):
        if m2 <= m or m[1:len(m2)] == m2[1:] or m2[1:len(m)] == m[1:]:
          continue
        a, b = bad, bad2
        try:  # apply the second edit to the first result
          k = m2[-1]
          if m2[0] == "del":
            both = edit(a, m2[1:-1], lambda d: d.pop(k))
          elif m2[0] == "add":
            both = edit(a, m2[1:], lambda d: d.__setitem__("zy", 2))
          else:
            continue
        except KeyError:
          continue
        refuse(dst, both, f"{what} {m} {m2}")
        cov.trans()
  # what a field holds is decided by the dictionary alone, also when it has None or something of another type there
  for path in leaf_paths(sd):
    for v in (None, 7, "s", (1, 2), np.zeros((2, 3), np.int8)) if pairs else (None,):
      new = edit(sd, path[:-1], lambda d: d.__setitem__(path[-1], v))
      out = ser.from_state_dict(dst, new)
      require_eq(desc(value_at(out, path)), desc(v), f"{what}: {path} replaced by {v!r}")
      for other in leaf_paths(sd) if pairs else ():
        if other != path:
          require_eq(desc(value_at(out, other)), desc(value_at(src, other)), f"{what}: {other} when {path} is replaced by {v!r}")
      cov.trans()
  # restoring twice from one dictionary, and a restored object as a target
  again = ser.from_state_dict(ser.from_state_dict(dst, sd), ser.to_state_dict(dst))
  require_eq(desc(again), desc(dst), f"{what}: restoring the old values over the new ones")


def gen(tier):
  full = tier == "thorough"
  inner_f = tuple(FORMS) if full else ("P", "D")
  inner_k = KINDS if full else ("raw", "node", "list", "dict")
  d1 = [(f, k, ()) for f in FORMS for k in KINDS]
  d1s = [(f, k, ()) for f in inner_f for k in inner_k]
  d2 = [(f, k, s) for f in FORMS for k in KINDS if k != "static" for s in (d1 if full else d1s)]
  for e in EMPTY:
    yield (e, "raw", ()), True
  for s in d1 + d2:
    yield s, (full or len(s[2]) == 0) and True
  for f in FORMS:
    for k in KINDS:
      if k != "static":
        for s in ([(f2, k2, s) for f2 in inner_f for k2 in KINDS if k2 != "static" for s in d1s]):
          yield (f, k, s), False


# -- bytes and arrays ------------------------------------------------------------------------------------------------


def run_bytes(case, cov):
  form, dtype, shape = case
  mk = lambda o: FORMS[form](child=nnx.TreeNode({"a": jnp.full(shape, o, dtype), "b": [jnp.full(shape, o + 1, dtype)]}),
                             leaf=jnp.full(shape, o + 2, dtype), st=1, arr=jnp.full(shape, o + 3, dtype))
  src, dst = mk(1), mk(40)
  out = ser.from_bytes(dst, ser.to_bytes(src))
  cov.trans()
  cov.state(case)
  require_eq(desc(out), desc(src), f"bytes {case}")


def gen_bytes(tier):
  yield from itertools.product(FORMS, ("float32", "int32", "bfloat16", "bool"), ((), (1,), (2, 3), (0, 2)))


# -- train states ------------------------------------------------------------------------------------------------------


class Mod(nnx.Module):
  def __init__(self, v):
    self.w = nnx.Param(jnp.asarray([v, v + 1]), sharding=("a",))
    self.b = nnx.Param(jnp.asarray(v))


TXS = {"sgd": lambda: optax.sgd(0.5), "momentum": lambda: optax.sgd(0.5, momentum=0.9), "adam": lambda: optax.adam(0.1),
       "chain": lambda: optax.chain(optax.clip(1.0), optax.adam(0.1))}
_TX = {}


def ts(tx, v, steps, extra):
  if tx not in _TX:
    _TX[tx] = TXS[tx]()
  m = Mod(v)
  params, md = m.partition(nnx.Param)
  kw = {"none": {}, "node": {"ex": nnx.Node(jnp.asarray(v))}, "static": {"ex": "tag"}, "array": {"ex": jnp.asarray([v])},
        "pytree": {"ex": P(np.asarray([v]), v, 1, np.asarray([2]))}}[extra]
  s = nnx.TrainState(md, params=params, tx=_TX[tx], **kw)
  for i in range(steps):
    s = s.apply_gradients(jtu.tree_map(lambda x: x + i, params))
  return s


def run_ts(case, cov):
  tx, steps, extra = case
  src, dst = ts(tx, 1.0, steps, extra), ts(tx, 5.0, 0, extra)
  what = f"train state {case}"
  sd = ser.to_state_dict(src)
  require_eq(freeze(sd), freeze(sdict(src)), f"{what}: state dictionary")
  d0 = desc(dst)
  out = ser.from_state_dict(dst, sd)
  cov.trans()
  cov.state(case)
  want, got = jtu.tree_flatten(src), jtu.tree_flatten(out)
  require(desc(dst) == d0, f"{what}: target changed")
  require_eq([freeze(x) for x in got[0]], [freeze(x) for x in want[0]], f"{what}: leaves")
  require_eq(str(got[1]), str(want[1]), f"{what}: structure")
  for k in vars(src):
    require_eq(type(vars(out)[k]).__name__, type(vars(src)[k]).__name__, f"{what}: kind of {k}")
  for m, bad in mutations(src, sd):
    refuse(dst, bad, f"{what} {m}")
    cov.trans()
  # training goes on as if nothing happened
  g = jtu.tree_map(jnp.ones_like, src.params)
  a, b = src.apply_gradients(g), out.apply_gradients(g)
  require_eq([freeze(x) for x in jtu.tree_leaves(b)], [freeze(x) for x in jtu.tree_leaves(a)], f"{what}: next step")


def gen_ts(tier):
  yield from itertools.product(TXS, range(4 if tier == "thorough" else 3), ("none", "node", "static", "array", "pytree"))


SECTIONS = [Section("nesting", gen, run), Section("bytes", gen_bytes, run_bytes), Section("train state", gen_ts, run_ts)]
