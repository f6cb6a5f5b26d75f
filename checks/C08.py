"""C08: variables keep their kind and metadata through every operation."""
import copy
import itertools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import nnx

from mc import heap
from mc.core import Section, expect_raises, require, require_eq

RULE = ("every (kind, metadata) of the held variable x every operation x every (kind, metadata) of the supplied "
        "value, on modules, pytrees, states and bare variables, against the rule 'same kind and metadata or "
        "plain: only the value changes; otherwise ValueError and nothing changes'; operation histories up to the bound; replace with every combination of new value and new metadata")
ASSUMPTIONS = ["metadata values are comparable with =="]
BOUNDS = {"quick": "9 kinds x 5 metadata sets (one with a value None) squared x 4 holders; operation histories of length 3 over 16 operations; mutable leaves of every kind x metadata x 5 shardings",
          "thorough": "histories of length 4"}

KINDS = {"Param": nnx.Param, "BatchStat": nnx.BatchStat, "Cache": nnx.Cache, "Intermediate": nnx.Intermediate,
         "Variable": nnx.Variable, "Node": nnx.Node, "TreeNode": nnx.TreeNode, "VarA": heap.VarA, "SubParam": heap.SubParam}
MD = {"none": {}, "sh": {"sharding": ("a", None)}, "note": {"note": "n"}, "both": {"sharding": ("b",), "note": "m"},
      "nnote": {"note": None}}


def expected_md(kind, md):
  d = dict(MD[md])
  if issubclass(KINDS[kind], nnx.Variable):
    d.setdefault("sharding", None)
  return d


def make(kind, md, v):
  return KINDS[kind](v, **MD[md])


def view(x):
  """kind, metadata and value through attribute access."""
  if not isinstance(x, nnx.Container):
    return ("plain", heap.enc(x))
  d = {k: getattr(x, k) for k in ("sharding", "note") if hasattr(x, k)}
  return (type(x).__name__, tuple(sorted(d.items(), key=repr)), heap.enc(x.value))


def want(kind, md, v):
  return (kind, tuple(sorted(expected_md(kind, md).items(), key=repr)), heap.enc(v))


class Mod(nnx.Module):
  pass


class Tree(nnx.Pytree, mutable=True):
  def __init__(self, v):
    self.v = v


def hold(holder, val):
  if holder == "module":
    m = Mod()
    m.v = val
    return m
  return Tree(val)


def held(m):
  return vars(m)["v"]


def run_assign(case, cov):
  holder, k1, m1, k2, m2 = case
  a = make(k1, m1, 1)
  m = hold(holder, a)
  require_eq(view(held(m)), want(k1, m1, 1), "holding a variable")
  require_eq(m.v, 1, "attribute read gives the value")
  same = k1 == k2 and expected_md(k1, m1) == expected_md(k2, m2)
  cov.state(case)
  for op in ("setattr", "update_state", "mutable leaf", "wrap", "replace", "container replace"):
    b = make(k2, m2, 2)
    m = hold(holder, make(k1, m1, 1))
    if op == "setattr":
      fn = lambda: setattr(m, "v", b)
    elif op == "update_state":
      if holder != "module" or k1 == "TreeNode":
        continue
      fn = lambda: m.update_state(nnx.State({"v": b}))
    elif op == "mutable leaf":
      if holder != "module" or k1 == "TreeNode":
        continue
      leaf = m.mutable_state_dict()["v"]

      def fn():
        leaf.value = b
    elif op == "replace":
      if holder == "module":
        continue
      keep = m

      def fn():
        new = keep.replace(v=b)
        require_eq(view(held(keep)), want(k1, m1, 1), "replace changed the original")
        require_eq(view(held(new)), want(k1, m1, 2), "replace result")
    elif op == "container replace":
      c = make(k1, m1, 1)

      def fn():
        r = c.replace(value=b)
        require_eq(view(c), want(k1, m1, 1), "Container.replace changed the original")
        require_eq(view(r), want(k1, m1, 2), "Container.replace result")
    else:  # wrapping a variable in the other constructor
      def fn():
        r = KINDS[k1](b, **MD[m1])
        require_eq(view(r), want(k1, m1, 2), "wrapping an equal variable")
    cov.trans()
    if same:
      fn()
      if op in ("setattr", "update_state", "mutable leaf"):
        require_eq(view(held(m)), want(k1, m1, 2), f"{op} of an equal variable")
    else:
      expect_raises(ValueError, fn, f"{op} of {k2}/{m2} onto {k1}/{m1} ({holder})")
      if op in ("setattr", "update_state", "mutable leaf"):
        require_eq(view(held(m)), want(k1, m1, 1), f"failed {op} changed the variable")
    require_eq(view(b), want(k2, m2, 2), f"{op} changed the supplied variable")
  # equality: same kind, value and metadata
  x, y, z = make(k1, m1, 1), make(k2, m2, 1), make(k2, m2, 2)
  require_eq(x == y, same, "equality of variables with the same value")
  require_eq(x != y, not same, "inequality of variables with the same value")
  require(not (x == z), "variables with different values are not equal")
  require_eq(x.is_equivalent(z), same, "is_equivalent ignores the value only")
  require(x != 1 and not (x == None), "a variable is not equal to a plain value")  # noqa: E711
  if holder == "module" and not same and k1 != "TreeNode" and k2 != "TreeNode":
    p, q = hold(holder, x), hold(holder, y)
    sp, sq = p.get_state(), q.get_state()
    require(sp["v"] != sq["v"], "states of different kinds")


def gen_assign(tier):
  km = list(itertools.product(KINDS, MD))
  for holder in ("module", "pytree"):
    for (k1, m1), (k2, m2) in itertools.product(km, km):
      yield (holder, k1, m1, k2, m2)


OPS = ("set", "set equal", "set bad kind", "set bad md", "clone", "tree_map", "flatten", "flatten_keys", "update", "update self",
       "copy", "replace value", "jit", "split", "set_in_call", "deepcopy", "set old")


def run_history(case, cov):
  kind, md, ops = case
  v = 1
  m = hold("module", make(kind, md, v))
  first = vars(m)["v"]
  for step, op in enumerate(ops):
    n = 10 + step
    bad = "BatchStat" if kind != "BatchStat" else "Param"
    if op == "set":
      m.v = n
      v = n
    elif op == "set equal":
      m.v = make(kind, md, n)
      v = n
    elif op == "set old":
      m.v = first
      v = first.value
    elif op == "set bad kind":
      expect_raises(ValueError, lambda: setattr(m, "v", make(bad, md, n)), "other kind")
    elif op == "set bad md":
      other = "both" if md != "both" else "sh"
      expect_raises(ValueError, lambda: setattr(m, "v", make(kind, other, n)), "other metadata")
    elif op == "clone":
      m = m.clone()
    elif op == "tree_map":
      p = jax.tree_map(lambda x: x + 1, m.partition())
      m = p.merge()
      v = v + 1
    elif op == "flatten":
      leaves, td = jtu.tree_flatten(m.get_state())
      require_eq([heap.enc(x) for x in leaves], [heap.enc(v)], "leaves of the state")
      m.update_state(jtu.tree_unflatten(td, [n]))
      v = n
    elif op == "flatten_keys":
      kl, td = jtu.tree_flatten_with_path(m.get_state())
      m.update_state(jtu.tree_unflatten(td, [x for _, x in kl]))
    elif op == "update":
      m.update_state(nnx.State({"v": make(kind, md, n)}))
      v = n
    elif op == "update self":
      m.update_state(m)
    elif op == "copy":
      c = vars(m)["v"].copy()
      require_eq(view(c), want(kind, md, v), "copy")
      require(c == vars(m)["v"], "a copy equals its source")
      c.value = -5
      require_eq(view(vars(m)["v"]), want(kind, md, v), "changing a copy changed its source")
    elif op == "replace value":
      c = vars(m)["v"].replace(value=n)
      require_eq(view(c), want(kind, md, n), "replace")
      require_eq(view(vars(m)["v"]), want(kind, md, v), "replace changed its source")
      expect_raises(ValueError, lambda: c.replace(nosuch=1), "unknown metadata")
      if "sharding" in MD[md]:
        r = c.replace(sharding=("z",))
        require_eq((r.sharding, r.value), (("z",), n), "replace of metadata")
    elif op == "jit":
      p = jax.jit(lambda p: p)(m.partition())
      m = p.merge()
      v = jnp.asarray(v)
    elif op == "split":
      (a, b), d = m.partition(KINDS[kind], ...)
      require_eq((len(a), len(b)), (1, 0), "type filter selects the kind")
      m = d.merge(b, a)
    elif op == "set_in_call":
      Mod.bump = lambda self, x: setattr(self, "v", x)
      _, m = m.apply.bump(n)
      v = n
    elif op == "deepcopy":
      m = copy.deepcopy(m)
    cov.trans()
    cov.state((kind, md, ops[:step + 1]))
    require_eq(view(vars(m)["v"]), want(kind, md, v), f"after {ops[:step + 1]}")
    require_eq(view(m.get_state()["v"]), want(kind, md, v), f"state after {ops[:step + 1]}")
    require_eq(heap.enc(m.v), heap.enc(v), f"read after {ops[:step + 1]}")


def gen_history(tier):
  n = 4 if tier == "thorough" else 3
  ops = [o for o in OPS if o != "jit"]
  for kind, md in (("Param", "both"), ("BatchStat", "none"), ("Node", "note"), ("VarA", "sh"), ("Cache", "nnote")):
    for h in itertools.product(ops, repeat=n):
      yield (kind, md, h)
    for a, b in itertools.product(OPS, repeat=2):
      if kind == "Param":
        yield (kind, md, (a, "jit", b))


def run_metadata(case, cov):
  """ContainerMetadata and with_metadata give exactly the listed metadata."""
  kind, m1, m2, how = case
  cov.state(case)
  cov.trans()
  cls = KINDS[kind]
  if how == "direct":
    x = cls(nnx.ContainerMetadata(3, dict(MD[m2])), **MD[m1])
  elif how == "with_metadata":
    x = cls(nnx.with_metadata(lambda a: a + 1, **MD[m2])(2), **MD[m1])
  elif how == "partial":
    m = Mod()
    m.v = cls(nnx.with_metadata(lambda a, b: a + b, **MD[m2])(1, 2), **MD[m1])
    x = vars(m)["v"]
    m.v = 3
    x = vars(m)["v"]
  exp = dict(MD[m1])
  if issubclass(cls, nnx.Variable):
    exp.setdefault("sharding", None)
  exp.update(MD[m2])
  require_eq({k: getattr(x, k) for k in ("sharding", "note") if hasattr(x, k)}, exp, f"metadata of {kind} from {how}")
  require_eq(x.value, 3, "value")
  require_eq(type(x), cls, "kind")
  leaves, td = jtu.tree_flatten(x)
  y = jtu.tree_unflatten(td, leaves)
  require(y == x, "flatten/unflatten of a variable")


def gen_metadata(tier):
  return itertools.product(KINDS, MD, MD, ("direct", "with_metadata", "partial"))


def run_replace(case, cov):
  """Container.replace and construction from a container: value and metadata at once."""
  kind, md, okind, omd, extra, how = case
  cov.state(case)
  cov.trans()
  cls = KINDS[kind]
  src = 7 if okind is None else make(okind, omd, 7)
  before_src = view(src)
  ex = EXTRA[extra]
  if how == "construct":
    exp = dict(ex)
    if issubclass(cls, nnx.Variable):
      exp.setdefault("sharding", None)
    ok = okind is None or (okind == kind and expected_md(okind, omd) == exp)
    call = lambda: cls(src, **ex)
  else:
    x = make(kind, md, 3)
    exp = {**expected_md(kind, md), **ex}
    ok = set(ex) <= set(expected_md(kind, md)) and (okind is None or (okind == kind and expected_md(okind, omd) == expected_md(kind, md)))
    call = lambda: x.replace(**ex, **({"value": src} if how == "replace" else {}))
  if not ok:
    expect_raises(ValueError, call, f"{how} with {okind} {omd} and {ex}")
  else:
    y = call()
    require_eq(view(y), (kind, tuple(sorted(exp.items(), key=repr)), heap.enc(3 if how == "metadata" else 7)), how)
    require(y is not src, f"{how} returned its argument")
  if how != "construct":
    require_eq(view(x), want(kind, md, 3), f"{how} changed the original")
  require_eq(view(src), before_src, f"{how} changed its argument")


EXTRA = {"none": {}, "sh": {"sharding": ("z",)}, "same": {"sharding": ("a", None)}, "note": {"note": "q"}, "unknown": {"nosuch": 1},
         "both": {"sharding": None, "note": "n"}}


def gen_replace(tier):
  for kind in KINDS:
    for md in MD:
      for extra in EXTRA:
        yield (kind, md, None, None, extra, "metadata")
        for how in ("replace", "construct"):
          if how == "construct" and (md != "none" or extra == "unknown"):
            continue
          yield (kind, md, None, None, extra, how)
          for okind in KINDS:
            for omd in MD:
              yield (kind, md, okind, omd, extra, how)


def run_unbox(case, cov):
  """Variables with an unbox function: reads go through it, everything else keeps it."""
  ops, = case
  calls = []

  def unbox(c):
    calls.append(type(c).__name__)
    return ("unboxed", c.value)
  m = Mod()
  m.v = nnx.Param(nnx.with_metadata(lambda: 5, unbox_fn=unbox, note="n")())
  v = 5
  for op in ops:
    if op == "set":
      m.v = v = v + 1
    elif op == "clone":
      m = m.clone()
    elif op == "tree_map":
      m = jax.tree_map(lambda x: x * 2, m.partition()).merge()
      v *= 2
    elif op == "update":
      m.update_state(m.get_state())
    cov.trans()
    cov.state((ops, v))
    require_eq(m.v, ("unboxed", v), f"read through unbox_fn after {op}")
    c = m.get_state()["v"]
    require_eq((type(c), c.value, c.note, c.unbox_fn), (nnx.Param, v, "n", unbox), f"variable after {op}")


def gen_unbox(tier):
  for n in range(1, 5):
    for ops in itertools.product(("set", "clone", "tree_map", "update"), repeat=n):
      yield (ops,)


def run_static(case, cov):
  a, b = case
  x, y = nnx.Static(a), nnx.Static(b)
  cov.state(case)
  cov.trans()
  require_eq(x == y, a == b, "Static equality")
  require_eq(jtu.tree_leaves(x), [], "Static has no leaves")
  require_eq(jtu.tree_structure(x) == jtu.tree_structure(y), a == b, "Static structure")
  if a == b:
    require_eq(hash(x), hash(y), "equal Static values hash equally")
  require(jax.tree_map(lambda z: z, x) == x, "mapping a Static")
  m = Mod()
  m.v = nnx.Static(a)
  require_eq(m.v, a, "read")
  require_eq(list(m.get_state()), [], "Static is not state")
  m.v = b
  require(isinstance(vars(m)["v"], nnx.Static) and m.v == b, "assignment keeps Static")
  expect_raises(ValueError, lambda: setattr(m, "v", nnx.Param(b)), "a Static is not a Param")
  require(isinstance(vars(m)["v"], nnx.Static) and m.v == b, "failed assignment changed Static")
  require_eq(m.clone().v, b, "clone keeps Static")


def run_leaves(case, cov):
  """Mutable leaves show the value and the sharding of whatever kind of node they stand for."""
  kind, md, sh, where = case
  cov.state(case)
  cls = KINDS[kind]
  kw = dict(MD[md], **({} if sh == "none given" else {"sharding": {"names": ("a", None), "empty": (), "none": None, "string": "s"}[sh]}))
  m = Mod()
  m.v = cls(3, **kw)
  if where == "alias":
    m.sub = Mod()
    m.sub.w, m.sub.v, m.again = nnx.Param(1), cls(3, **kw), m.sub
  path = "v" if where == "top" else "again/v"
  leaf = m.mutable_state_dict()[path]
  exp = expected_md(kind, md)
  if "sharding" in kw:
    exp["sharding"] = kw["sharding"]
  if kind == "TreeNode":  # a tree has no sharding of its own
    exp_sh = leaf.sharding
  else:
    exp_sh = exp.get("sharding")
  require_eq(leaf.sharding, exp_sh, f"{case}: sharding of the mutable leaf")
  require_eq(heap.enc(leaf.value), heap.enc(3), f"{case}: value of the mutable leaf")
  leaf.value = 9
  cov.trans()
  raw = vars(m if where == "top" else m.sub)["v"]
  require_eq(view(raw), (kind, tuple(sorted(exp.items(), key=repr)), heap.enc(9)), f"{case}: after writing the leaf")
  require_eq(leaf.sharding, exp_sh, f"{case}: sharding after writing")
  require_eq(heap.enc(leaf.value), heap.enc(9), f"{case}: value after writing")


def gen_leaves(tier):
  return itertools.product(KINDS, MD, ("none given", "names", "empty", "none", "string"), ("top", "alias"))


SECTIONS = [Section("mutable leaves", gen_leaves, run_leaves), Section("assign", gen_assign, run_assign), Section("histories", gen_history, run_history),
            Section("metadata", gen_metadata, run_metadata), Section("replace", gen_replace, run_replace), Section("unbox", gen_unbox, run_unbox),
            Section("static", lambda t: itertools.product((1, 2, "a", (1, 2), None), repeat=2), run_static)]
