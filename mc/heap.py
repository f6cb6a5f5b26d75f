"""Reference model of module graphs.

A heap is a list of modules; module i is (class name, {attr: value}) with value
  ("ref", j)            submodule j
  ("leaf", KIND, v)     node attribute of that kind and value
  ("static", v)         plain static attribute
Node kinds are listed in KINDS.  Everything here is ordinary Python over
dictionaries; nothing is shared with the code under test.
"""
import copy
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import nnx


class M(nnx.Module):
  def double(self, x):
    return x * 2


class M2(nnx.Module):
  pass


class MS(M):
  pass


class VarA(nnx.Variable):
  pass


class SubParam(nnx.Param):
  pass


class PT(nnx.Pytree):
  def __init__(self, a, b):
    self.a = nnx.TreeNode(a)
    self.b = b


CLASSES = {"M": M, "M2": M2, "MS": MS}
META_KEYS = ("sharding", "note")


def make_leaf(kind, v):
  """The value that is assigned to an attribute."""
  if kind == "P":
    return nnx.Param(v)
  if kind == "Ps":
    return nnx.Param(v, sharding=("a", None))
  if kind == "Pn":
    return nnx.Param(v, note="n1")
  if kind == "B":
    return nnx.BatchStat(v)
  if kind == "I":
    return nnx.Intermediate(v)
  if kind == "C":
    return nnx.Cache(v)
  if kind == "VA":
    return VarA(v)
  if kind == "SP":
    return SubParam(v)
  if kind == "N":
    return nnx.Node(v)
  if kind == "TN":
    return nnx.TreeNode(v)
  if kind == "Pt":  # variable holding a pytree value
    return nnx.Param({"k": v, "l": (v, v)})
  if kind == "Pz":  # variable holding nothing
    return nnx.Param(None)
  if kind == "Pa":
    return nnx.Param(np.full((2,), v, np.int32))
  if kind == "A":
    return jnp.full((), v, jnp.int32)
  if kind == "NP":
    return np.full((2,), v, np.int32)
  if kind == "PT":
    return PT(v, "s")
  if kind == "ST":  # a State held as an attribute
    return nnx.State({"q": v})
  raise KeyError(kind)


def static_value(v):
  if isinstance(v, tuple) and len(v) == 2 and v[0] == "Static":
    return nnx.Static(v[1])
  if v == "<fn>":
    return make_leaf
  return v


STATICS = (1, "s", None, (1, "x"), 2.5, True, "<fn>", ("Static", 7))
KINDS = ("P", "Ps", "Pn", "B", "I", "C", "VA", "SP", "N", "TN", "Pt", "Pz", "Pa", "A", "NP", "PT", "ST")


def enc(x):
  """Structural encoding of a value: class, kind, metadata and contents."""
  if isinstance(x, nnx.Container):
    meta = tuple((k, repr(getattr(x, k))) for k in META_KEYS if hasattr(x, k))
    return ("var", type(x).__name__, meta, enc(x.value))
  if isinstance(x, nnx.State):
    return ("state", tuple((k, enc(v)) for k, v in sorted(x.items())))
  if isinstance(x, nnx.Pytree):
    return ("pytree", type(x).__name__, tuple(
        (k, enc(v)) for k, v in sorted(vars(x).items()) if not k.startswith("_pytree__")))
  if isinstance(x, jax.core.Tracer):
    return ("tracer", str(x.aval))
  if isinstance(x, (jax.Array, np.ndarray)):
    return ("arr", str(x.dtype), tuple(x.shape), repr(np.asarray(x).tolist()))
  if isinstance(x, dict):
    return ("dict", tuple(sorted((k, enc(v)) for k, v in x.items())))
  if isinstance(x, (list, tuple)):
    return (type(x).__name__, tuple(enc(v) for v in x))
  if isinstance(x, np.generic):
    return ("arr", str(x.dtype), (), repr(x.tolist()))
  return ("py", type(x).__name__, repr(x))


_leaf_enc_cache = {}


def leaf_enc(kind, v):
  key = (kind, v)
  if key not in _leaf_enc_cache:
    x = make_leaf(kind, v)
    if isinstance(x, nnx.Container):
      meta = {"Ps": (("sharding", repr(("a", None))),),
              "Pn": (("sharding", "None"), ("note", repr("n1")))}.get(kind)
      if meta is None:
        meta = () if kind in ("N", "TN") else (("sharding", "None"),)
      val = {"Pt": {"k": v, "l": (v, v)}, "Pz": None}.get(kind, v)
      if kind == "Pa":
        val = np.full((2,), v, np.int32)
      _leaf_enc_cache[key] = ("var", type(x).__name__, meta, enc(val))
    elif kind == "PT":
      _leaf_enc_cache[key] = ("pytree", "PT", (("a", ("var", "TreeNode", (), enc(v))), ("b", enc("s"))))
    else:
      _leaf_enc_cache[key] = enc(x)
  return _leaf_enc_cache[key]


class Heap:
  """mods: list of [class name, {attr: value}] ; attribute order = insertion order."""

  def __init__(self, mods):
    self.mods = [[c, dict(attrs)] for c, attrs in mods]

  def copy(self):
    return Heap(self.mods)

  def order(self, root=0):
    """Modules in depth-first, attribute-name order; first-visit path of each."""
    seen, paths = [], {}

    def go(i, path):
      if i in paths:
        return
      paths[i] = path
      seen.append(i)
      for name in sorted(self.mods[i][1]):
        v = self.mods[i][1][name]
        if v[0] == "ref":
          go(v[1], path + (name,))
    go(root, ())
    return seen, paths

  def entries(self, root=0):
    """{path: leaf value spec}, in sorted path order."""
    order, paths = self.order(root)
    out = {}
    for i in order:
      for name in sorted(self.mods[i][1]):
        v = self.mods[i][1][name]
        if v[0] == "leaf":
          out["/".join(paths[i] + (name,))] = v
    return dict(sorted(out.items()))

  def owner(self, path, root=0):
    """(module index, attr) that a path names, following references."""
    parts = path.split("/")
    i = root
    for p in parts[:-1]:
      i = self.mods[i][1][p][1]
    return i, parts[-1]

  def canon(self, root=0):
    order, _ = self.order(root)
    num = {m: k for k, m in enumerate(order)}
    out = []
    for i in order:
      cls, attrs = self.mods[i]
      row = []
      for name in sorted(attrs):
        v = attrs[name]
        if v[0] == "ref":
          row.append((name, ("ref", num[v[1]])))
        elif v[0] == "leaf":
          row.append((name, v[1] if isinstance(v[1], tuple) else leaf_enc(v[1], v[2])))
        else:
          row.append((name, ("static", enc(static_value(v[1])))))
      out.append((cls, tuple(row)))
    return tuple(out)

  def entry_enc(self, root=0):
    return {p: (v[1] if isinstance(v[1], tuple) else leaf_enc(v[1], v[2])) for p, v in self.entries(root).items()}

  def build(self):
    mods = [CLASSES[c]() for c, _ in self.mods]
    for m, (c, attrs) in zip(mods, self.mods):
      for name, v in attrs.items():
        if v[0] == "ref":
          setattr(m, name, mods[v[1]])
        elif v[0] == "leaf":
          setattr(m, name, make_leaf(v[1], v[2]))
        else:
          setattr(m, name, static_value(v[1]))
    return mods


def attrs_of(m):
  return {k: v for k, v in vars(m).items() if not k.startswith("_module__")}


def is_node_attr(v):
  return isinstance(v, (nnx.Node, nnx.TreeNode, jax.Array, np.ndarray, nnx.Pytree, nnx.State, nnx.Pure))


def observe(root):
  """Canonical form of a live module graph, read attribute by attribute."""
  num, order = {}, []

  def visit(m):
    if id(m) in num:
      return
    num[id(m)] = len(order)
    order.append(m)
    for name, v in sorted(attrs_of(m).items()):
      if isinstance(v, nnx.Module):
        visit(v)
  visit(root)
  out = []
  for m in order:
    row = []
    for name, v in sorted(attrs_of(m).items()):
      if isinstance(v, nnx.Module):
        row.append((name, ("ref", num[id(v)])))
      elif is_node_attr(v):
        row.append((name, enc(v)))
      else:
        row.append((name, ("static", enc(v))))
    out.append((type(m).__name__, tuple(row)))
  return tuple(out)


def modules_of(root):
  seen, out = set(), []

  def go(m):
    if id(m) in seen:
      return
    seen.add(id(m))
    out.append(m)
    for _, v in sorted(attrs_of(m).items()):
      if isinstance(v, nnx.Module):
        go(v)
  go(root)
  return out


def state_enc(state):
  return {k: enc(v) for k, v in state.items()}


def graphs(n_mods, names, options, classes=None, reverse=(False,)):
  """All heaps with n_mods modules and the given attribute alternatives.

  options(i, name) -> list of values (None = absent).  Only heaps in which all
  modules are reachable, first visited in index order, are produced (heaps that
  differ by a renumbering are the same heap)."""
  slots = [(i, n) for i in range(n_mods) for n in names]
  for combo in itertools.product(*[options(i, n) for i, n in slots]):
    mods = [["M", {}] for _ in range(n_mods)]
    for (i, n), v in zip(slots, combo):
      if v is not None:
        mods[i][1][n] = v
    h = Heap(mods)
    order, _ = h.order()
    if order != list(range(n_mods)):
      continue
    yield h


def chains(trunk, branch, kind="P"):
  """Deep graphs: a trunk, then two branches that meet in one module (or end in two equal ones), with every
  back reference from the end to a module above it."""
  for t in range(trunk + 1):
    for a in range(branch + 1):
      for b in range(a + 1):
        for na, nb in (("a", "b"), ("b", "a")):
          for meet in (True, False):
            if not meet and a + b == 0:
              continue
            n = t + 1 + a + b
            for back in (None, *range(n)):
              mods = [["M", {"w": ("leaf", kind, 10 + i), "st": ("static", i)}] for i in range(n)]
              for i in range(t):
                mods[i][1]["d"] = ("ref", i + 1)
              for name, first, length in ((na, t + 1, a), (nb, t + 1 + a, b)):
                last = t
                for i in range(first, first + length):
                  mods[last][1][name] = ("ref", i)
                  last = i
                if meet or name == na:
                  end = len(mods) if name == na else end
                  if name == na:
                    mods.append(["M2", {"v": ("leaf", "B", 7), "e": ("leaf", kind, 8)}])
                else:
                  end = len(mods)
                  mods.append(["M2", {"v": ("leaf", "B", 7), "e": ("leaf", kind, 8)}])
                mods[last][1]["x" if length else name] = ("ref", end)
              if back is not None:
                mods[-1][1]["up"] = ("ref", back)
              # number the modules in visiting order
              h = Heap(mods)
              order, _ = h.order()
              num = {m: k for k, m in enumerate(order)}
              yield Heap([(mods[i][0], {k: ("ref", num[v[1]]) if v[0] == "ref" else v for k, v in mods[i][1].items()})
                          for i in order])


def _all(f):
  return lambda name, is_ref: f(name)


RENAMINGS = {
    "private": _all(lambda n: "_" + n),
    "private refs": lambda n, ref: "_" + n if ref else n,
    "private leaves": lambda n, ref: n if ref else "_" + n,
    "dunder": _all(lambda n: f"__{n}__"),
    "upper": _all(str.upper),
    "digits": _all(lambda n: str(sum(map(ord, n)) % 97)),
    "like fields": _all(lambda n: {"a": "values", "b": "keys", "w": "value", "x": "states", "up": "parent", "d": "index",
                                   "v": "moduledef", "e": "_module_", "st": "name"}.get(n, n)),
    "suffixes": _all(lambda n: n + "_0"),
}


def renamed(h, how):
  f = RENAMINGS[how]
  mods = []
  for c, attrs in h.mods:
    new = {f(k, v[0] == "ref"): v for k, v in attrs.items()}
    assert len(new) == len(attrs)
    mods.append((c, new))
  return Heap(mods)


def odd_names(graphs):
  """The same graphs under other attribute names."""
  for h in graphs:
    for how in RENAMINGS:
      yield renamed(h, how)


def to_case(h):
  return tuple((c, tuple(attrs.items())) for c, attrs in h.mods)


def from_case(case):
  return Heap([(c, dict((k, tuple(v)) for k, v in attrs)) for c, attrs in case])
