"""C01: splitting a module and merging it back preserves the module graph."""
import itertools
import random

import jax
import jax.tree_util as jtu
import numpy as np
import nnx

from mc import heap
from mc.core import Section, Violation, require, require_eq

RULE = ("every rooted module graph within the bounds (all reference structures incl. sharing and "
        "cycles, all attribute kinds) is built for real, split and merged in every listed way and "
        "read back attribute by attribute; states = distinct canonical graphs, transitions = "
        "split/merge operations executed")
ASSUMPTIONS = [
    "attribute names contain no '/' (known findings, see 'slash in names'), no name starts with '_module__'",
    "static values are compared with ==; values are small integers, arrays and pytrees",
    "graphs beyond the bounds are not explored",
]
BOUNDS = {
    "quick": "all graphs: 2 modules x 3 names x {absent, ref0, ref1, Param, static}; 3 modules x 2 "
             "names x {absent, ref0..2, Param, static}; all node kinds and static kinds pairwise with "
             "all 3-way partitions and merge orders; jax.jit / pytree round trips on all 2x2 graphs; deep chains: trunk <= 2, two branches <= 3 that meet or not, every back reference",
    "thorough": "as quick plus 3 modules x 3 names x {absent, ref0..2, Param}, 4 modules x 2 names x "
                "{absent, ref0..3, Param}, both insertion orders",
}


def _merge_ways(h, mods, cov):
  """Every merge route; yields (name, module)."""
  root = mods[0]
  pure = root.partition()
  yield "partition().merge()", pure.merge()
  yield "clone()", root.clone()
  state, moddef = pure
  yield "moduledef.merge(state)", moddef.merge(state)
  leaves, treedef = jtu.tree_flatten(pure)
  yield "flatten/unflatten", jtu.tree_unflatten(treedef, leaves).merge()
  yield "get_module_def().merge(get_state())", root.get_module_def().merge(root.get_state())
  yield "second generation", root.clone().partition().merge()


def _splits(h, root, groups, cov):
  entries = list(h.entries())
  for assign in itertools.product(range(groups), repeat=len(entries)):
    g = dict(zip(entries, assign))
    filters = [(lambda p, x, k=k: g[p] == k) for k in range(groups - 1)] + [...]
    pure = root.partition(*filters)
    states, moddef = pure
    if groups == 1:
      states = (states,)
    for k, s in enumerate(states):
      want = [p for p in entries if g[p] == k]
      require_eq(list(s), want, f"partition group {k}")
    for perm in itertools.permutations(range(groups)):
      cov.trans()
      yield assign, perm, moddef.merge(*[states[i] for i in perm])
    yield assign, "pure", pure.merge()
    leaves, treedef = jtu.tree_flatten(pure)
    yield assign, "pytree", jtu.tree_unflatten(treedef, leaves).merge()
    yield assign, "pure.partition", root.partition().partition(*filters).merge()


def _check(h, mods, new, what):
  want = h.canon()
  require_eq(heap.observe(new), want, f"{what}: merged module differs")
  # nothing of the original is reused for a mutable part
  old = {id(m) for m in mods}
  for m in heap.modules_of(new):
    require(id(m) not in old, f"{what}: merged graph contains a module of the original")


def run_graph(case, cov):
  h = heap.from_case(case)
  mods = h.build()
  want = h.canon()
  require_eq(heap.observe(mods[0]), want, "building the graph")
  cov.state(want)
  for what, new in _merge_ways(h, mods, cov):
    cov.trans()
    _check(h, mods, new, what)
  entries = list(h.entries())
  if entries:
    even = set(entries[::2])
    states, moddef = mods[0].partition(lambda p, x: p in even, ...)
    for perm in (states, states[::-1]):
      cov.trans()
      _check(h, mods, moddef.merge(*perm), "2-way partition")
  require_eq(heap.observe(mods[0]), want, "the original changed")


def run_splits(case, cov):
  groups, case = case
  h = heap.from_case(case)
  mods = h.build()
  want = h.canon()
  cov.state(want)
  for assign, perm, new in _splits(h, mods[0], groups, cov):
    _check(h, mods, new, f"split {assign} merged in order {perm}")
  for what, new in _merge_ways(h, mods, cov):
    cov.trans()
    _check(h, mods, new, what)
  require_eq(heap.observe(mods[0]), want, "the original changed")


def _numeric(c):
  """int leaves become arrays in jit."""
  if isinstance(c, tuple):
    if len(c) == 3 and c[0] == "py" and c[1] == "int":
      return ("arr", "int32", (), c[2])
    return tuple(_numeric(x) for x in c)
  return c


def _mask_static(c):
  return c


def run_jit(case, cov):
  h = heap.from_case(case)
  mods = h.build()
  want = h.canon()
  cov.state(want)

  def norm(canon):
    return tuple((cls, tuple((n, v if v[0] in ("static", "ref") else _numeric(v)) for n, v in row))
                 for cls, row in canon)
  pure = mods[0].partition()
  out = jax.jit(lambda p: p)(pure)
  cov.trans()
  require_eq(heap.observe(out.merge()), norm(want), "identity jit of a pure module")
  if h.entries():
    first = next(iter(h.entries()))
    pure2 = mods[0].partition(lambda p, x: p == first, ...)
    out = jax.jit(lambda p: p)(pure2)
    cov.trans()
    require_eq(heap.observe(out.merge()), norm(want), "identity jit of a partitioned pure module")
    # merging inside the trace and splitting again
    out = jax.jit(lambda p: p.merge().partition())(pure2)
    cov.trans()
    require_eq(heap.observe(out.merge()), norm(want), "merge and split inside jit")
  # tree_map keeps everything but the leaves
  out = jax.tree_map(lambda x: x, pure).merge()
  require_eq(heap.observe(out), want, "tree_map identity")
  require_eq(heap.observe(mods[0]), want, "the original changed")


def _opts(n, leaves=("P",), static=True):
  def options(i, name):
    o = [None] + [("ref", j) for j in range(n)]
    for k in leaves:
      o.append(("leaf", k, 10 * i + ord(name[0])))
    if static:
      o.append(("static", i + 1))
    return o
  return options


def gen_graphs(tier):
  spaces = [(2, "bac", True), (3, "ba", True)]
  if tier == "thorough":
    spaces += [(3, "bac", False), (4, "ba", False)]
  for n, names, st in spaces:
    for h in heap.graphs(n, names, _opts(n, static=st)):
      yield heap.to_case(h)
  # other class, longer names whose joined order differs from attribute order
  for h in heap.graphs(3, ["ab", "a"], _opts(3)):
    for m in h.mods[1:2]:
      m[0] = "M2"
    yield heap.to_case(h)


def gen_splits(tier):
  kinds = [("leaf", k, 3) for k in heap.KINDS]
  stat = [("static", v) for v in heap.STATICS]
  for a in kinds + stat:
    for b in kinds + stat:
      if a[0] == "static" and b[0] == "static" and tier == "quick" and a is not b:
        continue
      case = (("M", (("b", b), ("a", a), ("c", ("ref", 0)))),)
      yield (3, case)
      case = (("M", (("z", ("ref", 1)), ("a", a))), ("M2", (("y", b), ("x", ("ref", 0)))))
      yield (2, case)
  for h in heap.graphs(2, "ab", _opts(2, leaves=("P", "B"))):
    if len(h.entries()) <= 4:
      yield (3, heap.to_case(h))
  # dotted / prefix-related names
  for names in (("a", "a.b", "aa"), ("A", "a", "_p"), ("1", "10", "2")):
    for refs in itertools.product([None, 0, 1], repeat=3):
      m0 = [(n, ("ref", r)) if r is not None else (n, ("leaf", "P", i)) for i, (n, r) in enumerate(zip(names, refs))]
      m1 = [(n, ("leaf", "B", i)) for i, n in enumerate(names)]
      h = heap.Heap([("M", m0), ("M", m1)])
      if len(h.order()[0]) == 2:
        yield (2, heap.to_case(h))


ODD = ("_module", "_module_", "module__x", "_m", "__m", "_module_state", "value", "states", "0", "a b", "é")


def gen_names(tier):
  """Unusual attribute names in every role and in every pair."""
  roles = [("leaf", "P", 1), ("leaf", "A", 2), ("static", 3), ("ref", 0), ("ref", 1)]
  for n, m in itertools.permutations(ODD, 2):
    for i, a in enumerate(roles):
      for b in (roles if tier == "thorough" else roles[i:]):
        h = heap.Heap([("M", [(n, a), (m, b), ("s", ("ref", 1))]), ("M2", [(m, roles[2]), (n, b), ("q", ("leaf", "B", 4))])])
        yield (1, heap.to_case(h))


def gen_jit(tier):
  kinds = [k for k in heap.KINDS]
  for a in kinds:
    yield (("M", (("b", ("leaf", a, 1)), ("a", ("ref", 1)))), ("M2", (("z", ("ref", 0)), ("y", ("leaf", a, 2)))))
  for h in heap.graphs(2, "ab", _opts(2)):
    yield heap.to_case(h)


def gen_deep(tier):
  t, b = (3, 4) if tier == "thorough" else (2, 3)
  for h in heap.chains(t, b):
    yield heap.to_case(h)


SLASH = {
    "static": heap.Heap([("M", {"a/b": ("static", 3), "w": ("leaf", "P", 1)})]),
    "leaf": heap.Heap([("M", {"a/b": ("leaf", "P", 1)})]),
    "submodule": heap.Heap([("M", {"a/b": ("ref", 1)}), ("M", {"w": ("leaf", "P", 1)})]),
    "empty submodule": heap.Heap([("M", {"a/b": ("ref", 1), "w": ("leaf", "P", 1)}), ("M", {"s": ("static", 1)})]),
    "collision": heap.Heap([("M", {"a/b": ("leaf", "P", 1), "a": ("ref", 1)}), ("M", {"b": ("leaf", "P", 2)})]),
}


def run_slash(case, cov):
  """Names with the separator of paths in them (keys of nnx.Dict can be any string)."""
  h = SLASH[case]
  m = h.build()[0]
  cov.state(case)
  cov.trans()
  want, lossy = h.canon(), None
  if case == "collision":  # what is known to happen: one entry for both, merged to the submodule
    lossy = (want[0][:1] + (tuple(e for e in want[0][1] if e[0] != "a/b"),),
             (want[1][0], (("b", heap.leaf_enc("P", 1)),)))
  for name, f in (("clone", m.clone), ("split and merge", lambda: m.partition().merge())):
    try:
      got = heap.observe(f())
    except KeyError as e:
      raise Violation(f"{case}: {name} raises {e!r}", key=f"slash-in-name-{case}" if case in ("leaf", "submodule") else None)
    if got != want:
      raise Violation(f"{case}: {name} gives {got} instead of {want}", key="slash-in-name-collision" if got == lossy else None)


class Probe(nnx.Module):
  def probe(self):
    return self.task(self)


def run_initializing(case, cov):
  """A copy made while init runs is in the same state as the original: every module of it is initializing exactly
  when the module it is a copy of is."""
  edges, start, way = case
  mods = [Probe() for _ in range(3)]
  for i, (a, b) in enumerate(edges):
    mods[i].a, mods[i].w = mods[a], nnx.Param(i)
    if b is not None:
      mods[i].b = mods[b]
  root = mods[0]
  reach, todo = [], [root]
  while todo:
    m = todo.pop(0)
    if not any(m is r for r in reach):
      reach.append(m)
      todo += [getattr(m, n) for n in ("a", "b") if hasattr(m, n)]
  if not any(mods[start] is m for m in reach):
    return
  out = []

  def pairs(m, c, seen):
    if id(m) not in seen:
      seen.add(id(m))
      yield m, c
      for n in ("a", "b"):
        if hasattr(m, n):
          yield from pairs(getattr(m, n), getattr(c, n), seen)

  def task(_):
    c = WAYS_INIT[way](root)
    for m, d in pairs(root, c, set()):
      out.append((m.is_initializing, d.is_initializing))
    return len(out)
  vars(mods[start])["task"] = task
  # the modules reachable from the one init was called on are initializing
  mods[start].init.probe()
  cov.state((case, tuple(out)))
  cov.trans(len(out))
  require(out and out[[m is mods[start] for m, _ in pairs(root, root, set())].index(True)][0], "the module is initializing")
  for i, (a, b) in enumerate(out):
    require_eq(b, a, f"is_initializing of module {i} of the copy ({way})")
  require(not any(m.is_initializing for m in reach), "is_initializing after init")
  del vars(mods[start])["task"]
  require(not any(m.is_initializing for _, m in pairs(root, root.clone(), set())), "is_initializing of a copy made after init")


WAYS_INIT = {
    "clone": lambda m: m.clone(),
    "merge": lambda m: m.partition().merge(),
    "two states": lambda m: (lambda s, d: d.merge(*reversed(s)))(*m.partition(nnx.Param, ...)),
    "definition": lambda m: m.get_module_def().merge(m.get_state()),
    "tree": lambda m: jax.tree_util.tree_map(lambda x: x, m.partition()).merge(),
    "twice": lambda m: m.clone().partition().merge(),
}


def gen_initializing(tier):
  one = [(a, b) for a in range(3) for b in (None, 0, 1, 2)]
  for e in itertools.product(one, repeat=3):
    if tier == "quick" and (e[1][1] is not None and e[2][1] is not None):
      continue
    for start in range(3):
      for way in WAYS_INIT:
        yield (e, start, way)


SECTIONS = [
    Section("initializing", gen_initializing, run_initializing),
    Section("slash in names", lambda tier: iter(SLASH), run_slash),
    Section("deep-sharing", gen_deep, run_graph),
    Section("kinds-and-splits", gen_splits, run_splits),
    Section("names", gen_names, run_splits),
    Section("graphs", gen_graphs, run_graph),
    Section("jit-roundtrip", gen_jit, run_jit),
]
