"""C02: module state has exactly one canonical entry per node attribute."""
import itertools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import nnx

from mc import heap
from mc.core import Section, Violation, expect_raises, require, require_eq

RULE = ("every rooted module graph within the bounds, built with every insertion order of attributes; "
        "all extraction routes are compared with the model's depth-first first-visit paths; "
        "states = distinct (graph, insertion order), transitions = extraction calls")
ASSUMPTIONS = ["attribute names contain no '/' (a known finding, see 'slash in names')"]
BOUNDS = {
    "quick": "2 modules x 3 names x {absent, ref0, ref1, Param, static}, 3 modules x 2 names x {absent, "
             "ref0..2, Param}, all insertion orders of the attributes of every module; every node kind; "
             "every ordered pair of 26 names (case, digits, punctuation, non-ASCII, empty); "
             "delete-and-reassign histories; deep chains: trunk <= 2, branches <= 3, every back reference; 20 odd values held by variables and nodes of 6 kinds",
    "thorough": "as quick plus 3 modules x 3 names x {absent, ref0..2, Param} (3 insertion orders), "
                "4 modules x 2 names",
}


def _paths(h):
  return list(h.entries())


def run_graph(case, cov):
  perms, case = case
  base = heap.from_case(case)
  rows = []
  for c, attrs in base.mods:
    items = list(attrs.items())
    if perms == "all":
      rows.append([(c, p) for p in itertools.permutations(items)])
    elif perms == "as is":
      rows.append([(c, items)])
    else:
      rows.append([(c, items), (c, items[::-1])])
  ref_canon = base.canon()
  want = base.entry_enc()
  paths = list(want)
  for combo in itertools.product(*rows):
    h = heap.Heap([(c, dict(items)) for c, items in combo])
    cov.state((ref_canon, tuple(tuple(n for n, _ in items) for _, items in combo)))
    mods = h.build()
    root = mods[0]
    state = root.get_state()
    require_eq(list(state), paths, "get_state paths (sorted, canonical)")
    require_eq(heap.state_enc(state), want, "get_state values")
    cov.trans(6)
    pure = root.partition()
    require_eq(list(pure.states), paths, "partition paths")
    require_eq(list(root.partition(...)[0]), paths, "partition(...) paths")
    require_eq(list(root.filter(...)), paths, "filter(...) paths")
    require_eq(list(pure.get_state()), paths, "Pure.get_state paths")
    md = root.mutable_state_dict()
    require_eq(sorted(md), sorted(paths), "mutable_state_dict paths")
    for p in paths:
      i, n = h.owner(p)
      require(md[p].value is getattr(mods[i], n), f"mutable leaf {p} reads another value")
    with_path = jtu.tree_flatten_with_path(state)[0]
    if all(v[0] == "leaf" and v[1] in ("P", "B", "A", "NP", "Ps") for v in h.entries().values()):
      require_eq([kp[0].key for kp, _ in with_path], paths, "pytree key paths of a state")
    require_eq(heap.observe(root), ref_canon, "extracting state changed the module")
    popped = root.pop_state(...)
    require_eq(list(popped), paths, "pop_state paths")
    require_eq(heap.state_enc(popped), want, "pop_state values")


def gen_graph(tier):
  def options(n, static):
    def f(i, name):
      o = [None] + [("ref", j) for j in range(n)] + [("leaf", "P", 10 * i + ord(name[0]))]
      return o + ([("static", i)] if static else [])
    return f
  for h in heap.graphs(2, "abc", options(2, tier == "thorough")):
    yield ("all", heap.to_case(h))
  for h in heap.graphs(2, ["a", "a.b", "aa"], options(2, False)):
    yield ("all", heap.to_case(h))
  for h in heap.graphs(3, "ab", options(3, True)):
    yield ("all", heap.to_case(h))
  if tier == "thorough":
    for h in heap.graphs(3, "abc", options(3, False)):
      yield ("some", heap.to_case(h))
    for h in heap.graphs(4, "ab", options(4, False)):
      yield ("all", heap.to_case(h))


def gen_kinds(tier):
  alts = [("leaf", k, 5) for k in heap.KINDS] + [("static", s) for s in heap.STATICS]
  for a in alts:
    for b in alts:
      yield ("all", (("M", (("q", ("ref", 1)), ("p", a))), ("M2", (("r", b), ("s", ("ref", 0))))))
  # many attributes and deep chains
  names = [str(i) for i in range(12)]
  yield ("some", (("M", tuple((n, ("leaf", "P", i)) for i, n in enumerate(names))),))
  chain = tuple(("M", (("w", ("leaf", "P", i)), (f"n{9 - i}", ("ref", i + 1)), ("x", ("leaf", "B", i)))) for i in range(8))
  yield ("some", chain + (("M", (("up", ("ref", 3)), ("v", ("leaf", "P", 99)))),))


def gen_deep(tier):
  t, b = (3, 4) if tier == "thorough" else (2, 3)
  for h in heap.chains(t, b):
    # every insertion order at once would be 2^n, one order and its reverse for the whole graph
    yield ("as is", heap.to_case(h))
    yield ("as is", heap.to_case(heap.Heap([(c, dict(reversed(a.items()))) for c, a in h.mods])))


OPS = ("del a", "set a P", "set a static", "set b ref", "del b", "set b P", "set a ref0", "set z P")


def run_history(case, cov):
  """Delete/assign histories: state depends on the current attributes only."""
  h = heap.Heap([("M", {"a": ("leaf", "P", 1), "b": ("ref", 1)}), ("M", {"c": ("leaf", "B", 2)})])
  mods = h.build()
  for step, op in enumerate(case):
    verb, name, *rest = op.split()
    attrs = h.mods[0][1]
    if verb == "del":
      if name not in attrs:
        expect_raises(AttributeError, lambda: delattr(mods[0], name), "deleting a missing attribute")
        continue
      delattr(mods[0], name)
      del attrs[name]
    else:
      old = attrs.get(name)
      if old is not None and (old[0] == "leaf"):
        # assigning to a variable changes its value only
        if rest[0] != "P":
          continue
        setattr(mods[0], name, nnx.Param(step + 10))
        attrs[name] = ("leaf", "P", step + 10)
      else:
        v = {"P": ("leaf", "P", step + 10), "static": ("static", step), "ref": ("ref", 1), "ref0": ("ref", 0)}[rest[0]]
        setattr(mods[0], name, mods[v[1]] if v[0] == "ref" else heap.make_leaf(v[1], v[2]) if v[0] == "leaf" else v[1])
        attrs[name] = v
    cov.trans()
    cov.state(h.canon())
    require_eq(heap.observe(mods[0]), h.canon(), f"after {case[:step + 1]}")
    require_eq(heap.state_enc(mods[0].get_state()), h.entry_enc(), f"state after {case[:step + 1]}")
    require_eq(list(mods[0].get_state()), list(h.entries()), f"state order after {case[:step + 1]}")


def gen_history(tier):
  for n in range(1, 5 if tier == "thorough" else 4):
    yield from itertools.product(OPS, repeat=n)


def run_leaf(case, cov):
  """Mutable leaves: reading, writing and sharding of every kind of node."""
  kind, where = case
  h = heap.Heap([("M", {"b": ("ref", 1), "a": ("leaf", kind, 4)}),
                 ("M", {"c": ("leaf", kind, 2), "back": ("ref", 0)})])
  mods = h.build()
  md = mods[0].mutable_state_dict()
  require_eq(sorted(md), sorted(h.entries()), "paths")
  want_sh = {"Ps": ("a", None)}.get(kind)
  require_eq(md[where].sharding, want_sh, f"sharding of a {kind} leaf")
  i, name = h.owner(where)
  if heap.leaf_enc(kind, 4)[0] == "var":
    md[where].value = 77
    before = heap.leaf_enc(kind, h.mods[i][1][name][2])
    h.mods[i][1][name] = ("leaf", (before[0], before[1], before[2], heap.enc(77)), None)
  else:
    md[where].value = heap.make_leaf(kind, 55)
    h.mods[i][1][name] = ("leaf", kind, 55)
  cov.trans()
  cov.state((case, h.canon()))
  require_eq(heap.observe(mods[0]), h.canon(), "after writing a mutable leaf")


def gen_leaf(tier):
  return itertools.product(heap.KINDS, ("a", "b/c"))


def run_slash(case, cov):
  """An attribute named a/b next to an attribute b of a submodule a: two nodes, one path."""
  order = case
  attrs = {"a/b": ("leaf", "P", 1), "a": ("ref", 1)}
  h = heap.Heap([("M", {k: attrs[k] for k in order}), ("M", {"b": ("leaf", "P", 2)})])
  m = h.build()[0]
  cov.state(case)
  cov.trans()
  got = heap.state_enc(m.get_state())
  if len(got) != 2:
    raise Violation(f"two node attributes, state {got}", key="slash-in-name" if set(got) == {"a/b"} else None)


NAMES = ("A", "a", "B", "b", "Z", "z", "_a", "a_", "aa", "aB", "Aa", "a1", "a10", "a2", "a.", "a-b", "a b", "é", "É", "ß", "ss", "İ", "0", "9", "10", "")


def gen_names(tier):
  for x, y in itertools.permutations(NAMES, 2):
    for form in ("leaves", "shared", "shared deep", "leaf and module"):
      yield (x, y, form)


def run_names(case, cov):
  """Two names in one insertion order: paths in string order, sharing recorded under the smaller name."""
  x, y, form = case
  leaf, leaf2 = ("leaf", "P", 1), ("leaf", "B", 2)
  if form == "leaves":
    mods = [("M", {x: leaf, y: leaf2})]
  elif form == "shared":
    mods = [("M", {x: ("ref", 1), y: ("ref", 1)}), ("M2", {"w": leaf})]
  elif form == "shared deep":
    mods = [("M", {x: ("ref", 1), y: ("ref", 2)}), ("M", {"q": ("ref", 2), "w": leaf}), ("M2", {"q": ("ref", 1), "w": leaf2})]
  else:
    mods = [("M", {x: leaf, y: ("ref", 1)}), ("M2", {x: leaf2, y: leaf})]
  run_graph(("as is", heap.to_case(heap.Heap(mods))), cov)


def _odd_values():
  m = heap.from_case((("M", (("w", ("leaf", "P", 1)),)),)).build()[0]
  return {"module": m, "state": m.get_state(), "moduledef": m.get_module_def(), "pure": m.partition(), "none": None, "empty tuple": (), "empty dict": {},
          "string": "x", "function": len, "class": int, "variable": nnx.Param(2), "node": nnx.Node(3), "static": nnx.Static(4), "context": nnx.context(0),
          "list of modules": [m], "ellipsis": ..., "exception": ValueError("v"), "nan": float("nan"), "array": jnp.zeros(()), "state of none": nnx.State({})}


VALUES = tuple(_odd_values())
HOLDERS = {"Param": nnx.Param, "BatchStat": nnx.BatchStat, "Cache": nnx.Cache, "Node": nnx.Node, "TreeNode": nnx.TreeNode, "Static": nnx.Static}


def run_values(case, cov):
  """What a variable or node holds says nothing about whether it is state."""
  holder, vname, where, later = case
  cov.state(case)
  val = _odd_values()[vname]
  cls = HOLDERS[holder]
  m = heap.from_case((("M", (("a", ("leaf", "P", 1)), ("x", ("ref", 1)), ("y", ("ref", 1)), ("z", ("leaf", "B", 3)))),
                      ("M2", (("c", ("leaf", "B", 2)),)))).build()[0]
  owner, path = (m, "v") if where == "top" else (m.x, "x/v")
  if isinstance(val, nnx.Container):
    # a container made from a container of its own kind is a copy, any other kind is refused
    return
  setattr(owner, "v", cls(5 if later else val))
  if later:
    owner.v = val
  want = sorted(["a", "x/c", "z"] + ([] if holder == "Static" else [path]))
  raw = vars(owner)["v"]
  require(type(raw) is cls and raw.value is val, f"{case}: stored as {raw!r}")
  for what, st in (("get_state", m.get_state()), ("partition", m.partition()[0]), ("filtered", m.filter(...)), ("all", m.partition(lambda p, v: False, ...)[0][1])):
    cov.trans()
    require_eq(sorted(st), want, f"{case}: paths of {what}")
    if holder != "Static":
      require(type(st[path]) is cls and st[path].value is val, lambda: f"{case}: {what} has {st[path]!r}")
  require_eq(sorted(m.mutable_state_dict()), want, f"{case}: paths of mutable_state_dict")
  c = m.clone()
  got = vars(c.x if where != "top" else c)["v"]
  require(type(got) is cls and got.value is val, f"{case}: the clone has {got!r}")
  require(c.x is c.y and c.x is not m.x, f"{case}: sharing of the clone")
  require_eq(sorted(c.get_state()), want, f"{case}: paths of the clone")


def gen_values(tier):
  return itertools.product(HOLDERS, VALUES, ("top", "shared"), (False, True))


SECTIONS = [
    Section("names", gen_names, run_names),
    Section("held values", gen_values, run_values),
    Section("slash in names", lambda tier: (("a/b", "a"), ("a", "a/b")), run_slash),
    Section("kinds", gen_kinds, run_graph),
    Section("graphs", gen_graph, run_graph),
    Section("deep-sharing", gen_deep, run_graph),
    Section("histories", gen_history, run_history),
    Section("mutable-leaf", gen_leaf, run_leaf),
]
