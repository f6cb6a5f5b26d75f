"""C05: update_state writes exactly the given entries, later states win."""
import itertools

import jax
import jax.numpy as jnp
import nnx

from mc import heap
from mc.core import Section, expect_raises, require, require_eq

RULE = ("every combination of base graph, update form (State, tuple of 0-3 states, Module, Pure, Pure of "
        "several states) and per-path update content, applied to the module and to the pure module; the "
        "whole graph is read back and compared with a dictionary model; states = distinct results, "
        "transitions = updates")
ASSUMPTIONS = ["updates name entries by canonical path", "updates that fail half way are outside this property"]
BOUNDS = {
    "quick": "6 base graphs (tree, shared, cyclic, static-heavy) x 4-5 paths x {absent, variable, raw value} "
             "x up to 2 states, 3 states over 2 paths; update histories of depth 3; deep chains, also under 8 schemes of unusual attribute names; variables holding None; updates of two or three states one of which must be refused",
    "thorough": "3 states over 3 paths; histories of depth 4",
}

BASES = {
    "flat": ((("M", (("b", ("leaf", "B", 1)), ("a", ("leaf", "Ps", 2)), ("s", ("static", 3)))),),
             ("a", "b", "new")),
    "tree": ((("M", (("x", ("ref", 1)), ("a", ("leaf", "P", 2)), ("s", ("static", 3)))),
              ("M2", (("c", ("leaf", "B", 5)), ("t", ("static", "q"))))), ("a", "x/c", "x/new", "new")),
    "shared": ((("M", (("y", ("ref", 1)), ("x", ("ref", 1)), ("a", ("leaf", "Pn", 2)))),
                ("M2", (("c", ("leaf", "C", 5)), ("d", ("leaf", "P", 6))))), ("a", "x/c", "x/d", "x/new")),
    "cycle": ((("M", (("y", ("ref", 1)), ("me", ("ref", 0)), ("a", ("leaf", "P", 2)))),
               ("M2", (("up", ("ref", 0)), ("c", ("leaf", "I", 5)), ("y", ("ref", 1))))), ("a", "me", "y/c", "y/new")),
    "deep": ((("M", (("x", ("ref", 1)),)), ("M", (("x", ("ref", 2)), ("v", ("leaf", "N", 1)))),
              ("M", (("x", ("ref", 0)), ("w", ("leaf", "SP", 1))))), ("x/v", "x/x/w", "x/x/new")),
    "arrays": ((("M", (("p", ("leaf", "PT", 1)), ("a", ("leaf", "A", 2)), ("q", ("ref", 1)))),
                ("M", (("n", ("leaf", "NP", 3)), ("t", ("leaf", "Pt", 4))))), ("a", "p", "q/n", "q/t")),
}
BASES["cycle"] = (BASES["cycle"][0], ("a", "y/c", "y/new", "new"))


def kind_at(h, path):
  e = h.entries().get(path)
  return e[1] if e else None


def content(h, path, mode, v):
  """(value put into the state, resulting leaf) for one path."""
  k = kind_at(h, path)
  if mode == "var":
    kk = k or "B"
    return heap.make_leaf(kk, v), heap.leaf_enc(kk, v)
  if mode == "none":  # a bare None is a value like any other
    old = heap.leaf_enc(k, 1)
    return None, ("var", old[1], old[2], heap.enc(None))
  # raw value: existing variables keep kind and metadata, others store the value
  raw = jnp.full((), v, jnp.int32)
  if k is None:
    return raw, heap.enc(raw)
  old = heap.leaf_enc(k, 1)
  if old[0] == "var":
    return raw, ("var", old[1], old[2], heap.enc(raw))
  return raw, heap.enc(raw)


def apply_model(h, states):
  """states: list of {path: leaf enc}."""
  new = h.copy()
  for s in states:
    for p, e in s.items():
      i, n = new.owner(p)
      new.mods[i][1][n] = ("leaf", e, None)
  return new


def run(case, cov):
  base, form, modes = case
  h = heap.from_case(BASES[base][0])
  paths = BASES[base][1]
  states, models = [], []
  for si, row in enumerate(modes):
    s, m = {}, {}
    for pi, (p, mode) in enumerate(zip(paths, row)):
      if mode != "-":
        s[p], m[p] = content(h, p, mode, 100 + 10 * si + pi)
    states.append(nnx.State(s))
    models.append(m)
  mods = h.build()
  root = mods[0]
  pure = root.partition()
  before_pure = heap.state_enc(pure.states)
  before_states = [heap.state_enc(s) for s in states]
  want = apply_model(h, models)
  # a state entry that stays a raw value inside a Pure keeps no variable kind
  updates, skip_pure = _form(form, states, root)
  root.update_state(updates)
  cov.trans()
  cov.state(want.canon())
  require_eq(heap.observe(root), want.canon(), f"module after update_state({form})")
  require_eq([id(m) for m in heap.modules_of(root)], [id(mods[i]) for i in want.order()[0]], "module identities")
  require_eq([heap.state_enc(s) for s in states], before_states, "update_state changed its argument")
  # pure module
  out = pure.update_state(updates)
  cov.trans()
  require(isinstance(out, nnx.Pure), "Pure.update_state returns a Pure")
  require_eq(heap.state_enc(pure.states), before_pure, "Pure.update_state changed its input")
  require_eq(out.moduledef, pure.moduledef, "definition")
  if all(m == "var" or m == "-" for row in modes for m in row):
    require_eq(heap.observe(out.merge()), want.canon(), "merge of the updated pure module")
    require_eq(heap.state_enc(out.get_state()), want.entry_enc(), "state of the updated pure module")
  else:
    require_eq(list(out.get_state()), list(want.entries()), "paths of the updated pure module")
    for p, v in out.get_state().items():
      w = want.entry_enc()[p]
      if any(p in m for m in models):
        got = heap.enc(v)
        require(got == w or (w[0] == "var" and got == w[3]) or got[-1] == w[-1],
                f"value at {p} of the updated pure module: {got} vs {w}")
      else:
        require_eq(heap.enc(v), w, f"value at {p}")
  # pure module that holds several states
  if h.entries():
    first = next(iter(h.entries()))
    multi = h.build()[0].partition(lambda p, x: p == first, lambda p, x: False, ...)
    out2 = multi.update_state(updates)
    require_eq(heap.state_enc(out2.get_state()), heap.state_enc(out.get_state()), "update of a pure module with several states")


def _form(form, states, root):
  if form == "state":
    return states[0], False
  if form == "tuple":
    return tuple(states), False
  if form == "pure":
    return nnx.Pure.new(states[0], root.get_module_def()), False
  if form == "pure_multi":
    return nnx.Pure.new(tuple(states), root.get_module_def()), False
  raise KeyError(form)


def gen(tier):
  for base, (_, paths) in BASES.items():
    n = len(paths)
    yield (base, "tuple", ())
    rows = list(itertools.product(("-", "var", "raw"), repeat=n))
    for row in rows:
      for form in ("state", "tuple", "pure", "pure_multi"):
        yield (base, form, (row,))
    h = heap.from_case(BASES[base][0])
    is_var = [kind_at(h, p) is not None and heap.leaf_enc(kind_at(h, p), 1)[0] == "var" for p in paths]
    rows_none = [r for r in itertools.product(*[("-", "var", "none") if v else ("-", "var") for v in is_var]) if "none" in r]
    for row in rows_none:
      for form in ("state", "tuple", "pure", "pure_multi"):
        yield (base, form, (row,))
    for r1, r2 in itertools.product(rows_none, rows_none):
      yield (base, "tuple", (r1, r2))
    rows2 = list(itertools.product(("-", "var"), repeat=n))
    for r1, r2 in itertools.product(rows2, rows2):
      yield (base, "tuple", (r1, r2))
      yield (base, "pure_multi", (r1, r2))
    for r1, r2 in itertools.product(rows, rows2):
      if "raw" in r1:
        yield (base, "tuple", (r1, r2))
    k = 3 if tier == "thorough" else 2
    rows3 = [r + ("-",) * (n - len(r)) for r in itertools.product(("-", "var"), repeat=min(k, n))]
    for t in itertools.product(rows3, repeat=3):
      yield (base, "tuple", t)
      yield (base, "pure_multi", t)


def run_module(case, cov):
  """Updating with another module or its pure form: same type, other values and attributes."""
  base, drop, add, how = case
  h = heap.from_case(BASES[base][0])
  mods = h.build()
  root = mods[0]
  other = h.build()
  o = heap.Heap(h.mods)
  ents = list(h.entries())
  model = {}
  for k, p in enumerate(ents):
    i, n = h.owner(p)
    kind = h.mods[i][1][n][1]
    if k == drop:
      delattr(other[i], n)
    else:
      v = 40 + k
      delattr(other[i], n)
      setattr(other[i], n, heap.make_leaf(kind, v))
      model[p] = heap.leaf_enc(kind, v)
  if add:
    setattr(other[0], "added", nnx.Cache(9))
    other[0].s2 = "static stays behind"
    model["added"] = heap.leaf_enc("C", 9)
  before = heap.observe(other[0])
  upd = {"module": lambda: other[0], "pure": lambda: other[0].partition(),
         "pure_multi": lambda: other[0].partition(nnx.Param, ...), "state": lambda: other[0].get_state()}[how]()
  pure = root.partition()
  want = apply_model(h, [model])
  root.update_state(upd)
  cov.trans()
  cov.state((case, want.canon()))
  require_eq(heap.observe(root), want.canon(), f"update_state with a {how}")
  require_eq(heap.observe(other[0]), before, "the other module changed")
  require_eq(heap.observe(pure.update_state(upd).merge()), want.canon(), f"Pure.update_state with a {how}")
  # no aliasing: changing one afterwards does not show in the other
  for m in other:
    for n, v in list(heap.attrs_of(m).items()):
      if isinstance(v, nnx.Container) and isinstance(v, nnx.Node):
        setattr(m, n, -1)
  require_eq(heap.observe(root), want.canon(), f"later change of the other {how} shows through")


def gen_module(tier):
  for base in BASES:
    n = len(heap.from_case(BASES[base][0]).entries())
    for drop in (None, *range(n)):
      for add in (False, True):
        for how in ("module", "pure", "pure_multi", "state"):
          yield (base, drop, add, how)


OPS = ("u a1", "u c2", "u new", "u2 a,c/a", "set a", "set x.c", "del c", "raw a", "clone")


def run_history(case, cov):
  h = heap.from_case(BASES["shared"][0])
  mods = h.build()
  pure = mods[0].partition()
  for step, op in enumerate(case):
    v = 1000 + step
    s = None
    has_c = "c" in h.mods[1][1]
    if op == "u a1":
      s = ({"a": ("Pn", v)},)
    elif op == "u c2":
      s = ({"x/c": ("C", v)},)
    elif op == "u new":
      s = ({"x/new": ("B", v)},)
    elif op == "u2 a,c/a":
      s = ({"a": ("Pn", v), "x/c": ("C", v + 1)}, {"a": ("Pn", v + 2)})
    elif op == "raw a":
      mods[0].update_state(nnx.State({"a": v}))
      pure = pure.update_state(nnx.State({"a": heap.make_leaf("Pn", v)}))
      h.mods[0][1]["a"] = ("leaf", "Pn", v)
    elif op == "set a":
      mods[0].a = v
      pure = pure.update_state(nnx.State({"a": heap.make_leaf("Pn", v)}))
      h.mods[0][1]["a"] = ("leaf", "Pn", v)
    elif op == "set x.c":
      if not has_c:
        continue
      mods[0].y.c = v
      pure = pure.update_state(nnx.State({"x/c": heap.make_leaf("C", v)}))
      h.mods[1][1]["c"] = ("leaf", "C", v)
    elif op == "del c":
      if not has_c:
        continue
      del mods[0].x.c
      del h.mods[1][1]["c"]
      pure = mods[0].partition()
    elif op == "clone":
      c = mods[0].clone()
      mods = [c, c.x]
    if s is not None:
      states = tuple(nnx.State({p: heap.make_leaf(k, x) for p, (k, x) in d.items()}) for d in s)
      mods[0].update_state(states if len(states) > 1 else states[0])
      pure = pure.update_state(states if len(states) > 1 else states[0])
      for d in s:
        for p, (k, x) in d.items():
          i, n = h.owner(p)
          h.mods[i][1][n] = ("leaf", k, x)
    cov.trans()
    cov.state(h.canon())
    require_eq(heap.observe(mods[0]), h.canon(), f"after {case[:step + 1]}")
    require_eq(heap.observe(pure.merge()), h.canon(), f"pure module after {case[:step + 1]}")


def gen_history(tier):
  for n in range(1, 5 if tier == "thorough" else 4):
    yield from itertools.product(OPS, repeat=n)


def run_deep(case, cov):
  """Every single entry of a deep graph, and all entries at once."""
  h = heap.from_case(case)
  ents = h.entries()
  for which in [[p] for p in ents] + [list(ents)]:
    mods = h.build()
    st = nnx.State({p: heap.make_leaf(ents[p][1], 500 + i) for i, p in enumerate(which)})
    want = apply_model(h, [{p: heap.leaf_enc(ents[p][1], 500 + i) for i, p in enumerate(which)}])
    pure = mods[0].partition()
    mods[0].update_state(st)
    cov.trans()
    cov.state(want.canon())
    require_eq(heap.observe(mods[0]), want.canon(), f"update of {which}")
    require_eq([id(m) for m in heap.modules_of(mods[0])], [id(mods[i]) for i in want.order()[0]], "module identities")
    require_eq(heap.observe(pure.update_state(st).merge()), want.canon(), f"Pure.update_state of {which}")


def gen_deep(tier):
  for h in heap.chains(2, 3 if tier == "thorough" else 2):
    yield heap.to_case(h)
  for h in heap.odd_names(heap.chains(1, 1)):
    yield heap.to_case(h)


def run_refuse(case, cov):
  """Something that is not an update is refused as a whole."""
  base, what = case
  h = heap.from_case(BASES[base][0])
  mods = h.build()
  other = heap.M2() if h.mods[0][0] == "M" else heap.M()
  first = next(iter(h.entries()))
  good = nnx.State({first: heap.make_leaf(h.entries()[first][1], 77)})
  bad = {"int": 3, "none": None, "dict": {"new": 1}, "string": "a", "definition": mods[0].get_module_def(), "class": heap.M,
         "array": jnp.ones((2,)), "pure of dict": nnx.Pure.new({"a": 1}, mods[0].get_module_def()), "other type": other,
         "tuple with int": (good, 3), "tuple with none": (good, None)}[what]
  before = heap.observe(mods[0])
  pure = mods[0].partition()
  cov.state(case)
  cov.trans()
  errs = (TypeError, ValueError, AssertionError, AttributeError)
  if what != "pure of dict":  # a mapping of paths
    expect_raises(errs, lambda: mods[0].update_state(bad), f"update_state of a module with {what}")
    require_eq(heap.observe(mods[0]), before, "refused update changed the module")
  if what != "other type":  # a pure module takes its state
    expect_raises(errs, lambda: pure.update_state(bad), f"update_state of a pure module with {what}")
    require_eq(heap.observe(pure.merge()), before, "refused update changed the pure module")


def gen_refuse(tier):
  return itertools.product(BASES, ("int", "none", "dict", "string", "definition", "class", "array", "pure of dict", "other type",
                                   "tuple with int", "tuple with none"))


MISSING = ("zz/w", "zz/y/w", "{sub}/zz/w", "{leaf}/new", "{static}/new", "{sub}/{leaf2}/new")


def run_missing(case, cov):
  """An entry whose path does not lead to a module is refused; nothing of the module changes."""
  base, path, raw, more = case
  h = heap.from_case(BASES[base][0])
  mods = h.build()
  root = mods[0]
  names = {"sub": None, "leaf": None, "static": None, "leaf2": None}
  for n, e in h.mods[0][1].items():
    role = {"ref": "sub", "leaf": "leaf", "static": "static"}[e[0]]
    if role == "sub" and names["sub"] is None and e[1] != 0:
      names["leaf2"] = next((k for k, v in h.mods[e[1]][1].items() if v[0] == "leaf"), None)
    names[role] = names[role] or n
  for k, v in names.items():
    if "{" + k + "}" in path and v is None:
      return
  path = path.format(**names)
  s = {path: jnp.int32(3) if raw else nnx.Param(3)}
  if more:
    s["znew"] = nnx.Param(4)  # accepted alone
    s["{leaf}".format(**names) if names["leaf"] else "anew"] = nnx.Param(5)
  before = heap.observe(root)
  keys = [list(vars(m)) for m in mods]
  cov.state(case)
  cov.trans()
  expect_raises((KeyError, AttributeError, TypeError, ValueError), lambda: root.update_state(nnx.State(s)), f"update with an entry for {path}")
  if not more:
    require_eq(heap.observe(root), before, f"refused update for {path} changed the module")
    require_eq([list(vars(m)) for m in mods], keys, "attributes after a refused update")


def gen_missing(tier):
  return itertools.product(BASES, MISSING, (False, True), (False, True))


SECTIONS = [Section("missing modules", gen_missing, run_missing), Section("refusals", gen_refuse, run_refuse), Section("contents", gen, run), Section("deep-sharing", gen_deep, run_deep), Section("modules", gen_module, run_module),
            Section("histories", gen_history, run_history)]
