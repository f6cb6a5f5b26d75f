"""C04: pop_state removes exactly the entries it returns."""
import itertools

import jax
import nnx

from mc import heap
from mc.core import Section, expect_raises, require, require_eq

RULE = ("every rooted module graph within the bounds x every filter list; after each pop the whole graph "
        "is read back and compared with the model, then the popped states are put back in every order; "
        "states = distinct (graph, popped set), transitions = pops")
ASSUMPTIONS = ["attribute names contain no '/'", "predicates are total functions of (path, value)"]
BOUNDS = {
    "quick": "2 modules x 3 names x {absent, ref0, ref1, Param, BatchStat}, 3 modules x 2 names x "
             "{absent, refs, Param}; 12 filter lists of length 1-3 by kind and by path; pop/pop/set "
             "histories of depth 3 over a cyclic graph; deep chains",
    "thorough": "also 3 modules x 3 names and histories of depth 4",
}

PARAMS = ("P", "SP", "Ps", "Pn", "Pt", "Pz", "Pa")
FILTERS = {
    "all": ([...], lambda p, k: 0),
    "P": ([nnx.Param], lambda p, k: 0 if k in PARAMS else None),
    "B": ([nnx.BatchStat], lambda p, k: 0 if k == "B" else None),
    "none": ([None], lambda p, k: None),
    "P,B": ([nnx.Param, nnx.BatchStat], lambda p, k: 0 if k in PARAMS else 1 if k == "B" else None),
    "P,...": ([nnx.Param, ...], lambda p, k: 0 if k in PARAMS else 1),
    "top": ([lambda p, x: "/" not in p], lambda p, k: 0 if "/" not in p else None),
    "deep,P,...": ([lambda p, x: "/" in p, nnx.Param, ...],
                   lambda p, k: 0 if "/" in p else 1 if k in PARAMS else 2),
    "named a": ([lambda p, x: p.split("/")[-1] == "a"], lambda p, k: 0 if p.split("/")[-1] == "a" else None),
    "not P": ([nnx.Not(nnx.Param)], lambda p, k: None if k in PARAMS else 0),
    "dup": ([nnx.Param, nnx.Param], lambda p, k: 0 if k in PARAMS else None),
    "tuple": ([(nnx.Param, nnx.BatchStat)], lambda p, k: 0 if k in PARAMS + ("B",) else None),
}


def _pop_model(h, name):
  n = len(FILTERS[name][0])
  groups = [{} for _ in range(n)]
  after = h.copy()
  for p, v in h.entries().items():
    g = FILTERS[name][1](p, v[1])
    if g is not None:
      groups[g][p] = heap.leaf_enc(v[1], v[2])
      i, attr = h.owner(p)
      del after.mods[i][1][attr]
  return groups, after


def run_pop(case, cov):
  names, case = case
  h = heap.from_case(case)
  want = h.canon()
  for name in names:
    filters = FILTERS[name][0]
    groups, after = _pop_model(h, name)
    mods = h.build()
    root = mods[0]
    # the functional counterpart first: same groups, input untouched
    pure = root.partition()
    before = heap.state_enc(pure.states)
    out, rest = pure.pop_state(*filters)
    out = (out,) if len(filters) == 1 else out
    require_eq([heap.state_enc(s) for s in out], groups, f"Pure.pop_state({name}) groups")
    popped_paths = set().union(*groups)
    require_eq(list(rest.states), [p for p in h.entries() if p not in popped_paths], f"Pure.pop_state({name}) rest")
    require_eq(heap.state_enc(pure.states), before, "Pure.pop_state changed its input")
    require_eq(rest.moduledef, pure.moduledef, "Pure.pop_state changed the definition")
    flt = root.filter(*filters)
    flt = (flt,) if len(filters) == 1 else flt
    # the in-place version
    out = root.pop_state(*filters)
    if len(filters) == 1:
      require(isinstance(out, nnx.State), "pop_state with one filter returns a State")
      out = (out,)
    cov.trans()
    cov.state((want, tuple(sorted(popped_paths))))
    require_eq([heap.state_enc(s) for s in out], groups, f"pop_state({name}) groups")
    require_eq([list(s) for s in out], [sorted(g) for g in groups], f"pop_state({name}) order")
    require_eq([heap.state_enc(s) for s in out], [heap.state_enc(s) for s in flt], f"pop_state({name}) vs filter")
    # everything else stays
    num_before = {id(m): i for i, m in enumerate(mods)}
    for i, m in enumerate(mods):
      got = {k: ("ref", num_before[id(v)]) if isinstance(v, nnx.Module) else heap.enc(v)
             for k, v in heap.attrs_of(m).items()}
      exp = {k: v if v[0] == "ref" else heap.leaf_enc(v[1], v[2]) if v[0] == "leaf" else heap.enc(v[1])
             for k, v in after.mods[i][1].items()}
      require_eq(got, exp, f"attributes of module {i} after pop_state({name})")
    # putting it back restores the module
    for perm in itertools.permutations(out):
      copy = root.clone()
      copy.update_state(tuple(perm))
      require_eq(heap.observe(copy), want, f"update_state with popped({name})")
    require_eq(heap.observe(rest.update_state(out if len(out) > 1 else out[0]).merge()), want,
               f"Pure.update_state with popped({name})")


def _opts(n, kinds):
  def f(i, name):
    return [None] + [("ref", j) for j in range(n)] + [("leaf", k, 10 * i + ord(name[0])) for k in kinds]
  return f


def gen_pop(tier):
  allf = tuple(FILTERS)
  few = ("P", "top", "deep,P,...", "named a")
  for h in heap.graphs(2, "cab", _opts(2, ("P", "B"))):
    yield (allf if len(h.entries()) else ("all",), heap.to_case(h))
  for h in heap.graphs(3, "ba", _opts(3, ("P",))):
    yield (few, heap.to_case(h))
  for k1 in heap.KINDS:
    for k2 in heap.KINDS:
      yield (("P", "all", "not P", "top", "named a"),
             (("M", (("b", ("leaf", k1, 1)), ("sub", ("ref", 1)), ("st", ("static", 5)))),
              ("M2", (("a", ("leaf", k2, 2)), ("up", ("ref", 0)), ("st", ("static", 6))))))
  for h in heap.chains(2, 3 if tier == "thorough" else 2):
    yield (few, heap.to_case(h))
  for h in heap.odd_names(heap.chains(1, 1)):
    yield (("all", "P", "top"), heap.to_case(h))
  if tier == "thorough":
    for h in heap.graphs(3, "bac", _opts(3, ("P",))):
      yield (few[:3], heap.to_case(h))


OPS = ("pop P", "pop B", "pop top", "pop all", "set a", "set c", "restore", "pop named a")


def run_history(case, cov):
  """Interleavings of pops, assignments and restores on a cyclic graph with sharing."""
  h = heap.from_case((("M", (("sub", ("ref", 1)), ("a", ("leaf", "P", 1)), ("z", ("leaf", "B", 2)))),
                      ("M", (("a", ("leaf", "P", 3)), ("c", ("leaf", "B", 4)), ("up", ("ref", 0)), ("me", ("ref", 1))))))
  mods = h.build()
  held = []
  for step, op in enumerate(case):
    verb, arg = (op + " ").split(" ", 1)
    arg = arg.strip()
    if verb == "pop":
      groups, after = _pop_model(h, arg)
      out = mods[0].pop_state(*FILTERS[arg][0])
      require_eq(heap.state_enc(out), groups[0], f"step {step} {op}")
      held.append((out, {p: v for p, v in h.entries().items() if p in groups[0]}))
      h = after
    elif verb == "set":
      i = 0 if arg == "a" else 1
      old = h.mods[i][1].get(arg)
      setattr(mods[i], arg, 100 + step) if old else setattr(mods[i], arg, nnx.Param(100 + step))
      h.mods[i][1][arg] = ("leaf", old[1] if old else "P", 100 + step)
    elif held:
      out, vals = held.pop()
      clash = False
      for p, v in vals.items():
        i, n = h.owner(p)
        if n in h.mods[i][1] and h.mods[i][1][n][1] != v[1]:
          clash = True
      if clash:
        expect_raises(ValueError, lambda: mods[0].update_state(out), "restoring over another kind")
        return
      mods[0].update_state(out)
      for p, v in vals.items():
        i, n = h.owner(p)
        h.mods[i][1][n] = v
    cov.trans()
    cov.state((h.canon(), len(held)))
    require_eq(heap.observe(mods[0]), h.canon(), f"after {case[:step + 1]}")
    # earlier popped states are not affected by later operations
    for out, vals in held:
      require_eq(heap.state_enc(out), {p: heap.leaf_enc(v[1], v[2]) for p, v in vals.items()}, "held popped state")


def gen_history(tier):
  for n in range(1, 5 if tier == "thorough" else 4):
    yield from itertools.product(OPS, repeat=n)


def run_errors(case, cov):
  h = heap.from_case((("M", (("a", ("leaf", "P", 1)), ("s", ("ref", 1)))), ("M", (("b", ("leaf", "B", 1)), ("u", ("ref", 0))))))
  m = h.build()[0]
  cov.state(case)
  expect_raises(ValueError, lambda: m.pop_state(), "pop_state without filters")
  require_eq(heap.observe(m), h.canon(), "failed pop changed the module")


SECTIONS = [Section("pops", gen_pop, run_pop), Section("histories", gen_history, run_history),
            Section("errors", lambda tier: [("nofilter",)], run_errors)]
