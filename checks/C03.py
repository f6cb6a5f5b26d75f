"""C03: filters split state exactly - first match wins, nothing lost or doubled."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import nnx
from nnx import partitioning

from mc import heap
from mc.core import Section, expect_raises, require, require_eq

RULE = ("every list of filter expressions within the bounds applied to states holding one entry of "
        "every kind, through State, Module and Pure, against a direct interpretation of the filter "
        "language; states = distinct resulting partitions, transitions = split calls")
ASSUMPTIONS = ["user predicates are total functions of (path, value)"]
BOUNDS = {
    "quick": "all filter expressions of nesting depth <= 2 over 11 literals as single filters; all "
             "pairs literal x depth-2 expression; all triples of literals; invalid filters at "
             "every position and nesting level; states of up to 2 entries of 12 kinds, also bare values, by up to 2 filters",
    "thorough": "also all pairs of depth-2 expressions and all quadruples of literals",
}

HEAP = (("M", (("b", ("leaf", "B", 1)), ("a", ("leaf", "P", 2)), ("sub", ("ref", 1)), ("s", ("static", 3)),
               ("n", ("leaf", "N", 9)), ("q", ("leaf", "NP", 4)))),
        ("M2", (("a", ("leaf", "SP", 5)), ("x", ("leaf", "A", 6)), ("v", ("leaf", "VA", 7)), ("up", ("ref", 0)),
                ("t", ("leaf", "PT", 8)), ("pa", ("leaf", "Pa", 2)), ("p", ("leaf", "Ps", 3)))))

PREDS = {
    "top": lambda p, x: "/" not in p,
    "named_a": lambda p, x: p.split("/")[-1] == "a",
    "val2": lambda p, x: 1 if isinstance(x, nnx.Container) and isinstance(x.value, int) and x.value in (2, 5) else 0,
}
TYPES = {"Param": nnx.Param, "BatchStat": nnx.BatchStat, "Variable": nnx.Variable, "SubParam": heap.SubParam,
         "Array": jax.Array, "object": object, "int": int, "ndarray": np.ndarray}
LITS = tuple([("type", t) for t in TYPES] + [("pred", p) for p in PREDS] + [("...",), ("None",), ("buffers",)])


def build(f):
  k = f[0]
  if k == "type":
    return TYPES[f[1]]
  if k == "pred":
    return PREDS[f[1]]
  if k == "...":
    return ...
  if k == "None":
    return None
  if k == "buffers":
    return nnx.buffers
  if k == "tuple":
    return tuple(build(x) for x in f[1:])
  if k == "Not":
    return nnx.Not(build(f[1]))
  if k == "All":
    return nnx.All(*[build(x) for x in f[1:]])
  if k == "Any":
    return partitioning.Any(*[build(x) for x in f[1:]])
  raise KeyError(k)


def meaning(f, p, x):
  k = f[0]
  if k == "type":
    return isinstance(x, TYPES[f[1]])
  if k == "pred":
    return bool(PREDS[f[1]](p, x))
  if k == "...":
    return True
  if k == "None":
    return False
  if k == "buffers":
    return isinstance(x, (jax.Array, np.ndarray))
  if k in ("tuple", "Any"):
    return any(meaning(g, p, x) for g in f[1:])
  if k == "Not":
    return not meaning(f[1], p, x)
  if k == "All":
    return all(meaning(g, p, x) for g in f[1:])


def split(fs, entries):
  groups = [[] for _ in fs]
  rest = []
  for p, x in entries.items():
    for i, f in enumerate(fs):
      if meaning(f, p, x):
        groups[i].append(p)
        break
    else:
      rest.append(p)
  return groups, rest


_fix = {}


def fixture():
  if not _fix:
    h = heap.from_case(HEAP)
    mods = h.build()
    _fix["m"] = mods[0]
    _fix["s"] = mods[0].get_state()
    _fix["p"] = mods[0].partition()
    _fix["pt"] = mods[0].partition(nnx.BatchStat, lambda p, x: "/" in p, ...)
    _fix["e"] = dict(_fix["s"].items())
    _fix["canon"] = heap.observe(mods[0])
  return _fix


def run(fs, cov):
  fx = fixture()
  entries = fx["e"]
  groups, rest = split(fs, entries)
  mid = any(f[0] == "..." for f in fs[:-1])
  cov.state((groups, rest, mid))
  built = [build(f) for f in fs]
  module_def = fx["p"].moduledef
  for name in ("s", "m", "p", "pt"):
    obj = fx[name]
    cov.trans(2)
    if mid:
      expect_raises(ValueError, lambda: obj.filter(*built), f"{name}.filter with `...` not last")
      expect_raises(ValueError, lambda: obj.partition(*built), f"{name}.partition with `...` not last")
      continue
    out = obj.filter(*built)
    out = (out,) if len(fs) == 1 else out
    require(isinstance(out, tuple) and len(out) == len(fs) and all(isinstance(s, nnx.State) for s in out),
            f"{name}.filter returns one State per filter")
    require_eq([list(s) for s in out], groups, f"{name}.filter groups")
    for s in out:
      for p, v in s.items():
        require(v is entries[p] or heap.enc(v) == heap.enc(entries[p]), f"{name}.filter changed the value at {p}")
    if rest:
      expect_raises(ValueError, lambda: obj.partition(*built), f"{name}.partition with remainder {rest}")
    else:
      out = obj.partition(*built)
      if name != "s":
        require_eq(out.moduledef, module_def, f"{name}.partition definition")
        out = out.states
      out = (out,) if len(fs) == 1 else out
      require_eq([list(s) for s in out], groups, f"{name}.partition groups")
      for s in out:
        for p, v in s.items():
          require(v is entries[p] or heap.enc(v) == heap.enc(entries[p]), f"{name}.partition changed the value at {p}")
  require_eq(heap.observe(fx["m"]), fx["canon"], "filtering changed the module")


def depth2():
  for a in LITS:
    yield ("Not", a)
    yield ("tuple", a)
    yield ("All", a)
    yield ("Not", ("Not", a))
  for a, b in itertools.product(LITS, repeat=2):
    yield ("tuple", a, b)
    yield ("All", a, b)
    yield ("Any", a, b)
    yield ("All", a, ("Not", b))
    yield ("Not", ("tuple", a, b))
    yield ("Not", ("All", a, b))
    yield ("Not", ("Any", a, b))
    yield ("Any", ("Not", a), b)
    yield ("All", ("tuple", a, b), ("Not", a))
    yield ("tuple", ("All", a, b), ("pred", "top"))
  yield ("tuple",)
  yield ("All",)
  yield ("Any",)


def gen(tier):
  d2 = list(depth2())
  for f in list(LITS) + d2:
    yield (f,)
  for a in LITS:
    for b in list(LITS) + d2:
      yield (a, b)
      yield (b, a)
  for t in itertools.product(LITS, repeat=3):
    yield t
  if tier == "thorough":
    for a, b in itertools.product(d2, repeat=2):
      yield (a, b)
    for t in itertools.product(LITS, repeat=4):
      yield t


INVALID = {"str": "params", "int": 3, "float": 1.5, "list": [nnx.Param], "dict": {}, "array": np.zeros(2), "bool": True,
           "empty_str": "", "bytes": b"x"}


def run_invalid(case, cov):
  """Anything that is not a filter is rejected with TypeError, wherever it stands."""
  name, place = case
  bad = INVALID[name]
  f = {"plain": lambda: bad, "tuple": lambda: (nnx.Param, bad), "nested": lambda: (nnx.Param, (None, bad)),
       "not": lambda: nnx.Not(bad), "all": lambda: nnx.All(nnx.Param, bad), "first": lambda: bad,
       "second": lambda: bad}[place]
  fx = fixture()
  cov.state(case)

  def call(obj, meth):
    if place == "second":
      return getattr(obj, meth)(nnx.Param, f(), ...)
    if place == "first":
      return getattr(obj, meth)(f(), ...)
    return getattr(obj, meth)(f())
  for o in ("s", "m", "p"):
    for meth in ("filter", "partition"):
      cov.trans()
      expect_raises(TypeError, lambda: call(fx[o], meth), f"{o}.{meth} with invalid filter {name} as {place}")
  expect_raises(TypeError, lambda: call(fx["m"], "pop_state"), f"pop_state with invalid filter {name} as {place}")
  require_eq(heap.observe(fx["m"]), fx["canon"], "a rejected filter changed the module")


def gen_invalid(tier):
  return itertools.product(INVALID, ("plain", "tuple", "nested", "not", "all", "first", "second"))


def run_calls(case, cov):
  """Predicates are asked about (path, value) of every entry no earlier filter took."""
  pos, early = case
  fx = fixture()
  seen = []

  def pred(p, x):
    seen.append((p, x))
    return p == "a"
  fs = [build(LITS[early])] * pos + [pred, ...]
  if fs[0] is ...:
    return
  taken = [p for p, x in fx["e"].items() if pos and meaning(LITS[early], p, x)]
  fx["s"].partition(*fs)
  cov.state(case)
  cov.trans()
  missing = {p for p in fx["e"] if p not in taken} - {p for p, _ in seen}
  require(not missing, f"predicate was not asked about {missing}")
  require(all(heap.enc(x) == heap.enc(fx["e"][p]) for p, x in seen), "values shown to a predicate")


def gen_calls(tier):
  return itertools.product((0, 1, 2), range(len(LITS)))


# states may hold any leaves, under any paths
BARE = {"a": lambda: 1, "b": lambda: None, "c": lambda: "str", "d/e": lambda: (1, 2), "d/f": lambda: nnx.Param(2), "g": lambda: jnp.ones(2), "h": lambda: 2.5,
        "i": lambda: np.ones(2), "j": lambda: object, "": lambda: 3, "k/": lambda: {}, "l": lambda: nnx.State({"x": 1})}


def run_bare(case, cov):
  keys, fs, nested = case
  vals = {k: BARE[k]() for k in keys}
  if nested:  # the same filters on a merge of two states
    s = nnx.State.merge(nnx.State(dict(list(vals.items())[:1])), nnx.State(dict(list(vals.items())[1:])))
  else:
    s = nnx.State(dict(vals))
  entries = {k: vals[k] for k in sorted(vals)}
  groups, rest = split(fs, entries)
  built = [build(f) for f in fs]
  if any(f[0] == "..." for f in fs[:-1]):
    for op in (s.filter, s.partition):
      expect_raises(ValueError, lambda: op(*built), f"{case}: `...` not last")
    return
  out = s.filter(*built)
  out = (out,) if len(fs) == 1 else out
  require_eq([list(x) for x in out], groups, f"{case}: filter groups")
  for x in out:
    require(all(v is vals[p] for p, v in x.items()), lambda: f"{case}: filter changed a value: {x}")
  if rest:
    expect_raises(ValueError, lambda: s.partition(*built), f"{case}: partition with remainder {rest}")
  else:
    out = s.partition(*built)
    out = (out,) if len(fs) == 1 else out
    require_eq([list(x) for x in out], groups, f"{case}: partition groups")
    for x in out:
      require(all(v is vals[p] for p, v in x.items()), lambda: f"{case}: partition changed a value: {x}")
  require(list(s) == sorted(vals) and all(s[k] is vals[k] for k in vals), f"{case}: the state changed")
  cov.trans()
  cov.state((keys, fs))


BLITS = (("type", "Param"), ("type", "int"), ("type", "object"), ("pred", "top"), ("...",), ("None",), ("buffers",), ("Not", ("None",)), ("Not", ("type", "Param")))


def gen_bare(tier):
  for n in (0, 1, 2) + ((3,) if tier == "thorough" else ()):
    for keys in itertools.combinations(BARE, n):
      for k in (1, 2) + ((3,) if n < 2 or tier == "thorough" else ()):
        for fs in itertools.product(BLITS, repeat=k):
          yield keys, fs, n == 2 and k == 1


SECTIONS = [Section("bare states", gen_bare, run_bare), Section("filters", gen, run), Section("invalid", gen_invalid, run_invalid),
            Section("predicate-calls", gen_calls, run_calls)]
