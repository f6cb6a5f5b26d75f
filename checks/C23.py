"""C23: logical axis names map to mesh axes by rule priority, each mesh axis used once."""
import itertools

import jax
import jax.tree_util as jtu
import numpy as np
import nnx
from jax.sharding import Mesh, NamedSharding, PartitionSpec
from nnx import spmd

from mc.core import Section, Violation, require, require_eq

RULE = ("every list of rules up to the bound over 3 names and 5 mesh targets times every tuple of names up to the bound (with unnamed and unknown "
        "dimensions and duplicates), explicit and ambient, compared with the declarative definition: a rule fires iff its name occurs and no earlier "
        "fired rule has the same name or shares a mesh axis; states = (rules, names), transitions = calls")
ASSUMPTIONS = ["a rule does not name one mesh axis twice; rule names are strings"]
BOUNDS = {"quick": "all rule lists up to length 3 x all 156 name tuples up to rank 3 over 5 symbols; length 4 x 12 rank-3 tuples; rule lists up to length 3 whose mesh axes are called like logical names; trees and shardings; odd and empty names, rule lists up to length 2",
          "thorough": "all rule lists up to length 4 x all name tuples up to rank 3; length 5 x 6 tuples"}

NAMES = ("a", "b", "c")
TARGETS = (None, "x", "y", ("x", "y"), ("y", "z"))
RULES = tuple(itertools.product(NAMES, TARGETS))
SYM = NAMES + (None, "u")
TUPLES = tuple(t for n in range(4) for t in itertools.product(SYM, repeat=n))
PERMS = tuple(t for t in TUPLES if len(t) == 3 and len(set(t)) == 3 and (None not in t or t.index(None) == 1) and "u" not in t)


def axes(t):
  return set() if t is None else {t} if isinstance(t, str) else set(t)


def dup(names):
  return any(names.count(n) > 1 for n in names if n is not None)


def define(names, rules):
  fired = []
  for i, (n, t) in enumerate(rules):
    if n in names and not any(m == n or axes(t) & axes(s) for m, s in fired):
      fired.append((n, t))
  got = dict(fired)
  return tuple(got.get(n) if n is not None else None for n in names)


def check(names, rules, form, how, what):
  arg = {"tuple": tuple, "list": list, "spec": lambda n: PartitionSpec(*n)}[form](names)
  before = (tuple(names), tuple(rules))

  def call():
    if how == "explicit":
      return spmd.logical_to_mesh_axes(arg, rules)
    if how == "explicit over ambient":
      with nnx.logical_axis_rules((("a", "w"), ("b", "v"), ("c", "x"), ("u", "y"))):
        return spmd.logical_to_mesh_axes(arg, rules)
    with nnx.logical_axis_rules(rules):
      return spmd.logical_to_mesh_axes(arg)
  if dup(names):
    try:
      out = call()
    except ValueError:
      return "duplicate"
    raise Violation(f"{what}: duplicate names {names} accepted, giving {out}")
  out = call()
  want = PartitionSpec(*define(names, rules))
  if type(out) is not PartitionSpec or out != want:
    raise Violation(f"{what}: names {names} with rules {rules} gave {out}, want {want}")
  used = [x for t in out for x in axes(t)]
  require(len(used) == len(set(used)), lambda: f"{what}: a mesh axis is used twice in {out}")
  require((tuple(arg), tuple(rules)) == before, f"{what}: the arguments were changed")
  return "assigned" if used else "replicated"


def run(case, cov):
  rules, tuples = case
  rules = tuple(tuple(r) for r in rules)
  for names in (TUPLES if tuples == "all" else PERMS):
    cov.outcome(check(names, rules, "tuple", "explicit", "explicit"))
    cov.trans()
  # the other forms of the same call, on the longest tuples
  if tuples == "all" and len(rules) <= 2:
    for names in TUPLES:
      for form, how, rl in (("list", "explicit", rules), ("spec", "explicit", list(rules)), ("tuple", "ambient", rules), ("spec", "ambient", list(rules)),
                            ("tuple", "explicit over ambient", rules)):
        check(names, rl, form, how, f"{form} {how}")
        cov.trans()
  cov.state((rules, tuples))
  require(tuple(spmd.get_logical_axis_rules()) == (), "ambient rules left behind")


def gen(tier):
  for n in range(4 if tier == "quick" else 5):
    for rules in itertools.product(RULES, repeat=n):
      yield rules, "all"
  for rules in itertools.product(RULES, repeat=4 if tier == "quick" else 5):
    yield rules, "perms"


# -- mesh axes that are called like logical names ------------------------------------------------------------------------------

TARGETS2 = (None, "a", "b", ("a", "c"), "u")
RULES2 = tuple(itertools.product(NAMES, TARGETS2))


def gen_same(tier):
  for n in range(3):
    for rules in itertools.product(RULES2, repeat=n):
      yield rules, "all"
  for rules in itertools.product(RULES2, repeat=3):
    yield rules, "perms" if tier == "quick" else "all"


# -- names that are false, alike or odd ---------------------------------------------------------------------------------------

ODD = ("", "0", "None", "A", "a", " ", "x", None)
ODD_TARGETS = (None, "x", "", ("x", ""))


def gen_odd(tier):
  rules = tuple(itertools.product([n for n in ODD if n is not None], ODD_TARGETS))
  names = tuple(t for n in range(4) for t in itertools.product(("", "a", "A", "0", "None", None), repeat=n))
  for n in range(3):
    for rl in itertools.product(rules if n < 2 or tier == "thorough" else rules[:16], repeat=n):
      yield rl, names if n < 2 or tier == "thorough" else names[:43]


def run_odd(case, cov):
  rules, tuples = case
  for names in tuples:
    for how in ("explicit", "ambient") if len(rules) < 2 else ("explicit",):
      cov.outcome(check(tuple(names), tuple(rules), "tuple", how, f"odd names {how}"))
      cov.trans()
  cov.state((rules, len(tuples)))


# -- trees and shardings -------------------------------------------------------------------------------------------------

SPECS = (PartitionSpec("a", "b"), PartitionSpec(None, "c"), PartitionSpec(), PartitionSpec("b", None, "a"), None)
RULESETS = ((), (("a", "x"), ("b", "y")), (("b", ("x", "y")), ("a", "x"), ("a", None)), (("c", "x"), ("b", "x"), ("a", "x")), (("a", None), ("a", "x"), ("b", "x")))


def tree(shape, s):
  a, b, c = s
  if shape == "leaf":
    return a
  if shape == "dict":
    return {"k": a, "l": {"m": b}}
  if shape == "list":
    return [a, [b, c]]
  if shape == "tuple":
    return (a, (b,), c)
  if shape == "state":
    return nnx.State({"p": a, "q": b})
  if shape == "nested":
    return {"s": nnx.State({"p": a}), "t": [b, (c,)], "e": []}
  if shape == "node":
    return nnx.Node({"v": a})
  raise AssertionError(shape)


SHAPES = ("leaf", "dict", "list", "tuple", "state", "nested", "node")
_mesh = {}


def mesh():
  if not _mesh:
    _mesh["m"] = Mesh(np.asarray(jax.devices()[:1]).reshape(1, 1), ("x", "y"))
  return _mesh["m"]


def spec_leaf(x):
  return isinstance(x, PartitionSpec)


def run_tree(case, cov):
  shape, idx, r, how, what = case
  rules = RULESETS[r]
  t = tree(shape, [SPECS[i] for i in idx])
  want = jtu.tree_map(lambda s: PartitionSpec(*define(tuple(s), rules)), t, is_leaf=spec_leaf)
  if what == "sharding":
    want = jtu.tree_map(lambda s: NamedSharding(mesh(), s), want, is_leaf=spec_leaf)
    f = (lambda *a: spmd.logical_to_mesh_sharding(t, mesh(), *a))
  else:
    f = (lambda *a: nnx.logical_to_mesh(t, *a))
  if how == "explicit":
    got = f(rules)
  elif how == "ambient":
    with nnx.logical_axis_rules(rules):
      got = f()
  elif how == "set":
    spmd.set_logical_axis_rules(rules)
    try:
      require(spmd.get_logical_axis_rules() == rules, "get after set")
      got = f()
    finally:
      spmd.set_logical_axis_rules(())
  else:
    with nnx.logical_axis_rules((("c", "y"), ("a", "y"))):
      got = f(rules)
  cov.trans()
  cov.state(case)
  leaf = lambda x: isinstance(x, (PartitionSpec, NamedSharding))
  gl, gt = jtu.tree_flatten(got, is_leaf=leaf)
  wl, wt = jtu.tree_flatten(want, is_leaf=leaf)
  require_eq(str(gt), str(wt), f"{case}: structure")
  require_eq(gl, wl, f"{case}: leaves")
  require([type(x) for x in gl] == [type(x) for x in wl], f"{case}: leaf types {gl}")


def gen_tree(tier):
  for shape in SHAPES:
    for idx in itertools.product(range(len(SPECS)), repeat=3):
      for r in range(len(RULESETS)):
        for how in ("explicit", "ambient", "set", "explicit over ambient"):
          for what in ("spec", "sharding"):
            yield shape, idx, r, how, what


# -- rejected inputs --------------------------------------------------------------------------------------------------------


def run_bad(case, cov):
  rules, names = case
  bad = {"set": {("a", "x")}, "str": "a", "dict": {"a": "x"}, "int": 3, "iterator": iter((("a", "x"),))}[rules]
  cov.trans()
  cov.state(case)
  try:
    out = spmd.logical_to_mesh_axes(tuple(names), bad)
  except (ValueError, TypeError):
    return
  raise Violation(f"rules given as a {rules} were accepted for {names}, giving {out}")


def gen_bad(tier):
  yield from itertools.product(("set", "str", "dict", "int", "iterator"), (("a",), ("a", "b"), (None, "a")))


def run_none(case, cov):
  cov.trans()
  cov.state(case)
  require(spmd.logical_to_mesh_axes(None, RULESETS[case[0]]) is None, "None names")


SECTIONS = [Section("rules", gen, run), Section("same names", gen_same, run), Section("odd names", gen_odd, run_odd), Section("trees", gen_tree, run_tree), Section("rejected", gen_bad, run_bad),
            Section("none", lambda t: [(i,) for i in range(len(RULESETS))], run_none)]
