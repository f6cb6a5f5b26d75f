"""C32: State against plain dictionaries: every pair and triple of small states under every operator, every operation sequence up to a depth."""
import collections
import copy
import itertools
import pickle
import types

import jax
import jax.tree_util as jtu
import numpy as np
import nnx

from mc.core import Section, Violation, expect_raises, require, require_eq

RULE = ("every state over 4 paths with 3 kinds of entries in every construction order and form; every pair and triple under merge, |, - with states and plain mappings; every "
        "state under flattening, mapping, unflattening and every filter combination with every order of merging back; every operation sequence up to the depth bound; each "
        "compared with plain dictionaries, all operands compared again at the end; states = contents, transitions = operations")
ASSUMPTIONS = ["entries hold Python ints, so that equality of states is defined"]
BOUNDS = {"quick": "4 paths x 4 entries (256 states), all pairs; triples and sequences of 3 operations over 3 paths x 2 entries", "thorough": "sequences of 4 operations, triples over 3 paths x 3 entries"}

PATHS = ("a", "a/b", "B", "a0")
ORDER = sorted(PATHS)
ENTRIES = {"p": lambda i: nnx.Param(i, sharding=("x",)), "s": lambda i: nnx.BatchStat(i + 10), "r": lambda i: i + 20,
           "o": lambda i: None, "z": lambda i: 0, "e": lambda i: (), "y": lambda i: nnx.Param(None, sharding=("x",)), "f": lambda i: nnx.BatchStat(0)}


def contents(paths, alts):
  for combo in itertools.product((None,) + tuple(alts), repeat=len(paths)):
    yield tuple((p, k) for p, k in zip(paths, combo) if k)


def make(c, off=0):
  """Plain dictionary of entries."""
  return {p: ENTRIES[k](i + off) for i, (p, k) in enumerate(c)}


def desc(v):
  return (type(v).__name__, v.value, getattr(v, "sharding", None)) if isinstance(v, nnx.Node) else ("raw", v)


def describe(m):
  return [(k, desc(v)) for k, v in sorted(m.items())]


def check(s, want, what, same=True):
  """s is a State with exactly the entries of the dictionary `want`, in sorted order."""
  require(type(s) is nnx.State, lambda: f"{what}: result is a {type(s).__name__}")
  ks = sorted(want)
  require_eq(list(s), ks, f"{what}: paths")
  require_eq(list(s.keys()), ks, f"{what}: keys()")
  require_eq(len(s), len(ks), f"{what}: len")
  require_eq(bool(s), bool(ks), f"{what}: truth value")
  for (k, v), w in zip(s.items(), ks):
    require(k == w and desc(v) == desc(want[w]), lambda: f"{what}: entry {k} is {v!r} want {want[w]!r}")
  require_eq([desc(v) for v in s.values()], [desc(want[k]) for k in ks], f"{what}: values()")
  for p in PATHS + ("zz", "a/", "b"):
    require_eq(p in s, p in want, f"{what}: {p} in state")
    if p in want:
      require_eq(desc(s[p]), desc(want[p]), f"{what}: [{p}]")
      require_eq(desc(s.get(p)), desc(want[p]), f"{what}: get({p})")
    else:
      expect_raises(KeyError, lambda: s[p], f"{what}: [{p}]")
      require_eq(s.get(p, "d"), "d", f"{what}: get({p})")


def run_construct(case, cov):
  c, order, form = case
  d = make(c)
  items = [(c[i][0], d[c[i][0]]) for i in order]
  src = dict(items)
  if form == "dict":
    s = nnx.State(src)
  elif form == "pairs":
    s = nnx.State(iter(items))
  elif form == "generator":
    s = nnx.State((k, v) for k, v in items)
  elif form == "list":
    s = nnx.State(list(items))
  elif form == "duplicates":
    # later pairs win
    s = nnx.State(iter([(k, nnx.Param("old")) for k, _ in items] + items))
  elif form == "state":
    s = nnx.State(nnx.State(src))
  elif form == "ordered":
    s = nnx.State(collections.OrderedDict(items))
  elif form == "proxy":
    s = nnx.State(types.MappingProxyType(src))
  elif form == "copy":
    s = copy.copy(nnx.State(src))
  elif form == "deepcopy":
    s = copy.deepcopy(nnx.State(src))
  elif form == "pickle":
    s = pickle.loads(pickle.dumps(nnx.State(src)))
  check(s, d, f"{case}", same=form not in ("deepcopy", "pickle"))
  ref = nnx.State(d)
  require(s == ref and not (s != ref), f"{case}: not equal to the state built in order")
  require(s == d, f"{case}: not equal to the dictionary")
  require_eq(jtu.tree_structure(s), jtu.tree_structure(ref), f"{case}: tree structure")
  # the source can change afterwards
  src["zz"] = 1
  src.pop(c[0][0], None) if c else None
  check(s, d, f"{case} after changing the source", same=form not in ("deepcopy", "pickle"))
  for p in ("a", "zz"):
    for f in (lambda: s.__setitem__(p, 1), lambda: s.__delitem__(p), lambda: setattr(s, p, 1), lambda: s.update({p: 1}), lambda: s.pop(p), lambda: s.setdefault(p, 1), lambda: s.clear()):
      expect_raises((TypeError, AttributeError), f, f"{case}: changing the state in place")
  check(s, d, f"{case} after attempts to change it", same=form not in ("deepcopy", "pickle"))
  cov.trans()
  cov.state((c, form))


FORMS = ("dict", "pairs", "generator", "list", "duplicates", "state", "ordered", "proxy", "copy", "deepcopy", "pickle")


def gen_construct(tier):
  for c in contents(PATHS, "psr"):
    n = len(c)
    orders = list(itertools.permutations(range(n)))
    for o in orders:
      for f in FORMS:
        if f in ("dict", "pairs") or o == orders[-1]:
          yield c, o, f
  for c in contents(PATHS[:2], "oezyf"):  # entries that count as false
    for f in FORMS:
      yield c, tuple(range(len(c)))[::-1], f


def run_pair(case, cov):
  a, b = case
  da, db = make(a), make(b, 50)
  sa, sb = nnx.State(da), nnx.State(db)
  union, diff = {**da, **db}, {k: v for k, v in da.items() if k not in db}
  for name, other in (("state", sb), ("dict", db), ("reversed dict", dict(reversed(list(db.items()))))):
    check(sa | other, union, f"{case}: | {name}")
    check(sa - other, diff, f"{case}: - {name}")
    check(nnx.State.merge(sa, other), union, f"{case}: merge {name}")
  check(nnx.State.merge(sa), da, f"{case}: merge of one state")
  check((sa - sb) | sb, union, f"{case}: (a - b) | b")
  check((sa | sb) - sb, diff, f"{case}: (a | b) - b")
  check(sb | (sa - sb), union, f"{case}: b | (a - b)")
  x = sa
  x |= sb
  check(x, union, f"{case}: |=")
  x -= sb
  check(x, diff, f"{case}: -=")
  require_eq(sa == sb, describe(da) == describe(db), f"{case}: ==")
  require_eq(sa == db, describe(da) == describe(db), f"{case}: == with a dictionary")
  check(sa, da, f"{case}: left operand")
  check(sb, db, f"{case}: right operand")
  cov.trans(12)
  cov.state(case)


def gen_pair(tier):
  cs = list(contents(PATHS, "psr"))
  yield from itertools.product(cs, cs)
  cs = list(contents(PATHS[:2], "proezyf"))
  yield from itertools.product(cs, cs)


def run_triple(case, cov):
  ds = [make(c, 30 * i) for i, c in enumerate(case)]
  a, b, c = (nnx.State(d) for d in ds)
  da, db, dc = ds
  all_ = {**da, **db, **dc}
  check(nnx.State.merge(a, b, c), all_, f"{case}: merge")
  check((a | b) | c, all_, f"{case}: (a|b)|c")
  check(a | (b | c), all_, f"{case}: a|(b|c)")
  check(nnx.State.merge(a, b, c, a), {**all_, **da}, f"{case}: merge of four")
  check(a - b - c, {k: v for k, v in da.items() if k not in db and k not in dc}, f"{case}: a-b-c")
  check(a - (b | c), {k: v for k, v in da.items() if k not in db and k not in dc}, f"{case}: a-(b|c)")
  check(a - (b - c), {k: v for k, v in da.items() if k not in db or k in dc}, f"{case}: a-(b-c)")
  check((a | b) - c, {k: v for k, v in {**da, **db}.items() if k not in dc}, f"{case}: (a|b)-c")
  for s, d in zip((a, b, c), ds):
    check(s, d, f"{case}: operand")
  cov.trans(8)
  cov.state(case)


def gen_triple(tier):
  cs = list(contents(("a", "a/b", "B"), "ps" if tier == "quick" else "psr"))
  yield from itertools.product(cs, repeat=3)


# -- tree operations -----------------------------------------------------------------------------------------------------------

TREE = {"p": lambda i: nnx.Param(i, sharding=("x",), note=i), "t": lambda i: nnx.BatchStat({"u": i, "v": (i + 1, i + 2)}), "n": lambda i: nnx.Param(None), "r": lambda i: i + 20,
        "l": lambda i: [i, {"k": i}], "e": lambda i: nnx.Cache(()), "o": lambda i: None, "z": lambda i: ()}


def leaves_of(v):
  if isinstance(v, nnx.Node):
    return leaves_of(v.value)
  if isinstance(v, dict):
    return [x for k in sorted(v) for x in leaves_of(v[k])]
  if isinstance(v, (list, tuple)):
    return [x for i in v for x in leaves_of(i)]
  return [] if v is None else [v]


def mapped(v, f):
  if isinstance(v, nnx.Node):
    return (type(v).__name__, mapped(v.value, f), {k: m for k, m in vars(v).items() if k != "value"})
  if isinstance(v, dict):
    return {k: mapped(x, f) for k, x in v.items()}
  if isinstance(v, (list, tuple)):
    return type(v)(mapped(x, f) for x in v)
  return None if v is None else f(v)


def run_tree(case, cov):
  c = case
  d = {p: TREE[k](i) for i, (p, k) in enumerate(c)}
  s = nnx.State(dict(reversed(list(d.items()))))
  ks = sorted(d)
  leaves, tdef = jtu.tree_flatten(s)
  require_eq(leaves, [x for k in ks for x in leaves_of(d[k])], f"{case}: leaves")
  pl, tdef2 = jtu.tree_flatten_with_path(s)
  require_eq([x for _, x in pl], leaves, f"{case}: leaves with paths")
  require_eq([p[0] for p, _ in pl], [jtu.DictKey(k) for k in ks for _ in leaves_of(d[k])], f"{case}: first path keys")
  require_eq(len({jtu.keystr(p) for p, _ in pl}), len(pl), f"{case}: paths of leaves are not unique")
  require_eq(tdef, tdef2, f"{case}: structure with and without paths")
  ident = lambda x: {k: mapped(v, lambda z: z) for k, v in x.items()}
  for name, t in (("unflatten", jtu.tree_unflatten(tdef, leaves)), ("tree_map", jtu.tree_map(lambda x: x, s)), ("two states", jtu.tree_map(lambda x, y: y, s, s)),
                  ("by path", jtu.tree_map_with_path(lambda p, x: x, s))):
    require(type(t) is nnx.State, f"{case}: {name} gives {type(t).__name__}")
    require_eq(list(t), ks, f"{case}: {name}: paths")
    require_eq(ident(t), ident(d), f"{case}: {name}")
    require_eq(jtu.tree_structure(t), tdef, f"{case}: {name}: structure")
    cov.trans()
  t = jtu.tree_map(lambda x: x * 2 + 1, s)
  require_eq({k: mapped(v, lambda z: z) for k, v in t.items()}, {k: mapped(v, lambda z: z * 2 + 1) for k, v in d.items()}, f"{case}: mapped values")
  require_eq(ident(s), ident(d), f"{case}: the state was changed")
  if leaves:
    j = jax.jit(lambda x: jtu.tree_map(lambda y: y + 1, x))(s)
    require(type(j) is nnx.State, f"{case}: through jit: {type(j).__name__}")
    require_eq({k: mapped(v, int) for k, v in j.items()}, {k: mapped(v, lambda z: z + 1) for k, v in d.items()}, f"{case}: through jit")
  # any value can take the place of an entry: mapping to None, or unflattening with whatever jax puts there
  kids, one = jtu.tree_flatten(s, is_leaf=lambda x: x is not s)
  require(len(kids) == len(ks) and all(a is s[k] for a, k in zip(kids, ks)), f"{case}: entries as children")
  for mk in (lambda i: None, lambda i: (), lambda i: i, lambda i: object(), lambda i: None if i % 2 else 0):
    put = [mk(i) for i in range(len(ks))]
    t = jtu.tree_unflatten(one, put)
    require(type(t) is nnx.State and list(t) == ks, lambda: f"{case}: paths after unflattening with {put}: {list(t)}")
    require(all(t[k] is v for k, v in zip(ks, put)), f"{case}: entries after unflattening with {put}")
  # structures are equal exactly for the same paths and kinds
  for p, k in itertools.product(PATHS, ("p", "t", "n")):
    d2 = dict(d)
    d2[p] = TREE[k](7)
    s2 = nnx.State(d2)
    same = p in d and mapped(d[p], lambda z: 0) == mapped(d2[p], lambda z: 0)
    require_eq(jtu.tree_structure(s2) == tdef, same, f"{case}: structure after setting {p} to {k}")
    if not same and (set(d2) != set(d)):
      expect_raises(ValueError, lambda: jtu.tree_map(lambda x, y: x, s, s2), f"{case}: mapping over states with different paths")
  cov.state(case)


def gen_tree(tier):
  yield from contents(PATHS[:3], "ptnrleoz")
  if tier == "thorough":
    yield from contents(PATHS, "ptnrle")


# -- filters ---------------------------------------------------------------------------------------------------------------------

FILTERS = {
    "Param": (lambda: nnx.Param, lambda p, v: isinstance(v, nnx.Param)),
    "BatchStat": (lambda: nnx.BatchStat, lambda p, v: isinstance(v, nnx.BatchStat)),
    "Variable": (lambda: nnx.Variable, lambda p, v: isinstance(v, nnx.Variable)),
    "not Param": (lambda: nnx.Not(nnx.Param), lambda p, v: not isinstance(v, nnx.Param)),
    "none": (lambda: (lambda p, v: False), lambda p, v: False),
    "path": (lambda: (lambda p, v: p.startswith("a")), lambda p, v: p.startswith("a")),
    "tuple": (lambda: (nnx.Cache, nnx.BatchStat), lambda p, v: isinstance(v, (nnx.Cache, nnx.BatchStat))),
    "rest": (lambda: ..., lambda p, v: True),
}


def run_filter(case, cov):
  c, fs = case
  d = make(c)
  s = nnx.State(d)
  groups, rest = [{} for _ in fs], {}
  for p in sorted(d):
    for g, f in zip(groups, fs):
      if FILTERS[f][1](p, d[p]):
        g[p] = d[p]
        break
    else:
      rest[p] = d[p]
  args = [FILTERS[f][0]() for f in fs]
  out = s.filter(*args)
  outs = (out,) if len(fs) == 1 else out
  require(type(outs) is tuple and len(outs) == len(fs), f"{case}: filter returned {type(outs).__name__}")
  for o, g in zip(outs, groups):
    check(o, g, f"{case}: filter")
  if rest:
    expect_raises(ValueError, lambda: s.partition(*args), f"{case}: partition with a remainder")
  else:
    parts = s.partition(*args)
    parts = (parts,) if len(fs) == 1 else parts
    require_eq(len(parts), len(fs), f"{case}: number of groups")
    for o, g in zip(parts, groups):
      check(o, g, f"{case}: partition")
    for perm in itertools.permutations(parts):
      check(nnx.State.merge(*perm), d, f"{case}: merged back")
      cov.trans()
  left = s
  for o in outs:
    left = left - o
  check(left, rest, f"{case}: minus all groups")
  for perm in itertools.permutations(outs + (left,)):
    x = nnx.State({})
    for o in perm:
      x = x | o
    check(x, d, f"{case}: groups and remainder merged")
    cov.trans()
  check(s, d, f"{case}: the state was changed")
  cov.state(case)


def gen_filter(tier):
  for c in contents(PATHS[:3] if tier == "quick" else PATHS, "psr"):
    for n in (1, 2, 3):
      for fs in itertools.product(FILTERS, repeat=n):
        if "rest" in fs[:-1] or n == 3 and len(set(fs)) < 3:
          continue
        yield c, fs


# -- sequences of operations -------------------------------------------------------------------------------------------------------


def ops():
  cs = list(contents(("a", "a/b", "B"), "ps"))
  for c in cs[::3]:
    yield ("or", c)
    yield ("sub", c)
    yield ("under", c)
  for f in ("Param", "BatchStat", "path", "none"):
    yield ("filter", f)
  for o in ("map", "unflatten", "rebuild", "pairs", "split", "self or", "self sub"):
    yield (o, None)


def run_ops(case, cov):
  start, seq = case
  d = make(start)
  s = nnx.State(d)
  hist = [(s, dict(d))]
  for i, (op, arg) in enumerate(seq):
    same = True
    if op in ("or", "sub", "under"):
      e = make(arg, 40 * (i + 1))
      t = nnx.State(e)
      s, d = {"or": lambda: (s | t, {**d, **e}), "sub": lambda: (s - t, {k: v for k, v in d.items() if k not in e}), "under": lambda: (t | s, {**e, **d})}[op]()
      hist.append((t, e))
    elif op == "filter":
      s, d = s.filter(FILTERS[arg][0]()), {k: v for k, v in d.items() if FILTERS[arg][1](k, v)}
    elif op == "map":
      s = jtu.tree_map(lambda x: x + 1, s)
      d = {k: v.replace(value=v.value + 1) for k, v in d.items()}
      same = False
    elif op == "unflatten":
      l, td = jtu.tree_flatten(s)
      s, same = jtu.tree_unflatten(td, l), False
    elif op == "rebuild":
      s = nnx.State(s)
    elif op == "pairs":
      s = nnx.State(reversed(list(s.items())))
    elif op == "split":
      a, b = s.partition(nnx.Param, ...)
      s = nnx.State.merge(b, a)
    elif op == "self or":
      s = s | s
    elif op == "self sub":
      s, d = s - s, {}
    check(s, d, f"{case} step {i}", same)
    d = dict(s.items())
    hist.append((s, d))
    cov.trans()
  for t, e in hist:
    check(t, e, f"{case}: an earlier state was changed")
  cov.state(describe(s))


def gen_ops(tier):
  o = list(ops())
  for start in ((), (("a", "p"), ("a/b", "s")), (("B", "s"), ("a", "s"), ("a/b", "p"))):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
      yield from ((start, seq) for seq in itertools.product(o if n < 4 else o[::2], repeat=n))


SECTIONS = [Section("construction", gen_construct, run_construct), Section("pairs", gen_pair, run_pair), Section("triples", gen_triple, run_triple),
            Section("trees", gen_tree, run_tree), Section("filters", gen_filter, run_filter), Section("sequences", gen_ops, run_ops)]
