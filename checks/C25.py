"""C25: modules are the same exactly when they are the same object, whoever creates or copies them."""
import copy
import itertools

from mc import sched  # before nnx

import jax
import jax.numpy as jnp
import nnx

from mc import heap
from mc.core import Section, Violation, require, require_eq

RULE = ("concurrency: every interleaving of the creating threads at bytecode granularity with up to the given number of preemptions, explored on the real "
        "code by a controlled scheduler (states = distinct executions, transitions = scheduling points passed); copies: every small module graph and every "
        "sequence of copy, deepcopy, clone and assignments up to the depth bound, compared with a heap model")
ASSUMPTIONS = ["code outside nnx runs atomically between scheduling points", "each thread changes only modules that it created itself"]
BOUNDS = {"quick": "2 threads creating one module each: 2 preemptions; nested modules, 3 threads, copying, cloning, merging and tracing: 1 preemption; graphs of 2 modules x 2 "
                   "names; operation sequences of length 3; 2^17 modules at once",
          "thorough": "3 and 2 preemptions, line granularity with 3 preemptions for nested modules, graphs of 3 modules, sequences of length 4, 2^20 modules at once"}


# -- concurrent creation -------------------------------------------------------------------------------------------------


class Leaf(nnx.Module):
  def __init__(self):
    self.p = nnx.Param(1)


class Empty(nnx.Module):
  pass


class Tree(nnx.Module):
  def __init__(self):
    self.a = Empty()
    self.b = Empty()
    self.p = nnx.Param(1)


_shared = {}


def shared(name):
  """Objects made once, used by all threads."""
  if not _shared:
    t = Tree()
    _shared["tree"] = t
    _shared["pure"] = t.partition()
    _shared["state"], _shared["def"] = t.partition()
  return _shared[name]


def traced():
  """Creates and changes modules under a jax trace."""
  out = []

  def f():
    m = Leaf()
    m.p = m.p + 1
    out.append(m)
    return jnp.asarray(m.p)
  jax.eval_shape(f)
  return out[0]


def created_and_used():
  m = Leaf()
  m.p = m.p + 1
  m.q = nnx.Node(5)
  return m


OPS = {
    "leaf": lambda: Leaf(), "empty": lambda: Empty(), "tree": lambda: Tree(), "two": lambda: nnx.Dict(a=Empty(), b=Empty()),
    "clone": lambda: shared("tree").clone(), "merge": lambda: shared("pure").merge(), "def merge": lambda: shared("def").merge(shared("state")),
    "copy": lambda: copy.copy(shared("tree")), "deepcopy": lambda: copy.deepcopy(shared("tree")), "partition": lambda: shared("tree").partition(),
    "get_state": lambda: shared("tree").get_state(), "traced": traced, "used": created_and_used, "hash": lambda: hash(shared("tree")),
    "def": lambda: shared("tree").get_module_def(), "repr": lambda: repr(shared("tree")),
}
SHAPE = {}  # op -> canonical form of its result when run alone


def canon(r):
  if isinstance(r, nnx.Module):
    return heap.observe(r)
  if isinstance(r, nnx.Pure):
    return ("pure", heap.state_enc(r.states), heap.observe(r.merge()))
  if isinstance(r, nnx.State):
    return heap.state_enc(r)
  return r


def distinct(mods, what):
  """All the given modules are different for nnx: hashes, equality and traversal."""
  ids = {id(m) for m in mods}
  require(len(ids) == len(mods), f"{what}: the same object was returned twice")
  require(len({hash(m) for m in mods}) == len(mods) and len(set(mods)) == len(mods), f"{what}: modules with equal identity")
  p = nnx.Dict()
  for i, m in enumerate(mods):
    setattr(p, f"m{i:02}", m)
    if not hasattr(m, "mark"):
      vars(m)["mark"] = nnx.Param(i)
  want = {f"m{i:02}" for i in range(len(mods))}
  back = p.clone()
  got = [getattr(back, f"m{i:02}") for i in range(len(mods))]
  require(len({id(x) for x in got}) == len(mods), f"{what}: distinct modules were merged into one")
  paths = set(p.get_state())
  require(sum(x.endswith("mark") for x in paths) == len(mods), f"{what}: state entries {sorted(paths)}")
  for x in mods:
    vars(x).pop("mark", None)


def run_conc(case, cov):
  names, bound, shard, n, lines = case
  for name in names:
    shared("tree")
    if name not in SHAPE:
      SHAPE[name] = canon(OPS[name]())
  what = f"threads {names}"

  def make():
    before = Empty()
    return [OPS[n] for n in names], before

  def check(results, before):
    mods = [before, Empty(), shared("tree"), shared("tree").a, shared("tree").b]
    for name, (status, r) in zip(names, results):
      if status != "ok":
        raise Violation(f"{what}: {name} raised {type(r).__name__}: {r}")
      require(canon(r) == SHAPE[name], lambda: f"{what}: {name} gave {canon(r)}, alone it gives {SHAPE[name]}")
      if name == "copy":  # a copy shares its submodules with the original
        mods.append(r)
      elif isinstance(r, nnx.Module) and name != "traced":
        mods += heap.modules_of(r)
      elif name == "traced":
        vars(r)["p"] = nnx.Param(2)  # drop the tracer
        mods.append(r)
    distinct(mods, what)
    require(canon(shared("tree")) == SHAPE["tree"], f"{what}: the shared module changed")
  if "tree" not in SHAPE:
    SHAPE["tree"] = canon(OPS["tree"]())
  sched.explore(make, check, bound, shard=(shard, n), cov=cov, lines=lines)
  cov.outcome("explored")


def gen_conc(tier):
  full = tier == "thorough"
  pairs = [("clone", "clone"), ("merge", "def merge"), ("copy", "empty"), ("deepcopy", "leaf"), ("deepcopy", "copy"), ("tree", "empty"), ("traced", "used"),
           ("traced", "traced"), ("partition", "get_state"), ("partition", "clone"), ("hash", "def"), ("used", "used"), ("repr", "clone")]
  n = 16
  for shard in range(n):
    yield ("empty", "empty"), 3 if full else 2, shard, n, False
    yield ("leaf", "leaf"), 2 if full else 1, shard, n, False
  for p in pairs:
    for shard in range(n if full else 8):
      yield p, 2 if full and p not in (("deepcopy", "copy"), ("clone", "clone"), ("partition", "clone"), ("repr", "clone")) else 1, shard, n if full else 8, False
  for shard in range(8):
    yield ("empty", "leaf", "empty"), 2 if full else 1, shard, 8, False
    yield ("tree", "tree"), 2 if full else 1, shard, 8, True


# -- copies ------------------------------------------------------------------------------------------------------------------


def options(k):
  def f(i, name):
    return [None] + [("ref", j) for j in range(k)] + [("leaf", "P", i), ("static", 7)]
  return f


def check_all(mods, h, what):
  for k, m in enumerate(mods):
    require_eq(heap.observe(m), h.canon(k), f"{what}: module {k}")
  require(len({hash(m) for m in mods}) == len(mods), f"{what}: equal hashes")
  # all of them in one graph
  wrap = heap.Heap(h.mods + [["M", {f"m{i:02}": ("ref", i) for i in range(len(mods))}]])
  w = heap.M()
  for i, m in enumerate(mods):
    setattr(w, f"m{i:02}", m)
  root = len(mods)
  require_eq(heap.state_enc(w.get_state()), wrap.entry_enc(root), f"{what}: state of all modules")
  require_eq(heap.observe(w.clone()), wrap.canon(root), f"{what}: clone of all modules")


def do(op, mods, h, what):
  kind, i = op[0], op[1]
  if i >= len(mods):
    return False
  m = mods[i]
  if kind == "copy":
    new = copy.copy(m)
    require(type(new) is type(m) and all(new is not x for x in mods), f"{what}: not a new module")
    mods.append(new)
    h.mods.append([h.mods[i][0], dict(h.mods[i][1])])
  elif kind in ("deepcopy", "clone"):
    new = copy.deepcopy(m) if kind == "deepcopy" else m.clone()
    order, _ = h.order(i)
    base = len(mods)
    num = {j: base + k for k, j in enumerate(order)}
    live = heap.modules_of(new)
    require(len(live) == len(order), f"{what}: {len(live)} modules instead of {len(order)}")
    for x in live:
      require(all(x is not y for y in mods), f"{what}: shares a module with the original")
    mods.extend(live)
    for j in order:
      cls, attrs = h.mods[j]
      h.mods.append([cls, {a: ("ref", num[v[1]]) if v[0] == "ref" else v for a, v in attrs.items()}])
  elif kind == "set":
    setattr(m, op[2], nnx.Param(op[3]) if not isinstance(vars(m).get(op[2]), nnx.Container) else op[3])
    h.mods[i][1][op[2]] = ("leaf", "P", op[3])
  elif kind == "link":
    if op[3] >= len(mods) or isinstance(vars(m).get(op[2]), nnx.Container):
      return False
    setattr(m, op[2], mods[op[3]])
    h.mods[i][1][op[2]] = ("ref", op[3])
  elif kind == "del":
    if op[2] not in vars(m):
      return False
    delattr(m, op[2])
    del h.mods[i][1][op[2]]
  elif kind == "update":
    st = m.get_state()
    ent = h.entries(i)
    m.update_state(nnx.State({p: nnx.Param(v[2] + 50) for p, v in ent.items()}))
    for p, v in ent.items():
      j, n = h.owner(p, i)
      h.mods[j][1][n] = ("leaf", "P", v[2] + 50)
  elif kind == "copyvars":  # copying a dictionary that holds modules
    d = copy.deepcopy({"x": m, "y": [m]})
    require(d["x"] is d["y"][0] and d["x"] is not m, f"{what}: deepcopy of a container of modules")
  return True


def run_graph(case, cov):
  h0 = heap.from_case(case)
  for op in (("copy", 0), ("deepcopy", 0), ("clone", 0), ("copy", 1), ("deepcopy", 1)):
    h = h0.copy()
    mods = h.build()
    if not do(op, mods, h, f"{op}"):
      continue
    check_all(mods, h, f"{op}")
    cov.trans()
    k = len(mods) - 1
    for op2 in (("set", 0, "a", 91), ("set", len(h0.mods), "b", 92), ("del", len(h0.mods), "a"), ("update", len(h0.mods))):
      if op2[0] == "set" and h.mods[op2[1]][1].get(op2[2], ("leaf",))[0] != "leaf":
        continue
      if do(op2, mods, h, f"{op} {op2}"):
        check_all(mods, h, f"{op} then {op2}")
        cov.trans()
    if len(mods) > len(h0.mods):
      d = copy.deepcopy({"x": mods[0], "y": [mods[0], mods[-1]]})
      require(d["x"] is d["y"][0] and d["x"] is not mods[0] and d["y"][1] is not d["x"], f"{op}: deepcopy of a container of modules")
  cov.state(h0.canon())


def gen_graph(tier):
  yield from (heap.to_case(h) for h in heap.graphs(1, ("a", "b", "c"), options(1)))
  yield from (heap.to_case(h) for h in heap.graphs(2, ("a", "b"), options(2)))
  if tier == "thorough":
    yield from (heap.to_case(h) for h in heap.graphs(3, ("a", "b"), options(3)))


START = (("M", (("a", ("ref", 1)), ("b", ("ref", 1)), ("c", ("leaf", "P", 1)))), ("M2", (("a", ("ref", 0)), ("c", ("leaf", "P", 2)))))
HOPS = tuple((k, i) for k in ("copy", "deepcopy", "clone") for i in (0, 1, 2)) + (
    ("set", 0, "c", 31), ("set", 1, "c", 32), ("set", 2, "c", 33), ("link", 0, "n", 2), ("link", 2, "a", 0), ("link", 2, "a", 2), ("del", 2, "a"), ("del", 0, "b"),
    ("update", 0), ("update", 2))


def run_hist(case, cov):
  first, second, depth = case

  def go(hist):
    h = heap.from_case(START)
    mods = h.build()
    for op in hist:
      if not do(op, mods, h, f"{hist}"):
        return
    check_all(mods, h, f"{hist}")
    cov.trans()
    cov.state(tuple(h.canon(i) for i in range(len(mods))))
    if len(hist) < depth:
      for op in HOPS:
        go(hist + (op,))
  go((first, second))


def gen_hist(tier):
  for a, b in itertools.product(HOPS, HOPS):
    yield a, b, 3 if tier == "quick" else 4


# -- many modules --------------------------------------------------------------------------------------------------------

def run_many(case, cov):
  """No two of a great number of modules are taken for one."""
  first, count, how = case
  old = [Leaf() for _ in range(first)]
  cov.state(case)
  q = nnx.Sequence(old + [Empty() for _ in range(count)])
  c = q.clone() if how == "clone" else copy.deepcopy(q)
  cov.trans(count)
  for what, s in (("sequence", q), (how, c)):
    mods = [v for v in vars(s).values() if isinstance(v, nnx.Module)]
    require_eq(len(mods), first + count, f"{what}: entries")
    require_eq(len({id(m) for m in mods}), first + count, f"{what}: distinct modules")
    require_eq(len(s.get_state()), first, f"{what}: state")
  a = Leaf()
  for m in (old[0], old[-1], mods[0], mods[-1], mods[65535 % len(mods)]):
    pair = nnx.Dict(a=a, m=m)
    require(pair.clone().a is not pair.clone().m, "a new module is taken for an old one")
    require_eq(len({id(x) for x in (lambda d: (d.a, d.m))(pair.clone())}), 2, "pair")


def gen_many(tier):
  yield 4, 2 ** 17 if tier == "quick" else 2 ** 20, "clone"
  yield 100, 300, "deepcopy"


SECTIONS = [Section("many", gen_many, run_many, timeout=600), Section("concurrent creation", gen_conc, run_conc, timeout=800), Section("copies", gen_graph, run_graph), Section("copy histories", gen_hist, run_hist, timeout=600)]
