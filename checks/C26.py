"""C26: printing is total, bounded, repeatable, without side effects, and independent between threads."""
import copy
import itertools
import re

from mc import sched  # before nnx

import jax
import jax.numpy as jnp
import numpy as np
import nnx
import optax

from mc import heap
from mc.core import Section, Violation, require, require_eq

RULE = ("every rooted module graph within the bounds printed repeatedly and in turn with others, every position of a failing element, every kind of printable "
        "object; every interleaving at bytecode granularity of threads printing shared and separate objects up to the preemption bound; states = graphs, objects "
        "and executions, transitions = prints and scheduling points")
ASSUMPTIONS = ["the layout of the text is not specified, only that every static attribute and submodule shows exactly once and that nested lines are indented"]
BOUNDS = {"quick": "graphs of 2 modules x 3 names and 3 modules x 2 names over 5 alternatives; pairs of 12 attribute names x 5 shapes; 2 printing threads with 1 preemption (2 for the smallest object)",
          "thorough": "graphs of 4 modules x 2 names; 2 preemptions for all pairs, 3 threads"}


def mk(name):
  return type(nnx.Module)(name, (nnx.Module,), {})


CLS = [mk(f"Cls{c}q") for c in "ABCDE"]


class Boom(Exception):
  pass


class Bad:
  """A static value that cannot be printed."""

  def __init__(self, exc=Boom, armed=True):
    self.exc, self.armed = exc, armed

  def __repr__(self):
    if self.armed:
      raise self.exc("cannot print")
    return "badvalue"


class Nested:
  """A static value that prints another object."""

  def __init__(self, obj):
    self.obj = obj

  def __repr__(self):
    return f"<{self.obj!r}>"


def build(case):
  mods = [CLS[i]() for i in range(len(case))]
  for i, (m, attrs) in enumerate(zip(mods, case)):
    for name, v in attrs:
      kind = v[0]
      if kind == "ref":
        setattr(m, name, mods[v[1]])
      elif kind == "static":
        setattr(m, name, f"mark_{i}{name}_")
      elif kind == "list":
        setattr(m, name, [f"mark_{i}{name}_", mods[v[1]], {"k": mods[v[1]]}])
      elif kind == "leaf":
        setattr(m, name, nnx.Param(jnp.asarray(3)))
      elif kind == "multi":
        setattr(m, name, f"mark_{i}{name}_\nline")
  return mods


def graphs(k, names, alts):
  slots = [(i, n) for i in range(k) for n in names]
  for combo in itertools.product(alts, repeat=len(slots)):
    rows = [[] for _ in range(k)]
    for (i, n), v in zip(slots, combo):
      if v is not None:
        rows[i].append((n, v))
    # all reachable, first visited in index order
    order, stack = [], [0]

    def go(i):
      if i in order:
        return
      order.append(i)
      for n, v in rows[i]:
        if v[0] in ("ref", "list"):
          go(v[1])
    go(0)
    if order == list(range(k)):
      yield tuple(tuple(r) for r in rows)


def check_text(text, case, reach, what):
  for i in reach:
    require(f"Cls{'ABCDE'[i]}q" in text, lambda: f"{what}: module {i} is not shown in {text}")
    for name, v in case[i]:
      if v[0] in ("static", "list", "multi"):
        n = text.count(f"mark_{i}{name}_")
        require(n == 1, lambda: f"{what}: attribute {name} of module {i} is shown {n} times in {text}")
      if v[0] in ("ref", "list", "static", "multi"):
        require(re.search(rf"\b{name}\b", text), lambda: f"{what}: the name {name} is not shown in {text}")
  refs = {}
  for i in reach:
    for name, v in case[i]:
      if v[0] in ("ref", "list"):
        refs[v[1]] = refs.get(v[1], 0) + (1 if v[0] == "ref" else 2)
  for i in reach:
    want = refs.get(i, 0) + (i == reach[0])
    got = text.count(f"Cls{'ABCDE'[i]}q")
    require(got == want, lambda: f"{what}: module {i} occurs {got} times instead of {want} in {text}")


def reachable(case, root):
  out, todo = [], [root]
  while todo:
    i = todo.pop()
    if i in out:
      continue
    out.append(i)
    todo += [v[1] for n, v in case[i] if v[0] in ("ref", "list")]
  return out


def run_graph(case, cov):
  mods = build(case)
  before = heap.observe(mods[0])
  texts = []
  for r in range(len(mods)):
    t = repr(mods[r])
    check_text(t, case, reachable(case, r), f"repr of module {r}")
    texts.append(t)
    cov.trans()
  for r in reversed(range(len(mods))):
    require_eq(repr(mods[r]), texts[r], f"second repr of module {r}")
    require_eq(str(mods[r]), texts[r], f"str of module {r}")
    require_eq(f"{mods[r]!r}", texts[r], f"format of module {r}")
  require_eq(heap.observe(mods[0]), before, "printing changed the module")
  # what the module consists of
  state, md = mods[0].partition()
  for name, obj in (("state", state), ("definition", md), ("list", [mods[0], mods[-1]]), ("clone", mods[0].clone())):
    t = repr(obj)
    require_eq(repr(obj), t, f"second repr of the {name}")
    cov.trans()
    if name == "definition":
      for i in range(len(mods)):
        require(f"Cls{'ABCDE'[i]}q" in t, lambda: f"module {i} is not shown in the definition {t}")
        for n, v in case[i]:
          if v[0] == "static" and not any(w[0] == "list" for row in case for _, w in row):
            require(t.count(f"mark_{i}{n}_") == 1, lambda: f"attribute {n} of module {i} in the definition {t}")
    if name == "state":
      require(all(p in t for p in state), lambda: f"a path is not shown in {t}")
    if name == "clone":
      check_text(t, case, list(range(len(mods))), "repr of the clone") if not any(v[0] == "list" for row in case for _, v in row) else None
  for r in range(len(mods)):
    require_eq(repr(mods[r]), texts[r], f"third repr of module {r}")
  # inside a trace
  seen = []
  jax.eval_shape(lambda: seen.append(repr(mods[0])))
  require_eq(seen[0], texts[0], "repr inside a trace")
  cov.state(case)


ALTS2 = (None, ("ref", 0), ("ref", 1), ("static",), ("list", 0), ("list", 1), ("leaf",))
ALTS3 = (None, ("ref", 0), ("ref", 1), ("ref", 2), ("static",))


def gen_graph(tier):
  yield from graphs(1, ("a", "b"), (None, ("ref", 0), ("static",), ("list", 0), ("leaf",), ("multi",)))
  yield from graphs(2, ("a", "b"), ALTS2)
  yield from graphs(2, ("a", "b", "c"), (None, ("ref", 0), ("ref", 1), ("static",), ("multi",)))
  yield from graphs(3, ("a", "b"), ALTS3 + (("list", 2),))
  if tier == "thorough":
    yield from graphs(4, ("a", "b"), ALTS3 + (("ref", 3),))


# -- failing prints ----------------------------------------------------------------------------------------------------------


def run_fail(case, cov):
  """A graph in which attribute `where` of module i cannot be printed at first."""
  graph, i, where, exc, obj = case
  mods = build(graph)
  texts = [repr(m) for m in mods]
  other = CLS[4]()
  other.sub = mods[0]
  other.s = "mark_other"
  bad = Bad({"Boom": Boom, "Keyboard": KeyboardInterrupt, "GenExit": GeneratorExit}[exc])
  others = {"state": mods[0].get_state(), "def": mods[0].get_module_def(), "var": nnx.Param([1]), "ctx": nnx.context(0)}
  before = {k: repr(v) for k, v in others.items()}
  other_text = repr(other)
  old = vars(mods[i]).get(where)
  if obj == "module":
    vars(mods[i])[where] = bad
    targets = [("module", mods[0]), ("outer", other)]
  elif obj == "list":
    vars(mods[i])[where] = ["x", {"y": bad}, mods[-1]]
    targets = [("module", mods[0]), ("outer", other)]
  elif obj == "state":
    targets = [("state", nnx.State({"a": nnx.Param(1), "b": nnx.Param([bad]), "c": 2}))]
  elif obj == "var":
    targets = [("var", nnx.Param({"a": bad}, note=1)), ("meta", nnx.Param(1, note=bad))]
  elif obj == "def":
    vars(mods[i])[where] = bad
    targets = [("def", mods[0].get_module_def())]
  for name, t in targets:
    for k in range(2):
      try:
        repr(t)
        failed = False
      except BaseException as e:
        if isinstance(e, (SystemExit,)) or type(e).__name__ == "_Timeout":
          raise
        failed = True
      require(failed, f"{case}: the failing element of {name} was not printed")
      cov.trans()
  bad.armed = False
  first = [repr(t) for _, t in targets]
  require(all("badvalue" in f for f in first), f"{case}: the element is missing after the failure")
  require_eq([repr(t) for _, t in targets], first, f"{case}: repr after the failure")
  if obj in ("module", "list", "def"):
    if old is None:
      del vars(mods[i])[where]
    else:
      vars(mods[i])[where] = old
  for m, t in zip(mods, texts):
    require_eq(repr(m), t, f"{case}: text of a module after a failed print")
  require_eq(repr(other), other_text, f"{case}: text of the outer module after a failed print")
  for k, v in others.items():
    require_eq(repr(v), before[k], f"{case}: text of the {k} after a failed print")
  cov.state(case)


def gen_fail(tier):
  gs = [g for g in graphs(2, ("a", "b"), (None, ("ref", 0), ("ref", 1), ("static",)))] + list(itertools.islice(graphs(3, ("a", "b"), ALTS3), 0, None, 7 if tier == "quick" else 1))
  for g in gs:
    for i in range(len(g)):
      for where in ("a", "zz"):
        if any(n == where and v[0] == "ref" for n, v in g[i]):
          continue
        for exc in ("Boom", "Keyboard", "GenExit"):
          for obj in ("module", "list", "state", "var", "def"):
            if obj in ("state", "var") and (i or where != "zz"):
              continue
            if obj == "def" and any(v[0] == "list" for r in g for _, v in r):
              continue
            yield g, i, where, exc, obj


# -- all kinds of objects ------------------------------------------------------------------------------------------------------


class PT(nnx.Pytree):
  def __init__(self, v):
    self.v = nnx.Param(v)
    self.s = "mark_pt"
    self.t = nnx.TreeNode([1, {"k": v}])


@nnx.dataclass
class DCM(nnx.Module):
  a: int = nnx.static_field()
  b: int = nnx.param_field()


@nnx.dataclass
class DCP(nnx.Pytree):
  a: int = nnx.static_field()
  b: int = nnx.param_field()


def objects():
  ctx = nnx.context(0, dropout=1, flags={"train": True})
  lin = nnx.Linear(2, 3, ctx=nnx.context(0))
  bn = nnx.BatchNorm(2, ctx=nnx.context(0))
  d = nnx.Dict(a=nnx.Param(1), b=lin, c="mark_dict")
  d.self_ = d
  seq = nnx.Sequence([lin, jnp.tanh, lin])
  params, md = lin.partition(nnx.Param)
  ts = nnx.TrainState(md, params=params, tx=optax.sgd(0.1))
  out = {
      "linear": lin, "conv": nnx.Conv(2, 3, (2,), ctx=nnx.context(0)), "embed": nnx.Embed(2, 3, ctx=nnx.context(0)), "batchnorm": bn,
      "layernorm": nnx.LayerNorm(2, ctx=nnx.context(0)), "dropout": nnx.Dropout(0.5), "dict": d, "sequence": seq, "empty dict": nnx.Dict(), "empty seq": nnx.Sequence([]),
      "dataclass module": DCM(1, 2), "dataclass pytree": DCP(1, 2), "pytree": PT(3), "pytree nested": PT(PT(4)), "pytree array": PT(np.ones((3, 3))),
      "context": ctx, "pure context": ctx.partition(), "contextdef": ctx.partition().contextdef, "stream": ctx._rngs["params"] if hasattr(ctx, "_rngs") else ctx,
      "pure": lin.partition(), "module def": md, "state": params, "empty state": nnx.State({}), "train state": ts, "jit": nnx.jit(lambda m: m),
      "scan": nnx.Scan(DCM, variable_axes={nnx.Param: 0}, length=2)(a=1, b=jnp.ones(())), "remat": nnx.Remat(DCM)(1, 2),
      "mutable state": d.mutable_state_dict(), "leaf": d.mutable_state_dict()["a"], "trace state": nnx.tracers.TraceState() if hasattr(nnx, "tracers") else None,
      "static": nnx.Static([1, "x"]), "node": nnx.Node({"a": 1}), "treenode": nnx.TreeNode([1]), "metadata": nnx.Param(1, sharding=("a", None), note="n"),
      "var of module": nnx.Node(3), "var of lines": nnx.Param("x\ny"), "module state": vars(lin).get("_module__state"),
      "abstract": jax.eval_shape(lambda: nnx.Linear(2, 3, ctx=nnx.context(0)).get_state()),
  }
  l = DCM(1, 2)
  l.items = [l, {"k": l, "n": Nested(l)}, (PT(5),)]
  out["cycle through containers"] = l
  n = DCM(1, 2)
  n.x = Nested(d)
  n.y = Nested(n)
  out["nested print"] = n
  q = PT(1)
  w = DCM(1, 2)
  w.holder = [q]
  vars(q)["s"] = [w]
  out["cycle through a pytree"] = q
  return out


NAMES = None


def names():
  global NAMES
  if NAMES is None:
    NAMES = sorted(objects())
  return NAMES


def run_obj(case, cov):
  a, b = case
  o1, o2 = objects(), objects()
  x = o1[a]
  leaves = [np.asarray(v).tobytes() for v in jax.tree_util.tree_leaves(x) if hasattr(v, "dtype") and not isinstance(v, jax.ShapeDtypeStruct)]
  t = repr(x)
  require(isinstance(t, str) and len(t) < 20000, f"repr of {a} has {len(t)} characters")
  tb = repr(o2[b])
  strip = lambda s: re.sub(r"0x[0-9a-f]+|UUID\(\d+\)", "", s)
  require_eq(repr(x), t, f"repr of {a} after printing {b}")
  require_eq(repr(o2[b]), tb, f"repr of {b} after printing {a}")
  require_eq(repr([x, o2[b]]).count("\n") >= 0, True, "both in a list")
  require_eq(strip(repr(objects()[a])), strip(t), f"repr of an equal {a}")
  require_eq([np.asarray(v).tobytes() for v in jax.tree_util.tree_leaves(x) if hasattr(v, "dtype") and not isinstance(v, jax.ShapeDtypeStruct)], leaves, f"printing changed {a}")
  cov.trans(5)
  cov.state(case)


def gen_obj(tier):
  ns = names()
  if tier == "thorough":
    yield from itertools.product(ns, ns)
  else:
    for i, n in enumerate(ns):
      for j in (0, 1, 7, 13):
        yield n, ns[(i + j) % len(ns)]


# -- threads -----------------------------------------------------------------------------------------------------------------


_OBJ = {}


def tobj(name):
  if not _OBJ:
    e = CLS[0]()
    e.s = "mark_e"
    leaf = CLS[1]()
    leaf.e = e
    leaf.s = 1
    cyc = CLS[2]()
    cyc.me = cyc
    cyc.e = e
    cyc.l = [e, cyc]
    two = CLS[3]()
    two.a = leaf
    two.b = leaf
    bad = CLS[4]()
    bad.e = e
    bad.bad = Bad()
    _OBJ.update(empty=CLS[0](), one=e, leaf=leaf, cyc=cyc, two=two, bad=bad, state=nnx.State({"a": 1, "b": nnx.Param(2)}), var=nnx.Param(1, note="n"),
                **{"def": leaf.get_module_def(), "pytree": PT(1)})
  return _OBJ[name]


ALONE = {}


def printing(name):
  def f():
    try:
      return repr(tobj(name))
    except Boom:
      return "failed"
  return f


def twice(name):
  def f():
    return repr(tobj(name)) + "|" + repr(tobj(name))
  return f


def run_threads(case, cov):
  ns, bound, shard, n = case
  for x in ns:
    if x not in ALONE:
      ALONE[x] = printing(x)()

  def make():
    return [printing(x) for x in ns], None

  def check(results, _):
    for x, (status, r) in zip(ns, results):
      if status != "ok":
        raise Violation(f"threads printing {ns}: printing {x} raised {type(r).__name__}: {r}")
      require(r == ALONE[x], lambda: f"threads printing {ns}: {x} was printed as {r}, alone as {ALONE[x]}")
    for x in ns:
      require(printing(x)() == ALONE[x], lambda: f"after threads printed {ns}: {x} prints as {printing(x)()}")
  sched.explore(make, check, bound, shard=(shard, n), cov=cov)


def gen_threads(tier):
  full = tier == "thorough"
  for shard in range(8):
    for p in (("empty", "empty"), ("empty", "one"), ("var", "empty"), ("one", "one")):
      yield p, 2 if full or p == ("empty", "empty") else 1, shard, 8
    for p in itertools.combinations_with_replacement(("leaf", "cyc", "two", "bad", "state", "def", "pytree"), 2):
      yield p, 2 if full and not set(p) & {"two", "cyc"} else 1, shard, 8
    yield ("empty", "leaf", "bad"), 2 if full else 1, shard, 8


# -- nesting: lines of a value are indented below the line that opens it ---------------------------------------------------


class Lines:
  def __repr__(self):
    return "Lines<\none\n  two\n>"


MULTI = {"str": lambda: "x\ny\n\nz", "lines": Lines, "tuple": lambda: (np.ones((3, 2)),), "list": lambda: [np.arange(6).reshape(3, 2), Lines()],
         "array": lambda: np.eye(3), "jax": lambda: jnp.eye(2), "param": lambda: nnx.Param(np.eye(2)), "param lines": lambda: nnx.Param(Lines()),
         "static": lambda: nnx.Static(Lines()), "dict": lambda: {"k": Lines(), "m": nnx.Param(np.eye(2))}, "pytree": lambda: Pt(np.eye(2)),
         "state": lambda: nnx.State({"a": nnx.Param(np.eye(2)), "b/c": np.eye(2)}), "modules": lambda: [CLS[0](), (CLS[1](),)], "one": lambda: 1}
WRAPS = ("module", "pytree", "param", "static", "mixed")


class Pt(nnx.Pytree):
  def __init__(self, v):
    self.v = v


def wrap(how, depth, v):
  """depth objects around v, each of which has this one attribute only."""
  for i in range(depth):
    kind = how if how != "mixed" else ("module", "static", "pytree")[i % 3]
    if kind == "module" or (kind in ("static", "param") and i == depth - 1 and how != "static"):
      m = CLS[i]()
      m.sub = v
      v = m
    elif kind == "pytree":
      v = Pt(v)
    elif kind == "static":
      v = nnx.Static(v)
    else:
      v = nnx.Param(v)
  return v


def run_nest(case, cov):
  how, depth, value, outer = case
  cov.state(case)
  try:
    v = wrap(how, depth, MULTI[value]())
  except ValueError:  # a container of another kind
    cov.outcome("not a legal object")
    return
  if outer == "def":
    if not isinstance(v, nnx.Module):
      return
    v = v.partition()[1]
  for _ in range(2):
    text = repr(v)
    cov.trans()
    lines = text.split("\n")
    # other classes print more than one line per level: the first and last lines of the outermost object only
    levels = depth if outer == "none" and how == "module" else 1
    if len(lines) == 1:
      continue  # nothing to show
    for j in range(1, levels + 1):
      for k in range(j, len(lines) - j):
        line = lines[k]
        require(not line.strip() or line.startswith("  " * j), lambda: f"line {k} is not indented by {2 * j}:\n{text}")


def gen_nest(tier):
  return itertools.product(WRAPS, (1, 2, 3, 4), MULTI, ("none", "def"))


# -- mutable leaves whose attribute changed since they were taken ---------------------------------------------------------------

LEAF_OPS = {"nothing": lambda m: None, "pop": lambda m: m.pop_state(...), "delete": lambda m: delattr(m, "w"), "delete sub": lambda m: delattr(m, "s"),
            "static": lambda m: (delattr(m, "w"), setattr(m, "w", "text")), "module": lambda m: (delattr(m, "w"), setattr(m, "w", m)),
            "kind": lambda m: (delattr(m, "w"), setattr(m, "w", nnx.BatchStat(5))), "value": lambda m: setattr(m, "w", 7),
            "lines": lambda m: setattr(m, "w", Lines()), "replace sub": lambda m: setattr(m, "s", "text"), "cycle": lambda m: setattr(m.s, "up", m)}


class Lines:

  def __repr__(self):
    return "one\ntwo"


def run_leaf(case, cov):
  ops, when = case
  m = CLS[0]()
  m.w = nnx.Param(1)
  m.a = np.ones(2)
  m.s = CLS[1]()
  m.s.w = nnx.Param(2, note="n")
  leaves = m.mutable_state_dict()
  for i, op in enumerate(ops):
    if when == "each":
      repr(leaves)
    try:
      LEAF_OPS[op](m)
    except AttributeError:  # the attribute is gone already
      pass
    cov.trans()
  before = {k: dict(vars(x)) for k, x in (("m", m),)}
  for path, leaf in leaves.items():
    t = repr(leaf)
    require(isinstance(t, str) and repr(leaf) == t, f"{case}: two prints of the leaf at {path} differ")
    require(path.split("/")[-1] in t, f"{case}: the leaf does not show its name: {t}")
  require_eq(repr(leaves), repr(leaves), f"{case}: two prints of the mapping")
  require(all(vars(m).get(k) is v for k, v in before["m"].items()) and len(vars(m)) == len(before["m"]), f"{case}: printing changed the module")
  cov.state((case, tuple(sorted(vars(m)))))


def gen_leaf(tier):
  for n in (1, 2) if tier == "quick" else (1, 2, 3):
    for ops in itertools.product(LEAF_OPS, repeat=n):
      for when in ("end", "each"):
        yield ops, when


# -- names of attributes -------------------------------------------------------------------------------------------------------

ATTRS = ("a", "_a", "__a", "_", "__a__", "_1", "A", "a_", "_module", "__class", "repr", "type")


def run_names(case, cov):
  """A submodule is shown whatever its name is, so is what is inside it; static attributes with public names are shown."""
  names, shape = case
  cov.state(case)
  root = CLS[0]()
  mods = [CLS[1](), CLS[2]()]
  for i, m in enumerate(mods):
    m.s = f"mark_{i}_"
    m.w = nnx.Param(jnp.asarray(1))
  if shape == "two":
    setattr(root, names[0], mods[0])
    setattr(root, names[1], mods[1])
  elif shape == "chain":
    setattr(root, names[0], mods[0])
    setattr(mods[0], names[1], mods[1])
  elif shape == "shared":
    setattr(root, names[0], mods[0])
    setattr(root, names[1], mods[0])
    mods = mods[:1]
  elif shape == "cycle":
    setattr(root, names[0], mods[0])
    setattr(mods[0], names[1], root)
    mods = mods[:1]
  elif shape == "static":
    setattr(root, names[0], "mark_0_")
    setattr(root, names[1], mods[1])
    mods = mods[1:] if names[0].startswith("_") or names[0] == names[1] else [None] + mods[1:]
  objs = [root, root.clone(), nnx.Sequence([root]), root.get_module_def()]
  for o in objs:
    t = repr(o)
    require_eq(repr(o), t, f"second repr of {case}")
    cov.trans()
    for name in (names[0],) if shape in ("two", "shared") and names[0] == names[1] else names:
      if shape == "static" and name == names[0] and names[0].startswith("_") and o is not objs[3]:
        continue
      require(re.search(rf"(?<![A-Za-z0-9_]){re.escape(name)}(?![A-Za-z0-9_])", t), lambda: f"{case}: the name {name} is not shown in {t}")
    for m in mods:
      if m is None:
        require("mark_0_" in t, lambda: f"{case}: a static attribute is not shown in {t}")
      elif not (shape in ("two", "shared", "static") and names[0] == names[1] and m is not mods[-1]):
        require(type(m).__name__ in t and m.s in t, lambda: f"{case}: {type(m).__name__} is not shown in {t}")


def gen_names(tier):
  return itertools.product(itertools.product(ATTRS, repeat=2), ("two", "chain", "shared", "cycle", "static"))


SECTIONS = [Section("names", gen_names, run_names), Section("nesting", gen_nest, run_nest), Section("mutable leaves", gen_leaf, run_leaf), Section("graphs", gen_graph, run_graph), Section("failing prints", gen_fail, run_fail), Section("objects", gen_obj, run_obj),
            Section("threads", gen_threads, run_threads, timeout=800)]
