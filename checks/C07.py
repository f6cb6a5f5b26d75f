"""C07: apply, call and init equal the method call on a fresh copy, for any access path."""
import itertools

import jax
import nnx

from mc import heap
from mc.core import Section, expect_raises, require, require_eq

RULE = ("every chain of attribute/index accesses up to the bound over a fixed module graph, called through "
        "apply/call/init of Module, Pure and ModuleDef with every argument pattern, compared with the same "
        "chain written on a freshly built module; states = distinct (chain, route, arguments), transitions = calls")
ASSUMPTIONS = ["methods are deterministic Python functions of the module and their arguments"]
BOUNDS = {"quick": "all valid chains of length <= 4 over 6 attributes and 4 keys, 8 routes, 6 argument patterns "
                   "(all patterns on chains of length <= 2, one pattern on longer ones); 19 kinds of results by every route",
          "thorough": "all valid chains of length <= 6"}


class Err(Exception):
  pass


FORCE = []  # while non-empty, the reference run pretends to be initializing


def flag(m):
  return True if FORCE else m.is_initializing


class Part(nnx.Module):
  def __init__(self, tag):
    self.tag = tag
    self.n = nnx.BatchStat(0)
    self.w = nnx.Param(len(tag))

  def f(self, *args, **kwargs):
    self.n = self.n + 1
    self.log = (getattr(self, "log", ())) + ((args, tuple(sorted(kwargs))),)
    return ("f", self.tag, self.n, self.w, args, tuple(sorted(kwargs.items())), flag(self))

  def __call__(self, *args, **kwargs):
    return ("call", self.tag, self.f(*args, **kwargs))

  def fail(self, *args, **kwargs):
    self.n = 99
    raise Err(self.tag)

  def flags(self, *args, **kwargs):
    return tuple(m.is_initializing for m in heap.modules_of(self))

  def grow(self, *args, **kwargs):
    self.extra = nnx.Cache(5)
    self.w = self.w + 1
    return flag(self)


class Table(Part):
  def __init__(self, tag, items):
    super().__init__(tag)
    self.names = tuple(items)
    for k, v in items.items():
      setattr(self, f"item_{k}", v)

  def __getitem__(self, key):
    return getattr(self, f"item_{key}")


def build():
  """root with submodules, containers, sharing, a cycle and awkward attribute names."""
  leaf = Part("leaf")
  mid = Part("mid")
  mid.sub = leaf
  mid.accessor = Part("acc")
  tab = Table("tab", {0: leaf, "k": mid, (1, 2): Part("t12"), -1: Part("minus"), "accessesor": Part("xx")})
  root = Table("root", {0: mid, "k": tab})
  root.sub = mid
  root.d = nnx.Dict(a=leaf, b=tab)
  root.seq = nnx.Sequence([mid, leaf])
  mid.up = root
  root.module = Part("named module")
  root._proxy = Part("proxy")
  return root


TOKENS = (("attr", "sub"), ("attr", "up"), ("attr", "d"), ("attr", "seq"), ("attr", "accessor"), ("attr", "module"),
          ("attr", "_proxy"), ("key", 0), ("key", "k"), ("key", (1, 2)), ("key", "b"), ("key", 1), ("key", -1), ("key", "accessesor"))
METHODS = ("f", None, "grow")
ARGS = {
    "none": ((), {}),
    "pos": ((1, "x"), {}),
    "kw": ((), {"k": 2}),
    "mixed": ((1,), {"k": 2, "z": None}),
    "odd names": ((), {"accessesor": 1, "accessor": 2, "module": 3, "state": 4, "fn": 5}),
    "tuples": (((1, 2), [3]), {"args": (4,)}),
}


def access(x, chain):
  for kind, k in chain:
    x = getattr(x, k) if kind == "attr" else x[k]
  return x


def valid(chain):
  try:
    x = access(build(), chain)
  except (AttributeError, KeyError, IndexError, TypeError):
    return False
  return isinstance(x, nnx.Module)


def chains(depth):
  frontier = [()]
  yield ()
  for _ in range(depth):
    nxt = []
    for c in frontier:
      for t in TOKENS:
        if valid(c + (t,)):
          nxt.append(c + (t,))
          yield c + (t,)
    frontier = nxt


def target(obj, chain, method):
  x = access(obj, chain)
  return x if method is None else getattr(x, method)


def routes(root):
  pure = root.partition()
  multi = root.partition(nnx.Param, nnx.BatchStat, ...)
  state, moddef = pure
  return {
      "module.apply": (root.apply, "apply"),
      "pure.apply": (pure.apply, "apply"),
      "pure_multi.apply": (multi.apply, "apply"),
      "moduledef.apply": (moddef.apply(state), "apply"),
      "moduledef.apply multi": (moddef.apply(*multi.states), "apply"),
      "pure.call": (pure.call, "call"),
      "pure_multi.call": (multi.call, "call"),
      "module.init": (root.init, "init"),
  }


def run(case, cov):
  chain, method, argname = case
  args, kwargs = ARGS[argname]
  for route in ("module.apply", "pure.apply", "pure_multi.apply", "moduledef.apply", "moduledef.apply multi",
                "pure.call", "pure_multi.call", "module.init"):
    ref = build()
    obj = access(ref, chain)
    if not (callable(obj) if method is None else hasattr(obj, method)):
      return
    fn = target(ref, chain, method)
    if route == "module.init":
      FORCE.append(1)
    try:
      want = fn(*args, **kwargs)
    finally:
      FORCE.clear()
    root = build()
    before = heap.observe(root)
    ids = [id(m) for m in heap.modules_of(root)]
    proxy, kind = routes(root)[route]
    got = target(proxy, chain, method)(*args, **kwargs)
    cov.trans()
    cov.state((chain, method, argname, route))
    after = heap.observe(ref)
    if kind == "apply":
      got, new = got
      new_m = new.merge() if isinstance(new, nnx.Pure) else new
      require_eq(isinstance(new, nnx.Pure), route != "module.apply", f"{route} returns the updated copy")
      require_eq(heap.observe(new_m), after, f"{route} {chain} {method}: updated copy")
      require(not {id(m) for m in heap.modules_of(new_m)} & set(ids), f"{route}: copy shares modules with its input")
    require_eq(got, want, f"{route} {chain} {method}({argname}): result")
    if kind == "init":
      require_eq(heap.observe(root), after, f"{route} {chain}: init works on the module itself")
      require_eq([id(m) for m in heap.modules_of(root)], ids, "init keeps module identities")
    else:
      require_eq(heap.observe(root), before, f"{route} {chain} {method}: input changed")
      # the proxy can be used again with the same outcome
      again = target(proxy, chain, method)(*args, **kwargs)
      require_eq(again[0] if kind == "apply" else again, want, f"{route} {chain} {method}: second call")
    require(not any(m.is_initializing for m in heap.modules_of(root)), f"{route}: is_initializing left set")


def gen(tier):
  for c in chains(6 if tier == "thorough" else 4):
    for m in METHODS:
      for a in (ARGS if len(c) <= 2 and m != "grow" else ("none" if m == "grow" else "mixed",)):
        if m == "grow" and len(c) > 3:
          continue
        yield (c, m, a)


def run_init(case, cov):
  """is_initializing: set on every reachable module during init, cleared after, also on error."""
  chain, method = case
  root = build()
  proxy = access(root.init, chain)
  cov.state(case)
  cov.trans()
  sub = access(root, chain)
  if not isinstance(sub, Part):
    return
  if method == "flags":
    got = proxy.flags()
    require(all(got) and len(got) == len(heap.modules_of(sub)), f"flags during init: {got}")
    # from a submodule's init, its own reachable modules are initializing
    got = access(root, chain).init.flags()
    require(all(got), f"flags during init of a submodule: {got}")
  elif method == "outside":
    other = build()
    seen = []
    sub.probe = lambda: seen.append(tuple(m.is_initializing for m in heap.modules_of(other)))
    proxy.probe()
    require(not any(seen[0]), "init of one module marks an unrelated module")
  elif method == "fail":
    expect_raises(Err, lambda: proxy.fail(1, k=2), "init passes the exception on")
    require_eq(sub.n, 99, "changes made before the exception stay")
  elif method == "apply in init":
    sub.probe = lambda m=sub: m.is_initializing
    out, copy = proxy.apply.flags()
    require(all(out), "copies made while initializing are initializing")
  elif method == "fail apply":
    before = heap.observe(root)
    for r in ("module.apply", "pure.apply", "pure.call", "moduledef.apply"):
      expect_raises(Err, lambda: target(routes(root)[r][0], chain, "fail")(), f"{r} passes the exception on")
    require_eq(heap.observe(root), before, "failing functional call changed its input")
  require(not any(m.is_initializing for m in heap.modules_of(root)), f"is_initializing left set after {method}")
  require(not root.is_initializing and not sub.is_initializing, "is_initializing after init")


def gen_init(tier):
  for c in chains(2):
    for m in ("flags", "outside", "fail", "apply in init", "fail apply"):
      yield (c, m)


RESULTS = {
    "none": lambda m: None, "false": lambda m: False, "zero": lambda m: 0, "empty": lambda m: (), "not implemented": lambda m: NotImplemented,
    "ellipsis": lambda m: ..., "pair": lambda m: (1, None), "list": lambda m: m.lst, "type": lambda m: type(m), "function": lambda m: len,
    "state": lambda m: m.get_state(), "self": lambda m: m, "self in a tuple": lambda m: (m, 1), "child": lambda m: m.sub,
    "changed self": lambda m: (setattr(m, "w", 77), m)[1], "changed child": lambda m: (setattr(m.sub, "w", 78), m.sub)[1],
    "new module": lambda m: nnx.Dict(a=nnx.Param(1)), "exception": lambda m: ValueError, "empty state": lambda m: nnx.State({}),
}


class Teller(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(1)
    self.lst = [1]
    self.sub = Part("t")

  def tell(self, what):
    return RESULTS[what](self)

  def __call__(self, what):
    return RESULTS[what](self)


def seen(x):
  if isinstance(x, nnx.Module):
    return heap.observe(x)
  if isinstance(x, nnx.State):
    return ("state", {p: heap.enc(v) for p, v in x.items()})
  if isinstance(x, tuple):
    return tuple(seen(v) for v in x)
  return x


def run_results(case, cov):
  """Whatever a method returns comes back as it was returned, and shows the work of the call."""
  what, chain, method, route = case

  def new():
    m = Teller()
    return m if not chain else nnx.Dict(a=nnx.Sequence([m]), b=m)
  ref, root = new(), new()
  want = target(ref, chain, method)(what)
  proxy, kind = routes(root)[route]
  got = target(proxy, chain, method)(what)
  if kind == "apply":
    require(isinstance(got, tuple) and len(got) == 2, f"{case}: apply returned {got}")
    got, copy = got
    copy = copy.merge() if isinstance(copy, nnx.Pure) else copy
    require_eq(heap.observe(copy), heap.observe(ref), f"{case}: updated copy")
  require(type(got) is type(want), lambda: f"{case}: returned a {type(got)}")
  if kind == "init" and "self" in what:
    one = got[0] if isinstance(got, tuple) else got
    require(one is access(root, chain), f"{case}: init returned another module")
  if kind == "init" and isinstance(got, nnx.Module):
    require(not any(m.is_initializing for m in heap.modules_of(got)), f"{case}: the flag stays set")
  require_eq(seen(got), seen(want), f"{case}: result")
  cov.trans()
  cov.state(case)


def gen_results(tier):
  for what, (chain, method), route in itertools.product(
      RESULTS, (((), "tell"), ((), None), ((("attr", "a"), ("key", 0)), "tell"), ((("key", "b"),), "tell"), ((("key", "b"),), None)),
      ("module.apply", "pure.apply", "pure_multi.apply", "moduledef.apply", "moduledef.apply multi", "pure.call", "pure_multi.call", "module.init")):
    yield what, chain, method, route


SECTIONS = [Section("results", gen_results, run_results), Section("chains", gen, run), Section("init", gen_init, run_init)]
