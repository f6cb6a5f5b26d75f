"""C35: the initializing flag is set exactly during init; for_each visits every module once."""
import copy
import itertools

import jax
import jax.numpy as jnp
import nnx

from mc import heap
from mc.core import Section, expect_raises, require, require_eq

RULE = ("all programs up to the length bound over the actions: nested init on any module, a call that fails, catching it, attaching a "
        "new module, attaching a clone, moving and detaching modules, entering apply, jit, remat and grad; run inside init of every module of "
        "each base graph. The model keeps, per module, the set of running init calls that reached it when they began; the flags of all "
        "modules, attached or not, are compared after every action. for_each: every graph of the heap model x module type; states = "
        "(graph, program position, flags), transitions = actions")
ASSUMPTIONS = ["a module whose initialization is under way is not moved below a module whose nested init call began without it",
               "for_each's callback does not change the graph"]
BOUNDS = {"quick": "5 base graphs of <= 4 modules, programs of <= 2 actions, 3 for two of them; also under 6 other pairs of attribute names; for_each on graphs of <= 3 modules and deep chains; 26 argument names and all pairs of 8 through init along 5 chains",
          "thorough": "programs of <= 3 actions on all base graphs; for_each on graphs of <= 4 modules"}


class Boom(Exception):
  pass


class Stop(BaseException):
  """Like KeyboardInterrupt."""


class Unit(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(1.0)

  def step(self, fn):
    return fn(self)


class Leaf(Unit):
  pass


# the attributes a and b of the programs under other names
NAMES = {"plain": ("a", "b"), "private": ("_a", "_b"), "dunder": ("__a__", "b0"), "digits": ("1", "10"), "upper": ("a", "B"),
         "like fields": ("is_init", "_module"), "odd": ("a.b", "é")}
# base graphs: attribute a, b of every module
BASES = {
    "one": [{}],
    "chain": [{"a": 1}, {"a": 2}, {}],
    "tree": [{"a": 1, "b": 2}, {"a": 3}, {}, {}],
    "diamond": [{"a": 1, "b": 2}, {"a": 3}, {"b": 3}, {}],
    "cycle": [{"a": 1, "b": 2}, {"a": 2}, {"b": 0}],
}


def attr(k):
  return CURRENT["ab".index(k)]


def build(name):
  mods = [Leaf() if not refs else Unit() for refs in BASES[name]]
  for m, refs in zip(mods, BASES[name]):
    for k, j in refs.items():
      setattr(m, attr(k), mods[j])
  return mods


CURRENT = NAMES["plain"]


class Model:
  def __init__(self, refs, flags=None):
    self.refs = [dict(r) for r in refs]
    self.active = []  # the start sets of the running init calls
    self.stuck = set(i for i, f in enumerate(flags or ()) if f)  # copies of initializing modules

  def reach(self, i):
    seen, todo = [], [i]
    while todo:
      j = todo.pop()
      if j not in seen:
        seen.append(j)
        todo += [self.refs[j][k] for k in sorted(self.refs[j], reverse=True)]
    return seen

  def flag(self, i):
    return i in self.stuck or any(i in s for _, s in self.active)

  def flags(self):
    return [self.flag(i) for i in range(len(self.refs))]

  def begin(self, i):
    s = set(self.reach(i))
    self.active.append((i, s))
    # a module that was flagged before the call is flagged after it again
    return set(self.stuck & s)

  def end(self, kept):
    i, s = self.active.pop()
    self.stuck -= set(self.reach(i)) - s
    self.stuck |= kept

  def may_link(self, parent, child):
    """The documented domain: see ASSUMPTIONS."""
    sub = self.reach(child)
    for t, s in self.active:
      if parent in self.reach(t) and any(self.flag(j) and j not in s for j in sub):
        return False
    return True

  def copy_of(self, root):
    """The model of a functional copy: modules in depth-first attribute order."""
    order = self.reach(root)
    num = {m: k for k, m in enumerate(order)}
    return Model([{k: num[v] for k, v in self.refs[m].items()} for m in order], [self.flag(m) for m in order]), order


class Env:
  def __init__(self, mods, model, cov):
    self.mods, self.model, self.cov = mods, model, cov

  def check(self, what):
    want = self.model.flags()
    got = [m.is_initializing for m in self.mods]
    self.cov.trans()
    self.cov.state((tuple(map(lambda r: tuple(sorted(r.items())), self.model.refs)), tuple(want), len(self.model.active)))
    require_eq(got, want, f"{what}: initializing flags")

  def run(self, prog):
    for act in prog:
      self.do(act)
      self.check(act)

  def init(self, i, prog, fail=None):
    model = self.model
    kept = model.begin(i)
    ok = False
    try:
      def body(m):
        require(m is self.mods[i], "init runs on another module")
        self.check("start of init")
        self.run(prog)
        return 7
      if fail is None:
        require_eq(self.mods[i].init.step(body), 7, "init returns the result")
      elif fail == "name":
        expect_raises(AttributeError, lambda: self.mods[i].init.missing(), "missing method")
      elif fail == "args":
        expect_raises(TypeError, lambda: self.mods[i].init.step(), "missing argument")
      elif fail == "call":
        expect_raises(TypeError, lambda: self.mods[i].init.w(), "not callable")
    finally:
      model.end(kept)

  def do(self, act):
    kind, mods, model = act[0], self.mods, self.model
    if kind == "raise":
      raise (Boom if act[1] == "error" else Stop)()
    if kind == "try":
      try:
        self.run(act[1])
      except (Boom, Stop):
        pass
      return
    i = act[1]
    if max([i] + [x for x in act[2:] if isinstance(x, int)]) >= len(mods):
      return
    if kind == "init":
      self.init(i, act[2])
    elif kind == "bad":
      self.init(i, (), act[2])
    elif kind == "new":
      m = Unit()
      mods.append(m)
      model.refs.append({})
      setattr(mods[i], attr(act[2]), m)
      model.refs[i][act[2]] = len(mods) - 1
    elif kind == "clone":
      new = mods[act[2]].clone() if act[3] == "clone" else mods[act[2]].partition().merge() if act[3] == "merge" else copy.copy(mods[act[2]])
      sub, order = model.copy_of(act[2])
      base = len(mods)
      if act[3] == "copy":  # a shallow copy: its attributes are the originals
        mods.append(new)
        model.refs.append(dict(model.refs[act[2]]))
        if model.flag(act[2]):
          model.stuck.add(base)
        if not model.may_link(i, base):
          mods.pop(), model.refs.pop()
          model.stuck.discard(base)
          return
      else:
        mods += flat(new)
        model.refs += [{k: v + base for k, v in r.items()} for r in sub.refs]
        model.stuck |= {base + j for j in sub.stuck}
        require_eq([m.is_initializing for m in flat(new)], sub.flags(), f"{act}: flags of the copy")
      setattr(mods[i], attr("b"), new)
      model.refs[i]["b"] = base
    elif kind == "move":
      j = model.refs[i].get(act[2])
      if j is None or not model.may_link(act[3], j):
        return
      setattr(mods[act[3]], attr(act[4]), mods[j])
      model.refs[act[3]][act[4]] = j
    elif kind == "del":
      if act[2] in model.refs[i]:
        delattr(mods[i], attr(act[2]))
        del model.refs[i][act[2]]
    elif kind == "in":
      self.enter(i, act[2], act[3])
    else:
      raise AssertionError(kind)

  def enter(self, i, how, prog):
    """Runs a program on the copy which a functional call or transform works on."""
    sub, _ = self.model.copy_of(i)
    root = self.mods[i]
    boom = []

    def body(m):
      env = Env(flat(m), Model(sub.refs, sub.flags()), self.cov)
      env.check(f"{how}: start")
      try:
        env.run(prog)
      except (Boom, Stop):
        boom.append(1)
        raise
      return m.w * 1.0
    try:
      if how == "apply":
        _, pure = root.partition().apply.step(body)
      elif how == "jit":
        nnx.jit(body)(root)
      elif how == "remat":
        nnx.remat(body)(root)
      elif how == "grad":
        nnx.grad(body)(root)
    except (Boom, Stop):
      require(boom, "Boom from nowhere")
      raise


def flat(m):
  """The modules of a graph in the model's order."""
  seen, out = set(), []

  def go(x):
    if id(x) not in seen:
      seen.add(id(x))
      out.append(x)
      for k in ("a", "b"):
        v = vars(x).get(attr(k))
        if isinstance(v, nnx.Module):
          go(v)
  go(m)
  return out


def atoms(n, struct):
  for i in range(n + 1):
    for b in ("name", "args", "call"):
      if b == "name" or i == 0:
        yield ("bad", i, b)
  yield ("raise", "error")
  yield ("raise", "stop")
  if not struct:
    return
  for i in range(min(n, 3)):
    yield ("new", i, "b")
    for k in "ab":
      yield ("del", i, k)
  for i, src in ((0, 0), (0, 1), (1, 0), (1, 2)):
    for how in ("clone", "copy"):
      if i < n and src < n:
        yield ("clone", i, src, how)
  for i, k, j, l in ((0, "a", 0, "b"), (0, "a", 1, "b"), (0, "b", 1, "b"), (1, "a", 0, "b"), (1, "a", 2, "b")):
    if j < n and i < n:
      yield ("move", i, k, j, l)


def programs(n, size, struct=True, depth=0):
  """Programs with exactly `size` actions."""
  if size == 0:
    yield ()
    return
  for first in actions(n, size, struct, depth):
    used, act = first
    if act[0] == "raise" and used < size:
      continue
    for rest in programs(n, size - used, struct, depth):
      yield (act,) + rest


def actions(n, size, struct, depth):
  for a in atoms(n, struct):
    yield 1, a
  for used in range(1, size + 1):
    for body in programs(n, used - 1, struct, depth + 1):
      for i in range(min(n + 1, 4)):  # also modules which earlier actions added
        yield used, ("init", i, body)
      if body and ends(body):
        yield used, ("try", body)
    if depth and used > 1:
      continue
    for how in HOWS:
      # the structure of a module cannot change in a transform
      for body in programs(n, used - 1, struct and how == "apply", depth + 1):
        if how in ("apply", "jit") or used < 3:
          for i in range(n if how == "apply" and used < 3 else 1):
            yield used, ("in", i, how, body)


HOWS = ("apply", "jit", "remat", "grad")


def ends(prog):
  return prog[-1][0] == "raise" or (prog[-1][0] in ("init", "in") and prog[-1][-1] and ends(prog[-1][-1]))


def gen_prog(tier):
  for base in BASES:
    n = len(BASES[base])
    for size in range(4):
      if size == 3 and tier == "quick" and base not in ("one", "chain"):
        continue
      for prog in programs(n, size):
        for root in range(n) if size <= 1 else (0,):
          yield (base, root, prog, "plain")
          if size <= 1 or size == 2 and base == "chain":
            for names in NAMES:
              if names != "plain" and (size <= 1 or names in ("private", "upper")):
                yield (base, root, prog, names)


def run_prog(case, cov):
  global CURRENT
  base, root, prog, names = case
  CURRENT = NAMES[names]
  env = Env(build(base), Model(BASES[base]), cov)
  env.check("before")
  try:
    env.init(root, prog)
  except (Boom, Stop):
    pass
  env.check("after")
  # a second call starts from the same state of affairs
  env.init(root, ())
  env.check("after the second init")


# -- for_each ---------------------------------------------------------------------------------------------------------------------


def gen_each(tier):
  def options(i, name):
    out = [None, ("leaf", "P", i)]
    return out + [("ref", j) for j in range(n)]
  for n in (1, 2, 3):
    for h in heap.graphs(n, ("a", "b"), options):
      for kinds in itertools.product(("M", "M2", "MS"), repeat=n):
        yield heap.to_case(heap.Heap([(k, a) for k, (_, a) in zip(kinds, h.mods)]))
  for h in heap.chains(3, 2):
    yield heap.to_case(h)
  for h in heap.odd_names(heap.chains(2, 1)):
    yield heap.to_case(h)
  if tier == "thorough":
    n = 4
    for h in heap.graphs(n, ("a", "b"), lambda i, name: [None] + [("ref", j) for j in range(n)]):
      for kinds in itertools.product(("M", "M2"), repeat=n):
        yield heap.to_case(heap.Heap([(k, a) for k, (_, a) in zip(kinds, h.mods)]))


def run_each(case, cov):
  h = heap.from_case(case)
  mods = h.build()
  before = heap.observe(mods[0])
  for start in range(len(mods)):
    reach, _ = h.order(start)
    for name, t in (("Module", nnx.Module), ("M", heap.M), ("M2", heap.M2), ("MS", heap.MS), ("other", Leaf)):
      cov.state((case, start, name))
      cov.trans()
      seen = []
      require(mods[start].for_each(t, seen.append) is None, "for_each returned something")
      want = [i for i in reach if name in ("Module", h.mods[i][0]) or (name, h.mods[i][0]) == ("M", "MS")]
      got = [next((i for i, x in enumerate(mods) if x is m), -1) for m in seen]
      require_eq(sorted(got), sorted(want), f"for_each({name}) from {start}: visited")
      if want:
        calls = []

        def stop(m):
          calls.append(m)
          raise Boom()
        expect_raises(Boom, lambda: mods[start].for_each(t, stop), "exception of the callback")
        require_eq(len(calls), 1, "callbacks after an exception")
  require_eq(heap.observe(mods[0]), before, "for_each changed the graph")


# ---- the call itself: arguments and results pass unchanged

class Arg(nnx.Module):
  def __init__(self, name, sub=None):
    self.name, self.seen = name, []
    if sub is not None:
      self.sub, self.ls, self.d = sub, nnx.Sequence([sub]), nnx.Dict(k=sub)

  def f(self, *a, **k):
    self.seen.append((a, k, self.is_initializing))
    return k if k else a

  __call__ = f

  def raising(self, *a, **k):
    self.f(*a, **k)
    raise KeyError(k)


ARG_NAMES = ("accessor", "accessesor", "module", "fn", "f", "args", "kwargs", "ctx", "name", "state", "x", "init", "is_initializing", "obj", "key", "value", "type", "instance", "proxy", "callable",
             "_callable", "_accessor", "delayed_accessor", "module_state", "_", "m")
CHAINS = {"self": lambda m: m, "sub": lambda m: m.sub, "list": lambda m: m.ls[0], "dict": lambda m: m.d["k"], "deep": lambda m: m.sub.sub}


def run_args(case, cov):
  chain, names, npos, method, how = case
  cov.state(case)
  m = Arg("top", Arg("mid", Arg("leaf")))
  target = CHAINS[chain](m)
  k = {n: object() for n in names}
  a = tuple(object() for _ in range(npos))
  proxy = CHAINS[chain](m.init)
  call = proxy if method == "call" else getattr(proxy, method)
  for i in range(2 if how == "held" else 1):
    del target.seen[:]
    cov.trans()
    if method == "raising":
      expect_raises(KeyError, lambda: call(*a, **k), f"{case}: the error of the method")
    else:
      out = call(*a, **k)
      want = k if k else a
      require(type(out) is type(want) and (out == want), f"{case}: result {out!r}")
    require_eq(len(target.seen), 1, f"{case}: calls of the method")
    sa, sk, flag = target.seen[0]
    require(sa == a and sk == k and list(sk) == list(k), lambda: f"{case}: arrived with {sa} {sk}")
    require(flag is True, f"{case}: the flag during init")
    require(not any(x.is_initializing for x in (m, m.sub, m.sub.sub, m.d, m.ls)), f"{case}: the flags afterwards")


def gen_args(tier):
  for chain, method, how in itertools.product(CHAINS, ("f", "call", "raising"), ("once", "held")):
    for npos in (0, 1, 3):
      yield chain, (), npos, method, how
      for n in ARG_NAMES:
        yield chain, (n,), npos, method, how
    for pair in itertools.permutations(ARG_NAMES[:8], 2):
      yield chain, pair, 1, method, how


SECTIONS = [Section("arguments", gen_args, run_args), Section("programs", gen_prog, run_prog), Section("for_each", gen_each, run_each)]
