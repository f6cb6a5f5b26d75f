"""C36: an attribute is state exactly when its value is of a registered node type."""
import abc
import copy
import itertools

from mc import sched  # before nnx

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import nnx
from flax import serialization

from mc.core import Section, Violation, require, require_eq

RULE = ("every history up to the depth bound of registering types (a type, its subclass, an abstract class, virtual subclasses, a tuple subclass, twice the same) and "
        "changing attributes of a module, of its submodule and of a pytree; after every step every operation that tells nodes from static values is compared with "
        "isinstance over the registered types; every interleaving of threads that register types and look at modules up to the preemption bound; states = (registered "
        "types, attributes), transitions = operations and scheduling points")
ASSUMPTIONS = ["registered types are new classes made by the check; types of the standard library are not registered",
               "code outside nnx runs atomically between scheduling points"]
BOUNDS = {"quick": "histories of 3 steps over 15 operations from 4 starting points; 2 threads with 2 preemptions and 3 threads with 1, 6 combinations; 58 kinds of values against the types registered from the start",
          "thorough": "histories of 4 steps; 3 preemptions for 2 threads, 2 for 3 threads"}


class Box:
  """A fresh family of types; instances compare by identity."""

  def __init__(self):
    class T0:
      def __init__(self, v=0):
        self.v = v

      def __repr__(self):
        return f"<{type(self).__name__}>"

    class T1(T0):
      pass

    class A(abc.ABC):
      pass

    class V:
      pass

    class W(tuple):
      pass

    class K(nnx.Static):
      pass
    self.types = {"T0": T0, "T1": T1, "A": A, "V": V, "W": W}
    self.make = {"T0": lambda: T0(), "T1": lambda: T1(), "V": lambda: V(), "W": lambda: W((1, 2)), "int": lambda: 5, "arr": lambda: jnp.asarray(1.5), "np": lambda: np.asarray([2]),
                 "var": lambda: nnx.Param(3), "static": lambda: nnx.Static(T0()), "var of T0": lambda: nnx.Cache(T0()), "list": lambda: [T0()], "state": lambda: nnx.State({"q": nnx.Param(1)}),
                 "none": lambda: None}
    self.registered = []
    self.virtual = False

  def is_node(self, v):
    return isinstance(v, tuple(self.registered)) or isinstance(v, (nnx.Node, nnx.TreeNode, jax.Array, np.ndarray, nnx.State, nnx.Pytree))


_base = []


def _reset():
  """The registry is not to grow over thousands of executions."""
  from nnx import nodes
  if hasattr(nodes, "node_types"):
    if not _base:
      _base.append(nodes.node_types)
    nodes.node_types = _base[0]


class M(nnx.Module):
  pass


class P(nnx.Pytree, mutable=True):
  def __init__(self, **kw):
    for k, v in kw.items():
      setattr(self, k, v)


OPS = ("reg T0", "reg T1", "reg A", "virtual", "reg W", "set x T0", "set x T1", "set x V", "set x W", "set x arr", "set x int", "set sub.y T0", "set sub.y T1", "set x var of T0",
       "set sub.y list", "set x static", "set sub.y var", "del x", "set x state", "set x none")
START = (("T0", "T1"), ("V", "W"), ("int", "T1"), ("arr", "static"))


def raw(o):
  return {k: v for k, v in vars(o).items() if not k.startswith(("_module__", "_pytree__"))}


def same(a, b):
  return a is b or (isinstance(a, nnx.Container) and isinstance(b, nnx.Container) and type(a) is type(b) and (a.value is b.value or a.value == b.value))


def check(box, m, p, cov, what):
  nodes, statics = {}, {}
  for prefix, o in (("", m), ("sub/", m.sub)):
    for k, v in raw(o).items():
      if isinstance(v, nnx.Module):
        continue
      require(nnx.is_node(v) is box.is_node(v), f"{what}: is_node({v!r}) is {nnx.is_node(v)}")
      (nodes if box.is_node(v) else statics)[prefix + k] = v
  order = sorted(nodes, key=lambda s: s.split("/"))
  cov.trans(10)
  state, md = m.partition()
  require_eq(list(state), order, f"{what}: partition")
  require(all(same(state[k], nodes[k]) for k in order), f"{what}: values of partition: {state}")
  require_eq(list(m.get_state()), order, f"{what}: get_state")
  require_eq(sorted(m.mutable_state_dict()), sorted(order), f"{what}: mutable state")

  def static_of(d, prefix):
    out = {prefix + k: v for k, v in d.static_fields}
    for k, s in d.submodules:
      out.update(static_of(s, prefix + k + "/"))
    return out
  for d in (md, m.get_module_def()):
    got = static_of(d, "")
    require_eq(set(got), set(statics), f"{what}: static fields of the definition")
    require(all(got[k] is statics[k] for k in got), f"{what}: values of static fields")
  for what2, back in (("merge", md.merge(state)), ("clone", m.clone())):
    for o, b in ((m, back), (m.sub, back.sub)):
      r, rb = raw(o), raw(b)
      require_eq(set(r), set(rb), f"{what}: attributes after {what2}")
      require(all(same(r[k], rb[k]) for k in r if not isinstance(r[k], nnx.Module)), f"{what}: values after {what2}")
  # filters by type and pop_state
  for name, t in box.types.items():
    want = [k for k in order if isinstance(nodes[k], t)]
    require_eq(list(m.filter(lambda path, v: isinstance(v, t))), want, f"{what}: filter {name}")
  c = m.clone()
  popped = c.pop_state(...)
  require_eq(list(popped), order, f"{what}: pop_state(...)")
  require_eq({k for k in raw(c)} | {"sub/" + k for k in raw(c.sub)}, set(statics) | {"sub"}, f"{what}: attributes after pop_state")
  c.update_state(popped)
  require_eq(list(c.get_state()), order, f"{what}: state after putting the popped entries back")
  # text: static attributes only
  text = repr(m)
  for k, v in statics.items():
    require(f"{k.split('/')[-1]}=" in text, f"{what}: static attribute {k} missing in the text")
  # the pytree
  r = raw(p)
  want = sorted(k for k, v in r.items() if box.is_node(v))
  kids = jtu.tree_flatten_with_path(p, is_leaf=lambda v: v is not p)[0]
  require_eq([kp[0].name for kp, _ in kids], want, f"{what}: children of the pytree")
  require(all(v is r[kp[0].name] for kp, v in kids), f"{what}: values of the children")
  leaves, td = jtu.tree_flatten(p, is_leaf=lambda v: v is not p)
  back = jtu.tree_unflatten(td, leaves)
  require_eq(set(raw(back)), set(r), f"{what}: pytree after unflattening")
  require(all(same(r[k], v) for k, v in raw(back).items()), f"{what}: values of the pytree after unflattening")
  require_eq(sorted(serialization.to_state_dict(p)), want, f"{what}: state dictionary of the pytree")


def apply(box, m, p, op):
  verb, *rest = op.split(" ", 2)
  if verb == "reg":
    nnx.register_node_type(box.types[rest[0]])
    box.registered.append(box.types[rest[0]])
  elif verb == "virtual":
    box.types["A"].register(box.types["V"])
  elif verb == "set":
    o, name = (m, rest[0]) if "." not in rest[0] else (m.sub, "y")
    v = box.make[rest[1]]()
    for t in (o, p):
      vars(t).pop(name, None)  # an attribute of its own, not the new value of a variable
      if t is p:
        vars(p)[name] = v
      else:
        setattr(t, name, v)
  elif "x" in vars(m):
    del m.x


def run(case, cov):
  start, hist = case
  _reset()
  box = Box()
  m = M()
  m.sub = M()
  a, b = (box.make[k]() for k in start)
  m.x, m.sub.y = a, b
  p = P(x=a, y=b, z=1)
  check(box, m, p, cov, "at the start")
  for i, op in enumerate(hist):
    apply(box, m, p, op)
    cov.trans()
    cov.state((start, hist[:i + 1]))
    check(box, m, p, cov, f"after {hist[:i + 1]}")


def gen(tier):
  for start in START:
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
      for hist in itertools.product(OPS, repeat=n):
        if hist[-1].startswith("del") or (n > 1 and not any(o.startswith(("reg", "virtual")) for o in hist)):
          continue
        yield (start, hist)


# -- taken before and after a registration ---------------------------------------------------------------------------------


def run_late(case, cov):
  """What was split before a registration merges to the same module, whose attribute is a node from then on."""
  how, kind, when = case
  cov.state(case)
  cov.trans()
  box = Box()
  v = box.make[kind]()
  m = M()
  m.x, m.k = v, 3
  m.sub = M()
  m.sub.w = nnx.Param(1)
  if when == "before":
    nnx.register_node_type(type(v))
  held = {"pure": lambda: m.partition(), "split": lambda: m.partition(nnx.Param, ...), "def": lambda: (m.get_state(), m.get_module_def()), "clone": lambda: m.clone(),
          "copy": lambda: copy.deepcopy(m)}[how]()
  nnx.register_node_type(type(v))
  for _ in range(2):
    nnx.register_node_type(type(v))  # again: no effect
  back = {"pure": lambda: held.merge(), "split": lambda: held.merge(), "def": lambda: held[1].merge(held[0]), "clone": lambda: held, "copy": lambda: held}[how]()
  require(type(back.x) is type(v) and (how == "copy" or back.x is v), f"{case}: value of x is {back.x}")
  require(back.k == 3 and back.sub.w == 1, f"{case}: other attributes")
  for mod in (m, back):
    require_eq(list(mod.get_state()), ["sub/w", "x"], f"{case}: state")
    require_eq(dict(mod.get_module_def().static_fields).keys(), {"k"}, f"{case}: static fields")
    new = box.make[kind]()
    mod.update_state(nnx.State({"x": new}))
    require(mod.x is new, f"{case}: update_state")


def gen_late(tier):
  return itertools.product(("pure", "split", "def", "clone", "copy"), ("T0", "T1", "V", "W"), ("before", "after"))


# -- concurrent registration ---------------------------------------------------------------------------------------------------


def run_conc(case, cov):
  names, bound, shard, n = case
  what = f"threads {names}"

  def make():
    _reset()
    box = Box()
    m = M()
    m.sub = M()
    m.x, m.w = box.make["T0"](), nnx.Param(1)
    m.sub.y = box.make["V"]()

    def reg(t):
      def f():
        nnx.register_node_type(box.types[t])
        # what a thread has registered it can use at once
        require(nnx.is_node(box.make[t]()), f"{what}: {t} is not a node right after its registration")
        return t
      return f

    def look():
      s = m.get_state()
      require(set(s) in ({"w"}, {"w", "x"}, {"w", "sub/y"}, {"w", "x", "sub/y"}), f"{what}: state {s}")
      return None

    table = {"T0": reg("T0"), "V": reg("V"), "W": reg("W"), "T1": reg("T1"), "look": look}
    return [table[x] for x in names], (box, m)

  def check_(results, ctx):
    box, m = ctx
    for name, (status, r) in zip(names, results):
      if status != "ok":
        raise r if isinstance(r, Violation) else Violation(f"{what}: {name} raised {type(r).__name__}: {r}")
    for name in set(names) - {"look"}:
      require(nnx.is_node(box.make[name]()), f"{what}: the registration of {name} was lost")
    require(not nnx.is_node(5) and nnx.is_node(jnp.ones(())) and nnx.is_node(nnx.Param(1)), f"{what}: other types")
    want = {"w"} | ({"x"} if "T0" in names else set()) | ({"sub/y"} if "V" in names else set())
    require_eq(set(m.get_state()), want, f"{what}: state afterwards")
  sched.explore(make, check_, bound, shard=(shard, n), cov=cov)
  cov.outcome("explored")


def gen_conc(tier):
  full = tier == "thorough"
  for names in (("T0", "V"), ("T0", "T0"), ("W", "T1"), ("T0", "look"), ("V", "look")):
    for shard in range(4):
      yield names, 3 if full else 2, shard, 4
  for names in (("T0", "V", "W"), ("T0", "V", "look")):
    for shard in range(4):
      yield names, 2 if full else 1, shard, 4


# ---- the types that are registered from the start

def _values():
  import collections
  f = np.float32
  key = jax.random.PRNGKey(0)
  out = {"np " + d: np.zeros(2, d) for d in ("bool", "int8", "uint64", "float16", "float64", "complex64", "S3", "U2", "datetime64[s]", "timedelta64[D]", "V4")}
  out.update({"np object": np.array([None, "x"], dtype=object), "np object scalar": np.array(None, dtype=object), "np structured": np.zeros(2, [("a", "i4"), ("b", "f4")]),
              "np empty": np.zeros((0, 3)), "np scalar array": np.array(1.5), "np view": np.arange(6)[::2], "np masked": np.ma.masked_array([1, 2], [0, 1]), "np rec": np.rec.array([(1, 2.0)]),
              "np matrix": np.asmatrix([[1]]), "np readonly": _readonly(), "np subclass": np.zeros(2).view(_Sub), "float0": np.zeros(2, jax.dtypes.float0),
              "jax bool": jnp.zeros(2, bool), "jax bf16": jnp.zeros((), jnp.bfloat16), "jax empty": jnp.zeros((0,)), "jax key": key, "jax typed key": jax.random.key(0) if hasattr(jax.random, "key") else key,
              "scalar f32": f(1), "scalar bool": np.bool_(True), "scalar str": np.str_("x"), "scalar datetime": np.datetime64("2020-01-01"),
              "struct": jax.ShapeDtypeStruct((2,), f), "dtype": np.dtype("i4"), "ufunc": np.add, "jit": jax.jit(len), "py list": [1], "py tuple": (jnp.zeros(1),), "py dict": {"a": jnp.zeros(1)},
              "named tuple": collections.namedtuple("N", "a")(jnp.zeros(1)), "deque": collections.deque([1]), "bytes": b"x", "complex": 1j, "range": range(3), "memoryview": memoryview(b"xy"),
              "context": nnx.context(0), "moduledef": M().get_module_def(), "ellipsis": ..., "function": len, "class": M, "state": nnx.State({"q": nnx.Param(1)}), "empty state": nnx.State({}),
              "pytree": P(a=1), "param": nnx.Param(np.array([None], dtype=object)), "node": nnx.Node("s"), "tree node": nnx.TreeNode([1]), "static": nnx.Static(jnp.zeros(1)),
              "cache none": nnx.Cache(None)})
  return out


class _Sub(np.ndarray):
  pass


def _readonly():
  a = np.arange(3)
  a.flags.writeable = False
  return a


VALUES = tuple(_values())


def run_builtin(case, cov):
  x, y = case
  _reset()
  box = Box()
  vals = _values()
  m = M()
  m.sub = M()
  vars(m)["x"] = m.x = vals[x]
  vars(m.sub)["y"] = m.sub.y = vals[y]
  p = P(x=vals[x], y=vals[y], z=1)
  cov.state(case)
  for what, v in ((x, vals[x]), (y, vals[y])):
    want = isinstance(v, (nnx.Node, nnx.TreeNode, jax.Array, np.ndarray, nnx.State, nnx.Pytree))
    require(nnx.is_node(v) is want, f"{what}: is_node is {nnx.is_node(v)}")
    require(nnx.is_node(_values()[what]) is want, f"{what}: is_node of another such value")
  check(box, m, p, cov, f"{case}")
  nnx.register_node_type(box.types["T0"])
  box.registered.append(box.types["T0"])
  check(box, m, p, cov, f"{case} after a registration")


def gen_builtin(tier):
  if tier == "thorough":
    yield from itertools.product(VALUES, VALUES)
  else:
    for i, v in enumerate(VALUES):
      yield v, v
      yield v, VALUES[(i + 7) % len(VALUES)]
      yield v, VALUES[(i + 20) % len(VALUES)]


SECTIONS = [Section("values", gen_builtin, run_builtin), Section("late", gen_late, run_late), Section("concurrent", gen_conc, run_conc, timeout=600), Section("histories", gen, run)]
