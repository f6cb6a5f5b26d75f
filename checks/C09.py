"""C09: sow records every value, in order, and refuses incompatible targets."""
import itertools

import jax
import jax.numpy as jnp
import nnx

from mc import heap
from mc.core import Section, expect_raises, require, require_eq

RULE = ("every history of sows, pops, updates and functional/transformed calls within the bounds, against a "
        "dictionary of lists; states = distinct model states, transitions = operations")
ASSUMPTIONS = ["histories sow under names that are not names of methods or class attributes (those are refused, see targets)"]
BOUNDS = {"quick": "histories of length <= 4 over 12 operations on a module with a shared submodule; length 3 with "
                   "jit/grad/scan-free transformed calls; all incompatible targets",
          "thorough": "histories of length 5; transformed histories of length 4"}


class Sub(nnx.Module):
  def rec(self, v):
    self.sow(nnx.Intermediate, "h", v)
    return v


class Net(nnx.Module):
  def __init__(self):
    self.sub = Sub()
    self.alias = self.sub
    self.w = nnx.Param(2.0)

  def rec(self, v):
    self.sow(nnx.Intermediate, "h", v)
    self.sub.sow(nnx.Cache, "k", v + 1)
    self.alias.sow(nnx.Cache, "k", v + 2)
    return v

  def loss(self, v):
    self.rec(v)
    return self.w * v


OPS = ("sow h", "sow g", "sub k", "alias k", "pop I", "pop C", "pop all sown", "rec", "apply", "call", "clone", "restore", "merge2")
TOPS = ("jit rec", "jit rec2", "pure jit", "grad", "sow h", "sub k", "pop I", "pop C", "jit pop", "remat")


@nnx.jit
def jit_rec(m, v):
  return m.rec(v)


@nnx.jit
def jit_rec2(m, v):
  m.rec(v)
  m.sub.rec(v + 5)
  return m.rec(v + 10)


@jax.jit
def pure_jit(p, v):
  out, p = p.apply.rec(v)
  return p


@jax.jit
def pure_jit_pop(p, v):
  m = p.merge()
  m.rec(v)
  out = m.pop_state(nnx.Intermediate)
  return out, m.partition()


grad_rec = nnx.grad(lambda m, v: m.loss(v))


@nnx.remat
def remat_rec(m, v):
  return m.rec(v)


def num(x):
  return heap.enc(tuple(float(i) for i in x))


def run(case, cov):
  m = Net()
  model = {}  # path -> (kind, list)
  held = []
  for step, op in enumerate(case):
    v = float(10 * (step + 1))

    def sow(path, kind, val):
      model.setdefault(path, (kind, []))[1].append(val)

    def rec(v):
      sow("h", "Intermediate", v)
      sow("alias/k", "Cache", v + 1)
      sow("alias/k", "Cache", v + 2)
    if op == "sow h":
      m.sow(nnx.Intermediate, "h", v)
      sow("h", "Intermediate", v)
    elif op == "sow g":
      m.sow(nnx.Cache, "g", v)
      sow("g", "Cache", v)
    elif op == "sub k":
      m.sub.sow(nnx.Cache, "k", v)
      sow("alias/k", "Cache", v)
    elif op == "alias k":
      m.alias.sow(nnx.Cache, "k", v)
      sow("alias/k", "Cache", v)
    elif op in ("pop I", "pop C", "pop all sown"):
      flt = {"pop I": nnx.Intermediate, "pop C": nnx.Cache, "pop all sown": (nnx.Intermediate, nnx.Cache)}[op]
      names = {"pop I": ("Intermediate",), "pop C": ("Cache",), "pop all sown": ("Intermediate", "Cache")}[op]
      out = m.pop_state(flt)
      exp = {p: l for p, (k, l) in model.items() if k in names}
      require_eq({p: num(x.value) for p, x in out.items()}, {p: num(l) for p, l in exp.items()}, f"popped after {case[:step]}")
      require(all(isinstance(x.value, tuple) for x in out.values()), "sown value is a tuple")
      for p in exp:
        del model[p]
      held = [out]
    elif op == "restore":
      if held and not any(p in model for p in held[0]):
        m.update_state(held[0])
        for p, x in held[0].items():
          model[p] = (type(x).__name__, [float(i) for i in x.value])
    elif op == "rec":
      m.rec(v)
      rec(v)
    elif op == "apply":
      out, m = m.apply.rec(v)
      rec(v)
    elif op == "call":
      m.partition().call.rec(v)
    elif op == "clone":
      c = m.clone()
      m.rec(-1.0)
      m = c
    elif op == "merge2":
      s, d = m.partition(nnx.Intermediate, ...)
      m = d.merge(*s[::-1])
    elif op == "jit rec":
      require_eq(float(jit_rec(m, v)), v, "jit result")
      rec(v)
    elif op == "jit rec2":
      jit_rec2(m, v)
      rec(v)
      sow("alias/h", "Intermediate", v + 5)
      rec(v + 10)
    elif op == "pure jit":
      m = pure_jit(m.partition(), v).merge()
      rec(v)
    elif op == "jit pop":
      out, p = pure_jit_pop(m.partition(), v)
      rec(v)
      exp = {p_: l for p_, (k, l) in model.items() if k == "Intermediate"}
      require_eq({p_: num(x.value) for p_, x in out.items()}, {p_: num(l) for p_, l in exp.items()}, "popped in jit")
      for p_ in exp:
        del model[p_]
      m = p.merge()
    elif op == "grad":
      g = grad_rec(m, v)
      require_eq([float(x.value) for x in g.values()], [v], "gradient")
      rec(v)
    elif op == "remat":
      remat_rec(m, v)
      rec(v)
    cov.trans()
    cov.state({p: (k, tuple(l)) for p, (k, l) in model.items()})
    got = {p: (type(x).__name__, num(x.value)) for p, x in m.get_state().items() if p != "w"}
    require_eq(got, {p: (k, num(l)) for p, (k, l) in model.items()}, f"after {case[:step + 1]}")
    require(all(isinstance(x.value, tuple) for p, x in m.get_state().items() if p != "w"), "sown value is a tuple")
    require(not any(isinstance(l, jax.core.Tracer) for l in jax.tree_util.tree_leaves(m.get_state())), "tracer left behind")


def gen(tier):
  ops = OPS[:10] if tier == "quick" else OPS
  for h in itertools.product(OPS, repeat=3):
    yield h
  for h in itertools.product(ops, repeat=4):
    yield h
  if tier == "thorough":
    for h in itertools.product(("sow h", "sub k", "alias k", "pop I", "pop C", "apply", "restore", "merge2"), repeat=5):
      yield h


def gen_t(tier):
  n = 4 if tier == "thorough" else 3
  for k in range(1, n):
    for h in itertools.product(TOPS, repeat=k):
      yield h
  for h in itertools.product(TOPS[:6] if tier == "quick" else TOPS, repeat=n):
    yield h


def with_class(m, **attrs):
  object.__setattr__(m, "__class__", type("SubT", (Sub,), attrs))


TARGETS = {
    "static": (lambda m: setattr(m, "t", 5), False),
    "static tuple": (lambda m: setattr(m, "t", (1, 2)), False),
    "static none": (lambda m: setattr(m, "t", None), False),
    "Static": (lambda m: setattr(m, "t", nnx.Static((1,))), False),
    "array": (lambda m: setattr(m, "t", jnp.zeros(2)), False),
    "module": (lambda m: setattr(m, "t", Sub()), False),
    "node": (lambda m: setattr(m, "t", nnx.Node((1,))), False),
    "treenode": (lambda m: setattr(m, "t", nnx.TreeNode((1,))), False),
    "pytree": (lambda m: setattr(m, "t", heap.PT(1, 2)), False),
    "other kind": (lambda m: setattr(m, "t", nnx.Cache((1,))), False),
    "subclass": (lambda m: setattr(m, "t", type("Sub2", (nnx.Intermediate,), {})((1,))), False),
    "base class": (lambda m: setattr(m, "t", nnx.Variable((1,))), False),
    "scalar": (lambda m: setattr(m, "t", nnx.Intermediate(3)), False),
    "list": (lambda m: setattr(m, "t", nnx.Intermediate([1])), False),
    "none value": (lambda m: setattr(m, "t", nnx.Intermediate(None)), False),
    "empty tuple": (lambda m: setattr(m, "t", nnx.Intermediate(())), True),
    "tuple": (lambda m: setattr(m, "t", nnx.Intermediate((1, 2))), True),
    "class attribute": (lambda m: with_class(m, t=(1,)), False),
    "class attribute none": (lambda m: with_class(m, t=None), False),
    "class variable": (lambda m: with_class(m, t=nnx.Intermediate((1,))), False),
    "method": (lambda m: with_class(m, t=lambda self: (1,)), False),
    "property": (lambda m: with_class(m, t=property(lambda self: (1,))), False),
    "inherited name": (lambda m: with_class(m, t=nnx.Module.clone), False),
}


VALUES = {"int": 9, "array": jnp.ones(2), "tuple": (1, 2), "none": None, "empty tuple": (), "1-tuple": (4,), "nested": ((1,), ()), "list": [1, 2],
          "empty list": [], "dict": {"a": 1}, "empty dict": {}, "zero": 0, "false": False, "string": "ab", "empty string": "",
          "empty array": jnp.zeros((0,)), "state": nnx.State({})}


def run_target(case, cov):
  name, value = case
  val = VALUES[value]
  put, ok = TARGETS[name]
  m = Sub()
  put(m)
  before = heap.observe(m)
  keys = list(vars(m))
  cov.state(case)
  cov.trans()
  if ok:
    old = m.t
    m.sow(nnx.Intermediate, "t", val)
    require_eq(heap.enc(m.t), heap.enc(old + (val,)), "sown value appended as one element")
    var = nnx.Intermediate(old, sharding=("a",), note=name)  # metadata stays with the variable
    m3 = Sub()
    m3.t = var
    for k in range(3):
      m3.sow(nnx.Intermediate, "t", val)
      require_eq(heap.enc(vars(m3)["t"]), heap.enc(var.replace(value=old + (val,) * (k + 1))), f"sow {k} into a variable with metadata")
  else:
    # a name of the class is refused one way or the other; instance attributes with a ValueError
    errs = (ValueError, KeyError, AttributeError, TypeError) if "t" in vars(type(m)) else ValueError
    expect_raises(errs, lambda: m.sow(nnx.Intermediate, "t", val), f"sow onto {name}")
    require_eq(heap.observe(m), before, f"failed sow onto {name} changed the module")
    require(list(vars(m)) == keys, f"failed sow onto {name} left {list(vars(m))}")
  m2 = Sub()
  m2.sow(nnx.Intermediate, "new", val)
  require_eq(heap.enc(m2.new), heap.enc((val,)), "first sow creates a 1-tuple")
  require(type(vars(m2)["new"]) is nnx.Intermediate, "kind of a sown variable")


SECTIONS = [Section("histories", gen, run), Section("transformed", gen_t, run),
            Section("targets", lambda t: itertools.product(TARGETS, VALUES), run_target)]
