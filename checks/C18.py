"""C18: pytree objects flatten losslessly with exactly their nodes as children."""
import itertools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import nnx

from mc import heap
from mc.core import Section, Violation, require, require_eq

RULE = ("every assignment of value kinds (variables with and without metadata, nodes, arrays, nested pytrees, states, modules' "
        "pure forms, static values) to up to three names x every insertion order x class form (plain, mutable, subclass, "
        "dataclass, frozen dataclass); leaves, key paths, order and static part are compared with the assignment, and tree "
        "structures are compared pairwise with an independent signature; states = assignments, transitions = tree operations")
ASSUMPTIONS = ["static values that compare equal across types (1, 1.0, True) are not mixed",
               "attributes that are bare arrays are only mapped to arrays (whether an attribute is a node is decided by its value)"]
BOUNDS = {"quick": "2 names x 23 kinds in both orders, 3 names x 8 kinds in all orders, 5 class forms; all pairs of 2-name variants",
          "thorough": "3 names x 23 kinds in all orders"}

f32 = jnp.float32


class Inner(nnx.Pytree):
  def __init__(self, v):
    self.p = nnx.Param(v)
    self.q = "inner"


class Plain(nnx.Pytree):
  def __init__(self, items):
    for k, v in items:
      setattr(self, k, v)


class Mut(nnx.Pytree, mutable=True):
  def __init__(self, items):
    for k, v in items:
      setattr(self, k, v)


class Base(nnx.Pytree):
  def __init__(self, items):
    for k, v in items:
      setattr(self, k, v)


class Derived(Base):
  extra_class_attr = 3

  def __init__(self, items):
    super().__init__(items)
    self.zz = nnx.Param(f32(99))


FORMS = {"plain": Plain, "mutable": Mut, "derived": Derived}

# kind -> (builder(value), is node, expected leaf suffixes with values)
A = lambda v: f32(v)
KINDS = {
    "P": (lambda v: nnx.Param(A(v)), [(".value", 0)]),
    "Ps": (lambda v: nnx.Param(A(v), sharding=("a",)), [(".value", 0)]),
    "Pn": (lambda v: nnx.Param(A(v), note="n1"), [(".value", 0)]),
    "B": (lambda v: nnx.BatchStat(A(v)), [(".value", 0)]),
    "VA": (lambda v: heap.VarA(A(v)), [(".value", 0)]),
    "N": (lambda v: nnx.Node(A(v)), [(".value", 0)]),
    "TN": (lambda v: nnx.TreeNode(A(v)), [(".value", 0)]),
    "A": (lambda v: A(v), [("", 0)]),
    "NP": (lambda v: np.float32(v) * np.ones((1,), np.float32), [("", 0)]),
    "IN": (lambda v: Inner(A(v)), [(".p.value", 0)]),
    "P0": (lambda v: nnx.Param(None), []), "TN0": (lambda v: nnx.TreeNode({}), []),
    "TNd": (lambda v: nnx.TreeNode({"k": A(v), "l": [A(v + 0.5), None]}), [(".value['k']", 0), (".value['l'][0]", 0.5)]),
    "Pin": (lambda v: nnx.Param(Inner(A(v))), [(".value.p.value", 0)]),
    "ST": (lambda v: nnx.State({"x": A(v), "a/b": nnx.Param(A(v + 0.5))}), [("['a/b'].value", 0.5), ("['x']", 0)]),
    "s1": (lambda v: 1, None), "s2": (lambda v: 2, None), "str": (lambda v: "s", None), "None": (lambda v: None, None),
    "list": (lambda v: [1, "x"], None), "static": (lambda v: nnx.Static(5), None), "static6": (lambda v: nnx.Static(6), None),
    "fn": (lambda v: A, None),
}
SMALL = ("P", "Ps", "A", "IN", "TNd", "s1", "str", "static")


def sig_of(obj):
  if isinstance(obj, nnx.Pytree):
    return (type(obj).__qualname__, tuple((k, sig_of(v)) for k, v in sorted(vars(obj).items()) if not k.startswith("_pytree__")))
  if isinstance(obj, nnx.NodeBase if hasattr(nnx, "NodeBase") else (nnx.Node, nnx.TreeNode)):
    return (type(obj).__name__, tuple((k, repr(v)) for k, v in sorted(vars(obj).items()) if k != "value"), sig_of(obj.value))
  if isinstance(obj, nnx.State):
    return ("State", tuple((k, sig_of(v)) for k, v in obj.items()))
  if isinstance(obj, dict):
    return tuple((k, sig_of(v)) for k, v in sorted(obj.items()))
  if isinstance(obj, list) and any(isinstance(v, jax.Array) for v in obj):
    return ("list",) + tuple(sig_of(v) for v in obj)
  if isinstance(obj, (jax.Array, np.ndarray)):
    return "*"
  return ("static", heap.enc(obj))


def value_of(x):
  return float(np.asarray(x).ravel()[0])


def check_obj(obj, cls, assign, what, extra=()):
  """assign: {name: (kind, value)}; checks leaves, paths, order, statics, round trip."""
  want = []
  for name in sorted(assign):
    kind, v = assign[name]
    for suffix, dv in KINDS[kind][1] or ():
      want.append(("." + name + suffix, v + dv))
  want += list(extra)
  flat, td = jtu.tree_flatten_with_path(obj)
  got = [(jtu.keystr(p), value_of(v)) for p, v in flat]
  require_eq(got, want, f"{what}: leaves with paths")
  leaves, td1 = jtu.tree_flatten(obj)
  require_eq([value_of(l) for l in leaves], [v for _, v in want], f"{what}: leaves")
  require_eq([value_of(l) for l in jtu.tree_leaves(obj)], [v for _, v in want], f"{what}: tree_leaves")
  require(td == td1, f"{what}: structures with and without paths differ")
  # one level: exactly the node attributes, in name order
  kids = [n for n in sorted(assign) if KINDS[assign[n][0]][1] is not None] + (["zz"] if extra else [])
  top = jtu.tree_flatten(obj, is_leaf=lambda x: x is not obj)[0]
  require_eq([heap.enc(t) for t in top], [heap.enc(vars(obj)[n]) for n in kids], f"{what}: children")
  before = heap.enc(obj)
  back = jtu.tree_unflatten(td1, leaves)
  require(type(back) is cls and back is not obj, f"{what}: class after unflatten")
  require_eq(heap.enc(back), before, f"{what}: object after unflatten")
  require_eq(sig_of(back), sig_of(obj), f"{what}: signature after unflatten")
  require(jtu.tree_structure(back) == td1, f"{what}: structure after unflatten")
  doubled = jtu.tree_map(lambda x: x * 2 + 1, obj)
  require(type(doubled) is cls, f"{what}: class after tree_map")
  require_eq(sig_of(doubled), sig_of(obj), f"{what}: signature after tree_map")
  require_eq([value_of(x) for x in jtu.tree_leaves(doubled)], [v * 2 + 1 for _, v in want], f"{what}: mapped leaves")
  require_eq(heap.enc(obj), before, f"{what}: tree_map changed its input")
  # the children can be anything: jax itself unflattens with None, booleans and sentinels
  one_level = jtu.tree_structure(obj, is_leaf=lambda x: x is not obj)
  for mk in (lambda n: None, lambda n: (), lambda n: n, lambda n: object(), lambda n: {"k": [None]}):
    put = {n: mk(n) for n in kids}
    odd = jtu.tree_unflatten(one_level, [put[n] for n in kids])
    require(type(odd) is cls, f"{what}: class with other children")
    require(set(vars(odd)) == set(vars(back)), f"{what}: attributes {list(vars(odd))} after unflatten with other children")
    for n in kids:
      require(vars(odd)[n] is put[n], f"{what}: child {n} after unflatten is {vars(odd)[n]!r} instead of {put[n]!r}")
    for n in vars(back):
      require(n in kids or vars(odd)[n] is vars(back)[n] or vars(odd)[n] == vars(back)[n], f"{what}: static {n} after unflatten")
  for n, (kind, _) in assign.items():
    if KINDS[kind][1] is None:
      require(vars(back)[n] is vars(obj)[n] or vars(back)[n] == vars(obj)[n], f"{what}: static {n}")
  return doubled


def run(case, cov):
  form, items = case
  cls = FORMS[form]
  assign = {n: (k, float(i + 1)) for i, (n, k) in enumerate(items)}
  obj = cls([(n, KINDS[k][0](float(i + 1))) for i, (n, k) in enumerate(items)])
  extra = [(".zz.value", 99.0)] if form == "derived" else []
  d = check_obj(obj, cls, assign, str(case), extra)
  e = jtu.tree_map(lambda x: (x - 1) / 2, d)
  check_obj(e, cls, assign, f"{case} mapped twice", extra)
  other = cls([(n, KINDS[k][0](float(i + 5))) for i, (n, k) in reversed(list(enumerate(items)))])
  require(jtu.tree_structure(other) == jtu.tree_structure(obj), f"{case}: insertion order or values changed the structure")
  summed = jtu.tree_map(lambda a, b: a + b, obj, other)
  require_eq(sig_of(summed), sig_of(obj), "two-tree map")
  cov.state((form, sig_of(obj)))
  cov.trans(7)


def gen(tier):
  for form in FORMS:
    yield (form, ())
    for k in KINDS:
      for n in ("a", "_u", "Z9"):
        yield (form, ((n, k),))
    for k1, k2 in itertools.product(KINDS, KINDS):
      for names in (("a", "b"), ("b", "a")):
        yield (form, tuple(zip(names, (k1, k2))))
    if form == "plain" or tier == "thorough":
      ks = SMALL if tier == "quick" else KINDS
      for combo in itertools.product(ks, repeat=3):
        for names in itertools.permutations(("b", "_a", "C")):
          yield (form, tuple(zip(names, combo)))


# ---- pairs

def variants():
  out = []
  for form in FORMS:
    out.append((form, ()))
    for k in KINDS:
      out.append((form, (("a", k),)))
    out += [(form, (("a", k1), ("b", k2))) for k1 in KINDS for k2 in KINDS] if form != "derived" else []
  out += [("plain", (("b", k),)) for k in KINDS]
  return out


_built = []


def built():
  if not _built:
    for form, items in variants():
      o = FORMS[form]([(n, KINDS[k][0](1.0)) for n, k in items])
      _built.append((jtu.tree_structure(o), sig_of(o)))
  return _built


def run_pairs(i, cov):
  rows = built()
  ta, sa = rows[i]
  cov.state(sa)
  for j, (tb, sb) in enumerate(rows):
    cov.trans()
    if (ta == tb) != (sa == sb):
      raise Violation(f"structures of {variants()[i]} and {variants()[j]} compare {'equal' if ta == tb else 'different'}")


# ---- dataclasses, jit, generics

def make_dc(frozen, fields, inherit, mutable=False):
  """fields: [(name, how)]"""
  mk = {"node": lambda: nnx.node_field(), "param": lambda: nnx.param_field(), "var": lambda: nnx.var_field(nnx.BatchStat, sharding=("z",)),
        "static": lambda: nnx.static_field(), "plain": lambda: nnx.field()}

  def build(bases, fs, name):
    ns = {"__annotations__": {n: object for n, _ in fs}, **{n: mk[h]() for n, h in fs}}
    return nnx.dataclass(frozen=frozen)(type(nnx.Pytree)(name, bases, ns, **({"mutable": True} if mutable else {})))
  if inherit and len(fields) > 1:
    return build((build((nnx.Pytree,), fields[:1], "B0"),), fields[1:], "DC")
  return build((nnx.Pytree,), fields, "DC")


def run_dc(case, cov):
  frozen, hows, names, inherit, mutable = case
  cls = make_dc(frozen, list(zip(names, hows)), inherit, mutable)
  obj = cls(**{n: (f32(i + 1) if h in ("node", "param", "var") else ("st", i)) for i, (n, h) in enumerate(zip(names, hows))})
  want = [("." + n + ".value", float(names.index(n) + 1)) for n in sorted(names) if hows[names.index(n)] in ("node", "param", "var")]
  flat, td = jtu.tree_flatten_with_path(obj)
  require_eq([(jtu.keystr(p), value_of(v)) for p, v in flat], want, "leaves of a dataclass")
  kinds = {"node": "Node", "param": "Param", "var": "BatchStat", "static": "Static"}
  for back in (jtu.tree_unflatten(td, [v for _, v in flat]), jtu.tree_map(lambda x: x + 1, obj), jax.jit(lambda o: o)(obj)):
    require(type(back) is cls, "class")
    require_eq(sig_of(back), sig_of(obj), "signature of a dataclass after mapping")
    for n, h in zip(names, hows):
      if h in kinds:
        require_eq(type(vars(back)[n]).__name__, kinds[h], f"kind of {n}")
      if h == "var":
        require_eq(vars(back)[n].sharding, ("z",), "sharding")
      if h in ("static", "plain"):
        require_eq(getattr(back, n), ("st", names.index(n)), f"static {n}")
  cov.state((case, sig_of(obj)))
  cov.trans(4)


def gen_dc(tier):
  hs = ("node", "param", "var", "static", "plain")
  for frozen, inherit, mutable in itertools.product((False, True), (False, True), (False, True)):
    for n in (1, 2, 3):
      for hows in itertools.product(hs, repeat=n):
        for names in (("b", "a", "c")[:n],) if n == 3 else itertools.permutations(("a", "b")[:n]):
          yield (frozen, hows, tuple(names), inherit, mutable)


def run_jit(case, cov):
  """Leaves are traced, static values reach the function, results keep the class."""
  form, items = case
  cls = FORMS[form]
  obj = cls([(n, KINDS[k][0](float(i + 1))) for i, (n, k) in enumerate(items)])
  seen = []

  @jax.jit
  def f(o):
    seen.append(sig_of_traced(o))
    return jtu.tree_map(lambda x: x + 1, o)
  out = f(obj)
  want = [value_of(x) + 1 for x in jtu.tree_leaves(obj)]
  require_eq([value_of(x) for x in jtu.tree_leaves(out)], want, "jitted map")
  require_eq(sig_of(out), sig_of(obj), "signature after jit")
  f(jtu.tree_map(lambda x: x * 3, obj))
  require_eq(len(seen), 1, "a change of values retraced")
  for n, k in items:
    if KINDS[k][1] is None:
      require(dict(seen[0])[n] == heap.enc(vars(obj)[n]), "static value inside jit")
  s = jax.eval_shape(lambda o: o, obj)
  if not any(k in ("A", "NP") for _, k in items):
    require_eq(len(jtu.tree_leaves(s)), len(want), "eval_shape")
  cov.state((form, sig_of(obj)))
  cov.trans(3)


def sig_of_traced(o):
  return [(k, heap.enc(v)) for k, v in sorted(vars(o).items()) if not k.startswith("_pytree__")]


def gen_jit(tier):
  for form in FORMS:
    for k1, k2 in itertools.product(KINDS, SMALL):
      yield (form, (("b", k1), ("a", k2)))


SECTIONS = [Section("objects", gen, run), Section("pairs", lambda t: range(len(variants())), run_pairs),
            Section("dataclasses", gen_dc, run_dc), Section("jit", gen_jit, run_jit)]
