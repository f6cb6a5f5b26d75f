"""C19: immutable pytrees never change; replace makes a faithful changed copy."""
import copy
import dataclasses
import itertools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import nnx

from mc import heap
from mc.core import Section, Violation, require, require_eq

RULE = ("every operation sequence up to the depth bound over attribute assignments (plain, equal kind, other kind, other "
        "metadata, new fields, internal names), deletions, replace in all forms, tree maps (also raising ones), unflattening and "
        "copying, on the objects created so far, for seven class forms; all objects are compared with dictionaries after every "
        "operation; states = (form, contents of all objects), transitions = operations")
ASSUMPTIONS = ["all dataclass fields are init fields", "object.__setattr__ and vars() are not used to circumvent immutability"]
BOUNDS = {"quick": "sequences of length 2 over 30 operations on up to 3 objects, all forms; length 3 over 17 operations; "
                   "class chains of depth 3 x declared mutability x dataclass x mixins; replacements by values that compare equal (8 groups)",
          "thorough": "sequences of length 3 over 30 operations, length 4 over 17"}


class Inner(nnx.Pytree):
  def __init__(self, v):
    self.v = nnx.Node(v)
    self.w = "w"


def _init(self, p, t, s, st, inn, b):
  self.p = nnx.Param(p, sharding=("a",))
  self.t = nnx.TreeNode(t)
  self.s = s
  self.st = nnx.Static(st)
  self.inn = inn
  self.b = nnx.BatchStat(b, note="n1")


class Plain(nnx.Pytree):
  __init__ = _init


class Mut(nnx.Pytree, mutable=True):
  __init__ = _init


class Derived(Plain):
  pass


def _dc(frozen, mutable=False):
  ns = {"__annotations__": {n: object for n in ("p", "t", "s", "st", "inn", "b")},
        "p": nnx.var_field(nnx.Param, sharding=("a",)), "t": nnx.node_field(), "s": nnx.field(), "st": nnx.static_field(),
        "inn": nnx.field(), "b": nnx.var_field(nnx.BatchStat)}
  return nnx.dataclass(frozen=frozen)(type(nnx.Pytree)("DC", (nnx.Pytree,), ns, **({"mutable": True} if mutable else {})))


DC, DCF, DCM = _dc(False), _dc(True), _dc(False, True)
FORMS = {"plain": Plain, "mutable": Mut, "derived": Derived, "dc": DC, "dc frozen": DCF, "dc mutable": DCM}
IS_DC = {f: f.startswith("dc") for f in FORMS}
MUTABLE = {"mutable", "dc mutable"}


def build(form):
  return FORMS[form](p=1, t={"k": 2}, s=3, st=4, inn=Inner(5), b=6)


def model(form):
  note = () if IS_DC[form] else (("note", "n1"),)
  node = "Node" if IS_DC[form] else "TreeNode"
  return {"p": ["Param", (("sharding", ("a",)),), 1], "t": [node, (), {"k": 2}], "s": [None, (), 3], "st": ["Static", (), 4],
          "inn": [None, (), ("Inner", 5, "w")], "b": ["BatchStat", (("sharding", None),) + note, 6]}


def plain(v):
  if isinstance(v, Inner):
    return ("Inner", v.v, v.w)
  return v


def observe(o):
  out = {}
  for k, v in vars(o).items():
    if k.startswith("_pytree__"):
      continue
    if isinstance(v, nnx.Container):
      meta = tuple(sorted(((a, b) for a, b in vars(v).items() if a != "value"), key=lambda x: x[0] != "sharding"))
      out[k] = [type(v).__name__, meta, plain(v.value)]
    else:
      out[k] = [None, (), plain(v)]
    require(plain(getattr(o, k)) == out[k][2], f"reading {k} does not give its plain value")
  return out


class Stop(Exception):
  pass


def same_kind(f):
  """A container of exactly the kind and metadata of field b in that form."""
  return lambda v: nnx.BatchStat(v) if IS_DC[f] else nnx.BatchStat(v, note="n1")


SETS = {  # name -> (field, value builder(form), container kind or None, acceptable for that field)
    "p=": ("p", lambda f: 11, None, True), "t=": ("t", lambda f: {"z": 12}, None, True), "s=": ("s", lambda f: 13, None, True),
    "st=": ("st", lambda f: 14, None, True), "inn=": ("inn", lambda f: Inner(15), None, True), "b=": ("b", lambda f: 16, None, True),
    "p=Param": ("p", lambda f: nnx.Param(17, sharding=("a",)), "Param", True), "p=Param other": ("p", lambda f: nnx.Param(18), "Param", False),
    "p=BatchStat": ("p", lambda f: nnx.BatchStat(19), "BatchStat", False), "b=BatchStat": ("b", lambda f: same_kind(f)(20), "BatchStat", True),
    "st=Static": ("st", lambda f: nnx.Static(21), "Static", True), "st=Param": ("st", lambda f: nnx.Param(22), "Param", False),
    "t=Static": ("t", lambda f: nnx.Static(23), "Static", False),
    "s=Param": ("s", lambda f: nnx.Param(24, note="x"), "Param", True),
}
OTHER = ("new", "new private", "internal mutable", "internal init", "del p", "del s", "del missing", "replace()", "replace two",
         "replace unknown", "replace unknown and known", "map", "map raise", "unflatten", "copy", "pop vars")
SMALL = ("p=", "s=", "p=BatchStat", "b=BatchStat", "new", "internal mutable", "del p", "replace:p=", "replace:s=", "replace:p=BatchStat",
         "replace:s=Param", "replace two", "replace unknown", "map", "unflatten", "copy", "replace:inn=")
ALL = tuple(SETS) + tuple("replace:" + s for s in SETS) + OTHER[:-1]


def attempt(fn, errors, what):
  try:
    return fn()
  except errors:
    return Stop
  except Exception as e:
    raise Violation(f"{what}: raised {type(e).__name__} ({str(e)[:200]}) instead of {errors}")


def apply_set(m, field, val, kind):
  """Model of storing a value in a field: returns the new cell or None when it must be refused."""
  cell = list(m[field])
  raw = val.value if isinstance(val, nnx.Container) else val
  if cell[0] is None:
    if kind:
      meta = tuple(sorted(((a, b) for a, b in vars(val).items() if a != "value"), key=lambda x: x[0] != "sharding"))
      return [kind, meta, plain(raw)]
    return [None, (), plain(raw)]
  if kind:
    meta = tuple(sorted(((a, b) for a, b in vars(val).items() if a != "value"), key=lambda x: x[0] != "sharding"))
    if [kind, meta] != cell[:2]:
      return None
  return [cell[0], cell[1], plain(raw)]


def step(form, objs, models, i, op, what):
  o, m = objs[i], models[i]
  mut = form in MUTABLE
  if op in SETS:
    field, mk, kind, _ = SETS[op]
    val = mk(form)
    r = attempt(lambda: setattr(o, field, val), (AttributeError, ValueError) if mut else AttributeError, what)
    cell = apply_set(m, field, val, kind) if mut else None
    if cell is None:
      require(r is Stop, f"{what}: assignment accepted")
    else:
      require(r is not Stop, f"{what}: assignment refused")
      m[field] = cell
  elif op.startswith("replace:"):
    field, mk, kind, _ = SETS[op[8:]]
    val = mk(form)
    r = attempt(lambda: o.replace(**{field: val}), ValueError, what)
    cell = apply_set(m, field, val, kind)
    if cell is None:
      require(r is Stop, f"{what}: replace accepted another kind")
    else:
      require(r is not Stop, f"{what}: replace refused")
      add(form, objs, models, r, dict({k: list(v) for k, v in m.items()}, **{field: cell}), o, what)
  elif op == "replace()":
    add(form, objs, models, o.replace(), {k: list(v) for k, v in m.items()}, o, what)
  elif op == "replace two":
    new = {k: list(v) for k, v in m.items()}
    new["s"] = [new["s"][0], new["s"][1], 31]
    new["p"] = [new["p"][0], new["p"][1], 32]
    add(form, objs, models, o.replace(s=31, p=32), new, o, what)
  elif op == "replace unknown":
    require(attempt(lambda: o.replace(zzz=1), (ValueError, TypeError, AttributeError), what) is Stop, f"{what}: unknown field accepted")
  elif op == "replace unknown and known":
    require(attempt(lambda: o.replace(s=1, zzz=1), (ValueError, TypeError, AttributeError), what) is Stop, f"{what}: unknown field accepted")
  elif op == "new":
    require(attempt(lambda: setattr(o, "zzz", 1), AttributeError, what) is Stop, f"{what}: new field accepted")
  elif op == "new private":
    require(attempt(lambda: setattr(o, "_zzz", nnx.Param(1)), AttributeError, what) is Stop, f"{what}: new field accepted")
  elif op == "internal mutable":
    require(attempt(lambda: setattr(o, "_pytree__is_mutable", True), AttributeError, what) is Stop, f"{what}: accepted")
  elif op == "internal init":
    require(attempt(lambda: setattr(o, "_pytree__initializing", True), AttributeError, what) is Stop, f"{what}: accepted")
  elif op.startswith("del "):
    name = {"missing": "zzz"}.get(op[4:], op[4:])
    require(attempt(lambda: delattr(o, name), AttributeError, what) is Stop, f"{what}: deletion accepted")
  elif op == "map":
    new = {k: list(v) for k, v in m.items()}
    if any(isinstance(l, str) for l in jtu.tree_leaves(o)):
      return
    r = jtu.tree_map(lambda x: x + 100, o)
    for k, c in new.items():
      if c[0] in ("Param", "BatchStat", "Node", "TreeNode"):
        c[2] = jtu.tree_map(lambda x: x + 100, c[2]) if not isinstance(c[2], tuple) else ("Inner", c[2][1] + 100, c[2][2])
      elif k == "inn":
        c[2] = ("Inner", c[2][1] + 100, c[2][2])
    add(form, objs, models, r, new, o, what)
  elif op == "map raise":
    def bad(x):
      raise Stop()
    try:
      jtu.tree_map(bad, o)
    except Stop:
      pass
  elif op == "unflatten":
    l, td = jtu.tree_flatten(o)
    add(form, objs, models, jtu.tree_unflatten(td, l), {k: list(v) for k, v in m.items()}, o, what)
  elif op == "copy":
    add(form, objs, models, copy.copy(o), {k: list(v) for k, v in m.items()}, o, what)


def add(form, objs, models, new, m, src, what):
  require(new is not src, f"{what}: the same object was returned")
  require(type(new) is FORMS[form], f"{what}: class {type(new)}")
  objs.append(new)
  models.append(m)


def check_all(form, objs, models, what):
  for k, (o, m) in enumerate(zip(objs, models)):
    got = observe(o)
    if got != m:
      diff = {f: (got.get(f), m.get(f)) for f in set(got) | set(m) if got.get(f) != m.get(f)}
      raise Violation(f"{what}: object {k} is not as expected: {{field: (got, want)}} = {diff}")


def run(case, cov):
  form, depth, small, first = case
  ops = SMALL if small else ALL

  def go(hist):
    objs, models = [build(form)], [model(form)]
    for j, (i, op) in enumerate(hist):
      step(form, objs, models, i, op, f"{form} {hist[:j + 1]}")
    check_all(form, objs, models, f"{form} {hist}")
    cov.trans()
    cov.state((form, repr(models)))
    if len(hist) == depth:
      cov.count("histories")
      # the copies are as immutable as the original
      for o, m in zip(objs, models):
        what = f"{form} {hist} finally"
        if form in MUTABLE:
          o.p = 77
          m["p"] = [*m["p"][:2], 77]
        else:
          require(attempt(lambda: setattr(o, "p", 77), AttributeError, what) is Stop, f"{what}: object can be changed")
        require(attempt(lambda: setattr(o, "fresh", 1), AttributeError, what) is Stop, f"{what}: field added")
        check_all(form, objs, models, what)
      return
    for i in range(min(len(objs), 3)):
      for op in ops:
        go(hist + ((i, op),))
  go(((0, first),))


def gen(tier):
  for form in FORMS:
    for op in ALL:
      yield (form, 2 if tier == "quick" else 3, False, op)
    for op in SMALL:
      yield (form, 3 if tier == "quick" else 4, True, op)


# ---- initialization: the object is mutable in __init__ only, also when nested or failing

class Boom(Exception):
  pass


def run_init(case, cov):
  mutable, what = case
  cov.state(case)
  cov.trans()
  kw = dict(mutable=True) if mutable else {}
  leaked = []

  class P(nnx.Pytree, **kw):
    def __init__(self, inner=True):
      leaked.append(self)
      self.a = nnx.Param(1)
      self.a = 2
      if inner and what == "nested":
        child = P(inner=False)
        require(attempt(lambda: setattr(child, "zzz", 1), AttributeError, "child in init") is Stop, "a finished child is still initializing")
        self.child = child
      self.b = 3
      if what == "raise" and inner:
        raise Boom()
      if what == "delete":
        self.tmp = 1
        del self.tmp
      if what == "kind":
        require(attempt(lambda: setattr(self, "a", nnx.BatchStat(1)), ValueError, "other kind in init") is Stop, "other kind accepted in init")
      self.c = nnx.BatchStat(4)
  if what == "raise":
    try:
      P()
    except Boom:
      pass
    o = leaked[0]
    require(attempt(lambda: setattr(o, "zzz", 1), AttributeError, "after failed init") is Stop, "object of a failed init accepts new fields")
    if not mutable:
      require(attempt(lambda: setattr(o, "a", 1), AttributeError, "after failed init") is Stop, "object of a failed init can be changed")
    o2 = P(inner=False)
    require_eq(o2.c, 4, "later object")
    return
  o = P()
  require_eq([o.a, o.b, o.c], [2, 3, 4], "values")
  require(type(vars(o)["a"]).__name__ == "Param", "kind kept during init")
  require(not hasattr(o, "tmp"), "deleted during init")
  require(attempt(lambda: setattr(o, "zzz", 1), AttributeError, "new") is Stop, "new field accepted")
  r = attempt(lambda: setattr(o, "a", 5), AttributeError, "set")
  require((r is Stop) == (not mutable), "assignment after init")
  if what == "replace raise":
    other = o.replace(b=9)
    require(attempt(lambda: o.replace(a=nnx.BatchStat(1)), ValueError, "replace") is Stop, "bad replace accepted")
    for x in (o, other):
      r = attempt(lambda: setattr(x, "b", 5), AttributeError, "set")
      require((r is Stop) == (not mutable), "assignment after a failed replace")


# ---- inheritance: a class is mutable exactly when it was declared mutable itself

def run_inherit(case, cov):
  flags, dc, mix = case
  cov.state(case)

  def fill(self):
    self.a = nnx.Param(1)
    self.b = 2
  base = nnx.Pytree
  classes = []
  for i, f in enumerate(flags):
    ns = {"__annotations__": {"a": object, "b": object}, "a": nnx.var_field(nnx.Param, default=1), "b": nnx.field(default=2)} if dc else {}
    if not dc and i == 0:
      ns["__init__"] = fill
    kw = {} if f is None else {"mutable": f}
    bases = (base,)
    if mix == "plain mixin":
      bases = (type("Mixin", (), {}), base)
    elif mix == "pytree mixin" and i > 0:
      bases = (base, type(nnx.Pytree)("Other", (nnx.Pytree,), {}, mutable=not f))
    base = type(nnx.Pytree)(f"C{i}", bases, ns, **kw)
    if dc:
      base = nnx.dataclass(base)
    classes.append(base)
  for cls, f in zip(classes, flags):
    o = cls()
    for what, x, vals in (("object", o, (1, 2)), ("copy", copy.copy(o), (1, 2)), ("replace", o.replace(b=5), (1, 5)),
                          ("unflattened", jtu.tree_map(lambda v: v, o), (1, 2))):
      cov.trans()
      require_eq((x.a, x.b), vals, f"{what}: values")
      r = attempt(lambda: setattr(x, "b", 7), AttributeError, f"{what}: set b")
      r2 = attempt(lambda: setattr(x, "a", 8), AttributeError, f"{what}: set a")
      require((r is Stop) == (not f) and (r2 is Stop) == (not f), f"{what} of a class declared mutable={f} in {flags}: assignment {'refused' if f else 'accepted'}")
      require_eq((x.a, x.b), (8, 7) if f else vals, f"{what}: values after assignment")
      require(attempt(lambda: setattr(x, "zzz", 7), AttributeError, f"{what}: new") is Stop, f"{what}: new field accepted")
    require_eq((o.a, o.b), (8, 7) if f else (1, 2), "original")


def gen_inherit(tier):
  for n in (1, 2, 3):
    yield from itertools.product(itertools.product((None, False, True), repeat=n), (False, True), ("none", "plain mixin", "pytree mixin"))


# ---- values that compare equal

EQUALS = ((1, True, 1.0, jnp.int32(1), np.float32(1), np.array(1), 1 + 0j), (0, False, 0.0, -0.0, jnp.float32(0), np.int8(0)), ((1, 2), (1.0, 2.0), (True, 2)), ({"a": 1}, {"a": True}),
          ("x", "x".upper().lower()), (None, None), ([], []), ({1}, frozenset({1})))


def run_equal(case, cov):
  """replace and assignment store exactly the given object, also when it compares equal to the old one."""
  form, field, g, i, j, how = case
  cov.state(case)
  old, new = EQUALS[g][i], EQUALS[g][j]
  kw = dict(p=1, t={"k": 2}, s=3, st=4, inn=Inner(5), b=6)
  kw[field] = old
  o = FORMS[form](**kw)
  require(plain_of(o, field) is old, f"{case}: construction")
  cov.trans()
  if how == "replace":
    c = o.replace(**{field: new})
    require(plain_of(o, field) is old, f"{case}: replace changed the original")
  elif how == "replace with others":
    c = o.replace(**{field: new, **({"s": 99} if field != "s" else {"b": 98})})
  elif how == "replace container":
    c = o.replace(**{field: vars(o)[field].replace(value=new) if isinstance(vars(o)[field], nnx.Container) else new})
  else:
    if form not in MUTABLE:
      expect_immutable(o, field, new)
      require(plain_of(o, field) is old, f"{case}: assignment to an immutable object")
      return
    setattr(o, field, new)
    c = o
  got = plain_of(c, field)
  require(got is new, f"{case}: {got!r} ({type(got).__name__}) instead of {new!r} ({type(new).__name__})")
  require(type(vars(c)[field]) is type(vars(o)[field]), f"{case}: kind of the field") if isinstance(vars(o)[field], nnx.Container) else None


def plain_of(o, field):
  v = vars(o)[field]
  return v.value if isinstance(v, nnx.Container) else v


def expect_immutable(o, field, new):
  try:
    setattr(o, field, new)
  except AttributeError:
    return
  raise Violation(f"assignment to {field} of an immutable object was accepted")


def gen_equal(tier):
  for form, field, g in itertools.product(FORMS, ("p", "t", "s", "st", "b"), range(len(EQUALS))):
    for i, j in itertools.product(range(len(EQUALS[g])), repeat=2):
      for how in ("replace", "replace with others", "replace container", "assign"):
        yield form, field, g, i, j, how


SECTIONS = [Section("equal values", gen_equal, run_equal), Section("histories", gen, run), Section("inheritance", gen_inherit, run_inherit),
            Section("initialization", lambda t: itertools.product((False, True), ("plain", "nested", "raise", "delete", "kind", "replace raise")), run_init)]
