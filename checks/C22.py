"""C22: dataclass fields end up wrapped exactly as declared, however their value was supplied."""
import dataclasses
import itertools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import nnx

from mc.core import Section, Violation, require, require_eq

RULE = ("every class with up to the bound of fields, each field any combination of declared kind and way its value is supplied, in every class "
        "form and inheritance pattern, compared with a table of the declared kinds; states = programs, transitions = constructions")
ASSUMPTIONS = ["an equal kind means equal container class and equal metadata"]
BOUNDS = {"quick": "2 fields over 7 kinds x 9 supply modes, 5 forms, 4 inheritance patterns; 3 fields over 7 kinds and 6 supply patterns; 72 wrong-kind pairs; 10 shardings; 10 metadata mappings x 8 option sets; all 729 combinations of the decorator options x 3 bases",
          "thorough": "also 3 fields with all supply modes for the second and third field, and all value types"}


class Custom(nnx.Variable):
  pass


KINDS = {
    "plain": (lambda **k: nnx.field(**k), None, None),
    "node": (lambda **k: nnx.node_field(**k), nnx.Node, {}),
    "param": (lambda **k: nnx.param_field(**k), nnx.Param, {"sharding": None}),
    "stat": (lambda **k: nnx.var_field(nnx.BatchStat, **k), nnx.BatchStat, {"sharding": None}),
    "sharded": (lambda **k: nnx.var_field(nnx.Param, sharding=("a", None), **k), nnx.Param, {"sharding": ("a", None)}),
    "custom": (lambda **k: nnx.var_field(Custom, **k), Custom, {"sharding": None}),
    "static": (lambda **k: nnx.static_field(**k), nnx.Static, {}),
}
MODES = ("pos", "kw", "default", "factory", "equal", "equal factory", "override default", "noinit default", "noinit factory", "post")
INIT = ("pos", "kw", "equal", "override default")
NODEFAULT = ("pos", "kw", "equal")
FORMS = ("module", "frozen module", "pytree", "mutable pytree", "frozen pytree")
INH = ("none", "parent", "override", "subclass")
NODES = (nnx.Node, nnx.Param, nnx.BatchStat, nnx.Cache, Custom)


def container(kind, v):
  _, cls, meta = KINDS[kind]
  return v if cls is None else cls(v, **meta)


def decl(kind, mode, v, **kw):
  mk = KINDS[kind][0]
  if mode in ("default", "override default"):
    return mk(default=v if mode == "default" else -1, **kw)
  if mode == "factory":
    return mk(default_factory=lambda: v, **kw)
  if mode == "equal factory":
    return mk(default_factory=lambda: container(kind, v), **kw)
  if mode == "noinit default":
    return mk(default=v, init=False, **kw)
  if mode == "noinit factory":
    return mk(default_factory=lambda: v, init=False, **kw)
  if mode == "post":
    return mk(init=False, **kw)
  return mk(**kw)


def ns_of(fields):
  ns = {"__annotations__": {}}
  for name, kind, mode, v in fields:
    ns["__annotations__"][name] = object
    if not (kind == "plain" and mode in NODEFAULT):
      ns[name] = decl(kind, mode, v)
  post = [(n, v) for n, k, m, v in fields if m == "post"]
  if post:
    def __post_init__(self):
      for n, v in post:
        try:
          setattr(self, n, v)
        except dataclasses.FrozenInstanceError:
          object.__setattr__(self, n, v)
    ns["__post_init__"] = __post_init__
  return ns


BASE = {"module": nnx.Module, "frozen module": nnx.Module, "pytree": nnx.Pytree, "mutable pytree": nnx.Pytree, "frozen pytree": nnx.Pytree}


def mkclass(name, bases, ns, form):
  kw = {"mutable": True} if form == "mutable pytree" else {}
  return type(bases[0])(name, bases, ns, **kw)


def dc(form):
  return nnx.dataclass(frozen=True) if form.startswith("frozen") else nnx.dataclass


def make(fields, form, inh):
  """The class for the fields; None when dataclasses forbid it (required after defaulted arguments)."""
  base = BASE[form]
  init = [m for _, _, m, _ in fields if m in NODEFAULT or m in ("default", "factory", "equal factory", "override default")]
  seen = False
  for m in init:
    if m not in NODEFAULT:
      seen = True
    elif seen:
      return None
  if inh == "none":
    return dc(form)(mkclass("A", (base,), ns_of(fields), form))
  if inh == "subclass":
    A = dc(form)(mkclass("A", (base,), ns_of(fields), form))
    return mkclass("B", (A,), {"extra": lambda self: 1}, form)
  if inh == "parent":
    post = [f for f in fields if f[2] == "post"]
    A = dc(form)(mkclass("A", (base,), ns_of(fields[:1]), form))
    ns = ns_of(fields[1:])
    if post:
      ns["__post_init__"] = ns_of(fields)["__post_init__"]
    return dc(form)(mkclass("B", (A,), ns, form))
  if inh == "override":  # the parent declares the first field with another kind and default
    name, kind, mode, v = fields[0]
    other = "static" if kind != "static" else "param"
    pns = {"__annotations__": {name: object}, name: decl(other, "pos" if mode in NODEFAULT else "default", -7)}
    A = dc(form)(mkclass("A", (base,), pns, form))
    return dc(form)(mkclass("B", (A,), ns_of(fields), form))


def construct(cls, fields):
  args, kw = [], {}
  positional = True
  for name, kind, mode, v in fields:
    if mode in ("pos", "equal", "override default") and positional:
      args.append(container(kind, v) if mode == "equal" else v)
    elif mode in INIT:
      kw[name] = container(kind, v) if mode == "equal" else v
      positional = False
    elif mode in ("noinit default", "noinit factory", "post"):
      pass
    else:
      positional = False
  return cls(*args, **kw)


def same(a, b):
  if isinstance(a, (np.ndarray, jax.Array)) or isinstance(b, (np.ndarray, jax.Array)):
    return np.array_equal(np.asarray(a), np.asarray(b))
  return a is b or a == b


def expected(fields):
  out = {}
  for name, kind, mode, v in fields:
    _, cls, meta = KINDS[kind]
    if cls is None and isinstance(v, nnx.Container):
      out[name] = (type(v), {k: x for k, x in vars(v).items() if k != "value"}, v.value)
    else:
      out[name] = (cls, meta, v)
  return out


def is_state(cls, v):
  return cls in NODES or (cls is None and isinstance(v, (jax.Array, np.ndarray)))


def check(obj, fields, form, what):
  exp = expected(fields)
  have = {k for k in vars(obj) if not k.startswith(("_module__", "_pytree__"))}
  optional = {f[0] for f in fields if f[1] == "plain" and f[2] == "noinit default"}  # stays a class attribute
  require_eq(have | optional, set(exp) | optional, f"{what}: attributes")
  for name, (cls, meta, v) in exp.items():
    require(same(getattr(obj, name), v) and not isinstance(getattr(obj, name), nnx.Container), lambda: f"{what}: {name} reads {getattr(obj, name)}, want {v}")
    if name not in vars(obj):
      continue
    raw = vars(obj)[name]
    if cls is None:
      require(not isinstance(raw, nnx.Container), lambda: f"{what}: {name} is wrapped: {raw}")
    else:
      got = {k: x for k, x in vars(raw).items() if k != "value"} if isinstance(raw, nnx.Container) else None
      require(type(raw) is cls and got == meta and same(raw.value, v), lambda: f"{what}: {name} is {raw}, want {cls.__name__} {meta} {v}")
  want = {k for k, (cls, meta, v) in exp.items() if is_state(cls, v) and k in vars(obj)}
  if "module" in form:
    state, md = obj.partition()
    require_eq(set(state), want, f"{what}: state")
    for k in want:
      cls, meta, v = exp[k]
      e = state[k]
      if cls is None:
        require(same(e, v), lambda: f"{what}: state {k} is {e}")
      else:
        require(type(e) is cls and same(e.value, v) and all(getattr(e, a) == b for a, b in meta.items()), lambda: f"{what}: state {k} is {e}")
    st = dict(md.static_fields)
    require_eq(set(st), {k for k in exp if k in vars(obj)} - want, f"{what}: static fields")
    back = md.merge(state)
  else:
    leaves, td = jtu.tree_flatten(obj)
    paths = {str(p[0]).lstrip(".") for p, _ in jtu.tree_flatten_with_path(obj)[0]}
    require_eq(paths, {k for k in want if jtu.tree_leaves(exp[k][2])}, f"{what}: leaves")
    back = jtu.tree_unflatten(td, leaves)
    require(jtu.tree_structure(back) == td, f"{what}: structure")
  require(type(back) is type(obj), f"{what}: class after a round trip")
  for name, (cls, meta, v) in exp.items():
    require(same(getattr(back, name), v), lambda: f"{what}: {name} reads {getattr(back, name)} after a round trip")
    if name in vars(obj):
      raw = vars(back)[name]
      require(type(raw) is type(vars(obj)[name]), lambda: f"{what}: {name} is {raw} after a round trip")


VALUES = (1, 2, 3)


def run(case, cov):
  spec, form, inh, vals = case
  fields = []
  for i, (kind, mode) in enumerate(spec):
    v = mkval(vals[i], i)
    if mode in ("default", "noinit default") and isinstance(v, (np.ndarray, jax.Array, list, nnx.Container)):
      return
    fields.append(("xyz"[i], kind, mode, v))
  cls = make(fields, form, inh)
  if cls is None:
    cov.outcome("not a legal dataclass")
    return
  what = f"{form} {inh} {spec} {vals}"
  a = construct(cls, fields)
  check(a, fields, form, what)
  b = construct(cls, fields)
  check(b, fields, form, what + " (second instance)")
  for n, *_ in fields:  # instances do not share containers
    x, y = vars(a).get(n), vars(b).get(n)
    if isinstance(x, nnx.Container) and not (form == "frozen pytree" or form == "frozen module"):
      require(x is not y, f"{what}: two instances share the container of {n}")
  if form == "module" and fields:
    for n, kind, mode, v in fields:  # assignment keeps the declared kind
      if isinstance(v, int) and n in vars(a):
        setattr(a, n, 99)
        cls_ = KINDS[kind][1]
        require(a.__dict__[n] == 99 if cls_ is None else type(vars(a)[n]) is cls_ and vars(a)[n].value == 99, f"{what}: kind after assignment to {n}")
    check(b, fields, form, what + " (other instance changed)")
  cov.trans(2)
  cov.state(case)


def mkval(kind, i):
  if kind == "int":
    return 10 + i
  if kind == "none":
    return None
  if kind == "arr":
    return np.asarray([10 + i, 5])
  if kind == "jarr":
    return jnp.asarray([10 + i, 5])
  if kind == "list":
    return [10 + i, {"k": 3}]
  if kind == "str":
    return "s%d" % i
  if kind == "cont":
    return nnx.Cache(10 + i, sharding=("q",), note=1)
  raise AssertionError(kind)


def gen(tier):
  full = tier == "thorough"
  opts = list(itertools.product(KINDS, MODES))
  for form in FORMS:
    for inh in INH:
      for o in opts:
        yield (o,), form, inh, ("int",)
  for form in FORMS:
    for inh in (INH if full else ("none", "parent") if form != "module" else INH):
      for a, b in itertools.product(opts, opts):
        yield (a, b), form, inh, ("int", "int")
  pats = (("pos", "pos", "pos"), ("pos", "kw", "default"), ("equal", "factory", "default"), ("kw", "equal", "post"), ("factory", "noinit default", "override default"),
          ("default", "default", "equal factory"))
  for form in FORMS:
    for ks in itertools.product(KINDS, repeat=3):
      for p in pats:
        yield tuple(zip(ks, p)), form, "parent" if p[0] == "pos" else "none", ("int", "int", "int")
  vals = ("none", "arr", "jarr", "list", "str", "cont")
  for form in FORMS:
    for kind, mode, v in itertools.product(KINDS, MODES, vals):
      if v == "cont" and (kind != "plain" or mode == "equal"):
        continue
      if v == "list" and kind == "plain":
        continue
      yield ((kind, mode),), form, "none", (v,)
      yield (("param", "pos"), (kind, mode)), form, "parent", ("int", v)
  if full:
    for form in ("module", "pytree", "frozen pytree"):
      for k1, b, c in itertools.product(("plain", "sharded", "static"), opts, opts):
        yield ((k1, "pos"), b, c), form, "none", ("int", "int", "int")


# -- containers of another kind --------------------------------------------------------------------------------------

GIVEN = {"Node": lambda v: nnx.Node(v), "Param": lambda v: nnx.Param(v), "BatchStat": lambda v: nnx.BatchStat(v), "Static": lambda v: nnx.Static(v),
         "Param sharded": lambda v: nnx.Param(v, sharding=("a", None)), "Param note": lambda v: nnx.Param(v, note=1),
         "Custom": lambda v: Custom(v), "Variable": lambda v: nnx.Variable(v), "Node meta": lambda v: nnx.Node(v, note=1)}


def run_wrong(case, cov):
  form, kind, given, how, extra = case
  mk, cls, meta = KINDS[kind]
  g = GIVEN[given]
  v = g(5)
  ns = {"__annotations__": {}}
  if extra == "before":
    ns["__annotations__"]["w"] = object
  ns["__annotations__"]["x"] = object
  ns["x"] = {"pos": lambda: mk(), "kw": lambda: mk(default=1), "factory": lambda: mk(default_factory=lambda: g(5)), "post": lambda: mk(init=False)}[how]()
  if how == "post":
    ns["__post_init__"] = lambda self: object.__setattr__(self, "x", g(5))
  A = dc(form)(mkclass("A", (BASE[form],), ns, form))
  args = [1] if extra == "before" else []
  kw = {}
  if how == "pos":
    args.append(v)
  elif how == "kw":
    kw["x"] = v
  what = f"{form}: {given} given for a {kind} field by {how}"
  got_meta = {k: x for k, x in vars(v).items() if k != "value"}
  ok = cls is None or (type(v) is cls and got_meta == meta)
  cov.trans()
  cov.state(case)
  try:
    obj = A(*args, **kw)
  except ValueError:
    require(not ok, f"{what}: refused")
    cov.outcome("refused")
    return
  require(ok, f"{what}: accepted as {vars(A)}")
  cov.outcome("accepted")
  raw = vars(obj)["x"]
  require(type(raw) is type(v) and {k: x for k, x in vars(raw).items() if k != "value"} == got_meta and raw.value == 5 and obj.x == 5,
          f"{what}: became {raw}")


def gen_wrong(tier):
  yield from itertools.product(FORMS, KINDS, GIVEN, ("pos", "kw", "factory", "post"), ("none", "before"))


# -- field functions -----------------------------------------------------------------------------------------------------

OPTS = ("repr", "compare", "hash", "metadata")


def run_opts(case, cov):
  form, kind, opt = case
  mk = KINDS[kind][0]
  what = f"{form} {kind} field with {opt}"
  cov.trans()
  cov.state(case)
  if opt == "reserved metadata":
    if kind == "plain":
      return
    try:
      mk(metadata={"nnx_container_fn": lambda v: v})
    except ValueError:
      return
    raise Violation(f"{what}: accepted")
  kw = {"metadata": {"metadata": {"doc": "d"}}, "repr": {"repr": False}, "compare": {"compare": False}, "hash": {"hash": True}, "all": {
      "metadata": {"doc": "d"}, "repr": False, "compare": False, "hash": False}, "none": {}}[opt]
  user = kw.get("metadata")
  A = dc(form)(mkclass("A", (BASE[form],), {"__annotations__": {"x": object, "y": object}, "x": mk(**kw), "y": nnx.field(default=1, **kw)}, form))
  if user is not None:
    require(user == {"doc": "d"}, f"{what}: the given metadata was modified")
  for f in dataclasses.fields(A):
    require(f.repr is kw.get("repr", True) and f.compare is kw.get("compare", True) and f.hash is kw.get("hash"), f"{what}: options of {f.name}")
    for k, v in (user or {}).items():
      require(f.metadata.get(k) == v, f"{what}: metadata of {f.name}")
  a = A(5)
  check(a, [("x", kind, "pos", 5), ("y", "plain", "pos", 1)], form, what)


def gen_opts(tier):
  yield from itertools.product(FORMS, KINDS, ("none", "repr", "compare", "hash", "metadata", "all", "reserved metadata"))


# -- the caller's own metadata and the other options of a field -----------------------------------------------------------

METAS = ({}, {"sharding": ("m",)}, {"sharding": None}, {"value": 3}, {"note": "n"}, {"name": "q", "mesh": 1}, {"init": False, "default": 9},
         {"variable_type": nnx.Cache}, {"copy_from": 1, "sharding": "m", 5: 6}, None)


def run_meta(case, cov):
  form, kind, mi, opts, inh = case
  cov.state((form, kind, mi, opts, inh))
  cov.trans()
  meta = METAS[mi]
  given = None if meta is None else dict(meta)
  mk, cls, want = KINDS[kind]
  kw = dict(opts)
  what = f"{form}: {kind} field with metadata {meta} and options {kw}"
  ns = {"__annotations__": {"x": object, "y": object}, "x": mk(metadata=given, **kw), "y": mk(default=7)}
  if not kw.get("init", True):
    ns["__post_init__"] = lambda self: object.__setattr__(self, "x", container(kind, 5)) if form.startswith("frozen") else setattr(self, "x", 5)
  require(given == meta, f"{what}: the mapping of the caller was changed to {given}")
  A = dc(form)(mkclass("A", (BASE[form],), ns, form))
  if inh:
    A = dc(form)(mkclass("B", (A,), {"__annotations__": {"z": object}, "z": nnx.static_field(default=1)}, form))
  require(given == meta, f"{what}: the mapping of the caller was changed to {given}")
  f = {f.name: f for f in dataclasses.fields(A)}["x"]
  for k, v in (meta or {}).items():
    require(k in f.metadata and f.metadata[k] is v, f"{what}: {k} is missing in the metadata of the field")
  plain = dataclasses.field(**kw)
  for k in ("init", "repr", "hash", "compare"):
    require_eq(getattr(f, k), getattr(plain, k), f"{what}: option {k} of the field")
  o = A() if not kw.get("init", True) else A(x=5)
  for name, v in (("x", 5), ("y", 7)):
    raw = vars(o)[name]
    if cls is None:
      require(raw == v and not isinstance(raw, nnx.Container), f"{what}: {name} is {raw}")
    else:
      got = {k: x for k, x in vars(raw).items() if k != "value"}
      require(type(raw) is cls and got == want and raw.value == v, f"{what}: {name} is {raw}")


def gen_meta(tier):
  optsets = [()] + [((k, v),) for k, v in (("repr", False), ("hash", True), ("hash", False), ("compare", False), ("init", False))]
  optsets += [(("repr", False), ("compare", False)), (("hash", True), ("compare", True), ("repr", True), ("init", True))]
  return itertools.product(FORMS, KINDS, range(len(METAS)), optsets, (False, True))


# -- the sharding of a field ----------------------------------------------------------------------------------------------

SHARDINGS = {"empty": (), "one": ("a",), "unnamed": (None,), "both": (None, "a"), "none": None, "nested": (("a", "b"), None), "list": [], "string": "a",
             "empty string": "", "many": tuple("abcdef")}


def run_sharding(case, cov):
  form, sh, base, how = case
  v = SHARDINGS[sh]
  cls = {"Param": nnx.Param, "BatchStat": nnx.BatchStat, "Custom": Custom}[base]
  kw = {"kw": {}, "default": {"default": 5}, "factory": {"default_factory": lambda: 5}}[how]
  mk = lambda **k: nnx.var_field(cls, **k)
  ns = {"__annotations__": {"x": object, "y": object}, "x": mk(sharding=v, **kw), "y": nnx.field(default=0)}
  A = dc(form)(mkclass("A", (BASE[form],), ns, form))
  cov.state(case)
  for k in range(2):
    o = A(x=5) if how == "kw" else A()
    raw = vars(o)["x"]
    require(type(raw) is cls and raw.value == 5, f"{case}: {raw}")
    require_eq({k: x for k, x in vars(raw).items() if k != "value"}, {"sharding": v}, f"{case}: metadata of the field")
    require(raw.sharding is v or type(raw.sharding) is type(v), f"{case}: sharding became {raw.sharding!r}")
    cov.trans()
  if how == "kw" and form != "module":
    A(x=cls(7, sharding=v))  # the same kind with the same metadata is taken
    try:
      A(x=cls(7, sharding=("zz",)))
    except ValueError:
      pass
    else:
      raise Violation(f"{case}: a container with another sharding is accepted")


def gen_sharding(tier):
  for form, sh, how in itertools.product(FORMS, SHARDINGS, ("kw", "default", "factory")):
    for base in ("Param", "BatchStat", "Custom"):
      yield form, sh, base, how


# ---- the options of the decorator

FLAGS = ("init", "repr", "eq", "order", "unsafe_hash", "frozen")


def run_flags(case, cov):
  """nnx.dataclass with any options has what dataclasses.dataclass gives a plain class with these options."""
  base, flags, how = case
  cov.state(case)
  cov.trans()
  kw = {k: v for k, v in zip(FLAGS, flags) if v is not None}
  B = {"module": nnx.Module, "pytree": nnx.Pytree, "mutable": nnx.Pytree}[base]
  ns = {"__annotations__": {"x": int, "y": int}, "y": nnx.static_field(default=2), "x": nnx.static_field()}
  A = mkclass("A", (B,), dict(ns), "mutable pytree" if base == "mutable" else base)
  P = type("A", (), {"__annotations__": {"x": int, "y": int}, "y": 2})
  try:
    P = dataclasses.dataclass(**kw)(P)
  except (TypeError, ValueError) as e:
    try:
      nnx.dataclass(**kw)(A)
    except type(e):
      return
    raise Violation(f"{case}: accepted, dataclasses raises {e}")
  A = nnx.dataclass(A, **kw) if how == "direct" else nnx.dataclass(**kw)(A)
  pa, pp = A.__dataclass_params__, P.__dataclass_params__
  for k in FLAGS:
    require_eq(getattr(pa, k), getattr(pp, k), f"{case}: option {k}")
  for k in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__repr__", "__match_args__", "__hash__"):
    if k in vars(P):
      require(k in vars(A) and (vars(A)[k] is None) == (vars(P)[k] is None), f"{case}: {k} of the class")
  require_eq([f.name for f in dataclasses.fields(A)], ["x", "y"], f"{case}: fields")
  if not kw.get("init", True):
    return
  mk = lambda *v: A(*v)
  if kw.get("order"):
    for p, q in itertools.product(((1, 2), (1, 3), (2, 1)), repeat=2):
      a, b = mk(*p), mk(*q)
      require_eq([a < b, a <= b, a > b, a >= b], [p < q, p <= q, p > q, p >= q], f"{case}: order of {p} and {q}")
  if kw.get("eq", True):
    require(mk(1) == mk(1, 2) and mk(1) != mk(1, 3), f"{case}: equality")
  if kw.get("unsafe_hash") or kw.get("eq", True) and kw.get("frozen"):
    require_eq(hash(mk(1)), hash(mk(1, 2)), f"{case}: hash")
  if kw.get("frozen"):
    try:
      mk(1).x = 2
    except AttributeError:
      pass
    else:
      raise Violation(f"{case}: a frozen object was changed")


def gen_flags(tier):
  for base in ("module", "pytree", "mutable"):
    for flags in itertools.product((None, False, True), repeat=len(FLAGS)):
      for how in ("decorator", "direct"):
        yield base, flags, how


SECTIONS = [Section("decorator options", gen_flags, run_flags), Section("sharding", gen_sharding, run_sharding), Section("field metadata", gen_meta, run_meta), Section("fields", gen, run), Section("other kinds", gen_wrong, run_wrong), Section("field options", gen_opts, run_opts)]
