"""C13: compiled code is reused only for structurally equal modules."""
import itertools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import nnx

from mc import heap
from mc.core import Section, Violation, require, require_eq

RULE = ("pairs: every ordered pair of module variants from an enumerated family (all graphs of up to 2 modules and 2 names "
        "with each attribute absent, static, variable or reference; plus types, flags, metadata and unhashable variants); "
        "equality and hash of definitions and tree structures must agree with equality of an independent signature. "
        "histories: every mutation sequence up to the bound with a jitted call after each step; the number of traces must be "
        "the number of distinct signatures so far and the result must be that of the current module; states = signatures, "
        "transitions = comparisons and calls")
ASSUMPTIONS = ["static values that compare equal across types (1, 1.0, True) are not mixed",
               "all arrays have the same dtype and shape in a history unless the mutation changes them"]
BOUNDS = {"quick": "all pairs of ~1000 variants; histories up to 2 mutations over 20, through jax.jit and nnx.jit",
          "thorough": "all pairs of ~2900 variants; histories up to 3 mutations"}

f32 = jnp.float32


_types = []


def type_id(cls):
  """Types are told apart by identity: two of them can have the same name."""
  if not any(t is cls for t in _types):
    _types.append(cls)
  return (next(i for i, t in enumerate(_types) if t is cls), cls.__name__)


def static_sig(v):
  if callable(v):
    return ("callable",) + type_id(v) if hasattr(v, "__name__") else ("object", id(v))
  if isinstance(v, (list, tuple)):
    return (type(v).__name__,) + tuple(static_sig(u) for u in v)
  return heap.enc(v)


def signature(root, leaves=True):
  """Everything but values: types, names, statics, kinds, metadata, sharing, flags (and avals)."""
  num, order = {}, []

  def visit(m):
    if id(m) in num:
      return
    num[id(m)] = len(order)
    order.append(m)
    for _, v in sorted(heap.attrs_of(m).items()):
      if isinstance(v, nnx.Module):
        visit(v)
  visit(root)
  out = []
  for m in order:
    row = []
    for name, v in sorted(heap.attrs_of(m).items()):
      if isinstance(v, nnx.Module):
        row.append((name, "ref", num[id(v)]))
      elif heap.is_node_attr(v):
        if leaves:
          row.append((name, "node", aval(v)))
      else:
        row.append((name, "static", static_sig(v)))
    out.append((type_id(type(m)), m.is_initializing, tuple(row)))
  return tuple(out)


def aval(x):
  if isinstance(x, nnx.Container):
    meta = tuple((k, repr(getattr(x, k))) for k in heap.META_KEYS if hasattr(x, k))
    return (type(x).__name__, meta, aval(x.value))
  if isinstance(x, (dict,)):
    return tuple(sorted((k, aval(v)) for k, v in x.items()))
  if isinstance(x, (tuple, list)):
    return (type(x).__name__,) + tuple(aval(v) for v in x)
  if isinstance(x, nnx.Pytree):
    return (type(x).__name__,) + tuple((k, aval(v) if not isinstance(v, str) else v) for k, v in sorted(vars(x).items())
                                       if not k.startswith("_pytree__"))
  if x is None:
    return None
  a = jax.api_util.shaped_abstractify(x)
  return (str(a.dtype), a.shape, a.weak_type)


# ---------------------------------------------------------------- pairs

def options(i, name):
  out = [None, ("static", 1), ("static", "s"), ("leaf", "P", 1), ("leaf", "Ps", 1), ("leaf", "B", 2), ("ref", 0)]
  if i == 0 or name == "b":
    out.append(("ref", 1))
  return out


def options_big(i, name):
  return options(i, name) + [("static", (1, 2)), ("leaf", "Pn", 1)]


class S1(nnx.Module):
  pass


class S2(nnx.Module):
  pass


class S3(S1):
  pass


def _same_name(k):
  """Two classes (and two functions) that share module, name and qualified name."""
  class Twin(nnx.Module):
    def out(self):
      return k

  def act(x):
    return x + k
  return Twin, act


(T1, f1), (T2, f2) = _same_name(1), _same_name(2)


class Ident:
  """Compares by identity, like most configuration objects."""

  def __call__(self, x):
    return x


IDS = (Ident(), Ident())


def special(k):
  """The variants of _special, alone and as a submodule of another module."""
  base = _special()
  table = base + [(lambda mk: lambda: _under(mk))(mk) for mk in base]
  return table if k is None else table[k]()


def _under(mk):
  m = S1()
  m.sub = mk()
  m.z = 3
  return m


def _special():
  """Variants beyond the graph family."""
  def of(cls, **kw):
    m = cls()
    for a, v in kw.items():
      setattr(m, a, v)
    return m
  flagged = lambda cls, **kw: of(cls, **kw).init.clone()
  table = [
      lambda: of(S1), lambda: of(S2), lambda: of(S3), lambda: flagged(S1), lambda: flagged(S3),
      lambda: of(S1, x=[1]), lambda: of(S1, x=[2]), lambda: of(S1, x=[1, 2]), lambda: of(S1, x={"a": 1}), lambda: of(S1, x=None),
      lambda: of(S1, x=nnx.Static(1)), lambda: of(S1, x=nnx.Static(2)), lambda: of(S1, x=S1), lambda: of(S1, x=S2),
      lambda: of(S1, y=None), lambda: of(S1, x=1, y=2), lambda: of(S1, x=2, y=1), lambda: of(S1, s=of(S2)),
      lambda: of(S1, s=flagged(S2)), lambda: of(S1, t=of(S2)), lambda: of(S1, s=of(S2, x=1)), lambda: of(S1, s=of(S2, x=2)),
      lambda: of(S1, s=of(S2), t=of(S2)), lambda: (lambda q: of(S1, s=q, t=q))(of(S2)), lambda: of(S1, s=of(S2, r=of(S2))),
      lambda: of(S1, x=nnx.Param(1)), lambda: of(S1, x=nnx.BatchStat(1)), lambda: of(S1, x=nnx.Param((1, 2))),
      lambda: of(S1, x=nnx.Param([1, 2])), lambda: of(S1, x=nnx.Param({"a": 1})), lambda: of(S1, x=nnx.Param({"b": 1})),
      lambda: of(S1, x=nnx.Param(None)), lambda: of(S1, x=nnx.Param(1, sharding=("a",))), lambda: of(S1, x=nnx.Param(1, sharding=("b",))),
      lambda: of(S1, x=nnx.Param(1, sharding=("a", None))), lambda: of(S1, x=nnx.Param(1, note="n")), lambda: of(S1, x=nnx.Node(1)),
      lambda: of(S1, x=heap.PT(1, "s")), lambda: of(S1, x=heap.PT(1, "t")), lambda: of(S1, x=heap.VarA(1)), lambda: of(S1, x=heap.SubParam(1)),
      lambda: of(S1, x=jnp.int32(1)), lambda: of(S1, y=jnp.int32(1)),
      lambda: nnx.Dict(a=1), lambda: nnx.Dict(a=2), lambda: nnx.Dict(b=1), lambda: nnx.Dict(a=nnx.Param(1)), lambda: nnx.Sequence([]),
      lambda: nnx.Sequence([of(S1)]), lambda: nnx.Sequence([of(S1), of(S1)]), lambda: (lambda q: nnx.Sequence([q, q]))(of(S1)),
      lambda: of(T1), lambda: of(T2), lambda: of(S1, x=f1), lambda: of(S1, x=f2), lambda: of(S1, x=(f1, 1)), lambda: of(S1, x=(f2, 1)),
      lambda: of(S1, x=T1), lambda: of(S1, x=T2), lambda: of(S1, x=1, y=f1), lambda: of(S1, x=1, y=f2), lambda: of(S1, x=f1, y=1),
      lambda: of(S1, x=f2, y=1),
      lambda: of(S1, x=IDS[0]), lambda: of(S1, x=IDS[1]), lambda: of(S1, x=(IDS[0], 1)), lambda: of(S1, s=of(S2, x=IDS[0])), lambda: of(S1, x=[IDS[0]]),
      # different values with equal hashes
      lambda: of(S1, x=-1), lambda: of(S1, x=-2), lambda: of(S1, x=0), lambda: of(S1, x=2 ** 61 - 1), lambda: of(S1, x=(-1,)), lambda: of(S1, x=(-2,)),
      lambda: of(S1, x=0.5), lambda: of(S1, x=2 ** 60), lambda: of(S1, s=of(S2, x=-1)), lambda: of(S1, s=of(S2, x=-2)), lambda: nnx.Dict(a=-1), lambda: nnx.Dict(a=-2),
  ]
  return table


_fam = {}


def family(tier):
  if tier not in _fam:
    opts = options if tier == "quick" else options_big
    specs = [("g", heap.to_case(h)) for h in heap.graphs(1, ("a", "b"), lambda i, n: [
        o for o in opts(i, n) if o != ("ref", 1)])]
    specs += [("g", heap.to_case(h)) for h in heap.graphs(2, ("a", "b"), opts)]
    specs += [("s", i) for i in range(len(special(None)))]
    _fam[tier] = specs
  return _fam[tier]


def build(spec):
  return heap.from_case(spec[1]).build()[0] if spec[0] == "g" else special(spec[1])


_built = {}


def built(tier):
  """(definition, tree structure, definition signature, full signature) of two instances of every variant."""
  if tier not in _built:
    rows = []
    for spec in family(tier):
      pair = []
      for _ in range(2):
        m = build(spec)
        p = m.partition()
        pair.append((p.moduledef, jtu.tree_structure(p), signature(m, False), tree_sig(m)))
      rows.append(pair)
    _built[tier] = rows
  return _built[tier]


def tree_sig(m):
  def strip(v):
    if isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], bool) and isinstance(v[1], tuple):
      return "leaf"
    return tuple(strip(u) for u in v) if isinstance(v, tuple) else v
  return strip(signature(m))


def gen_pairs(tier):
  for i in range(len(family(tier))):
    yield (tier, i)


def run_pairs(case, cov):
  tier, i = case
  rows = built(tier)
  da, ta, sa, fa = rows[i][0]
  try:
    ha = hash(da)
  except TypeError:
    ha = None
  cov.state(fa)
  for j in range(len(rows)):
    db, tb, sb, fb = rows[j][1]
    cov.trans()
    if (da == db) != (sa == sb) or (db == da) != (sa == sb) or (da != db) != (sa != sb):
      raise Violation(f"definitions of variants {family(tier)[i]} and {family(tier)[j]} compare "
                      f"{'equal' if da == db else 'different'}", key=None)
    if (ta == tb) != (fa == fb):
      raise Violation(f"tree structures of variants {family(tier)[i]} and {family(tier)[j]} compare "
                      f"{'equal' if ta == tb else 'different'}")
    if da == db and ha is not None:
      require(hash(db) == ha, f"equal definitions with different hashes: {family(tier)[i]} {family(tier)[j]}")
  require(da != 1 and da != None and not (da == "x"), "definition equal to a foreign object")  # noqa


# ---------------------------------------------------------------- histories

def kval(k):
  return k(1) if callable(k) else k


class A(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(f32(3))
    self.k = 2

  def out(self):
    return self.w * kval(self.k)


class B(A):
  def out(self):
    return self.w + 100 * kval(self.k)


def _twin():
  class B(A):
    def out(self):
      return self.w + 1000 * kval(self.k)
  B.__qualname__ = "B"
  return B


TwinB = _twin()
_fns = {}


def _times(k):
  """Functions that differ in what they close over only."""
  if k not in _fns:
    def times(w):
      return w * k
    _fns[k] = times
  return _fns[k]


class Root(nnx.Module):
  def __init__(self):
    self.p = nnx.Param(f32(1))
    self.one = A()
    self.two = A()
    self.mode = "m"

  def same(self):
    return self


def out(m, x):
  r = m.p + x + m.one.out() * 2 + m.two.out() * 3
  if m.mode == "n":
    r = r + 1000
  r = r + 10000 * (m.one is m.two) + 20000 * m.is_initializing + 40000 * m.one.is_initializing
  for name, v in sorted(vars(m).items()):
    if isinstance(v, nnx.Variable):
      r = r + len(name) * (1 + len(type(v).__name__)) + (7 if getattr(v, "sharding", None) else 0) + getattr(v, "note", 0)
    elif isinstance(v, (jax.Array,)):
      r = r + v.sum() + v.ndim * 50
  return r


def _set(path, v):
  def go(m):
    *p, n = path.split(".")
    for q in p:
      m = getattr(m, q)
    setattr(m, n, v() if callable(v) and not isinstance(v, type) else v)
  return go


def _kind(cls, **kw):
  def go(m):
    if hasattr(m, "p"):
      v = m.p
      del m.p
      m.p = cls(v, **kw)
  return go


def _add(m):
  m.extra = nnx.Param(f32(1))


def _rem(m):
  if hasattr(m, "extra"):
    del m.extra


def _share(m):
  m.two = m.one


def _flip(m):
  m.one, m.two = m.two, m.one


MUTS = {
    "value": lambda m: setattr(m, "p", m.p + 1), "sub value": lambda m: setattr(m.two, "w", m.two.w + 1),
    "static": _set("mode", "n"), "static back": _set("mode", "m"), "sub static": _set("two.k", 5), "sub type": _set("one", lambda: B()),
    "sub twin": _set("one", lambda: TwinB()),
    "fn static": lambda m: setattr(m.one, "k", _times(2)), "fn static twin": lambda m: setattr(m.one, "k", _times(5)), "sub fresh": _set("one", lambda: A()), "kind": _kind(nnx.BatchStat), "kind back": _kind(nnx.Param), "sharding": _kind(nnx.Param, sharding=("a",)),
    "note": _kind(nnx.Param, note=3), "add": _add, "remove": _rem, "share": _share, "unshare": _set("two", lambda: A()), "array": _set("arr", lambda: jnp.ones(2, f32)),
    "flip": _flip, "sub -1": _set("one.k", -1), "sub -2": _set("one.k", -2),
}
FLAGS = {"init clone": lambda m: m.init.clone(), "init done": lambda m: m.init.same(),
         "sub init": lambda m: (setattr(m, "one", m.one.init.clone()), m)[1]}
ALL = list(MUTS) + list(FLAGS)


def run_hist(case, cov):
  how, muts, bump = case
  traces = []
  if how == "pure":
    @jax.jit
    def f(pure, x):
      traces.append(1)
      return out(pure.merge(), x)
    call = lambda m, x: f(m.partition(), x)
  elif how == "split":
    @jax.jit
    def f(states, d, x):
      traces.append(1)
      return out(d.merge(*states), x)

    def call(m, x):
      (a, b), d = m.partition(nnx.Param, ...)
      return f((a, b), d, x)
  elif how == "static def":
    import functools

    @functools.partial(jax.jit, static_argnums=1)
    def f(s, d, x):
      traces.append(1)
      return out(d.merge(s), x)
    call = lambda m, x: f(*m.partition(), x)
  else:
    def g(m, x):
      traces.append(1)
      return out(m, x)
    call = nnx.jit(g, stateful=how == "nnx.jit")
  m = Root()
  sigs = set()
  x = f32(1)
  for i, mut in enumerate(("",) + muts):
    if mut in MUTS:
      MUTS[mut](m)
    elif mut:
      m = FLAGS[mut](m)
    sigs.add(signature(m))
    for _ in range(2):
      want = float(out(m, x))
      got = float(call(m, x))
      cov.trans()
      require_eq(got, want, f"call after {muts[:i]}: stale or wrong result")
      require_eq(len(traces), len(sigs), f"call after {muts[:i]}: number of traces")
      x = x + 1
      if bump == "root":
        m.p = m.p + 1
      else:  # nothing is assigned on the root itself
        m.two.w = m.two.w + 1
    cov.state(signature(m))


def gen_hist(tier):
  hows = ("pure", "split", "static def", "nnx.jit", "nnx.jit0")
  for how in hows:
    for n in (1, 2):
      for muts in itertools.product(ALL, repeat=n):
        if n == 2 and tier == "quick" and how in ("split", "nnx.jit0") and muts[0] not in ("static", "share", "kind", "add", "sub type", "init clone"):
          continue
        yield (how, muts, "root")
        if tier == "thorough" or n == 1 or how == "pure":
          yield (how, muts, "sub")
  if tier == "thorough":
    for how in ("pure", "nnx.jit"):
      for muts in itertools.product(ALL, repeat=3):
        yield (how, muts, "sub")


SECTIONS = [Section("pairs", gen_pairs, run_pairs), Section("histories", gen_hist, run_hist)]
