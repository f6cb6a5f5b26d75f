"""C31: Dict and Sequence against plain dictionaries and lists, over every operation sequence and every chain of callables."""
import collections
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import nnx

from mc.core import Section, Violation, expect_raises, require, require_eq

RULE = ("every sequence of operations up to the depth bound over three keys and five kinds of values on Dict, every constructor form; every list of up to 3 items on "
        "Sequence followed by clone, merge and update; every chain of up to 3 callables with every form of parameters and of output, called with and without a context; each "
        "compared with a plain dict, list or interpreter; states = contents reached and chains, transitions = operations and calls")
ASSUMPTIONS = ["the iteration order of a Dict is compared until it is cloned or merged (which sorts attribute names), afterwards the set of items is compared",
               "slices of a Sequence, an empty Sequence called, and outputs with a ctx key are not specified"]
BOUNDS = {"quick": "Dict: depth 3 over 15 operations x 3 keys (depth 4 for 2 keys); Sequence: 8 item kinds up to length 3; 12 odd attribute names on lists; chains: 12 outputs x 7 parameter forms up to length 3",
          "thorough": "Dict depth 4 over all operations; lists up to length 4"}


class Sub(nnx.Module):
  def __init__(self, v):
    self.w = nnx.Param(v)
    self.s = "st"

  def __eq__(self, other):
    return self is other

  def __hash__(self):
    return id(self)


def value(kind, n):
  """(what is stored, what the model keeps)"""
  if kind == "param":
    return nnx.Param(10 + n), ("node", nnx.Param, 10 + n)
  if kind == "stat":
    return nnx.BatchStat(20 + n), ("node", nnx.BatchStat, 20 + n)
  if kind == "static":
    return f"s{n}", ("static", f"s{n}")
  if kind == "none":
    return None, ("static", None)
  if kind == "module":
    m = Sub(30 + n)
    return m, ("module", 30 + n)
  if kind == "dict":
    return nnx.Dict(x=nnx.Param(40 + n)), ("dict", 40 + n)
  raise KeyError(kind)


def seen(v):
  """What a user sees of a stored value."""
  if isinstance(v, Sub):
    return ("module", v.w)
  if isinstance(v, nnx.Dict):
    return ("dict", v["x"])
  return ("value", v)


def model_seen(m):
  return {"node": lambda: ("value", m[2]), "static": lambda: ("value", m[1]), "module": lambda: m, "dict": lambda: m}[m[0]]()


def check_items(d, model, ordered, what):
  keys = list(d)
  require_eq(sorted(keys), sorted(model), f"{what}: keys")
  if ordered:
    require_eq(keys, list(model), f"{what}: order of the keys")
  require_eq(list(d.keys()), keys, f"{what}: keys()")
  require_eq(len(d), len(model), f"{what}: len")
  require_eq(bool(d), bool(model), f"{what}: truth value")
  require_eq([k for k, _ in d.items()], keys, f"{what}: items()")
  require_eq([seen(v) for v in d.values()], [model_seen(model[k]) for k in keys], f"{what}: values()")
  require_eq([seen(v) for _, v in d.items()], [model_seen(model[k]) for k in keys], f"{what}: items()")
  require_eq({k: seen(v) for k, v in dict(d).items()}, {k: model_seen(v) for k, v in model.items()}, f"{what}: dict()")
  require_eq({k: seen(v) for k, v in {**d}.items()}, {k: model_seen(v) for k, v in model.items()}, f"{what}: unpacking")
  for k in ("a", "b", "c", "zz", "_module__state", "__iter__", "clone", "keys", "", 0, None, ("a",)):
    require_eq(k in d, k in model, f"{what}: {k!r} in Dict")
    if k in model:
      require_eq(seen(d[k]), model_seen(model[k]), f"{what}: [{k!r}]")
      require_eq(seen(getattr(d, k)), model_seen(model[k]), f"{what}: .{k}")
      require_eq(seen(d.get(k)), model_seen(model[k]), f"{what}: get({k!r})")
      require_eq(hasattr(d, k), True, f"{what}: hasattr {k}")
    else:
      expect_raises(KeyError, lambda: d[k], f"{what}: [{k!r}]")
      require_eq(d.get(k), None, f"{what}: get({k!r})")
      require_eq(d.get(k, "default"), "default", f"{what}: get({k!r}, default)")
      if k in ("a", "b", "c", "zz"):
        expect_raises(AttributeError, lambda: getattr(d, k), f"{what}: .{k}")
        require_eq(hasattr(d, k), False, f"{what}: hasattr {k}")
  # state
  want = {}
  for k, m in model.items():
    if m[0] == "node":
      want[k] = (m[1], m[2])
    elif m[0] == "module":
      want[f"{k}/w"] = (nnx.Param, m[1])
    elif m[0] == "dict":
      want[f"{k}/x"] = (nnx.Param, m[1])
  require_eq({p: (type(v), v.value) for p, v in d.get_state().items()}, want, f"{what}: state")


KINDS = ("param", "stat", "static", "none", "module", "dict")
FORMS = {
    "empty": lambda items: nnx.Dict(),
    "empty dict": lambda items: nnx.Dict({}),
    "mapping": lambda items: nnx.Dict(dict(items)),
    "pairs": lambda items: nnx.Dict(items),
    "generator": lambda items: nnx.Dict((k, v) for k, v in items),
    "keywords": lambda items: nnx.Dict(**dict(items)),
    "mapping and keywords": lambda items: nnx.Dict(dict(items[:1]), **dict(items[1:])),
    "pairs and keywords": lambda items: nnx.Dict(items[:1], **dict(items[1:])),
    "Dict": lambda items: nnx.Dict(nnx.Dict(items)),
    "setitem": lambda items: functools.reduce(lambda d, kv: (d.__setitem__(*kv), d)[1], items, nnx.Dict()),
    "setattr": lambda items: functools.reduce(lambda d, kv: (setattr(d, *kv), d)[1], items, nnx.Dict()),
}


def run_construct(case, cov):
  form, spec = case
  items, model = [], {}
  for i, (k, kind) in enumerate(spec):
    v, m = value(kind, i)
    if form == "Dict" and kind in ("param", "stat"):
      # reading an item gives its value, so the copy holds plain values
      m = ("static", m[2])
    items.append((k, v))
    model[k] = m
  if form.startswith("empty"):
    model = {}
  d = FORMS[form](items)
  check_items(d, model, True, f"{case}")
  check_items(d.clone(), model, False, f"{case} clone")
  state, md = d.partition()
  check_items(md.merge(state), model, False, f"{case} merge")
  cov.trans(3)
  cov.state(case)


def gen_construct(tier):
  for form in FORMS:
    if form.startswith("empty"):
      yield form, ()
      continue
    for n in range(4):
      for ks in itertools.permutations("abc", n):
        if n == 3 and ks not in (("a", "b", "c"), ("c", "a", "b")):
          continue
        for kinds in itertools.product(KINDS, repeat=n):
          yield form, tuple(zip(ks, kinds))


OPS = (("set", "param"), ("set", "stat"), ("set", "static"), ("set", "module"), ("set", "dict"), ("attr", "param"), ("attr", "static"), ("attr", "module"),
       ("plain", "item"), ("plain", "attr"), ("delete",), ("inner",), ("clone",), ("merge",), ("update",))
KEYED = {"set", "attr", "plain", "delete", "inner"}


def apply_op(d, model, op, key, n, ordered):
  """Performs one operation on the Dict and the model; returns (d, ordered) or None when it does not apply."""
  k = op[0]
  if k in ("set", "attr"):
    v, m = value(op[1], n)
    old = model.get(key)
    if old and old[0] == "node" and m[0] == "node" and old[1] is not m[1]:
      # changing the kind of a variable is refused (C08)
      return None
    if old and old[0] == "node" and m[0] != "node":
      # assignment to a variable assigns its value (C08); modules and variables do not mix
      if m[0] != "static":
        return None
      m = ("node", old[1], m[1])
    if k == "set":
      d[key] = v
    else:
      setattr(d, key, v)
    model[key] = m
  elif k == "plain":
    # a plain value: a variable keeps its kind, anything else becomes a static value
    old = model.get(key)
    if op[1] == "item":
      d[key] = 70 + n
    else:
      setattr(d, key, 70 + n)
    model[key] = ("node", old[1], 70 + n) if old and old[0] == "node" else ("static", 70 + n)
  elif k == "delete":
    if key in model:
      delattr(d, key)
      del model[key]
    else:
      expect_raises(AttributeError, lambda: delattr(d, key), f"deleting {key}")
  elif k == "inner":
    m = model.get(key)
    if not m or m[0] not in ("module", "dict"):
      return None
    if m[0] == "module":
      d[key].w = 50 + n
    else:
      d[key]["x"] = 50 + n
    model[key] = (m[0], 50 + n)
  elif k == "clone":
    c = d.clone()
    require(c is not d, "clone returned the Dict itself")
    return c, False
  elif k == "merge":
    state, md = d.partition()
    c = md.merge(state)
    require(type(c) is nnx.Dict, f"merge gave a {type(c).__name__}")
    return c, False
  elif k == "update":
    new = {}
    for kk, m in model.items():
      if m[0] == "node":
        new[kk] = m[1](60 + n)
        model[kk] = ("node", m[1], 60 + n)
      elif m[0] in ("module", "dict"):
        new[f"{kk}/{'w' if m[0] == 'module' else 'x'}"] = nnx.Param(60 + n)
        model[kk] = (m[0], 60 + n)
    d.update_state(nnx.State(new))
  return d, ordered


def run_ops(case, cov):
  d, model, ordered = nnx.Dict(), {}, True
  for n, (op, key) in enumerate(case):
    r = apply_op(d, model, op, key, n, ordered)
    if r is None:
      return
    d, ordered = r
    cov.trans()
  check_items(d, model, ordered, f"{case}")
  cov.state((sorted(model.items(), key=str), list(model) if ordered else None))


def all_ops(keys):
  for op in OPS:
    if op[0] in KEYED:
      for k in keys:
        yield op, k
    else:
      yield op, None


def gen_ops(tier):
  ops3 = list(all_ops("abc"))
  ops2 = [(o, k) for o, k in all_ops("ab") if o not in (("set", "stat"), ("attr", "static"), ("attr", "module"), ("plain", "attr"))]
  for n in (1, 2, 3):
    yield from itertools.product(ops3, repeat=n)
  for first in (("set", "param"), ("set", "module"), ("attr", "param")):
    for rest in itertools.product(ops2, repeat=3):
      yield ((first, "a"),) + rest
  if tier == "thorough":
    yield from itertools.product(ops3[:1] + ops3[3:4] + ops3[9:10] + ops3[12:13], ops3, ops3, ops3)


# -- Sequence as a list --------------------------------------------------------------------------------------------------------

ITEMS = KINDS + ("function", "array")


def item(kind, n):
  if kind == "function":
    f = lambda x, n=n: (x, n)
    return f, ("static", f)
  if kind == "array":
    return nnx.Node(jnp.asarray(n)), ("node", nnx.Node, n)
  return value(kind, n)


def check_list(s, model, what):
  n = len(model)
  want = [model_seen(m) for m in model]
  norm = lambda v: ("value", int(v)) if isinstance(v, jax.Array) else seen(v)
  require_eq(len(s), n, f"{what}: len")
  require_eq(bool(s), bool(n), f"{what}: truth value")
  require_eq([norm(v) for v in s], want, f"{what}: iteration")
  require_eq([norm(v) for v in list(s)], want, f"{what}: list()")
  require_eq([norm(v) for v in [*s]], want, f"{what}: unpacking")
  it = iter(s)
  require_eq([norm(next(it)) for _ in range(n)], want, f"{what}: iterator")
  expect_raises(StopIteration, lambda: next(it), f"{what}: iterator at the end")
  for i in range(-n - 3, n + 3):
    if -n <= i < n:
      require_eq(norm(s[i]), want[i], f"{what}: [{i}]")
    else:
      expect_raises(IndexError, lambda: s[i], f"{what}: [{i}]")
  st = {}
  for i, m in enumerate(model):
    if m[0] == "node":
      st[str(i)] = (m[1], m[2])
    elif m[0] == "module":
      st[f"{i}/w"] = (nnx.Param, m[1])
    elif m[0] == "dict":
      st[f"{i}/x"] = (nnx.Param, m[1])
  require_eq({p: (type(v), int(v.value)) for p, v in s.get_state().items()}, st, f"{what}: state")


def run_attrs(case, cov):
  """Other attributes of a Sequence are no items of it."""
  n, names, kind = case
  cov.state(case)
  s = nnx.Sequence([nnx.Param(i) for i in range(n)])
  want = list(range(n))
  for k, name in enumerate(names):
    setattr(s, name, {"static": 50 + k, "param": nnx.Param(50 + k), "module": nnx.Dict(w=nnx.Param(1))}[kind])
    cov.trans()
    for what, q in (("", s), ("clone ", s.clone()), ("merge ", s.partition().merge())):
      require_eq(len(q), n, f"{case}: length of the {what}sequence")
      require_eq(list(q), want, f"{case}: items of the {what}sequence")
      require_eq([q[i] for i in range(n)], want, f"{case}: items of the {what}sequence by index")
      if n:
        require_eq(q[-1], want[-1], f"{case}: last item")
      expect_raises(IndexError, lambda: q[n], f"{case}: index {n} of the {what}sequence")


def gen_attrs(tier):
  names = ("note", "007", "00", "+1", "-1", "1_0", "\u0663", "1.0", "_0", "99", " 1", "length")
  for n, k, kind in itertools.product((0, 1, 2, 3), (1, 2), ("static", "param", "module")):
    for c in itertools.permutations(names, k):
      yield n, c, kind


def run_list(case, cov):
  form, kinds = case
  items, model = [], []
  for i, k in enumerate(kinds):
    v, m = item(k, i)
    items.append(v)
    model.append(m)
  s = nnx.Sequence({"list": list, "tuple": tuple, "iter": iter, "generator": lambda l: (i for i in l)}[form](items))
  check_list(s, model, f"{case}")
  require_eq(len(items), len(kinds), "the list was changed")
  state, md = s.partition()
  for name, c in (("clone", s.clone()), ("merge", md.merge(state)), ("clone of clone", s.clone().clone())):
    require(type(c) is nnx.Sequence, f"{case}: {name} is a {type(c).__name__}")
    check_list(c, model, f"{case} {name}")
    cov.trans()
  new, model2 = {}, []
  for i, m in enumerate(model):
    if m[0] == "node":
      new[str(i)] = m[1](100 + i)
      m = ("node", m[1], 100 + i)
    elif m[0] in ("module", "dict"):
      new[f"{i}/{'w' if m[0] == 'module' else 'x'}"] = nnx.Param(100 + i)
      m = (m[0], 100 + i)
    model2.append(m)
  c = s.clone()
  c.update_state(nnx.State(new))
  check_list(c, model2, f"{case} after update")
  check_list(s, model, f"{case} after updating a clone")
  check_list(md.merge(nnx.State(new)), model2, f"{case} merged with another state")
  cov.trans(2)
  cov.state(case)


def gen_list(tier):
  for n in range(4 if tier == "quick" else 5):
    for kinds in itertools.product(ITEMS, repeat=n):
      yield "list", kinds
      if n < 3:
        for form in ("tuple", "iter", "generator"):
          yield form, kinds
  # more than ten items: positions have several digits
  for n in (10, 11, 12, 21):
    for k in ITEMS:
      yield "list", (k,) * n
    yield "list", tuple(ITEMS[i % len(ITEMS)] for i in range(n))


# -- Sequence as a function -------------------------------------------------------------------------------------------------------

Point = collections.namedtuple("Point", "p q")
OUTPUTS = {
    "int": lambda: 5, "none": lambda: None, "list": lambda: [1, 2], "tuple": lambda: (1, "two"), "empty tuple": lambda: (), "single": lambda: ("one",),
    "nested": lambda: ((1, 2), {"k": [3]}), "named": lambda: Point(1, [2]), "dict": lambda: {"x": 1, "y": [2]}, "empty dict": lambda: {},
    "ordered": lambda: collections.OrderedDict(y=1, x={"x": 2}), "state": lambda: nnx.State({"x": 1, "y/z": 2}), "str": lambda: "ab",
}


class CallMod(nnx.Module):
  def __init__(self, out, log):
    self.out, self.log = out, log
    self.w = nnx.Param(1)

  def __call__(self, *args, ctx=None, **kwargs):
    self.log.append((args, kwargs, ctx))
    return self.out


def callee(form, out, log):
  """A callable that records how it was called."""
  def rec(args, kwargs, ctx="absent"):
    log.append((args, kwargs, ctx))
    return out
  if form == "plain":
    return lambda *args, **kwargs: rec(args, kwargs)
  if form == "keyword ctx":
    def f(*args, ctx=None, **kwargs):
      return rec(args, kwargs, ctx)
    return f
  if form == "positional ctx":
    def f(x=None, y=None, ctx=None, **kwargs):
      return rec((x, y), kwargs, ctx)
    return f
  if form == "required ctx":
    def f(*args, ctx, **kwargs):
      return rec(args, kwargs, ctx)
    return f
  if form == "module":
    return CallMod(out, log)
  if form == "partial":
    def f(pre, *args, ctx=None, **kwargs):
      return rec(args, kwargs, ctx)
    return functools.partial(f, "pre")
  if form == "contextual":
    def f(*args, context=None, **kwargs):
      return rec(args, kwargs)
    return f


FORMS_C = ("plain", "keyword ctx", "positional ctx", "required ctx", "module", "partial", "contextual")
ACCEPT = {"plain": False, "contextual": False}
CALLARGS = {"one": (("in",), {}), "none": ((), {}), "two": ((1, 2), {}), "keywords": ((), {"x": 1, "y": 2}), "both": ((1,), {"y": 2})}


def freeze(x):
  if isinstance(x, tuple):
    return (type(x).__name__,) + tuple(freeze(i) for i in x)
  if isinstance(x, dict):
    return (type(x).__name__,) + tuple((k, freeze(v)) for k, v in x.items())
  if isinstance(x, list):
    return ["list"] + [freeze(i) for i in x]
  return x


def run_chain(case, cov):
  chain, callform, with_ctx, how = case
  args, kwargs = CALLARGS[callform]
  ctx = nnx.context(0) if with_ctx else None
  log, outs, fs = [], [], []
  for form, out in chain:
    o = OUTPUTS[out]()
    outs.append(o)
    fs.append(callee(form, o, log))
  frozen = [freeze(o) for o in outs]
  s = nnx.Sequence(fs)
  if how == "clone":
    s = s.clone()
  elif how == "merge":
    state, md = s.partition()
    s = md.merge(state)
  ka = dict(kwargs)

  def go():
    return s(*args, **ka, ctx=ctx) if with_ctx else s(*args, **ka)
  # the model
  want, fails, cur_a, cur_k = [], False, args, kwargs
  for i, (form, out) in enumerate(chain):
    if form == "required ctx" and not with_ctx:
      fails = True
      break
    if form == "positional ctx":
      names = dict(zip(("x", "y", "ctx"), cur_a))
      if len(cur_a) > 3 or set(names) & set(cur_k) or ("ctx" in names and with_ctx):
        fails = True
        break
      full = {**names, **cur_k}
      rest = {k: v for k, v in cur_k.items() if k not in ("x", "y", "ctx")}
      want.append(((full.get("x"), full.get("y")), rest, ctx if with_ctx else full.get("ctx")))
    else:
      gets = ACCEPT.get(form, True)
      want.append((tuple(cur_a), dict(cur_k), ctx if gets else "absent"))
    o = outs[i]
    if isinstance(o, tuple):
      cur_a, cur_k = tuple(o), {}
    elif isinstance(o, dict):
      cur_a, cur_k = (), dict(o)
    else:
      cur_a, cur_k = (o,), {}
  if fails:
    expect_raises(TypeError, go, f"{case}")
  else:
    y = go()
    if how == "plain":
      require(y is outs[-1], lambda: f"{case}: returned {y!r}, the last output is {outs[-1]!r}")
    else:
      require_eq(freeze(y), frozen[-1], f"{case}: returned")
  require_eq([(freeze(a), freeze(k), c if isinstance(c, str) else c is ctx) for a, k, c in log],
             [(freeze(a), freeze(k), c if isinstance(c, str) else c is ctx) for a, k, c in want], f"{case}: calls")
  require_eq([freeze(o) for o in outs], frozen, f"{case}: an intermediate value was modified")
  require_eq(ka, kwargs, f"{case}: the keyword arguments were modified")
  require_eq(len(s), len(chain), f"{case}: the sequence was modified")
  cov.trans(len(log))
  cov.state(case)


def gen_chain(tier):
  units = list(itertools.product(FORMS_C, OUTPUTS))
  for u in units:
    for c in CALLARGS:
      for w in (False, True):
        for how in ("plain", "clone", "merge"):
          yield (u,), c, w, how
  last = [(f, "int") for f in FORMS_C] + [("plain", "dict"), ("keyword ctx", "tuple")]
  for u, v in itertools.product(units, last):
    for w in (False, True):
      for how in ("plain", "merge"):
        yield (u, v), "one", w, how
  mid = units if tier == "thorough" else [u for u in units if u[0] in ("plain", "keyword ctx", "module")]
  for u, v, x in itertools.product(mid if tier == "thorough" else [u for u in mid if u[0] != "module"], mid, [("plain", "int"), ("keyword ctx", "int"), ("module", "none")]):
    yield (u, v, x), "one", True, "plain"
    if tier == "thorough":
      yield (u, v, x), "one", False, "plain"


def run_special(case, cov):
  name, with_ctx = case
  kw = {"ctx": nnx.context(0)} if with_ctx else {}
  x = jnp.asarray([1.0, -2.0])
  if name == "layers":
    l1, l2 = nnx.Linear(2, 3, ctx=nnx.context(0)), nnx.Linear(3, 2, ctx=nnx.context(1))
    s = nnx.Sequence([l1, jax.nn.relu, l2, jnp.tanh])
    require(np.allclose(s(x, **kw), jnp.tanh(l2(jax.nn.relu(l1(x))))), "layers in a Sequence")
    require(s[0] is l1 and s[-2] is l2, "items are not the layers given")
    g = jax.grad(lambda st: s.partition()[1].apply(st)(x, **kw)[0].sum())(s.get_state())
    require_eq(sorted(g), sorted(s.get_state()), "gradient paths")
  elif name == "builtins":
    require_eq(nnx.Sequence([lambda v: [3, 1, 2], max, str, int, abs])(0, **kw), 3, "builtins in a Sequence")
  elif name == "ufuncs":
    require(np.allclose(nnx.Sequence([np.tanh, np.abs])(np.asarray(x), **kw), np.abs(np.tanh(np.asarray(x)))), "numpy functions in a Sequence")
  elif name == "nested":
    inner = nnx.Sequence([lambda a: (a, a + 1), lambda a, b: {"p": a, "q": b}])
    s = nnx.Sequence([lambda a: a, inner, lambda p, q: p * 10 + q, nnx.Sequence([lambda a: a + 1])])
    require_eq(s(3, **kw), 35, "nested sequences")
  elif name == "not callable":
    for items in ([1], [abs, 1], [abs, "x", abs], [None]):
      expect_raises(TypeError, lambda: nnx.Sequence(items)(1, **kw), f"calling {items}")
  elif name == "switches":
    # the context reaches dropout and batch norm
    ctx = nnx.context(dropout=0, flags={"deterministic": False, "use_running_average": False})
    bn = nnx.BatchNorm(2, momentum=0.5, ctx=nnx.context(0))
    s = nnx.Sequence([bn, nnx.Dropout(1.0), lambda v: v + 1])
    y = s(jnp.asarray([[1.0, 2.0], [3.0, 4.0]]), ctx=ctx)
    require(np.allclose(y, 1.0), "dropout in a Sequence")
    require(np.allclose(bn.mean, [1.0, 1.5]), "batch norm in a Sequence")
  elif name == "shared":
    l = nnx.Linear(2, 2, ctx=nnx.context(0))
    s = nnx.Sequence([l, l, l])
    require(np.allclose(s(x, **kw), l(l(l(x)))), "a shared layer")
    require_eq(sorted(s.get_state()), ["0/bias", "0/kernel"], "state of a shared layer")
    c = s.clone()
    require(c[0] is c[1] and c[1] is c[-1] and c[0] is not l, "sharing after clone")
  cov.trans()
  cov.state(case)


def gen_special(tier):
  yield from itertools.product(("layers", "builtins", "ufuncs", "nested", "not callable", "switches", "shared"), (False, True))


SECTIONS = [Section("construct", gen_construct, run_construct), Section("operations", gen_ops, run_ops), Section("lists", gen_list, run_list), Section("other attributes", gen_attrs, run_attrs),
            Section("chains", gen_chain, run_chain), Section("special", gen_special, run_special)]
