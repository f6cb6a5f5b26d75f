"""C33: logical axis rules: scoping over every nesting, unwinding and thread interleaving; layout and values over every rule/mesh/fallback combination."""
import contextlib
import itertools

from mc import sched  # before nnx

import jax
import jax.numpy as jnp
import numpy as np
import nnx
from jax.sharding import Mesh, NamedSharding, PartitionSpec
from nnx import spmd

from checks.C23 import define
from mc.core import Section, Violation, expect_raises, require, require_eq

RULE = ("every tree of with-blocks up to the bound times every way of leaving each block, with the rules in force compared with a stack after every step; every interleaving at "
        "bytecode granularity of threads entering and leaving blocks up to the preemption bound; the full product of names, rules, rule source, mesh, fallback and compilation "
        "on 8 devices against a declarative layout; every way of creating and reading partitioned variables; states = configurations and executions, transitions = steps")
ASSUMPTIONS = ["rules only name axes of the mesh in force and sizes are divisible by the mesh", "contexts entered by a generator that is never closed are not explored"]
BOUNDS = {"quick": "trees of up to 4 blocks, 9 ways to leave; all pairs of 7 thread programs with 1 preemption (2 for one pair); 21 name tuples x 29 rule lists x 4 meshes x 3 fallbacks x 2 sources",
          "thorough": "trees of up to 5 blocks; 3 preemptions, 3 threads; every product also compiled"}

R = {"r": (("a", "x"),), "s": (("a", "y"), ("b", "x")), "t": (("b", ("x", "y")),), "e": ()}


def in_force(what):
  """The rules in force, seen through everything that uses them."""
  rules = spmd.get_logical_axis_rules()
  spec = nnx.logical_to_mesh(PartitionSpec("a", "b"))
  require_eq(tuple(spec), define(("a", "b"), rules), f"{what}: logical_to_mesh does not use the rules of get_logical_axis_rules")
  require_eq(tuple(spmd.logical_to_mesh_axes(("b", "a"))), define(("b", "a"), rules), f"{what}: logical_to_mesh_axes does not use the ambient rules")
  return rules


# -- scopes -----------------------------------------------------------------------------------------------------------------

EXITS = ("end", "error", "keyboard", "return", "break", "generator", "stack", "decorator", "outer error")


class Err(Exception):
  pass


class Outer(Exception):
  pass


def blocks(n, top=True):
  """All ordered forests with exactly n blocks, as nested tuples."""
  if n == 0:
    yield ()
    return
  for k in range(n):
    for child in blocks(k):
      for rest in blocks(n - 1 - k):
        yield (child,) + rest


def label(forest, names, it):
  return tuple((names[next(it)], label(c, names, it)) for c in forest)


def run_block(b, stack, labels, cov, what):
  (rules_name, how), children = b
  rules = R[rules_name]

  def expect():
    require_eq(in_force(what), stack[-1], f"{what}: rules in force")
    cov.trans()

  def body():
    expect()
    for c in children:
      run_block(c, stack, labels, cov, what)
      expect()

  before = stack[-1]
  expect()
  stack.append(rules)
  outer = None
  try:
    if how == "end":
      with nnx.logical_axis_rules(rules):
        body()
    elif how == "error":
      try:
        with nnx.logical_axis_rules(rules):
          body()
          raise Err("inside")
      except Err:
        pass
      else:
        raise Violation(f"{what}: the exception was swallowed")
    elif how == "keyboard":
      try:
        with nnx.logical_axis_rules(rules):
          body()
          raise KeyboardInterrupt()
      except KeyboardInterrupt:
        pass
    elif how == "return":
      def f():
        with nnx.logical_axis_rules(rules):
          body()
          return 5
      require_eq(f(), 5, f"{what}: value returned from the block")
    elif how == "break":
      for _ in range(3):
        with nnx.logical_axis_rules(rules):
          body()
          break
    elif how == "generator":
      def g():
        with nnx.logical_axis_rules(rules):
          body()
          yield 1
      i = g()
      next(i)
      require_eq(in_force(what), rules, f"{what}: inside the generator's block")
      i.close()
    elif how == "stack":
      with contextlib.ExitStack() as es:
        es.enter_context(nnx.logical_axis_rules(R["t"]))
        es.enter_context(nnx.logical_axis_rules(rules))
        body()
    elif how == "decorator":
      @nnx.logical_axis_rules(rules)
      def f():
        body()
      f()
    elif how == "outer error":
      # the exception leaves two blocks at once
      try:
        with nnx.logical_axis_rules(R["t"]):
          with nnx.logical_axis_rules(rules):
            body()
            raise Outer("both")
      except Outer:
        pass
  finally:
    stack.pop()
  require_eq(in_force(what), before, f"{what}: rules after leaving a block by {how}")


def run_scopes(case, cov):
  start, tree = case
  spmd.set_logical_axis_rules(R[start])
  try:
    stack = [R[start]]
    for b in tree:
      run_block(b, stack, None, cov, f"{case}")
    require_eq(in_force(f"{case}"), R[start], f"{case}: rules at the end")
  finally:
    spmd.set_logical_axis_rules(())
  cov.state(case)


def gen_scopes(tier):
  for n in range(1, 5 if tier == "quick" else 6):
    for forest in blocks(n):
      if n <= 2:
        opts = itertools.product(itertools.product(("r", "s", "e"), EXITS), repeat=n)
      elif n == 3:
        opts = (tuple(zip(("r", "s", "t"), h)) for h in itertools.product(EXITS, repeat=n))
      else:
        opts = (tuple(zip(("r", "s", "t", "r", "s"), h)) for h in itertools.product(("end", "error", "return", "outer error") if n == 4 else ("end", "error", "outer error"), repeat=n))
      for names in opts:
        yield "e", label(forest, names, iter(range(n)))
        if n <= 2:
          yield "s", label(forest, names, iter(range(n)))


# -- threads -----------------------------------------------------------------------------------------------------------------

PROGRAMS = {
    "read": ["?"],
    "one": ["?", "+r", "?", "-", "?"],
    "two": ["+r", "?", "+s", "?", "-", "?", "-", "?"],
    "error": ["+s", "?", "!", "?"],
    "again": ["+r", "-", "?", "+s", "-", "?"],
    "set": ["=s", "?", "+r", "?", "-", "?"],
    "empty": ["+r", "+e", "?", "-", "?", "-", "?"],
}


def thread(prog):
  """Runs a program; returns what it saw and what it should have seen."""
  def f():
    seen, want, stack, base = [], [], [], ()
    for op in PROGRAMS[prog]:
      if op == "?":
        seen.append((spmd.get_logical_axis_rules(), tuple(spmd.logical_to_mesh_axes(("a", "b")))))
        cur = stack[-1][1] if stack else base
        want.append((cur, define(("a", "b"), cur)))
      elif op[0] == "+":
        cm = nnx.logical_axis_rules(R[op[1]])
        cm.__enter__()
        stack.append((cm, R[op[1]]))
      elif op == "-":
        stack.pop()[0].__exit__(None, None, None)
      elif op == "!":
        e = Err()
        try:
          if not stack.pop()[0].__exit__(Err, e, None):
            raise e
        except Err:
          pass
      elif op[0] == "=":
        spmd.set_logical_axis_rules(R[op[1]])
        base = R[op[1]]
    return seen, want
  return f


def run_threads(case, cov):
  progs, bound, shard, n = case

  def make():
    return [thread(p) for p in progs], None

  def check(results, _):
    for p, (status, r) in zip(progs, results):
      if status != "ok":
        raise Violation(f"threads {progs}: {p} raised {type(r).__name__}: {r}")
      seen, want = r
      require(seen == want, lambda: f"threads {progs}: {p} saw {seen}, its own blocks say {want}")
    require_eq(spmd.get_logical_axis_rules(), R["t"], f"threads {progs}: the rules of the thread that started them")
  with nnx.logical_axis_rules(R["t"]):
    sched.explore(make, check, bound, shard=(shard, n), cov=cov)


def gen_threads(tier):
  full = tier == "thorough"
  for shard in range(8):
    for p in itertools.combinations_with_replacement(PROGRAMS, 2):
      small = p == ("one", "one")
      yield p, 2 if small or full else 1, shard, 8
    yield ("one", "one", "error"), 2 if full else 1, shard, 8


# -- layout ------------------------------------------------------------------------------------------------------------------

MESHES = {}


def mesh_of(name):
  if not MESHES:
    dev = np.array(jax.devices())
    if len(dev) < 8:
      raise RuntimeError("8 host devices expected")
    MESHES.update({"24": Mesh(dev.reshape(2, 4), ("x", "y")), "42": Mesh(dev.reshape(4, 2), ("x", "y")), "none": None})
  return MESHES[name]


NAMES = [n for r in (1, 2, 3) for n in itertools.product(("a", "b", None, "u"), repeat=r) if all(n.count(i) < 2 for i in n if i) and (r < 3 or n[0] == "a" and n[1] in ("b", None))]
RULES = [()] + [(r,) for r in (("a", "x"), ("a", "y"), ("b", "x"), ("b", None), ("a", ("x", "y")), ("b", ("y", "x")))]
RULES += list(itertools.product((("a", "x"), ("a", None), ("a", ("x", "y")), ("b", "x")), (("b", "x"), ("b", "y"), ("a", "y"), ("b", None), ("b", ("x", "y")))))


def data(names):
  return jnp.arange(float(8 ** len(names))).reshape((8,) * len(names)) if len(names) < 3 else jnp.arange(512.0).reshape(8, 8, 8)


def single(x):
  return len(x.sharding.device_set) == 1


def has_layout(x, mesh, spec):
  return x.sharding.is_equivalent_to(NamedSharding(mesh, PartitionSpec(*spec)), x.ndim)


def fired(names, rules):
  """Names that got a rule (possibly to None)."""
  out, used = {}, []
  for n, t in rules:
    ax = () if t is None else (t,) if isinstance(t, str) else tuple(t)
    if n in names and n not in out and not set(ax) & set(used):
      out[n] = t
      used += ax
  return out


def run_layout(case, cov):
  names, rules, source, where, fallback, compiled = case
  mesh = mesh_of("42" if where == "explicit 42" else "24")
  x = data(names)
  kw = {"fallback": spmd.RulesFallback[fallback]} if fallback != "default" else {}
  if where.startswith("explicit") or where == "both":
    kw["mesh"] = mesh
  if source == "explicit":
    kw["rules"] = rules
  elif source == "explicit over ambient":
    kw["rules"] = rules
  f = lambda x: nnx.with_logical_constraint(x, names, **kw)
  if compiled:
    f = jax.jit(f)
  ambient = {"ambient": rules, "explicit": (), "explicit over ambient": (("u", "x"), ("b", "y"), ("a", "y"))}[source]

  def go():
    with contextlib.ExitStack() as es:
      if where in ("global", "both"):
        es.enter_context(mesh if where == "global" else mesh_of("42"))
      es.enter_context(nnx.logical_axis_rules(ambient))
      return f(x)
  got = fired(names, rules)
  missing = [n for n in names if n is not None and n not in got]
  if rules and missing and fallback == "RAISE_ERROR":
    expect_raises(ValueError, go, f"{case}: names {missing} have no rule")
    cov.outcome("raised")
  else:
    y = go()
    require(np.array_equal(np.asarray(y), np.asarray(x)), f"{case}: the values changed")
    require_eq((y.shape, y.dtype), (x.shape, x.dtype), f"{case}: shape and dtype")
    if not rules or where == "none" or (missing and fallback == "NO_CONSTRAINT"):
      require(single(y), lambda: f"{case}: constrained to {y.sharding}")
      cov.outcome("unconstrained")
    else:
      spec = define(names, rules)
      require(has_layout(y, mesh, spec), lambda: f"{case}: layout {y.sharding}, the rules say {spec}")
      cov.outcome("constrained")
  require_eq(spmd.get_logical_axis_rules(), (), f"{case}: rules at the end")
  cov.trans()
  cov.state(case)


def gen_layout(tier):
  full = tier == "thorough"
  ns = NAMES if full else [n for n in NAMES if len(n) < 3] + [("a", "b", "u"), ("a", None, "b")]
  wheres = ("none", "explicit", "explicit 42", "global", "both")
  for names, rules, where, fb in itertools.product(ns, RULES, wheres, ("default", "AXIS_IS_UNSHARDED", "RAISE_ERROR", "NO_CONSTRAINT")):
    for source in ("ambient", "explicit") + (("explicit over ambient",) if len(names) == 2 or full else ()):
      yield names, rules, source, where, fb, False
  for names, rules, where, fb in itertools.product(ns if full else [("a", "b"), ("a", None), ("u", "b")], RULES, ("none", "explicit", "global"), ("default", "RAISE_ERROR", "NO_CONSTRAINT")):
    yield names, rules, "ambient", where, fb, True


# -- trees of specs ------------------------------------------------------------------------------------------------------------

SPECS = {"ab": ("a", "b"), "ba": ("b", "a"), "none": None, "an": ("a", None), "P": PartitionSpec("a", "b"), "empty": ()}


def run_tree(case, cov):
  specs, nested, where = case
  mesh = mesh_of("24")
  rules = (("a", "x"), ("b", "y"))
  x = data(("a", "b"))
  leaf = lambda n: {"k": x + 1, "l": [x + 2]} if nested else x
  tree = {f"p{i}": leaf(i) for i in range(len(specs))}
  spec = {f"p{i}": SPECS[s] for i, s in enumerate(specs)}
  kw = {"mesh": mesh} if where == "explicit" else {}
  with contextlib.ExitStack() as es:
    if where == "global":
      es.enter_context(mesh)
    out = nnx.with_logical_constraint(tree, spec, rules=rules, **kw)
  require_eq(jax.tree_util.tree_structure(out), jax.tree_util.tree_structure(tree), f"{case}: structure")
  for i, s in enumerate(specs):
    for got, want in zip(jax.tree_util.tree_leaves(out[f"p{i}"]), jax.tree_util.tree_leaves(tree[f"p{i}"])):
      require(np.array_equal(np.asarray(got), np.asarray(want)), f"{case}: values of p{i}")
      if where == "none" or SPECS[s] is None:
        require(single(got), lambda: f"{case}: p{i} constrained to {got.sharding}")
      else:
        require(has_layout(got, mesh, define(tuple(SPECS[s]), rules)), lambda: f"{case}: layout of p{i}: {got.sharding}")
  require(nnx.with_logical_constraint(tree, None, rules=rules, **kw) is tree, f"{case}: no specs at all")
  cov.trans()
  cov.state(case)


def gen_tree(tier):
  for n in (1, 2, 3):
    for specs in itertools.product(SPECS, repeat=n):
      for nested in (False, True):
        for where in ("none", "explicit", "global"):
          yield specs, nested, where


# -- partitioned initializers and variables ----------------------------------------------------------------------------------------


def plain_init(key, shape, dtype=jnp.float32):
  return jax.random.normal(key, shape, dtype)


class Mod(nnx.Module):
  def __init__(self, init, kw, ctx):
    key = ctx.make_rng("params")
    self.w = nnx.Param(init(key, (8, 8), dtype=jnp.float32) if kw else init(key, (8, 8), jnp.float32))

  def __call__(self, x):
    return x @ self.w


def run_init(case, cov):
  names, rules, source, at_init, at_read, use, kw = case
  mesh = mesh_of("24")
  args = {}
  if at_init == "explicit":
    args["mesh"] = mesh
  if source == "explicit":
    args["rules"] = rules
  ambient = rules if source == "ambient" else (("a", "y"), ("b", "x"))
  init = nnx.with_logical_partitioning(plain_init, names, note="n", **args)
  ref = np.asarray(plain_init(nnx.context(0).make_rng("params"), (8, 8)))
  base = Mod(plain_init, False, nnx.context(0))

  def scope(kind):
    es = contextlib.ExitStack()
    if kind == "global":
      es.enter_context(mesh)
    if kind != "bare":
      es.enter_context(nnx.logical_axis_rules(ambient))
    return es
  with scope("bare" if at_init == "bare" else at_init):
    m = Mod(init, kw, nnx.context(0))
  var = m.get_state()["w"]
  require(type(var) is nnx.Param, f"{case}: the variable is a {type(var).__name__}")
  require_eq((var.sharding, var.note), (names, "n"), f"{case}: metadata")
  require(np.array_equal(np.asarray(var.value), ref), f"{case}: the initializer returned other values")
  require_eq(tuple(nnx.get_partition_spec(m.get_state())["w"]), names, f"{case}: partition spec")
  init_rules = rules if source == "explicit" or at_init != "bare" else ()
  on_mesh = at_init in ("global", "explicit") and init_rules
  if on_mesh:
    require(has_layout(var.value, mesh, define(names, init_rules)), lambda: f"{case}: layout {var.value.sharding} after initialization")
  else:
    require(single(var.value), lambda: f"{case}: layout {var.value.sharding} after initialization")
  if use == "clone":
    m = m.clone()
  elif use == "merge":
    state, md = m.partition()
    m = md.merge(state)
  elif use == "updated":
    m.w = jnp.asarray(ref)
    on_mesh = False
  with scope(at_read):
    v = m.w
    y = m(jnp.ones((2, 8)))
    z = jax.jit(lambda s, x: m.partition()[1].apply(s)(x)[0])(m.get_state(), jnp.ones((2, 8)))
  require(np.array_equal(np.asarray(v), ref), f"{case}: reading gives other values")
  for r in (y, z):
    require(np.allclose(np.asarray(r), np.ones((2, 8)) @ ref, rtol=1e-5, atol=1e-5), f"{case}: computing with the variable gives other values")
  read_rules = rules if source == "explicit" or at_read != "bare" else ()
  if (at_read == "global" or at_init == "explicit") and read_rules:
    require(has_layout(v, mesh, define(names, read_rules)), lambda: f"{case}: read with layout {v.sharding}")
  elif on_mesh:
    require(has_layout(v, mesh, define(names, init_rules)), lambda: f"{case}: read with layout {v.sharding}")
  else:
    require(single(v), lambda: f"{case}: read with layout {v.sharding}")
  require(np.allclose(np.asarray(m(jnp.ones((2, 8)))), np.asarray(base(jnp.ones((2, 8)))), rtol=1e-5, atol=1e-5), f"{case}: differs from the module without partitioning")
  cov.trans(4)
  cov.state(case)


def gen_init(tier):
  rules = ((("a", "x"), ("b", "y")), (("a", "y"),), (("b", ("x", "y")), ("a", "x")), (("u", "x"),))
  for names, r, source, at_init, at_read, use, kw in itertools.product((("a", "b"), ("a", None), (None, "b")), rules, ("ambient", "explicit"), ("bare", "rules", "global", "explicit"),
                                                                        ("bare", "rules", "global"), ("plain", "clone", "merge", "updated"), (False, True)):
    if kw and use != "plain":
      continue
    yield names, r, source, at_init, at_read, use, kw


SECTIONS = [Section("scopes", gen_scopes, run_scopes), Section("layout", gen_layout, run_layout), Section("trees", gen_tree, run_tree),
            Section("variables", gen_init, run_init), Section("threads", gen_threads, run_threads, timeout=600)]
