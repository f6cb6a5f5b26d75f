"""C17: RNG keys never repeat and depend only on seed, stream and history."""
import itertools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import nnx

from mc.core import Section, Violation, require, require_eq, expect_raises

RULE = ("every sequence of draws (two streams), failing draws, splits, merges, repeated merges and copies (and contexts built again from the same stream objects) up to the depth bound "
        "over a growing family of contexts; a model gives every draw a symbolic identity (seed, stream, position in the split "
        "tree); over the whole run, equal identities must give equal keys and different identities different keys; states = "
        "symbolic stream positions reached, transitions = operations")
ASSUMPTIONS = ["streams of one root have different seeds", "Context.copy shares its streams with the original (a copy with its own "
               "counters would repeat keys)", "32-bit hash collisions outside the explored positions are not excluded"]
BOUNDS = {"quick": "all operation sequences of length 5 over up to 4 contexts; length 4 with contexts that are built from the same stream objects", "thorough": "all sequences of length 6; length 5 with given streams"}

SEEDS = {"params": 11, "drop": 22}
FLAGS = {"t": True, "f": False}


class MStream:
  def __init__(self, name, path=()):
    self.name, self.path, self.count = name, path, 0

  def draw(self):
    self.count += 1
    return (self.name, self.path, self.count - 1)

  def fork(self):
    self.count += 1
    return (self.name, self.path + (self.count - 1,))


_seen_id, _seen_key = {}, {}


def record(ident, key, what):
  key = tuple(np.asarray(key).ravel().tolist())
  if ident in _seen_id and _seen_id[ident] != key:
    raise Violation(f"{what}: the key of {ident} differs between histories")
  if key in _seen_key and _seen_key[key] != ident:
    raise Violation(f"{what}: {ident} and {_seen_key[key]} give the same key")
  _seen_id[ident] = key
  _seen_key[key] = ident


def queries(c, what):
  require(c.has_rng("params") and c.has_rng("drop") and not c.has_rng("zzz"), f"{what}: stream names")
  require(c.get_flag("t") is True and c.get_flag("f") is False and c.get_flag("z") is None, f"{what}: flags")
  require(c.has_flag("t") and c.has_flag("f") and not c.has_flag("z"), f"{what}: flags")


class World:
  def __init__(self, given=False):
    self.given = given
    self.root = {n: MStream(n) for n in SEEDS}
    if given:  # the contexts are built from stream objects
      self.streams = {n: nnx.contextlib.RngStream(jax.random.PRNGKey(s)) for n, s in SEEDS.items()}
      self.ctxs = [(nnx.context(**self.streams, flags=dict(FLAGS)), self.root)]
    else:
      self.ctxs = [(nnx.context(SEEDS["params"], drop=SEEDS["drop"], flags=dict(FLAGS)), self.root)]
    self.pures = []

  def ops(self):
    for i in range(len(self.ctxs)):
      yield ("draw", i, "params")
      yield ("draw", i, "drop")
      if len(self.pures) < 3:
        yield ("split", i)
      if len(self.ctxs) < 4:
        yield ("copy", i)
    if len(self.ctxs) < 4:
      for j in range(len(self.pures)):
        yield ("merge", j)
        yield ("fmerge", j)
    if self.given and len(self.ctxs) < 4:
      yield ("again", 0)
    yield ("bad", 0)

  def do(self, op, hist):
    kind, i = op[:2]
    if kind == "draw":
      c, m = self.ctxs[i]
      record(m[op[2]].draw(), c.make_rng(op[2]), str(hist))
    elif kind == "split":
      c, m = self.ctxs[i]
      p = c.partition()
      forks = {n: s.fork() for n, s in m.items()}
      require_eq(sorted(p.keys), sorted(SEEDS), f"{hist}: streams of the split")
      self.pures.append((p, forks))
    elif kind == "again":
      self.ctxs.append((nnx.context(self.streams["params"], drop=self.streams["drop"], flags=dict(FLAGS)), self.root))
    elif kind == "copy":
      c, m = self.ctxs[i]
      self.ctxs.append((c.copy(), m))
    elif kind in ("merge", "fmerge"):
      p, forks = self.pures[i]
      if kind == "fmerge":
        leaves, td = jtu.tree_flatten(p)
        p = jtu.tree_unflatten(td, leaves)
        c = p.contextdef.merge(p.keys)
      else:
        c = p.merge()
      self.ctxs.append((c, {n: MStream(n, f[1]) for n, f in forks.items()}))
    elif kind == "bad":
      for c, _ in self.ctxs:
        expect_raises(ValueError, lambda: c.make_rng("zzz"), f"{hist}: unknown stream")


def run(prefix, cov):
  depth, given, prefix = prefix

  def replay(hist):
    w = World(given)
    for k, op in enumerate(hist):
      w.do(op, hist[:k + 1])
    return w

  def go(hist):
    w = replay(hist)
    if len(hist) < depth:
      for op in list(w.ops()):
        go(hist + (op,))
      return
    cov.trans(len(hist))
    # observe every context at the end: flags, names and the next key of each stream
    for c, m in w.ctxs:
      queries(c, str(hist))
      for n in SEEDS:
        record(m[n].draw(), c.make_rng(n), f"{hist} then draw {n}")
    cov.state(tuple((n, s.path, s.count) for _, m in w.ctxs for n, s in m.items()))
    cov.count("histories")
  go(prefix)


def gen(tier, given=False):
  depth = (5 if tier == "quick" else 6) - given

  def go(hist):
    w = World(given)
    for op in hist:
      w.do(op, hist)
    if len(hist) == 3:
      yield (depth, given, hist)
      return
    for op in list(w.ops()):
      yield from go(hist + (op,))
  # built from the model only: which operations exist does not depend on keys
  return list(go(()))


# ---- long runs, deep splits, constructors, transforms

def run_long(case, cov):
  """One stream drawn many times and split in a chain/fan; all keys distinct."""
  kind, n = case
  c = nnx.context(3, drop=4)
  keys = []
  if kind == "draws":
    keys = [c.make_rng("params") for _ in range(n)]
  elif kind == "fan":
    for _ in range(n):
      d = c.partition().merge()
      keys += [d.make_rng("params"), d.make_rng("params")]
      keys.append(c.make_rng("params"))
  elif kind == "chain":
    for _ in range(n):
      c = c.partition().merge()
      keys += [c.make_rng("params"), c.make_rng("params")]
  elif kind == "digits":
    # positions such as (1, 12) and (11, 2) must not be confused
    for i in range(13):
      d = c.partition().merge()
      for j in range(13):
        e = d.partition().merge()
        keys += [e.make_rng("params") for _ in range(3)]
      keys += [d.make_rng("params") for _ in range(13)]
    keys += [c.make_rng("params") for _ in range(n)]
  ks = [tuple(np.asarray(k).tolist()) for k in keys]
  require_eq(len(set(ks)), len(ks), "distinct keys")
  cov.state(case)
  cov.trans(len(ks))


FORMS = {
    "int": lambda s: nnx.context(s), "kw int": lambda s: nnx.context(params=s), "key": lambda s: nnx.context(jax.random.PRNGKey(s)),
    "kw key": lambda s: nnx.context(params=jax.random.PRNGKey(s)), "flags": lambda s: nnx.context(s, flags={"train": True}),
    "other": lambda s: nnx.context(s, drop=s + 100), "other first": lambda s: nnx.context(drop=s + 100, params=s),
    "stream": lambda s: nnx.context(params=nnx.contextlib.RngStream(jax.random.PRNGKey(s))) if hasattr(nnx, "contextlib") else nnx.context(s),
}


def run_forms(case, cov):
  a, b, s, split = case
  x, y = FORMS[a](s), FORMS[b](s)
  for _ in range(2):
    if split:
      x, y = x.partition().merge(), y.partition().merge()
    kx, ky = x.make_rng("params"), y.make_rng("params")
    require_eq(np.asarray(kx).tolist(), np.asarray(ky).tolist(), "the key depends on the form of the constructor")
  z = FORMS[a](s + 1)
  require(np.asarray(z.make_rng("params")).tolist() != np.asarray(FORMS[a](s).make_rng("params")).tolist(), "seeds give equal keys")
  cov.state(case)
  cov.trans(3)


def run_through(case, cov):
  """Names, flags and keys survive passing through transforms."""
  how, flags, ops = case
  # streams in an order that is not the order of their names
  mk = lambda: nnx.context(7, zoo=9, drop=8, apple=3, flags=dict(flags))
  c, r = mk(), mk()
  for o in ops:
    for x in (c, r):
      x.make_rng(o) if o != "split" else x.partition()
  p, q = c.partition(), r.partition()

  def draw(ctx):
    require(ctx.has_rng("params") and ctx.has_rng("drop") and not ctx.has_rng("x"), "stream names inside")
    for n, v in flags:
      require(ctx.get_flag(n) == v and ctx.has_flag(n), "flags inside")
    require(not ctx.has_flag("absent"), "flags inside")
    inner = ctx.partition().merge()
    return [ctx.make_rng("params"), ctx.make_rng("drop"), ctx.make_rng("params"), inner.make_rng("drop")] + [
        x.make_rng(n) for x in (inner, ctx) for n in ("apple", "zoo", "params")]
  want = [np.asarray(k).tolist() for k in draw(q.merge())]
  if how == "jit":
    got = jax.jit(lambda p: draw(p.merge()))(p)
  elif how == "identity":
    got = draw(jax.jit(lambda p: p)(p).merge())
  elif how == "tree_map":
    got = draw(jtu.tree_map(lambda x: x, p).merge())
  elif how == "closure":
    got = jax.jit(lambda: draw(p.merge()))()
  elif how == "def static":
    import functools
    keys, d = p
    got = jax.jit(lambda keys: draw(d.merge(keys)))(keys)
  elif how == "vmap":
    got = [k[0] for k in jax.vmap(lambda keys: draw(p.contextdef.merge(keys)))(jtu.tree_map(lambda k: k[None], p.keys))]
  elif how == "cond":
    got = jax.lax.cond(True, lambda keys: draw(p.contextdef.merge(keys)), lambda keys: draw(p.contextdef.merge(keys)), p.keys)
  require_eq([np.asarray(k).tolist() for k in got], want, f"keys through {how}")
  require_eq(np.asarray(c.make_rng("drop")).tolist(), np.asarray(r.make_rng("drop")).tolist(), "original context afterwards")
  cov.state(case)
  cov.trans(4)


def gen_through(tier):
  return itertools.product(("jit", "identity", "tree_map", "closure", "def static", "vmap", "cond"),
                           ((), (("t", True),), (("t", False), ("u", True))),
                           [o for n in range(3) for o in itertools.product(("params", "drop", "zoo", "split"), repeat=n)])


SECTIONS = [Section("histories", gen, run), Section("given streams", lambda t: gen(t, True), run),
            Section("long", lambda t: [("draws", 300), ("fan", 100), ("chain", 60), ("digits", 170)] + ([("draws", 2000), ("fan", 600), ("chain", 300)] if t == "thorough" else []), run_long),
            Section("constructors", lambda t: itertools.product([f for f in FORMS if f != "stream"], [f for f in FORMS if f != "stream"], (0, 5), (False, True)), run_forms),
            Section("transforms", gen_through, run_through)]
