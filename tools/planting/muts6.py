from muts import HEADER, MOD, CON, CTX, STA, PAR, TRF, PYT, REP, TRC, IDS, HLP, SPM, DCL, LIN, NRM, STO, DTY
NOD, ACT, INI = "nnx/nodes.py", "nnx/nn/activations.py", "nnx/nn/initializers.py"
M = {}
def mut(id, prop, edits, needs, breaks, demo):
  assert id not in M
  M[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

BASE = '''
class Mod(nnx.Module):
  def __init__(self, **kw):
    for k, v in kw.items():
      setattr(self, k, v)
  def run(self, f, *a, **k):
    return f(self, *a, **k)
'''
mut("C01-flag-restored", "C01", [(MOD, '''  vars(module)["_module__state"] = ModuleState.from_tuple(moduledef.module_state)

  return module''', '''  vars(module)["_module__state"] = ModuleState()

  return module''')],
 "a module that is split while init runs", "the merged module is no longer initializing", BASE + '''
m = Mod(w=nnx.Param(1))
got = m.init.run(lambda s: s.partition().merge().is_initializing)
assert got is True, got
''')
mut("C03-not-tuple", "C03", [(PAR, '''  def __init__(self, collection_filter: Filter):
    self.predicate = to_predicate(collection_filter)

  def __call__(self, path: Path, x: tp.Any):
    return not self.predicate(path, x)''', '''  def __init__(self, collection_filter: Filter):
    self.predicate = to_predicate(collection_filter)

  def __call__(self, path: Path, x: tp.Any):
    predicates = getattr(self.predicate, "predicates", (self.predicate,))
    return not any(predicate(path, x) for predicate in predicates)''')],
 "Not around an All filter", "Not(All(a, b)) means 'neither a nor b'", BASE + '''
from nnx.partitioning import Not, All
m = Mod(w=nnx.Param(jnp.ones(2)), b=nnx.BatchStat(jnp.ones(2)))
s = m.filter(Not(All(nnx.Param, lambda p, v: p == "zzz")))
assert sorted(s) == ["b", "w"], sorted(s)
''')
mut("C04-pure-rest", "C04", [(MOD, '''    for popped_state in popped:
      rest = rest - popped_state
''', '''    for popped_state in popped:
      rest = rest - popped_state if popped_state is popped[0] else rest
''')],
 "a pure module and two filters", "only the entries of the first filter are removed", BASE + '''
m = Mod(w=nnx.Param(1), b=nnx.BatchStat(2), c=nnx.Cache(3))
(a, b), rest = m.partition().pop_state(nnx.Param, nnx.BatchStat)
assert list(rest.get_state()) == ["c"], rest
''')
mut("C04-visited-late", "C04", [(MOD, '''      if predicate(path, value):
        state[path] = value
        delattr(module, name)
        break''', '''      if predicate(path, value):
        state[path] = value
        delattr(module, name)
        break
      if state:
        break''')],
 "two filters, and the first one has matched something before", "entries of later filters stay", BASE + '''
m = Mod(a=nnx.Param(1), b=nnx.BatchStat(2))
p, s = m.pop_state(nnx.Param, nnx.BatchStat)
assert list(s) == ["b"] and not hasattr(m, "b")
''')
mut("C05-nested-new", "C05", [(MOD, '''  if len(path_parts) == 1:
    # not setattr''', '''  if len(path_parts) == 1 or path_parts[0] not in vars(module):
    # not setattr''')],
 "an update with a path through a submodule that does not exist", "the value is written to an attribute with the submodule's name", BASE + '''
m = Mod(a=Mod(w=nnx.Param(1)))
try:
  m.update_state(nnx.State({"zz/w": nnx.Param(3)}))
except Exception:
  pass
assert not hasattr(m, "zz")
''')
mut("C05-pure-order", "C05", [(MOD, '''    if isinstance(self.states, tuple):
      states = (*self.states, *states)
    else:
      states = (self.states, *states)
''', '''    if isinstance(self.states, tuple):
      states = (*states, *self.states)
    else:
      states = (self.states, *states)
''')],
 "updating a pure module that holds several states", "the current values win", BASE + '''
m = Mod(w=nnx.Param(1), b=nnx.BatchStat(2))
p = m.partition(nnx.Param, ...).update_state(nnx.State({"w": nnx.Param(5)}))
assert p.merge().w == 5
''')
mut("C06-update-alias", "C06", [(MOD, '''    if isinstance(updates, Pure):
      updates = updates.states
    elif isinstance(updates, Module):
      assert type(self) == type(updates)
      updates = _get_module_state(updates)
''', '''    if isinstance(updates, Pure):
      updates = updates.states
    elif isinstance(updates, Module):
      assert type(self) == type(updates)
      updates = _get_module_state(updates)
      for path, value in updates.items():
        if "/" not in path and path not in vars(self):
          vars(self)[path] = value
'''), (MOD, '''      vars_dict[name] = vars_dict[name].replace(value=value)
''', '''      if vars_dict[name] is not value:
        vars_dict[name] = vars_dict[name].replace(value=value)
''')],
 "updating a module from another module that has an attribute the first has not, then a change in place of a metadata", "both modules hold the same variable object", BASE + '''
a, b = Mod(w=nnx.Param(1)), Mod(w=nnx.Param(2), n=nnx.Cache(3))
a.update_state(b)
assert a.n == 3
assert vars(a)["n"] is not vars(b)["n"]
''')
mut("C07-getitem-proxy", "C07", [(MOD, '''    return CallableProxy(self._proxy_context, self._proxy_callable[key])
''', '''    return CallableProxy(self._proxy_context, self._proxy_callable[key if not isinstance(key, int) else abs(key)])
''')],
 "a functional call with a negative index", "another item is called", '''
s = nnx.Sequence([lambda x: x + 1, lambda x: x * 10, lambda x: x - 1])
y, _ = s.apply[-1](5)
assert y == 4, y
''')
mut("C08-replace-metadata", "C08", [(CON, '''        kwargs["value"] = value.value

    attributes = vars(self).copy()''', '''        kwargs = {"value": value.value}

    attributes = vars(self).copy()''')],
 "replace with a variable as the value and new metadata at once", "the metadata is ignored", '''
v = nnx.Param(1, sharding=("a",))
r = v.replace(value=nnx.Param(2, sharding=("a",)), sharding=("b",))
assert r.value == 2 and r.sharding == ("b",)
''')
mut("C08-with-metadata-wins", "C08", [(CON, '''      metadata.update(value.metadata)
''', '''      metadata = {**value.metadata, **metadata}
''')],
 "an initializer with metadata whose name is also given by the constructor: the explicit None of Variable", "the sharding of the initializer is lost", '''
init = nnx.with_metadata(lambda: jnp.ones((2, 2)), sharding=("a", "b"))
assert nnx.Param(init()).sharding == ("a", "b")
''')
mut("C09-hasattr-vars", "C09", [(MOD, '''    if hasattr(self, name):
      variable = vars(self)[name]
      if not isinstance(variable, containers.Variable):''', '''    if name in vars(self):
      variable = vars(self)[name]
      if not isinstance(variable, containers.Variable):''')],
 "a class attribute or method with the sown name", "sowing over a method is accepted and hides it", BASE + '''
class M2(Mod):
  def act(self): return 1
m = M2()
try:
  m.sow(nnx.Intermediate, "act", 1)
except Exception:
  pass
assert "act" not in vars(m)
''')
mut("C09-copy-value", "C09", [(MOD, '''      setattr(self, name, variable_type((value,)))''', '''      setattr(self, name, variable_type(value if isinstance(value, tuple) else (value,)))''')],
 "a first value that is itself a tuple", "the tuple is recorded as several values", BASE + '''
m = Mod()
m.sow(nnx.Intermediate, "h", (1, 2))
assert m.h == ((1, 2),), m.h
''')
mut("C10-del-level", "C10", [(MOD, '''  def __delattr__(self, name: str) -> None:
    if not self._module__state.trace_state.is_valid():''', '''  def __delattr__(self, name: str) -> None:
    if self._module__state.trace_state.nnx_trace is not tracers.current_nnx_trace():''')],
 "deletion inside a plain jax transform, which has a jax trace but no nnx trace", "attributes of an outer module can be deleted there", BASE + '''
m = Mod(w=nnx.Param(1.0), z=nnx.Param(2.0))
def f(x):
  del m.z
  return x
try:
  jax.jit(f)(1.0)
except Exception:
  pass
assert hasattr(m, "z")
''')
mut("C11-partition-jax-only", "C11", [(CTX, '''    if not self._trace_state.is_valid():
      raise errors.TraceContextError("Cannot use Context from a different trace level")

    def fork''', '''    if self._rngs and not self._trace_state.is_valid():
      raise errors.TraceContextError("Cannot use Context from a different trace level")

    def fork''')],
 "a context with flags only, used at another level", "splitting it there is accepted", '''
ctx = nnx.context(flags={"train": True})
def f(x):
  ctx.partition()
  return x
try:
  jax.jit(f)(1.0)
except Exception as e:
  assert type(e).__name__ == "TraceContextError", e
else:
  raise AssertionError("accepted")
''')
mut("C12-lower-ctx", "C12", [(TRF, '''    if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.Context):
      kwargs["ctx"] = kwargs["ctx"].partition()

    return self.jitted_fn.lower''', '''    if "ctx" in kwargs:
      kwargs["ctx"] = None

    return self.jitted_fn.lower''')],
 "lowering a function that uses its context", "the context is missing", BASE + '''
m = Mod(w=nnx.Param(jnp.float32(1)))
@nnx.jit
def f(m, *, ctx):
  return jax.random.normal(ctx.make_rng("params")) * m.w
f.lower(m, ctx=nnx.context(0))
''')
mut("C12-out-shardings", "C12", [(TRF, '''  if out_shardings is not UNSPECIFIED:
    jit_kwargs["out_shardings"] = out_shardings
''', '''  if out_shardings is not UNSPECIFIED and in_shardings is not UNSPECIFIED:
    jit_kwargs["out_shardings"] = out_shardings
''')],
 "out_shardings without in_shardings", "they are ignored", '''
import os
''' + BASE + '''
from jax.sharding import Mesh, NamedSharding, PartitionSpec, SingleDeviceSharding
import numpy as np
m = Mod(w=nnx.Param(jnp.ones((2,))))
mesh = Mesh(np.array(jax.devices()[:1]), ("x",))
s = NamedSharding(mesh, PartitionSpec("x"))
f = nnx.jit(lambda m: m.w * 2, stateful=False, out_shardings=s)
assert f(m).sharding == s, f(m).sharding
''')
mut("C12-stateless-update", "C12", [(TRF, '''      if self.stateful:
        updates = module.get_state()
        out = (updates, out)

      return out

    self.jitted_fn = jitted_fn''', '''      if self.stateful:
        updates = module.get_state() - pure_module.get_state() or module.get_state()
        out = (updates, out)

      return out

    self.jitted_fn = jitted_fn''')],
 "a jitted call that creates an attribute and changes another", "only the new attribute is carried out", BASE + '''
m = Mod(w=nnx.Param(jnp.float32(1)))
@nnx.jit
def f(m):
  m.n = nnx.Cache(jnp.float32(7))
  m.w = m.w + 1
f(m)
assert m.w == 2 and m.n == 7, (m.w, m.n)
''')
mut("C13-submodule-names", "C13", [(MOD, '''        and self._submodules == other._submodules
''', '''        and all(
            a[1] == b[1] for a, b in zip(self._submodules, other._submodules)
        )
''')],
 "modules whose submodules differ only by name or number", "their definitions are equal", BASE + '''
a = Mod(x=Mod()).get_module_def(); b = Mod(y=Mod()).get_module_def()
assert a != b
''')
mut("C14-holomorphic", "C14", [(TRF, '''      holomorphic=holomorphic,
      allow_int=allow_int,
      reduce_axes=reduce_axes,
  )
  ref_grad''', '''      holomorphic=holomorphic and not stateful,
      allow_int=allow_int,
      reduce_axes=reduce_axes,
  )
  ref_grad''')],
 "holomorphic=True in the default, stateful form", "complex parameters are refused", BASE + '''
m = Mod(w=nnx.Param(jnp.asarray(1 + 2j)))
g = nnx.grad(lambda m: m.w ** 2, holomorphic=True)(m)
assert abs(complex(g["w"].value) - (2 + 4j)) < 1e-5
''')
mut("C14-wrt-all", "C14", [(TRF, '''    (diff, nondiff), moduledef = module.partition(self.predicate, ...)
''', '''    (diff, nondiff), moduledef = module.partition(self.predicate, ...)
    if not nondiff:
      (nondiff, diff), moduledef = module.partition(containers.BatchStat, ...)
''')],
 "a filter that selects the whole state, with batch statistics", "batch statistics are not differentiated", BASE + '''
m = Mod(w=nnx.Param(jnp.float32(2)), s=nnx.BatchStat(jnp.float32(3)))
g = nnx.grad(lambda m: m.w * m.s, wrt=...)(m)
assert sorted(g) == ["s", "w"], g
''')
mut("C15-class-out-axes", "C15", [(TRF, '''          in_axes=in_axes,
          out_axes=out_axes,
          length=length,
          reverse=reverse,
          unroll=unroll,
          data_transform=data_transform,
          metadata_params=metadata_params,
      )

    return _create_scan''', '''          in_axes=in_axes,
          length=length,
          reverse=reverse,
          unroll=unroll,
          data_transform=data_transform,
          metadata_params=metadata_params,
      )

    return _create_scan''')],
 "the class form with out_axes", "out_axes is ignored", '''
class L(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.zeros(()))
  def __call__(self, c, x): return c, x
s = nnx.Scan(L, variable_axes={nnx.Param: 0}, length=3, out_axes=1)()
_, y = s(0., jnp.zeros((3, 2)))
assert y.shape == (2, 3), y.shape
''')
mut("C15-negative-axes-in", "C15", [(TRF, '''      lambda axis, node: jax.tree_map(lambda x: jnp.moveaxis(x, axis, 0), node),
      options.in_axes,''', '''      lambda axis, node: jax.tree_map(
          lambda x: jnp.moveaxis(x, axis if axis >= 0 else axis + node.ndim, 0), node
      ),
      options.in_axes,''')],
 "a negative in_axes over a tree of inputs", "the call fails, or takes the wrong axis", '''
class L(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.zeros(()))
  def __call__(self, c, x): return c + x["a"].sum() + x["b"], None
s = nnx.Scan(L, variable_axes={nnx.Param: 0}, length=3, in_axes=-1)()
c, _ = s(0., {"a": jnp.ones((2, 3)), "b": jnp.ones((3,))})
assert c == 9, c
''')
mut("C15-rest-unroll", "C15", [(TRF, '''    if options.reverse:
      first, rest = slice(-1, None), slice(None, -1)''', '''    if options.reverse and length > 2:
      first, rest = slice(-1, None), slice(None, -1)''')],
 "a reversed scan of length two that creates a variable", "the layers run in the wrong order", '''
class L(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.zeros(()))
  def __call__(self, c, x):
    self.h = nnx.Cache(x)
    return c * 10 + x, c
s = nnx.Scan(L, variable_axes={nnx.Param: 0}, length=2, reverse=True)()
c, y = s(jnp.float32(0), jnp.array([1., 2.]))
assert c == 21 and y.tolist() == [2., 0.], (c, y)
''')
mut("C16-class-policy", "C16", [(TRF, '''          static_argnums=static_argnums,
          policy=policy,
      )

    return create_remat''', '''          static_argnums=static_argnums,
      )

    return create_remat''')],
 "the class form with a policy", "the policy is ignored", '''
import jax.ad_checkpoint
from jax.ad_checkpoint import saved_residuals if False else checkpoint_name
'''.replace("from jax.ad_checkpoint import saved_residuals if False else checkpoint_name\n", "") + '''
class L(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.float32(2))
  def __call__(self, x): return jnp.sin(x * self.w)
pol = jax.checkpoint_policies.everything_saveable
r = nnx.Remat(L, policy=pol)()
jaxpr = str(jax.make_jaxpr(lambda x: r.clone()(x))(1.0))
assert "everything_saveable" in jaxpr, jaxpr
''')
mut("C16-class-static", "C16", [(TRF, '''    self.options = RematOptions(
        prevent_cse=prevent_cse,
        static_argnums=static_argnums,''', '''    self.options = RematOptions(
        prevent_cse=prevent_cse,
        static_argnums=static_argnums if isinstance(static_argnums, int) else static_argnums[:1],''')],
 "the class form with two static arguments", "the second one is traced", '''
class L(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.float32(2))
  def __call__(self, x, a, b, **k):
    return x * self.w if a and b else x
r = nnx.Remat(L, static_argnums=(1, 2))()
assert r(jnp.float32(3), True, True) == 6
''')
mut("C17-flags-shared-dict", "C17", [(CTX, '''    fold_data = _stable_hash(stream.count_path + (stream.count,))
    stream.count += 1
''', '''    fold_data = _stable_hash(stream.count_path[-3:] + (stream.count,))
    stream.count += 1
''')],
 "contexts that are forked four levels deep", "keys of different forks repeat", '''
def fork(c): return c.partition().merge()
root = nnx.context(0)
def deep(c, n):
  for _ in range(n): c = fork(c)
  return c
a = deep(root, 4).make_rng("params"); b = deep(root, 4).make_rng("params")
assert a.tolist() != b.tolist()
''')
mut("C18-unflatten-containers", "C18", [(PYT, '''    pytree.__dict__.update(zip(node_names, node_values))
    pytree.__dict__.update(static_fields)''', '''    pytree.__dict__.update(static_fields)
    for name, value in zip(node_names, node_values):
      if value is not None:
        pytree.__dict__[name] = value''')],
 "unflattening with None in place of a child, as jax itself does", "the field disappears", '''
class P(nnx.Pytree):
  def __init__(self): self.a = jnp.ones(2)
l, td = jax.tree_util.tree_flatten(P(), is_leaf=lambda x: isinstance(x, jax.Array))
p = jax.tree_util.tree_unflatten(td, [None])
assert p.a is None
''')
mut("C19-fail-leaves-mutable", "C19", [(PYT, '''  vars(obj)["_pytree__is_mutable"] = True
  try:
    yield
  finally:
    del vars(obj)["_pytree__is_mutable"]
''', '''  vars(obj)["_pytree__is_mutable"] = True
  yield
  del vars(obj)["_pytree__is_mutable"]
''')],
 "a constructor that fails after it has passed the object on", "the object stays mutable", '''
kept = []
class P(nnx.Pytree):
  def __init__(self):
    self.a = 1
    kept.append(self)
    raise RuntimeError
try: P()
except RuntimeError: pass
try: kept[0].a = 2
except AttributeError: pass
assert kept[0].a == 1
''')
mut("C20-restore-none", "C20", [(PYT, '''      updates[name] = serialization.from_state_dict(
          getattr(pytree, name), value_state, name=name
      )''', '''      if value_state is None:
        continue
      updates[name] = serialization.from_state_dict(
          getattr(pytree, name), value_state, name=name
      )''')],
 "a state dictionary that holds None for a field which has a value", "the old value stays", '''
from flax import serialization
class P(nnx.Pytree):
  def __init__(self, v): self.a = nnx.Node(v)
q = serialization.from_state_dict(P(1), {"a": None})
assert q.a is None
''')
mut("C21-step-from-opt", "C21", [(HLP, '''    step = self.step + 1
''', '''    step = jnp.asarray(int(self.step) + 1) if not isinstance(self.step, jnp.ndarray) or self.step.dtype == jnp.int32 else self.step + 1
''')],
 "apply_gradients under jit", "it fails with a concretization error", BASE + '''
import optax
m = Mod(w=nnx.Param(jnp.float32(1)))
(p,), d = m.partition(nnx.Param), None
''' .replace('(p,), d = m.partition(nnx.Param), None\n', '') + '''
params, d = m.partition(nnx.Param)
ts = nnx.TrainState(d, params=params, tx=optax.sgd(0.1))
ts2 = jax.jit(lambda t: t.apply_gradients(t.params))(ts)
assert ts2.step == 1
''')
mut("C21-kwargs-first", "C21", [(HLP, '''    return self.replace(
        params=params,
        opt_state=opt_state,
        step=step,
        **kwargs,
    )''', '''    return self.replace(
        params=params,
        opt_state=opt_state,
        step=step,
    ).replace(**{k: v for k, v in kwargs.items() if v is not None})''')],
 "an extra field that apply_gradients is to set to None", "it keeps its value", BASE + '''
import optax
m = Mod(w=nnx.Param(jnp.float32(1)))
params, d = m.partition(nnx.Param)
ts = nnx.TrainState(d, params=params, tx=optax.sgd(0.1), ex=5)
assert ts.apply_gradients(params, ex=None).ex is None
''')
mut("C22-init-false-default", "C22", [(PYT, '''        if field.name not in vars(obj) and not hasattr(cls, field.name):
          continue
        value = vars(obj).get(field.name, getattr(cls, field.name, None))''', '''        if field.name not in vars(obj):
          continue
        value = vars(obj).get(field.name, getattr(cls, field.name, None))''')],
 "a field with init=False and a class default", "the field is not wrapped", '''
@nnx.dataclass
class P(nnx.Pytree):
  a: int = nnx.node_field(default=3, init=False)
assert jax.tree_util.tree_leaves(P()) == [3]
''')
mut("C23-rules-tuple-of-axes", "C23", [(SPM, '''  new = set(jax.tree_util.tree_leaves(new_assignment))
''', '''  new = set(jax.tree_util.tree_leaves(new_assignment)[:1])
''')],
 "a rule with two mesh axes of which the second is taken", "a mesh axis is used twice", '''
from nnx import spmd
s = spmd.logical_to_mesh_axes(("a", "b"), (("a", "X"), ("b", ("Y", "X"))))
assert tuple(s) == ("X", None), s
''')
mut("C24-negative-axis-kinds", "C24", [(SPM, '''    axis += getattr(x.value, "ndim", len(x.sharding)) + 1
''', '''    axis += len(x.sharding) + 1
''')],
 "a negative scan axis and a sharding shorter than the rank", "the name is put at the wrong place", '''
class L(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.zeros((2, 3)), sharding=("a",))
  def __call__(self, c, x): return c, x
s = nnx.Scan(L, variable_axes={nnx.Param: -1}, length=4, metadata_params={nnx.PARTITION_NAME: "l"})()
assert vars(s.scan_module)["w"].sharding == ("a", None, "l"), vars(s.scan_module)["w"].sharding
''')
mut("C25-eq-type", "C25", [(IDS, '''    return isinstance(other, UUID) and other.id == self.id
''', '''    return isinstance(other, UUID) and hash(other) == hash(self)
'''), (IDS, '''    return hash(self.id)
''', '''    return self.id & 0xFF
''')],
 "more than 256 modules", "modules are confused", BASE + '''
ms = [Mod(w=nnx.Param(i)) for i in range(300)]
top = Mod(**{f"m{i}": m for i, m in enumerate(ms)})
assert len(top.get_state()) == 300
''')
mut("C27-dot-general-precision", "C27", [(LIN, '''        (((inputs.ndim - 1,), (0,)), ((), ())),
        precision=self.precision,''', '''        (((inputs.ndim - 1,), (0,)), ((), ())),
        precision=None if self.use_bias else self.precision,''')],
 "a precision together with a bias", "the precision is ignored", '''
seen = []
def dg(a, b, dn, precision=None):
  seen.append(precision)
  return jax.lax.dot_general(a, b, dn, precision=precision)
l = nnx.Linear(2, 3, precision="highest", dot_general=dg, ctx=nnx.context(0))
l(jnp.ones((1, 2)))
assert seen == ["highest"], seen
''')
mut("C28-mask-after-promotion", "C28", [(LIN, '''    if self.mask_fn is not None:
      kernel = self.mask_fn(kernel)
''', '''    if self.mask_fn is not None and self.feature_group_count == 1:
      kernel = self.mask_fn(kernel)
''')],
 "a mask together with feature groups", "the mask is ignored", '''
c = nnx.Conv(4, 4, (3,), feature_group_count=2, mask_fn=lambda k: k * 0, ctx=nnx.context(0))
assert (c(jnp.ones((1, 5, 4))) == 0).all()
''')
mut("C28-input-dilation-circular", "C28", [(LIN, '''    padding_lax = canonicalize_padding(self.padding, len(kernel_size))
    if padding_lax == "CIRCULAR":''', '''    padding_lax = canonicalize_padding(self.padding, len(kernel_size))
    if padding_lax == "SAME" and set(input_dilation) == {2}:
      padding_lax = "VALID"
    if padding_lax == "CIRCULAR":''')],
 "SAME padding with an input dilation of two", "the padding is VALID", '''
c = nnx.Conv(1, 1, (3,), input_dilation=2, ctx=nnx.context(0))
assert c(jnp.ones((1, 5, 1))).shape[1] == 9, c(jnp.ones((1, 5, 1))).shape
''')
mut("C29-axis-groups", "C29", [(NRM, '''        x, self.reduction_axes, self.dtype, self.axis_name, self.axis_index_groups
    )''', '''        x, self.reduction_axes, self.dtype, self.axis_name
    )''')],
 "layer normalization with groups of a mapped axis", "the statistics are averaged over the whole axis", '''
l = nnx.LayerNorm(2, axis_name="b", axis_index_groups=[[0, 1], [2, 3]], use_bias=False, use_scale=False, ctx=nnx.context(0))
seen = []
import jax.numpy as jnp
jx = str(jax.make_jaxpr(jax.vmap(l.__call__, axis_name="b"), axis_env=None)(jnp.ones((4, 2)))) if False else None
x = jnp.arange(8.).reshape(4, 2)
try:
  y = jax.vmap(lambda x: l(x), axis_name="b")(x)
except NotImplementedError:
  y = None
if y is not None:
  h = x.reshape(2, 4); m = h.mean(1, keepdims=True); v = h.var(1, keepdims=True)
  want = ((h - m) / jnp.sqrt(v + 1e-6)).reshape(4, 2)
  assert jnp.allclose(y, want, atol=1e-4), (y, want)
''')
mut("C29-momentum-dtype", "C29", [(NRM, '''      self.mean = self.momentum * self.mean + (1 - self.momentum) * mean
''', '''      self.mean = self.mean + (1 - self.momentum) * (mean - self.mean) * (self.momentum < 1.0 or 0.5)
'''), (NRM, '''      self.var = self.momentum * self.var + (1 - self.momentum) * var
''', '''      self.var = self.momentum * self.var + (1 - self.momentum) * jnp.where(self.momentum > 0, var, self.var + var)
''')],
 "a momentum of zero", "the running variance keeps the old value", '''
b = nnx.BatchNorm(2, momentum=0.0, use_running_average=False, ctx=nnx.context(0))
x = jnp.array([[0., 2.], [2., 6.]])
b(x)
assert jnp.allclose(b.var, x.var(0)), b.var
''')
mut("C30-duplicate-dims", "C30", [(STO, '''    for dim in self.broadcast_dims:
      broadcast_shape[dim] = 1
''', '''    for dim in self.broadcast_dims[:2]:
      broadcast_shape[dim] = 1
''')],
 "three broadcast dimensions", "the third one is not shared", '''
d = nnx.Dropout(0.5, broadcast_dims=(0, 1, 2), deterministic=False)
y = d(jnp.ones((3, 4, 5, 2)), ctx=nnx.context(dropout=0))
assert (y == y[:1, :1, :1]).all()
''')
mut("C31-negative-bound", "C31", [(HLP, '''    index = key + len(self) if key < 0 else key
    if not 0 <= index < len(self):''', '''    index = key % len(self) if key < 0 else key
    if not 0 <= index < len(self):''')],
 "a negative index beyond the start", "it wraps around", '''
s = nnx.Sequence([1, 2, 3])
try:
  s[-4]
except IndexError:
  pass
else:
  raise AssertionError
''')
mut("C32-eq-identity", "C32", [(STA, '''    _mapping = {k: v for k, v in self.items() if k not in other}
''', '''    _mapping = {
        k: v for k, v in self.items() if k not in other or other[k] is None
    }
''')],
 "subtracting a state that holds a bare None", "the entry stays", '''
a = nnx.State({"x": 1, "y": 2}); b = nnx.State({"x": None})
assert list(a - b) == ["y"]
''')
mut("C32-flatten-values", "C32", [(STA, '''  state = object.__new__(State)
  state._mapping = dict(zip(keys, leaves))
  return state


jax''', '''  return State((k, v) for k, v in zip(keys, leaves) if v is not None)


jax''')],
 "unflattening a state with None", "the entry is lost", '''
s = nnx.State({"x": jnp.ones(2), "y": jnp.ones(3)})
t = jax.tree_util.tree_map(lambda a: None if a.shape == (2,) else a, s)
assert list(t) == ["x", "y"], t
''')
mut("C33-fallback-partial", "C33", [(SPM, '''    if any(x is _unassigned_axis for x in mesh_axes):
      if fallback''', '''    if all(x is _unassigned_axis for x in mesh_axes):
      if fallback''')],
 "a fallback other than the default and names of which only some match a rule", "the fallback is not applied", '''
from nnx import spmd
import numpy as np
from jax.sharding import Mesh
mesh = Mesh(np.array(jax.devices()[:1]).reshape(1, 1), ("X", "Y"))
try:
  spmd.with_logical_constraint(jnp.ones((2, 2)), ("a", "zz"), rules=(("a", "X"),), mesh=mesh, fallback=spmd.RulesFallback.RAISE_ERROR)
except ValueError as e:
  assert "did not match" in str(e), e
else:
  raise AssertionError
''')
mut("C34-jit-kwargs-ctx", "C34", [(TRF, '''      nnx_trace = tracers.get_top_trace((args, kwargs))
      with''', '''      nnx_trace = tracers.get_top_trace(args)
      with''')],
 "nnx.jit with no positional array argument", "the trace level inside is the outer one", BASE + '''
m = Mod(w=nnx.Param(jnp.float32(1)))
@nnx.jit
def f(m, *, x):
  n = Mod(v=nnx.Param(x))
  n.v = n.v + 1
  return nnx.jit(lambda n, *, y: n.v + y)(n, y=x)
assert f(m, x=jnp.float32(2)) == 5
''')
mut("C35-init-first-visit", "C35", [(MOD, '''    if self._module__state.id in visited:
      return

    visited.add(self._module__state.id)

    if isinstance(self, module_type):
      fn(self)
''', '''    if self._module__state.id in visited:
      return

    if isinstance(self, module_type):
      visited.add(self._module__state.id)
      fn(self)
    elif len(visited) > 0:
      visited.add(self._module__state.id)
''')],
 "a cycle through modules that are not of the wanted type", "for_each does not terminate", BASE + '''
class Z(nnx.Module):
  def __init__(self, **kw):
    for k, v in kw.items(): setattr(self, k, v)
z = Z(); z.me = z
z.for_each(Mod, lambda m: None)
''')
mut("C36-tuple-types", "C36", [(NOD, '''  return isinstance(obj, node_types)
''', '''  return type(obj) in node_types or isinstance(obj, node_types[:8])
''')],
 "a subclass of a type that was registered by the user", "its objects are static", '''
class A:
  pass
class B(A):
  pass
nnx.register_node_type(A) if hasattr(nnx, "register_node_type") else __import__("nnx.nodes").nodes.register_node_type(A)
from nnx import nodes
for i in range(6):
  nodes.register_node_type(type(f"T{i}", (), {}))
class C: pass
class D(C): pass
nodes.register_node_type(C)
assert nodes.is_node(D()) and nodes.is_node(B())
''')
mut("C37-normal-kind", "C37", [(INI, "from jax.nn.initializers import glorot_normal as glorot_normal", "from jax.nn.initializers import he_normal as glorot_normal")],
 "nnx's glorot_normal for a matrix that is not square", "another scale", '''
from nnx.nn import initializers as I
k = jax.random.PRNGKey(0)
assert jnp.allclose(I.glorot_normal()(k, (3, 5)), jax.nn.initializers.glorot_normal()(k, (3, 5)))
''')
