from muts import HEADER, MOD, CON, CTX, STA, PAR, TRF, PYT, REP, TRC, IDS, HLP, SPM, DCL, LIN, NRM, STO, DTY
M = {}
def mut(id, prop, edits, needs, breaks, demo):
  assert id not in M
  M[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

BASE = '''
class Mod(nnx.Module):
  def __init__(self, **kw):
    for k, v in kw.items():
      setattr(self, k, v)
  def run(self, f):
    return f(self)
'''
mut("C02-case-order", "C02", [(MOD, '''  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
    new_path_parts = (*path_parts, name)''', '''  for name, value in sorted(vars(module).items(), key=lambda x: x[0].lower()):
    new_path_parts = (*path_parts, name)''')],
 "a module shared under two attribute names that order differently with and without regard to case",
 "the canonical path of shared state is not the first in name order, and differs from the definition's order", BASE + '''
s = Mod(w=nnx.Param(1))
assert list(Mod(B=s, a=s).get_state()) == ["B/w"]
''')
mut("C03-rest-arrays", "C03", [(STA, '''    if rest:
      raise ValueError(''', '''    if any(nodes.is_node(v) and not isinstance(v, jax.Array) for v in rest.values()):
      raise ValueError(''')],
 "a partition whose filters leave over nothing but plain jax arrays", "plain arrays are dropped silently by partition", BASE + '''
try:
  Mod(w=nnx.Param(1), a=jnp.ones(2)).get_state().partition(nnx.Param)
except ValueError:
  pass
else:
  raise SystemExit("lost an entry")
''')
mut("C03-empty-tuple", "C03", [(PAR, '''  elif filter is None:
    return Nothing()''', '''  elif not filter and not callable(filter):
    return Everything()
  elif filter is None:
    return Nothing()''')],
 "a tuple filter without members (or None)", "an empty alternative matches everything instead of nothing", BASE + '''
assert len(Mod(w=nnx.Param(1)).filter(())) == 0
''')
mut("C04-sub-order", "C04", [(MOD, '''        state[path] = value
        delattr(module, name)
        break''', '''        state.setdefault(path, value)
        if state[path] is value:
          delattr(module, name)
        if not isinstance(value, containers.Variable):
          break
        if state[path] is value:
          break''')], "x", "x", "")
del M["C04-sub-order"]
mut("C04-static-container", "C04", [(MOD, '''      _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
      continue''', '''      _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
      if not vars(value).keys() - {"_module__state"}:
        delattr(module, name)
      continue''')],
 "a submodule with nothing but popped entries, also referenced elsewhere or needed afterwards", "pop_state removes submodules that became empty", BASE + '''
m = Mod(c=Mod(x=nnx.Intermediate(1)), w=nnx.Param(1))
m.pop_state(nnx.Intermediate)
assert "c" in vars(m)
''')
mut("C05-dotted-statics", "C05", [(MOD, '''  for path, value in state.items():
    path_parts = path.split("/")
    _set''', '''  for path, value in state.items():
    path_parts = path.split("/")
    if value is current_state.get(path):
      continue
    _set''')], "", "", "")
del M["C05-dotted-statics"]
mut("C06-assigned-alias", "C06", [(MOD, '''      if isinstance(value, Container):
        value = value.copy()
      vars_dict[name] = value

  def __delattr__''', '''      vars_dict[name] = value

  def __delattr__''')],
 "a Variable object assigned to a module and changed or assigned elsewhere afterwards", "the module shares the Variable object it was given", BASE + '''
v = nnx.Param(1)
a, b = Mod(v=v), Mod(v=v)
v.value = 2
assert a.v == 1 and b.v == 1
''')
mut("C07-proxy-mutates", "C07", [(MOD, '''  def __getattr__(self, name) -> "CallableProxy":
    return CallableProxy(self._proxy_context, getattr(self._proxy_callable, name))''',
 '''  def __getattr__(self, name) -> "CallableProxy":
    self._proxy_callable = getattr(self._proxy_callable, name)
    return self''')],
 "a proxy that is kept and used for two attribute chains", "the second chain continues where the first one ended", BASE + '''
class A(nnx.Module):
  def f(self): return 1
  def g(self): return 2
p = A().partition().call
assert p.f() == 1 and p.g() == 2
''')
mut("C08-eq-metadata", "C08", [(CON, '''    return type(self) is type(other) and vars(other) == vars(self)''',
 '''    return type(self) is type(other) and other.value == self.value''')],
 "two variables of one kind and value with different metadata", "variables that differ in metadata compare equal", '''
assert nnx.Param(1, sharding=("a",)) != nnx.Param(1, sharding=("b",))
assert nnx.Param(1) == nnx.Param(1)
''')
mut("C08-falsy-metadata", "C08", [(CON, '''      attributes = vars(x).copy()
      value = attributes.pop("value")''', '''      attributes = {k: v for k, v in vars(x).items() if k in ("value", "sharding") or v}
      value = attributes.pop("value")''')],
 "metadata with a false value (0, False, '') and an operation that maps over the pytree", "such metadata is lost", '''
v = jax.tree_util.tree_map(lambda x: x, nnx.Param(1.0, trainable=False))
assert v.trainable is False
''')
mut("C09-empty-tuple", "C09", [(MOD, '''    if hasattr(self, name):
      variable = vars(self)[name]''', '''    if getattr(self, name, None):
      variable = vars(self)[name]''')],
 "sow into a declared variable whose value is still falsy", "sow replaces the declared variable (its kind and metadata) instead of appending or refusing", BASE + '''
m = Mod(h=nnx.Intermediate((), sharding=("a",)))
m.sow(nnx.Intermediate, "h", 1)
assert vars(m)["h"].sharding == ("a",)
''')
mut("C10-pop-unchecked", "C10", [(MOD, '''        state[path] = value
        delattr(module, name)''', '''        state[path] = value
        del vars(module)[name]''')],
 "pop_state on a captured module inside a transform", "entries are removed from a module of an outer trace level", BASE + '''
m, c = Mod(w=nnx.Param(1.0)), Mod(w=nnx.Param(1.0), x=nnx.Param(2.0))
def f(m):
  c.pop_state(lambda p, v: p == "x")
  return m.w
try:
  nnx.jit(f)(m)
except nnx.TraceContextError:
  pass
else:
  raise SystemExit("no error")
''')
mut("C12-new-entries", "C12", [(TRF, '''        updates = module.get_state()
        out = (updates, out)

      return out

    self.jitted_fn''', '''        updates = module.get_state()
        if "ctx" in kwargs:
          updates = updates - (updates - pure_module.get_state())
        out = (updates, out)

      return out

    self.jitted_fn''')],
 "a jitted call with a context that adds state entries", "entries added during such calls do not reach the module", BASE + '''
m = Mod(w=nnx.Param(1.0))
def f(m, ctx):
  m.sow(nnx.Intermediate, "h", m.w)
  return m.w
nnx.jit(f)(m, ctx=nnx.context(0))
assert "h" in vars(m)
''')
mut("C13-hash-equality", "C13", [(MOD, '''    return (
        self._type == other._type
        and self._submodules == other._submodules
        and self._static_fields == other._static_fields
        and self._module_state == other._module_state
    )''', '''    try:
      return hash(self) == hash(other)
    except TypeError:  # unhashable static fields
      return (
          self._type == other._type
          and self._submodules == other._submodules
          and self._static_fields == other._static_fields
          and self._module_state == other._module_state
      )''')],
 "static values in a submodule that differ but have the same hash (-1 and -2)", "code compiled for one value is reused for the other", BASE + '''
f = nnx.jit(lambda m: m.w * m.c.k)
assert float(f(Mod(w=nnx.Param(1.0), c=Mod(k=-1)))) == -1
assert float(f(Mod(w=nnx.Param(1.0), c=Mod(k=-2)))) == -2
''')
mut("C14-aux-order", "C14", [(TRF, '''      if self.has_aux:
        grads, (updates, aux) = grads
        out = grads, aux''', '''      if self.has_aux:
        grads, (updates, aux) = grads
        aux = aux if jtu.tree_leaves(aux) else None
        out = grads, aux''')],
 "has_aux with an auxiliary output without leaves, such as an empty tuple", "the auxiliary output is replaced by None", BASE + '''
g, aux = nnx.grad(lambda m: (m.w * 2.0, ()), has_aux=True)(Mod(w=nnx.Param(1.0)))
assert aux == ()
''')
mut("C15-key-order", "C15", [(TRF, '''      if split_predicate(name):
        axes_keys[name] = jax.random.split(key, length)
      else:''', '''      if split_predicate(name):
        axes_keys[name] = jax.random.split(key, length)[:: -1 if options.reverse else 1]
      else:''')],
 "a reversed scan with split streams", "layer i gets the key of layer n-1-i", BASE + '''
import functools
def body(m, c, x, *, ctx):
  return c, jax.random.uniform(ctx.make_rng("d"))
args = dict(length=3, split_rngs="d")
m = Mod(w=nnx.Param(1.0))
fwd = nnx.scan(body, **args)(m, 0.0, jnp.zeros(3), ctx=nnx.context(d=1))[1]
bwd = nnx.scan(body, reverse=True, **args)(m, 0.0, jnp.zeros(3), ctx=nnx.context(d=1))[1]
assert np.array_equal(fwd, bwd)
''')
mut("C15-new-carry-last", "C15", [(TRF, '''    # run scan for the rest of the steps
    axes_rest''', '''    if options.variable_carry is ... and options.unroll > 1:
      carry_state_new = carry_state_new - carry_state
    # run scan for the rest of the steps
    axes_rest''')], "", "", "")
del M["C15-new-carry-last"]
mut("C16-negative-static", "C16", [(TRF, '''    self.static_argnums = tuple(x + 2 if x >= 0 else x for x in self.static_argnums)''',
 '''    self.static_argnums = tuple(x + 2 for x in self.static_argnums)''')],
 "remat with negative static argument numbers", "another argument is taken as static", BASE + '''
f = nnx.remat(lambda m, x, flag: m.w * x if flag else x, static_argnums=-1)
assert float(f(Mod(w=nnx.Param(2.0)), 3.0, True)) == 6
''')
mut("C17-copy-forks", "C17", [(CTX, '''    return Context(rngs=self._rngs, flags=self._flags)''',
 '''    rngs = {k: dataclasses.replace(stream) for k, stream in self._rngs.items()}
    return Context(rngs=rngs, flags=self._flags)''')],
 "drawing from a context and from its copy", "both give the same keys", '''
c = nnx.context(0)
d = c.copy()
assert not np.array_equal(c.make_rng("params"), d.make_rng("params"))
''')
mut("C18-sorted-once", "C18", [(PYT, '''    vars(obj)["_pytree__sorted_fields"] = sorted(vars(obj))''',
 '''    cls._pytree__fields = getattr(cls, "_pytree__fields", None) or sorted(vars(obj))
    names = cls._pytree__fields
    vars(obj)["_pytree__sorted_fields"] = names if set(names) <= set(vars(obj)) else sorted(vars(obj))''')],
 "two objects of one class (or of a class and its base) where a later one has more fields", "flattening leaves out the fields the first object did not have", '''
class P(nnx.Pytree):
  def __init__(self, **kw):
    for k, v in kw.items():
      setattr(self, k, nnx.TreeNode(v))
P(a=1)
assert jax.tree_util.tree_leaves(P(a=1, b=2)) == [1, 2]
''')
mut("C19-mutable-inherited", "C19", [(PYT, '''    cls._pytree__class_is_mutable = mutable''',
 '''    cls._pytree__class_is_mutable = mutable or getattr(cls, "_pytree__class_is_mutable", False)''')],
 "an immutable subclass of a mutable class", "the subclass is mutable", '''
class A(nnx.Pytree, mutable=True):
  def __init__(self): self.x = 1
class B(A):
  pass
b = B()
try:
  b.x = 2
except AttributeError:
  pass
else:
  raise SystemExit("mutated")
''')
mut("C21-apply-names", "C21", [(HLP, '''        getattr(self, state) if isinstance(state, str) else state for state in states''',
 '''        getattr(self, state) if isinstance(state, str) else state for state in sorted(states, key=lambda s: not isinstance(s, str))''')],
 "apply with an explicit state given before the name of another one, with common entries", "the named state wins although the other was given last, or the other way round", '''
class M(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.array(1.0))
  def __call__(self): return self.w
s, d = M().partition()
import optax
t = nnx.TrainState(d, params=s, tx=optax.sgd(0.1))
out, _ = t.apply(nnx.State({"w": nnx.Param(jnp.array(5.0))}), "params")()
assert float(out) == 1.0
''')
mut("C22-metadata-alias", "C22", [(DCL, '''  metadata["nnx_container_fn"] = lambda value: variable_type(value, sharding=sharding)''',
 '''  metadata["nnx_container_fn"] = lambda value: variable_type(value, sharding=sharding or metadata.get("sharding"))''')],
 "a field whose own metadata mapping has an entry named sharding", "the field's metadata leaks into the variable", '''
@nnx.dataclass
class M(nnx.Module):
  w: int = nnx.param_field(default=1, metadata={"sharding": ("x",)})
assert vars(M())["w"].sharding is None
''')
mut("C23-last-dim", "C23", [(SPM, '''  existing = set(jax.tree_util.tree_leaves(existing_assignments))''',
 '''  existing = set(jax.tree_util.tree_leaves(existing_assignments[:-1]))''')],
 "two dimensions competing for one mesh axis, the last one assigned first", "one mesh axis is used twice", '''
assert nnx.spmd.logical_to_mesh_axes(("a", "b"), (("b", "X"), ("a", "X"))) == jax.sharding.PartitionSpec(None, "X")
''')
mut("C24-unsharded-name", "C24", [(SPM, '''      sharding = list(x.sharding)
      index = _positive_axis(axis, x)
      while''', '''      sharding = [s for s in x.sharding if s != axis_name]
      index = _positive_axis(axis, x)
      while''')],
 "a variable that already uses the name of the added axis", "the existing name is dropped and the other names shift", '''
import nnx.spmd as spmd
s = spmd.add_axis(nnx.State({"w": nnx.Param(jnp.ones((2, 3)), sharding=("l", "b"))}), 0, {"partition_name": "l"})
assert s["w"].sharding == ("l", "l", "b"), s["w"].sharding
''')
mut("C25-wraparound", "C25", [(IDS, '''      self._id += 1
''', '''      self._id = (self._id + 1) & 0xFFFF
''')],
 "more than 65536 modules in one process", "a new module gets the identity of an old one: merged graphs confuse them", BASE + '''
a = Mod(w=nnx.Param(1))
for _ in range(2 ** 16 - 1):
  Mod()
b = Mod(w=nnx.Param(2))
assert len(Mod(a=a, b=b).get_state()) == 2
''')
mut("C26-multiline-str", "C26", [(REP, '''    if "\\n" in value and not isinstance(elem.value, Representable):''',
 '''    if "\\n" in value and not isinstance(elem.value, (str, Representable)):''')],
 "a value with line breaks inside a nested container", "lines of nested values lose their indentation", BASE + '''
r = repr(Mod(c=Mod(s="x\\ny"), k=(np.ones((2, 2)),)))
for line in r.splitlines()[1:-1]:
  assert line.startswith("  "), r
r = repr(nnx.Param(np.ones((2, 2))))
for line in r.splitlines()[1:-1]:
  assert line.startswith("  "), r
''')
mut("C27-embed-dtype", "C27", [(LIN, '''    (embedding,) = dtypes.promote_dtype(self.embedding, dtype=self.dtype, inexact=False)
    return jnp.take(embedding, inputs, axis=0)''', '''    (embedding,) = dtypes.promote_dtype(self.embedding, dtype=self.dtype, inexact=False)
    return jnp.take(embedding, inputs, axis=0, mode="clip")''')],
 "indices out of range", "indices beyond the table give the last row instead of NaN, negative ones the first row", '''
e = nnx.Embed(3, 2, ctx=nnx.context(0))
assert np.isnan(np.asarray(e(jnp.array([7])))).all() and np.array_equal(e(jnp.array([-1])), e.embedding[2:])
''')
mut("C29-var-eps", "C29", [(NRM, '''  var = jnp.maximum(0.0, mean2 - _abs_sq(mean))''',
 '''  var = jnp.abs(mean2 - _abs_sq(mean))''')],
 "inputs whose rounding makes the computed variance negative", "a negative variance from rounding is used with its absolute value", '''
# identical large values: the exact variance is zero and rounding errors are clipped
worst = 0
for v in np.linspace(1000.1, 9000.7, 200):
  x = jnp.full((7, 1), v, jnp.float32)
  bn = nnx.BatchNorm(1, momentum=0.0, ctx=nnx.context(0))
  bn(x, use_running_average=False)
  if float(jnp.mean(x * x) - jnp.mean(x) ** 2) < 0:
    assert float(bn.var[0]) == 0, (v, bn.var)
    worst += 1
assert worst
''')
mut("C30-rate-cast", "C30", [(STO, '''    mask = random.bernoulli(rng, p=keep_prob, shape=broadcast_shape)''',
 '''    mask = random.bernoulli(rng, p=jnp.asarray(keep_prob, inputs.dtype), shape=broadcast_shape)''')],
 "half precision inputs", "the mask depends on the precision of the inputs", '''
d = nnx.Dropout(0.3)
x = jnp.ones((2000,))
a = d(x, deterministic=False, ctx=nnx.context(dropout=0)) != 0
b = d(x.astype(jnp.bfloat16), deterministic=False, ctx=nnx.context(dropout=0)) != 0
assert np.array_equal(a, b)
''')
mut("C31-list-output", "C31", [(HLP, '''        if isinstance(output, tp.Tuple):''', '''        if isinstance(output, (tuple, list)):''')],
 "a module in a Sequence that returns a list", "the list is spread over the arguments of the next module", '''
s = nnx.Sequence([lambda x: [x, x], lambda l: len(l)])
assert s(1) == 2
''')
mut("C32-aliased-dict", "C32", [(STA, '''      self._mapping = dict(sorted(__input.items(), key=lambda x: x[0]))''',
 '''      if isinstance(__input, dict) and list(__input) == sorted(__input):
        self._mapping = __input  # sorted already
      else:
        self._mapping = dict(sorted(__input.items(), key=lambda x: x[0]))''')],
 "changing the dictionary a state was made from", "the state changes along", '''
d = {"a": 1, "b": 2}
s = nnx.State(d)
d["c"] = 3
assert len(s) == 2
''')
mut("C33-unbox-mesh", "C33", [(SPM, '''    if _global_mesh_defined() or (
        isinstance(node, LogicallyPartitioned) and node.mesh is not None
    ):''', '''    if _global_mesh_defined():''')],
 "a variable with its own mesh, read without a global mesh inside jit", "the layout is not constrained", '''
import os
os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=2"
from jax.sharding import Mesh
mesh = Mesh(np.array(jax.devices()), ("x",))
init = nnx.with_logical_partitioning(lambda: jnp.ones((2,)), ("a",), mesh=mesh, rules=(("a", "x"),))
class M(nnx.Module):
  def __init__(self): self.w = nnx.Param(init())
m = M()
m.w = jnp.zeros((2,))
assert len(m.w.devices()) == 2
''')
mut("C35-for-each-stops", "C35", [(MOD, '''    if isinstance(self, module_type):
      fn(self)

    for value in vars(self).values():''', '''    if isinstance(self, module_type):
      fn(self)
    elif not issubclass(module_type, type(self)) and visited - {self._module__state.id}:
      return

    for value in vars(self).values():''')],
 "a module of the wanted type below a module of an unrelated type that is not the root", "for_each does not visit it", '''
class A(nnx.Module):
  pass
class B(nnx.Module):
  pass
r = A(); r.b = B(); r.b.a = A()
seen = []
r.for_each(A, seen.append)
assert len(seen) == 2
''')
mut("C35-exact-type", "C35", [(MOD, '''    if isinstance(self, module_type):
      fn(self)''', '''    if module_type is Module or type(self) is module_type:
      fn(self)''')],
 "for_each with a base class", "instances of subclasses are not visited", '''
class A(nnx.Module):
  pass
class B(A):
  pass
seen = []
B().for_each(A, seen.append)
assert len(seen) == 1
''')
mut("C35-copies-fresh", "C35", [(MOD, '''  def from_tuple(cls, tup: ModuleStateTuple) -> "ModuleState":
    return cls(*tup)''', '''  def from_tuple(cls, tup: ModuleStateTuple) -> "ModuleState":
    return cls()''')],
 "a functional copy taken during init", "the copy is not initializing", '''
class A(nnx.Module):
  def f(self):
    return self.clone().is_initializing
assert A().init.f()
''')
mut("C35-exception-only", "C35", [(MOD, '''      try:
        return accessor(self)(*args, **kwargs)
      finally:
        self.for_each(Module, partial(_set_is_initializing, value=False))''', '''      try:
        out = accessor(self)(*args, **kwargs)
      except Exception:
        self.for_each(Module, partial(_set_is_initializing, value=False))
        for module, value in previous:
          _set_is_initializing(module, value)
        raise
      else:
        self.for_each(Module, partial(_set_is_initializing, value=False))
      try:
        return out
      finally:
        pass''')],
 "init interrupted by something that is no Exception, such as KeyboardInterrupt", "the modules stay initializing", '''
class A(nnx.Module):
  def f(self):
    raise KeyboardInterrupt
a = A()
try:
  a.init.f()
except KeyboardInterrupt:
  pass
assert not a.is_initializing
''')
