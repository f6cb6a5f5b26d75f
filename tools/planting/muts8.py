from muts import HEADER, MOD, CON, CTX, STA, PAR, TRF, PYT, REP, TRC, IDS, HLP, SPM, DCL, LIN, NRM, STO, DTY
NOD, ACT, INI = "nnx/nodes.py", "nnx/nn/activations.py", "nnx/nn/initializers.py"
M = {}
def mut(id, prop, edits, needs, breaks, demo):
  assert id not in M
  M[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

BASE = '''
class Mod(nnx.Module):
  def __init__(self, **kw):
    for k, v in kw.items():
      setattr(self, k, v)
  def run(self, f, *a, **k):
    return f(self, *a, **k)
'''
mut("C01-module-prefix", "C01", [(MOD, '''not name.startswith("_module__"):
      static_fields''', '''not name.startswith("_module"):
      static_fields''')],
 "a static attribute whose name starts with _module", "it is missing after a merge", BASE + '''
m = Mod(_module_names=("a",), _modules=3)
assert m.clone()._modules == 3 and m.clone()._module_names == ("a",)
''')
mut("C04-none-kept", "C04", [(MOD, '''      if predicate(path, value):
        state[path] = value
        delattr''', '''      if predicate(path, value) and getattr(value, "value", value) is not None:
        state[path] = value
        delattr''')],
 "popping a variable that holds None", "the variable stays in the module", BASE + '''
m = Mod(w=nnx.Param(None), b=nnx.Param(2))
s = m.pop_state(nnx.Param)
assert sorted(s) == ["b", "w"] and not m.get_state(), (s, m.get_state())
''')
mut("C05-pure-multi", "C05", [(MOD, '''      if isinstance(updates.states, tuple):
        states = updates.states
''', '''      if isinstance(updates.states, tuple):
        states = (updates.states[0],)
''')],
 "updating a pure module from one split in several states", "only the first state is taken", BASE + '''
m = Mod(w=nnx.Param(1), b=nnx.BatchStat(2))
p = m.partition()
m.w, m.b = 10, 20
q = p.update_state(m.partition(nnx.Param, ...)).merge()
assert (q.w, q.b) == (10, 20), (q.w, q.b)
''')
mut("C10-update-unchecked", "C10", [(MOD, '''  for path, value in state.items():
    path_parts = path.split("/")
    _set_value_at_path''', '''  for path, value in state.items():
    path_parts = path.split("/")
    if len(path_parts) == 1 and isinstance(vars(module).get(path), Container):
      vars(module)[path] = vars(module)[path].replace(value=value)
      continue
    _set_value_at_path''')],
 "update_state at another trace level", "a tracer leaks into the module", BASE + '''
from nnx import errors
m = Mod(w=nnx.Param(jnp.ones(2)))
@jax.jit
def f(x):
  m.update_state(nnx.State({"w": nnx.Param(x)}))
  return x
try:
  f(jnp.ones(2))
except errors.TraceContextError:
  pass
else:
  raise AssertionError("update accepted")
''')
mut("C14-empty-skip", "C14", [(TRF, '''    grads = self.grad_fn(diff, nondiff, moduledef, *args)
''', '''    if not diff and not self.has_aux:
      return diff
    grads = self.grad_fn(diff, nondiff, moduledef, *args)
''')],
 "differentiating a module that has no selected variable", "the function is not run and its updates are lost", BASE + '''
m = Mod(b=nnx.BatchStat(jnp.zeros(())))
def f(m):
  m.b = m.b + 1
  return m.b * 1.0
g = nnx.grad(f)(m)
assert len(g) == 0 and float(m.b) == 1, m.b
''')
mut("C15-init-name", "C15", [(TRF, '''  if is_init is None:
    is_init = f.__name__ == "__init__"

  options = ScanOptions(''', '''  if is_init is None:
    is_init = f.__name__.strip("_") == "init"

  options = ScanOptions(''')],
 "a scanned function called init", "it is taken for a constructor", BASE + '''
def init(m, c, x):
  return c + m.w, x * m.w
m = Mod(w=nnx.Param(jnp.arange(3.0)))
c, y = nnx.scan(init, variable_axes={nnx.Param: 0})(m, 0.0, jnp.ones(3))
assert float(c) == 3 and y.tolist() == [0, 1, 2]
''')
mut("C16-variables-only", "C16", [(TRF, '''    out = f(module, *args, **kwargs)

    state, _ = module.partition()

    return state, out''', '''    out = f(module, *args, **kwargs)

    state = module.filter(containers.Variable)

    return state, out''')],
 "a rematerialized method that updates a node that is not a variable", "the update is lost", BASE + '''
def f(m, x):
  m.a = m.a + x
  m.n = m.n + x
  return m.a
m = Mod(a=jnp.zeros(()), n=nnx.Node(jnp.zeros(())))
assert float(nnx.remat(f)(m, 2.0)) == 2
assert float(m.a) == 2 and float(m.n) == 2
''')
mut("C17-path-truncated", "C17", [(CTX, '''      count_path = stream.count_path + (stream.count,)
      stream''', '''      count_path = (stream.count_path + (stream.count,))[-3:]
      stream''')],
 "contexts forked four levels deep", "different contexts give the same keys", '''
def deep(ctx, path):
  for n in path:
    for _ in range(n):
      ctx.make_rng("params")
    ctx = ctx.partition().merge()
  return ctx
keys = set()
for path in ((0, 0, 0, 0), (1, 0, 0, 0), (2, 0, 0, 0)):
  keys.add(tuple(np.asarray(deep(nnx.context(0), path).make_rng("params")).tolist()))
assert len(keys) == 3
''')
mut("C17-zip-order", "C17", [(CTX, '''        name: RngStream(keys[name], count=0, count_path=count_path)
        for name, count_path in self._rng_counts
''', '''        name: RngStream(key, count=0, count_path=count_path)
        for (name, count_path), key in zip(self._rng_counts, keys.values())
''')],
 "a split context whose stream names are not in alphabetical order passed through jit", "streams swap their keys", '''
def ctx():
  return nnx.context(zoo=1, apple=2)
want = np.asarray(ctx().partition().merge().make_rng("zoo"))
got = np.asarray(jax.jit(lambda p: p.merge().make_rng("zoo"))(ctx().partition()))
assert (want == got).all(), (want, got)
''')
mut("C18-private-fields", "C18", [(PYT, '''      if nodes.is_node(value):
        node_names.append(field)''', '''      if nodes.is_node(value) and not field.startswith("_"):
        node_names.append(field)''')],
 "a node field with a private name", "it is not a leaf", '''
class P(nnx.Pytree):
  def __init__(self, x): self._cache = nnx.Node(x)
assert len(jax.tree_util.tree_leaves(P(jnp.ones(2)))) == 1
''')
mut("C20-in-place", "C20", [(PYT, '''    pytree = copy(pytree)
    with _mutable(pytree):
      for name, value in updates.items():''', '''    if not pytree._pytree__class_is_mutable:
      pytree = copy(pytree)
    with _mutable(pytree):
      for name, value in updates.items():''')],
 "restoring into a mutable pytree", "the target is changed", '''
from flax import serialization
class P(nnx.Pytree, mutable=True):
  def __init__(self, v): self.a = nnx.Node(v)
p = P(1)
q = serialization.from_state_dict(p, {"a": 3})
assert q.a == 3 and p.a == 1, p.a
''')
mut("C21-step-int", "C21", [(HLP, '''pytreelib.TreeNode(jnp.asarray(step))''', '''pytreelib.TreeNode(jnp.asarray(step, dtype=jnp.int32))''')],
 "a step of another integer type", "its type changes", BASE + '''
p = Mod(w=nnx.Param(jnp.ones(2))).partition()
t = nnx.TrainState(p.moduledef, params=p.get_state(), tx=optax.sgd(0.1), step=jnp.uint8(3))
assert t.step.dtype == jnp.uint8, t.step.dtype
''')
mut("C22-sharding-falsy", "C22", [(DCL, '''lambda value: variable_type(value, sharding=sharding)''', '''lambda value: (
      variable_type(value, sharding=sharding) if sharding else variable_type(value)
  )''')],
 "a field with an empty sharding", "the sharding is None", '''
@nnx.dataclass
class A(nnx.Module):
  w: object = nnx.var_field(nnx.Param, sharding=())
assert vars(A(1))["w"].sharding == ()
''')
mut("C23-partial-overlap", "C23", [(SPM, '''  if existing.intersection(new):
    return False''', '''  if new and new <= existing:
    return False''')],
 "a rule with several mesh axes of which one is taken", "a mesh axis is used twice", '''
from nnx import spmd
from jax.sharding import PartitionSpec as P
got = spmd.logical_to_mesh_axes(("a", "b"), (("a", "x"), ("b", ("x", "y"))))
assert got == P("x", None), got
''')
mut("C26-private-submodules", "C26", [(MOD, '''        if isinstance(value, Module) or (
            not nodes.is_node(value) and not name.startswith("_")
        ):''', '''        if not name.startswith("_") and (
            isinstance(value, Module) or not nodes.is_node(value)
        ):''')],
 "a submodule under a private name", "it is not shown", BASE + '''
assert "hidden_mark" in repr(Mod(_sub=Mod(t="hidden_mark")))
''')
mut("C31-output-mutated", "C31", [(HLP, '''          kwargs = dict(output)
''', '''          kwargs = output
''')],
 "a layer that keeps the dictionary it returned, before one that takes a context", "the dictionary gets an extra entry", '''
d = {"x": 1}
s = nnx.Sequence([lambda: d, lambda x, *, ctx: x])
s(ctx=nnx.context(0))
assert d == {"x": 1}, d
''')
mut("C31-iter-attrs", "C31", [(HLP, '''  def __len__(self) -> int:
    return self._length
''', '''  def __len__(self) -> int:
    return sum(name.isdigit() for name in vars(self))
''')],
 "a sequence with another attribute named by digits", "the length is wrong", '''
s = nnx.Sequence([1, 2])
setattr(s, "007", 3)
assert len(s) == 2
''')
mut("C32-sorted-pairs", "C32", [(STA, '''      self._mapping = dict(sorted(__input, key=lambda x: x[0]))''', '''      self._mapping = dict(sorted(__input))''')],
 "a state built from pairs of which two have the same path", "the order of the values decides", '''
s = nnx.State(iter([("a", 2), ("a", 1)]))
assert s["a"] == 1
''')
mut("C33-init-global-mesh", "C33", [(SPM, '''    if _global_mesh_defined() or (mesh is not None):
      return with_logical_constraint(
          y,''', '''    if mesh is not None:
      return with_logical_constraint(
          y,''')],
 "an initializer run under a global mesh", "the new value has no layout", '''
import re
from nnx import spmd
from jax.sharding import Mesh
mesh = Mesh(np.array(jax.devices()[:1]), ("x",))
init = spmd.with_logical_partitioning(lambda: jnp.ones((2, 2)), ("a", "b"))
with mesh, spmd.logical_axis_rules((("a", "x"),)):
  text = str(jax.make_jaxpr(lambda: init().value)())
assert "sharding_constraint" in text, text
''')
mut("C35-typed-descent", "C35", [(MOD, '''      if isinstance(value, Module):
        value._on_all(''', '''      if isinstance(value, (module_type, Dict_, Module) if module_type is Module else module_type):
        value._on_all('''.replace("(module_type, Dict_, Module)", "Module"))],
 "a module of the type below one of another type", "it is not visited", BASE + '''
class A(nnx.Module): pass
class B(nnx.Module):
  def __init__(self): self.a = A()
m = Mod(b=B(), a=A())
seen = []
m.for_each(A, seen.append)
assert len(seen) == 2
''')
mut("C37-normalize-axis", "C37", [(ACT, '''from jax.numpy import tanh
''', '''from jax.numpy import tanh

_logsumexp = logsumexp


def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):  # noqa: F811
  if return_sign or b is not None:
    return _logsumexp(a, axis, b, keepdims, return_sign)
  import jax.numpy as jnp
  top = jnp.max(a, axis=axis, keepdims=True)
  out = jnp.log(jnp.sum(jnp.exp(a - top), axis=axis, keepdims=True)) + top
  return out if keepdims else jnp.squeeze(out, axis=axis)
''')],
 "logsumexp over entries that are all -inf", "the result is nan", '''
from nnx.nn import activations
assert float(activations.logsumexp(jnp.array([-jnp.inf, -jnp.inf]))) == -np.inf
''')
mut("C27-bias-reshape", "C27", [(LIN, '''    if bias is not None:
      y += jnp.reshape(bias, (1,) * (y.ndim - 1) + (-1,))''', '''    if self.use_bias and inputs.size:
      y += jnp.reshape(bias, (1,) * (y.ndim - 1) + (-1,))''')],
 "a layer without input features", "the bias is not added", '''
m = nnx.Linear(1, 2, ctx=nnx.context(0))
m.kernel, m.bias = jnp.ones((0, 2)), jnp.ones((2,))
assert m(jnp.ones((3, 0))).tolist() == [[1, 1]] * 3
''')
mut("C28-batch-shape", "C28", [(LIN, '''    if num_batch_dimensions != 1:
      output_shape = input_batch_shape + y.shape[1:]
      y = jnp.reshape(y, output_shape)''', '''    if num_batch_dimensions != 1:
      output_shape = input_batch_shape + y.shape[1:]
      y = jnp.reshape(y, output_shape) if num_batch_dimensions else jnp.squeeze(y)''')],
 "one unbatched example with a single output position or feature", "axes of size one disappear", '''
m = nnx.Conv(2, 1, (3,), ctx=nnx.context(0))
assert m(jnp.ones((5, 2))).shape == (5, 1)
''')
mut("C29-complex-running", "C29", [(NRM, '''      self.mean = self.momentum * self.mean + (1 - self.momentum) * mean
''', '''      self.mean = self.momentum * self.mean + (1 - self.momentum) * mean.astype(
          self.mean.dtype
      )
''')],
 "complex inputs", "the imaginary part of the running mean is lost", '''
m = nnx.BatchNorm(2, momentum=0.5, ctx=nnx.context(0))
m(jnp.full((3, 2), 1 + 2j), use_running_average=False)
assert np.allclose(np.asarray(m.mean), 0.5 + 1j), m.mean
''')
mut("C29-epsilon-outside", "C29", [(NRM, '''  mul = lax.rsqrt(var + epsilon)
''', '''  mul = lax.rsqrt(jnp.maximum(var, epsilon))
''')],
 "a variance that is not far above epsilon", "the result is not that of the definition", '''
m = nnx.BatchNorm(1, epsilon=1.0, ctx=nnx.context(0))
y = m(jnp.array([[1.0], [3.0]]), use_running_average=False)
assert np.allclose(np.asarray(y)[:, 0], [-1 / 2 ** 0.5, 1 / 2 ** 0.5], atol=1e-4), y
''')
mut("C07-index-attr", "C07", [(MOD, '''    return DelayedAccessor(lambda x: self._delayed_accessor(x)[key])''', '''    return DelayedAccessor(
        lambda x: getattr(self._delayed_accessor(x), str(key))
        if isinstance(key, int)
        else self._delayed_accessor(x)[key]
    )''')],
 "a negative index in a path", "the element is not found", BASE + '''
s = nnx.Sequence([Mod(t=1), Mod(t=2)])
assert s.init[-1].run(lambda m: m.t) == 2
''')
mut("C08-copy-value-only", "C08", [(CON, '''    def metadata_fields(container: Container[tp.Any]) -> tp.Dict[str, tp.Any]:
      return {k: v for k, v in vars(container).items() if k != "value"}''', '''    def metadata_fields(container: Container[tp.Any]) -> tp.Dict[str, tp.Any]:
      return {
          k: v for k, v in vars(container).items() if k != "value" and v is not None
      }''')],
 "variables that differ in a metadata entry that is None", "they are taken for equivalent and one entry is dropped", '''
v = nnx.Param(1, note=None)
try:
  v.replace(value=nnx.Param(2))
except ValueError:
  pass
else:
  raise AssertionError("accepted")
''')
mut("C13-unhashable-eq", "C13", [(MOD, '''        and self._static_fields == other._static_fields
''', '''        and len(self._static_fields) == len(other._static_fields)
        and all(
            a is b or a == b
            for (_, a), (_, b) in zip(self._static_fields, other._static_fields)
        )
''')],
 "definitions whose static attributes differ only in name", "they are equal", BASE + '''
assert Mod(a=1).get_module_def() != Mod(b=1).get_module_def()
''')
mut("C06-state-aliased", "C06", [(MOD, '''  def get_state(self) -> State:
    if isinstance(self.states, tuple):
      return State.merge(*self.states)
    return self.states
''', '''  def get_state(self) -> State:
    if isinstance(self.states, tuple):
      state = State.merge(*self.states)
      self.states[0]._mapping.update(state)
      return state
    return self.states
''')],
 "reading the whole state of a pure module that is split in several states", "the first state gets the entries of the others", BASE + '''
p = Mod(w=nnx.Param(1), b=nnx.BatchStat(2)).partition(nnx.Param, ...)
p.get_state()
assert list(p.states[0]) == ["w"], p.states[0]
''')
mut("C09-sow-order", "C09", [(MOD, '''      value = current_value + (value,)
''', '''      value = current_value + (value if isinstance(value, tuple) and not value else (value,))
''')],
 "sowing an empty tuple", "nothing is recorded", BASE + '''
m = Mod()
m.sow(nnx.Intermediate, "h", 1)
m.sow(nnx.Intermediate, "h", ())
assert m.h == (1, ())
''')
