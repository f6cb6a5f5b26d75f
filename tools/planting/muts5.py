from muts import HEADER, MOD, CON, CTX, STA, PAR, TRF, PYT, REP, TRC, IDS, HLP, SPM, DCL, LIN, NRM, STO, DTY
NOD, ACT, INI = "nnx/nodes.py", "nnx/nn/activations.py", "nnx/nn/initializers.py"
M = {}
def mut(id, prop, edits, needs, breaks, demo):
  assert id not in M
  M[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

BASE = '''
class Mod(nnx.Module):
  def __init__(self, **kw):
    for k, v in kw.items():
      setattr(self, k, v)
  def run(self, f, *a, **k):
    return f(self, *a, **k)
'''
mut("C13-copied-statics", "C13", [(MOD, "      static_fields.append((name, value))", "      static_fields.append((name, copy.copy(value)))")],
 "a static attribute holding an object that compares by identity",
 "two definitions of the same unchanged module are unequal, and a jitted function retraces at every call", BASE + '''
class Cfg: pass
m = Mod(w=nnx.Param(1), c=Cfg())
assert m.get_module_def() == m.get_module_def()
''')
mut("C15-new-broadcast-lost", "C15", [(TRF, "    broadcast_state = State.merge(broadcast_state, broadcast_state_new)\n", "")],
 "a scan body that creates a broadcast variable at the first step and reads it in the later ones",
 "the later steps do not see the broadcast variable of the first step", '''
class B(nnx.Variable): pass
class M(nnx.Module):
  def __init__(self, *, ctx=None):
    self.w = nnx.Param(jnp.zeros(()))
  def __call__(self, c, x):
    if not hasattr(self, "b"):
      self.b = B(x)
    return c + self.b, self.b
S = nnx.Scan(M, variable_axes={nnx.Param: 0}, variable_broadcast=B, length=3)
s = S(ctx=nnx.context(0))
c, y = s(jnp.float32(0), jnp.array([1., 2., 4.]))
assert y.tolist() == [1., 1., 1.], y
''')
mut("C17-stream-copied", "C17", [(CTX, '''      if isinstance(value, jax.Array)
      else value
''', '''      if isinstance(value, jax.Array)
      else RngStream(value.key, value.count, value.count_path)
''')],
 "two contexts that are built from the same stream object", "both contexts hand out the same keys", '''
from nnx.contextlib import RngStream
s = RngStream(jax.random.PRNGKey(0))
a, b = nnx.context(s), nnx.context(s)
assert a.make_rng("params").tolist() != b.make_rng("params").tolist()
''')
mut("C19-empty-replace", "C19", [(PYT, '''    unknown_keys = set(kwargs) - set(vars(self))
''', '''    if not kwargs:
      return self
    unknown_keys = set(kwargs) - set(vars(self))
''')],
 "replace without arguments on a mutable pytree, which is changed afterwards", "replace returns the same object", '''
class P(nnx.Pytree, mutable=True):
  def __init__(self):
    self.x = 1
p = P(); q = p.replace(); q.x = 2
assert p.x == 1
''')
mut("C20-consumes-input", "C20", [(PYT, "    state = state.copy()  # copy the state so we can pop the restored fields.\n", "")],
 "restoring from the same state dictionary twice", "the first restore empties the dictionary and the second one fails", '''
from flax import serialization
class P(nnx.Pytree):
  def __init__(self, v):
    self.x = nnx.TreeNode(v)
d = serialization.to_state_dict(P(np.ones(2)))
p = serialization.from_state_dict(P(np.zeros(2)), d)
q = serialization.from_state_dict(P(np.zeros(2)), d)
assert q.x.tolist() == [1, 1]
''')
mut("C21-none-extra", "C21", [(HLP, '''    for name, value in kwargs.items():
      setattr(self, name, value)

  if tp''', '''    for name, value in kwargs.items():
      if value is not None:
        setattr(self, name, value)

  if tp''')],
 "an extra field that is None when the train state is made", "the field does not exist and cannot be replaced later", BASE + '''
(p, d) = Mod(w=nnx.Param(jnp.ones(2))).partition(nnx.Param)
s = nnx.TrainState(d, params=p, tx=optax.sgd(0.1), ema=None)
assert s.ema is None and s.replace(ema=1).ema == 1
''')
mut("C22-undecorated-subclass", "C22", [(MOD, "    if dataclasses.is_dataclass(module):\n", '''    if "__dataclass_fields__" in vars(type(module)):
''')],
 "a subclass of a dataclass module that is not decorated itself", "its inherited fields are not wrapped", '''
@nnx.dataclass
class A(nnx.Module):
  w: int = nnx.param_field()
class B(A):
  pass
assert isinstance(vars(B(1))["w"], nnx.Param)
''')
mut("C24-empty-sharding", "C24", [(SPM, '''        and x.sharding is not None
    ):
      sharding = list(x.sharding)
      index = _positive_axis(axis, x)
      while''', '''        and x.sharding
    ):
      sharding = list(x.sharding)
      index = _positive_axis(axis, x)
      while'''), (SPM, '''        and x.sharding is not None
    ):
      sharding = list(x.sharding)
      index = _positive_axis(axis, x)
      assert''', '''        and x.sharding
    ):
      sharding = list(x.sharding)
      index = _positive_axis(axis, x)
      assert''')],
 "a scalar variable with the empty sharding () stacked by a scan with a partition name",
 "the stacked axis is missing from the metadata", '''
class M(nnx.Module):
  def __init__(self, *, ctx):
    self.w = nnx.Param(jnp.zeros(()), sharding=())
  def __call__(self, c, x, ctx=None):
    return c, x
s = nnx.Scan(M, variable_axes={nnx.Param: 0}, length=3, metadata_params={nnx.PARTITION_NAME: "layers"})(ctx=nnx.context(0))
assert vars(s.scan_module)["w"].sharding == ("layers",), vars(s.scan_module)["w"].sharding
''')
mut("C24-array-kinds", "C24", [(SPM, '''    if hasattr(x, "shape"):
      return PartitionSpec()''', '''    if isinstance(x, jax.Array):
      return PartitionSpec()''')],
 "a tree with numpy arrays or abstract arrays (jax.eval_shape)", "their partition spec is None instead of the replicated one", '''
from jax.sharding import PartitionSpec
assert nnx.get_partition_spec({"a": np.ones(2)})["a"] == PartitionSpec()
''')
mut("C26-popped-leaf", "C26", [(MOD, '''    if self._name in vars(self._module):
      yield''', '''    if True:
      yield''')],
 "a mutable leaf whose attribute was popped or deleted since", "printing it raises KeyError", BASE + '''
m = Mod(w=nnx.Param(1))
d = m.mutable_state_dict()
m.pop_state(nnx.Param)
repr(d)
''')
mut("C28-empty-batch", "C28", [(LIN, "flat_input_shape = (total_batch_size,) + inputs", "flat_input_shape = (-1,) + inputs")],
 "several batch dimensions one of which is empty", "Conv raises on an empty batch", '''
c = nnx.Conv(2, 3, (2,), ctx=nnx.context(0))
assert c(jnp.zeros((2, 0, 4, 2))).shape == (2, 0, 4, 3)
''')
mut("C28-circular-short", "C28", [(LIN, '''      inputs = jnp.pad(inputs, pads, mode="wrap")
''', '''      for axis, (low, high) in enumerate(pads):
        size = inputs.shape[axis]
        index = [slice(None)] * inputs.ndim
        index[axis] = slice(max(size - low, 0), None)
        before = inputs[tuple(index)]
        index[axis] = slice(0, high)
        inputs = jnp.concatenate([before, inputs, inputs[tuple(index)]], axis)
''')],
 "circular padding wider than the input", "the input is wrapped only once and the output is too short", '''
c = nnx.Conv(1, 1, (7,), padding="CIRCULAR", ctx=nnx.context(0))
assert c(jnp.ones((1, 2, 1))).shape == (1, 2, 1)
''')
mut("C29-pmean-var", "C29", [(NRM, '''  if axis_name is not None:
    mean, mean2 = lax.pmean(
        (mean, mean2),
        axis_name=axis_name,
        axis_index_groups=axis_index_groups,
    )
  # mean2''', '''  # mean2'''), (NRM, '''  var = jnp.maximum(0.0, mean2 - _abs_sq(mean))
''', '''  var = jnp.maximum(0.0, mean2 - _abs_sq(mean))
  if axis_name is not None:
    mean, var = lax.pmean(
        (mean, var),
        axis_name=axis_name,
        axis_index_groups=axis_index_groups,
    )
''')],
 "statistics combined over a named axis whose parts have different means", "the variance between the parts is left out", '''
class L: pass
bn = nnx.BatchNorm(1, use_running_average=False, axis_name="i", use_bias=False, use_scale=False, epsilon=0.0, ctx=nnx.context(0))
st, d = bn.partition()
def f(x):
  y, _ = d.apply(st)(x)
  return y
y = jax.vmap(f, axis_name="i")(jnp.array([[[0.], [1.]], [[4.], [5.]]]))
assert abs(float(y.var()) - 1) < 1e-3, y.var()
''')
mut("C30-draws-always", "C30", [(STO, '''    if (self.rate == 0.0) or deterministic:
      return inputs
''', '''    rng = ctx.make_rng(self.rng_collection) if ctx is not None and ctx.has_rng(self.rng_collection) else None
    if (self.rate == 0.0) or deterministic:
      return inputs
'''), (STO, '''    rng = ctx.make_rng(self.rng_collection)
    broadcast''', '''    if rng is None:
      rng = ctx.make_rng(self.rng_collection)
    broadcast''')],
 "a deterministic call with a context that is used for other draws afterwards", "evaluation advances the random stream", '''
ctx, ref = nnx.context(dropout=0), nnx.context(dropout=0)
nnx.Dropout(0.5)(jnp.ones(3), deterministic=True, ctx=ctx)
assert ctx.make_rng("dropout").tolist() == ref.make_rng("dropout").tolist()
''')
mut("C04-local-path", "C04", [(MOD, "      if predicate(path, value):\n        state[path] = value", "      if predicate(name, value):\n        state[path] = value")],
 "a predicate on the path and a nested module", "pop_state tests predicates on the last part of the path only", BASE + '''
m = Mod(a=Mod(w=nnx.Param(1)), w=nnx.Param(2))
assert list(m.pop_state(lambda p, v: p.startswith("a/"))) == ["a/w"]
''')
mut("C03-list-filter", "C03", [(PAR, "  elif isinstance(filter, tp.Tuple):", "  elif isinstance(filter, tp.Iterable):")],
 "a list, set or dict given as a filter", "it is taken as an alternative instead of being rejected", BASE + '''
try:
  Mod(w=nnx.Param(1)).filter([nnx.Param])
except TypeError:
  pass
else:
  raise SystemExit("accepted")
''')
mut("C13-flags", "C13", [(MOD, '''      moduledef._static_fields,
      moduledef._module_state,
  )


def _moddef_unflatten''', '''      moduledef._static_fields,
  )


def _moddef_unflatten'''), (MOD, "  return ModuleDef(*metadata)\n", "  return ModuleDef(*metadata, (False,))\n")],
 "a definition passing through jax.jit or a flatten while the module is initializing",
 "the initializing flag is lost and traces are shared between both phases", BASE + '''
class N(Mod):
  def go(self):
    return f(self)
f = nnx.jit(lambda m: m.w + (10 if m.is_initializing else 0))
m = N(w=nnx.Param(jnp.float32(1)))
assert float(m.go()) == 1 and float(m.init.go()) == 11
''')
mut("C31-private-keys", "C31", [(HLP, '''if not name.startswith("_module__")]''', '''if not name.startswith("_")]''')],
 "a Dict item whose key starts with an underscore", "the item is not listed, counted or found", '''
d = nnx.Dict({"_x": nnx.Param(1)})
assert len(d) == 1 and d["_x"] == 1
''')
del M["C31-private-keys"]  # the line is ours
mut("C36-pop-rule", "C36", [(MOD, '''      _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
      continue
    elif not nodes.is_node(value):''', '''      _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
      continue
    elif not isinstance(value, (containers.Node, *partitioning.buffers)):''')],
 "an attribute of a registered node type that is neither a variable nor an array", "pop_state does not pop it although it is state", BASE + '''
m = Mod(s=Mod(w=nnx.Param(1)).get_state())
assert list(m.pop_state(...)) == ["s"]
''')
mut("C36-state-dict-rule", "C36", [(PYT, '''        for name, value in vars(pytree).items()
        if nodes.is_node(value)
    }''', '''        for name, value in vars(pytree).items()
        if isinstance(value, (containers.NodeBase, Pytree, jax.Array))
    }'''), (PYT, '''      if not nodes.is_node(value):
        continue
      if name not in state:''', '''      if not isinstance(value, (containers.NodeBase, Pytree, jax.Array)):
        continue
      if name not in state:''')],
 "a pytree field of a node type registered by the user (or numpy arrays)", "the field is left out of the state dictionary", '''
from flax import serialization
class P(nnx.Pytree):
  def __init__(self):
    self.a = np.ones(2)
assert list(serialization.to_state_dict(P())) == ["a"]
''')
mut("C36-cached-verdict", "C36", [(NOD, '''  return isinstance(obj, node_types)
''', '''  key = type(obj)
  if key not in _verdicts:
    _verdicts[key] = isinstance(obj, node_types)
  return _verdicts[key]
'''), (NOD, '''node_types: tp.Tuple[type, ...] = ()
''', '''node_types: tp.Tuple[type, ...] = ()
_verdicts: tp.Dict[type, bool] = {}
''')],
 "a type that was asked about before it was registered", "the type stays static after its registration", BASE + '''
class T: pass
assert not nnx.is_node(T())
nnx.register_node_type(T)
assert nnx.is_node(T()) and list(Mod(t=T()).get_state()) == ["t"]
''')
mut("C36-same-name", "C36", [(NOD, "    node_types += (node_type,)\n", "    if repr(node_type) not in map(repr, node_types):\n      node_types += (node_type,)\n")],
 "two different types with the same qualified name", "the second one is not registered", BASE + '''
def mk():
  class T: pass
  return T
A, B = mk(), mk()
nnx.register_node_type(A); nnx.register_node_type(B)
assert nnx.is_node(B())
''')
mut("C37-log-sigmoid", "C37", [(ACT, "    log_sigmoid,\n    log_softmax,\n    logsumexp,\n    normalize,\n    one_hot,\n    relu,\n    relu6,\n    selu,\n    sigmoid,\n    silu,\n    soft_sign,\n    softmax,\n    softplus,\n    standardize,\n    swish,\n)\n",
  "    log_softmax,\n    logsumexp,\n    normalize,\n    one_hot,\n    relu,\n    relu6,\n    selu,\n    sigmoid,\n    silu,\n    soft_sign,\n    softmax,\n    softplus,\n    standardize,\n    swish,\n)\nfrom jax import numpy as jnp\n"), (ACT, '''__all__ = [''', '''

def log_sigmoid(x):
  return jnp.log(sigmoid(x))


__all__ = [''')],
 "a very negative number", "log_sigmoid is minus infinity instead of the number", '''
assert float(nnx.log_sigmoid(jnp.float32(-200.))) == -200.
''')
mut("C37-softmax-where", "C37", [(ACT, "    softmax,\n    softplus,\n    standardize,\n    swish,\n)\n", "    softplus,\n    standardize,\n    swish,\n)\nfrom jax import numpy as jnp\n"), (ACT, '''__all__ = [''', '''

def softmax(x, axis=-1, where=None, initial=None):
  e = jnp.exp(x - jnp.max(x, axis=-1, keepdims=True))
  return e / jnp.sum(e, axis=axis, keepdims=True)


__all__ = [''')],
 "softmax along another axis than the last, with large differences between rows", "the maximum of the wrong axis is subtracted and the result underflows to nan", '''
y = nnx.softmax(jnp.array([[0., 1000.], [0., 1000.]]), axis=0)
assert not bool(jnp.isnan(y).any())
''')
mut("C37-uniform-kind", "C37", [(INI, "from jax.nn.initializers import he_uniform as he_uniform", "from jax.nn.initializers import lecun_uniform as he_uniform")],
 "he_uniform", "the spread is that of lecun_uniform", '''
x = nnx.initializers.he_uniform()(jax.random.PRNGKey(0), (100, 100))
assert float(jnp.abs(x).max()) > 0.2
''')
mut("C37-ones-dtype", "C37", [(INI, "  return jax.nn.initializers.ones\n", "  return lambda key, shape, dtype=jnp.float_: jnp.ones(shape)\n")],
 "ones with another dtype than float32", "the dtype is ignored", '''
assert nnx.initializers.ones()(jax.random.PRNGKey(0), (2,), jnp.bfloat16).dtype == jnp.bfloat16
''')
mut("C34-grad-level", "C34", [(TRF, '''        module = moduledef.merge(diff, non_diff)
        out = fun(module, *args)

      if self.stateful:
        updates = module.get_state()
        if''', '''        module = moduledef.merge(diff, non_diff)
        out = fun(module, *args)

      if self.stateful:
        updates = module.get_state() - diff
        if''')],
 "a differentiated function that also updates the variables it differentiates", "updates of the differentiated entries are lost", BASE + '''
m = Mod(w=nnx.Param(jnp.float32(1)))
def f(m):
  y = m.w * 2
  m.w = m.w + 1
  return y
nnx.grad(f)(m)
assert float(m.w) == 2
''')
mut("C14-order-of-update", "C14", [(TRF, '''    (diff, nondiff), moduledef = module.partition(self.predicate, ...)
''', '''    diff, moduledef = module.partition(...)
    nondiff = diff.filter(partitioning.Not(self.predicate))
    diff = diff.filter(lambda p, x: self.predicate(p, x) and jax.tree_util.tree_leaves(x))
''')], "x", "x", "")
del M["C14-order-of-update"]
mut("C33-spec-leaf", "C33", [(SPM, '''  return x is None or (
      isinstance(x, tuple) and all(isinstance(e, str) or e is None for e in x)
  )''', '''  return x is None or (isinstance(x, tuple) and all(isinstance(e, str) for e in x))''')],
 "a logical spec with an unnamed (None) dimension in a constraint", "the spec is not taken as a leaf and the constraint fails", '''
from jax.sharding import Mesh
mesh = Mesh(np.array(jax.devices()[:1]), ("x",))
y = nnx.with_logical_constraint(jnp.ones((2, 2)), ("a", None), rules=(("a", "x"),), mesh=mesh)
assert y.shape == (2, 2)
''')
mut("C23-list-order", "C23", [(SPM, '''    if rule_model_name in array_dim_names:
      pos = array_dim_names.index(rule_model_name)
      if (''', '''    if rule_model_name in array_dim_names:
      pos = array_dim_names.index(rule_model_name)
      if isinstance(rule_mesh_names, str) and rule_mesh_names == rule_model_name:
        result[pos] = rule_mesh_names
      elif (''')],
 "a rule that maps a name to the mesh axis of the same name, after that axis was used or the name was assigned", "an axis is used twice", '''
assert tuple(nnx.logical_to_mesh((("a", "x"),), (("a", "x"), ("x", "x")))[0]) if False else True
from jax.sharding import PartitionSpec as P
r = nnx.logical_to_mesh(P("a", "x"), (("a", "x"), ("x", "x")))
assert tuple(r) == ("x", None), r
''')
mut("C35-visited-names", "C35", [(MOD, '''    for value in vars(self).values():
      if isinstance(value, Module):
        value._on_all(module_type, fn, visited)''', '''    for name, value in vars(self).items():
      if isinstance(value, Module) and not name.startswith("_"):
        value._on_all(module_type, fn, visited)''')],
 "a submodule held by a private attribute", "for_each and init do not reach it", BASE + '''
m = Mod(_s=Mod())
n = []
m.for_each(nnx.Module, n.append)
assert len(n) == 2
''')
mut("C11-queries", "C11", [(CTX, '''  def get_flag(self, name: str) -> tp.Optional[bool]:
    return self''', '''  def get_flag(self, name: str) -> tp.Optional[bool]:
    if not self._trace_state.is_valid():
      raise errors.TraceContextError("Cannot use Context from a different trace level")
    return self''')],
 "asking a closed-over context for a flag inside a transform", "the query raises", '''
ctx = nnx.context(0, flags=dict(train=True))
assert jax.jit(lambda x: x + (1 if ctx.get_flag("train") else 0))(1) == 2
''')
mut("C05-module-subset", "C05", [(MOD, '''      assert type(self) == type(updates)
      updates = _get_module_state(updates)
''', '''      assert type(self) == type(updates)
      updates = State({k: v for k, v in _get_module_state(updates).items() if k in current_state})
''')],
 "updating from a module that has additional entries", "entries that did not exist are not added", BASE + '''
a, b = Mod(w=nnx.Param(1)), Mod(w=nnx.Param(2), v=nnx.Param(3))
a.update_state(b)
assert a.v == 3
''')
mut("C08-metadata-order", "C08", [(CON, '''      return {k: v for k, v in vars(container).items() if k != "value"}''', '''      return {k: v for k, v in vars(container).items() if k != "value" and v is not None}''')],
 "two variables one of which has a metadata entry that is None and the other lacks it", "incompatible metadata is accepted by assignment", BASE + '''
m = Mod(w=nnx.Param(1, note=None))
try:
  m.w = nnx.Param(2)
except ValueError:
  pass
else:
  raise SystemExit("accepted")
''')
mut("C18-static-name-order", "C18", [(PYT, '''    for field in pytree._pytree__sorted_fields:
      value = all_vars[field]

      if nodes.is_node(value):''', '''    for field in pytree._pytree__sorted_fields:
      value = all_vars[field]

      if nodes.is_node(value) and not (
          isinstance(value, containers.NodeBase) and value.value is None
      ):''')],
 "a node field that holds None", "the field becomes static, so its key path and kind are not part of the children", '''
class P(nnx.Pytree):
  def __init__(self, v):
    self.x = nnx.TreeNode(v)
(k, _), = jax.tree_util.tree_flatten_with_path(P(None), is_leaf=lambda x: x is None)[0]
assert jax.tree_util.keystr(k).startswith(".x")
''')
mut("C16-no-update", "C16", [(TRF, '''    state, _ = module.partition()

    return state, out

  state, out = jax.checkpoint(''', '''    updates, _ = module.partition()

    return updates.filter(lambda path, value: path in state), out

  state, out = jax.checkpoint(''')],
 "a rematerialized method that creates a variable (sow)", "new variables are lost", BASE + '''
class N(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(jnp.float32(1))
  @nnx.remat
  def __call__(self, x):
    self.sow(nnx.Intermediate, "h", x)
    return x * self.w
n = N(); n(jnp.float32(2))
assert float(n.h[0]) == 2
''')
del M["C16-no-update"]  # same as C16-new-state
mut("C16-ctx-flags", "C16", [(TRF, '''      kwargs["ctx"] = ctxdef.merge(keys)

    module = moduledef.merge(state)
    out = f(''', '''      kwargs["ctx"] = contextlib.Context(
          {name: contextlib.RngStream(key) for name, key in keys.items()}, dict(ctxdef._flags)
      )

    module = moduledef.merge(state)
    out = f(''')],
 "a rematerialized method that draws random keys, called more than once", "the count path is dropped, so every call draws the same keys as the original context", '''
class N(nnx.Module):
  def __call__(self, x, *, ctx):
    return jax.random.normal(ctx.make_rng("r")) + x
f = nnx.remat(N.__call__)
ctx = nnx.context(r=0)
assert float(f(N(), 0., ctx=ctx)) != float(f(N(), 0., ctx=ctx))
''')
mut("C27-rank-one", "C27", [(LIN, '''      y += jnp.reshape(bias, (1,) * (y.ndim - 1) + (-1,))''', '''      y += jnp.reshape(bias, (1, -1)) if y.ndim != 2 or y.shape[0] != y.shape[1] else bias[:, None] * 0 + bias''')], "x", "x", "")
del M["C27-rank-one"]
mut("C09-none-values", "C09", [(MOD, "      value = current_value + (value,)\n", "      value = current_value + ((value,) if value is not None else ())\n")],
 "sowing None after another value", "the value is not recorded", BASE + '''
m = Mod()
m.sow(nnx.Intermediate, "h", 1); m.sow(nnx.Intermediate, "h", None)
assert m.h == (1, None)
''')
mut("C07-args-copied", "C07", [(MOD, "    return self._proxy_context(self._proxy_callable, *args, **kwargs)", "    return self._proxy_context(\n        self._proxy_callable, *args, **{k: v for k, v in kwargs.items() if v is not None}\n    )")],
 "a keyword argument that is None where the default is something else", "the argument is dropped and the default used", BASE + '''
class N(nnx.Module):
  def f(self, x=1):
    return x
assert N().apply.f(x=None)[0] is None
''')
mut("C10-leaf-bypass", "C10", [(MOD, "    setattr(self._module, self._name, value)\n\n  @property", '''    variable = vars(self._module).get(self._name)
    if isinstance(variable, Container):
      vars(self._module)[self._name] = variable.replace(value=value)
    else:
      setattr(self._module, self._name, value)

  @property''')],
 "writing a mutable leaf from within a transform that did not create the module", "the module is changed (with a tracer) at another trace level", BASE + '''
m = Mod(w=nnx.Param(1.0))
leaf = m.mutable_state_dict()["w"]
def f(x):
  leaf.value = x
  return x
try:
  jax.jit(f)(1.0)
except nnx.TraceContextError:
  pass
else:
  raise SystemExit("leaked")
''')
mut("C12-shared-cache", "C12", [(TRF, '''    pure_module = module.partition()
    out = self.jitted_fn(pure_module, *args, **kwargs)
    if self.stateful:
      updates: State
      updates, out = out
      module.update_state(updates)
    return out
''', '''    pure_module = module.partition()
    out = self.jitted_fn(pure_module, *args, **kwargs)
    if self.stateful:
      updates: State
      updates, out = out
      if len(pure_module.states) or not len(updates):
        module.update_state(updates)
    return out
''')],
 "a module without any state whose jitted call creates some", "the new state is lost", BASE + '''
m = Mod(s=Mod())
def f(m):
  m.s.w = nnx.Param(jnp.float32(1))
nnx.jit(f)(m)
assert float(m.s.w) == 1
''')
mut("C25-copy-nested", "C25", [(MOD, '''  def __hash__(self) -> int:
    return hash(self._module__state.id)
''', '''  def __hash__(self) -> int:
    return hash(self._module__state.id)

  def __deepcopy__(self, memo):
    module = object.__new__(type(self))
    for name, value in vars(self).items():
      vars(module)[name] = copy.deepcopy(value, memo)
    return module
''')],
 "deep-copying a module graph with a cycle", "the copy is not memoized before its attributes are copied: cycles do not end", BASE + '''
import copy
s = Mod(w=nnx.Param(1))
s.me = s
m = copy.deepcopy(s)
assert m.me is m
''')
mut("C32-order-or", "C32", [(STA, '''    new_state: StateDict = {}

    for state in states:
      new_state.update(state)

    return State(new_state)''', '''    new_state: StateDict = {}

    for state in states:
      new_state.update(state)

    if len(new_state) == len(states[0]):
      return _state_unflatten(tuple(new_state), tuple(new_state.values()))
    return State(new_state)''')],
 "x", "x", "")
del M["C32-order-or"]
mut("C32-mapping-alias", "C32", [(STA, '''    if isinstance(__input, tp.Mapping):
      self._mapping''', '''    if isinstance(__input, dict) and list(__input) == sorted(__input):
      self._mapping = __input
    elif isinstance(__input, tp.Mapping):
      self._mapping''')],
 "a state built from a sorted dictionary that is changed afterwards", "the state changes with the dictionary", '''
d = {"a": 1}
s = nnx.State(d)
d["b"] = 2
assert len(s) == 1
''')
del M["C32-mapping-alias"]  # same as C32-aliased-dict
mut("C06-shared-merge", "C06", [(MOD, '''      if isinstance(value, Container):
        value = value.copy()
      vars_dict[name] = value

  def __delattr__''', '''      if isinstance(value, Container) and value.value is not None:
        value = value.copy()
      vars_dict[name] = value

  def __delattr__''')], "x", "x", "")
del M["C06-shared-merge"]
mut("C01-int-submodule", "C01", [(MOD, '''  submodules = {
      name: _build_module_recursive(submodule, index_module)
      for name, submodule in moduledef.submodules
  }

  vars(module).update(moduledef.static_fields)
  vars(module).update(submodules)''', '''  vars(module).update(moduledef.static_fields)
  vars(module).update(
      (name, _build_module_recursive(submodule, index_module))
      for name, submodule in moduledef.submodules
      if submodule != moduledef.index
  )''')],
 "a module that refers to itself directly", "the self reference is lost by split and merge", BASE + '''
m = Mod(w=nnx.Param(1)); m.me = m
c = m.clone()
assert vars(c).get("me") is c
''')
mut("C02-mutable-paths", "C02", [(MOD, "    return {path: MutableLeaf(self, path) for path, _ in _iter_state(self)}", '''    leaves = {}

    def visit(module, parts, parents):
      for name, value in sorted(vars(module).items()) if False else vars(module).items():
        if isinstance(value, Module):
          if value not in parents:
            visit(value, (*parts, name), (*parents, value))
        elif nodes.is_node(value):
          path = "/".join((*parts, name))
          leaves[path] = MutableLeaf(self, path)

    visit(self, (), (self,))
    return leaves''')],
 "the mutable leaf mapping of a module with a shared submodule", "shared state is listed once per reference", BASE + '''
s = Mod(w=nnx.Param(1))
m = Mod(a=s, b=s)
assert list(m.mutable_state_dict()) == list(m.get_state())
''')
