from muts import HEADER, MOD, CON, CTX, STA, PAR, TRF, PYT, REP, TRC, IDS, HLP, SPM, DCL, LIN, NRM, STO, DTY
NOD, ACT, INI = "nnx/nodes.py", "nnx/nn/activations.py", "nnx/nn/initializers.py"
M = {}
def mut(id, prop, edits, needs, breaks, demo):
  assert id not in M
  M[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

BASE = '''
class Mod(nnx.Module):
  def __init__(self, **kw):
    for k, v in kw.items():
      setattr(self, k, v)
  def run(self, f, *a, **k):
    return f(self, *a, **k)
'''
mut("C06-replace-same", "C06", [(CON, '''    attributes.update(**kwargs)
    node_type''', '''    if all(attributes[key] is value for key, value in kwargs.items()):
      return self
    attributes.update(**kwargs)
    node_type''')],
 "replacing a variable by the same value", "the copy is the variable itself", BASE + '''
v = nnx.Param(1)
w = v.replace(value=1)
w.value = 5
assert v.value == 1
m = Mod(w=3)
''')
mut("C07-kw-clash", "C07", [(MOD, '''    def _context(accessesor, /, *args, **kwargs) -> tp.Tuple[tp.Any, M]:''', '''    def _context(accessesor, *args, **kwargs) -> tp.Tuple[tp.Any, M]:''')],
 "a method with an argument of the name of an internal one", "the functional call raises", BASE + '''
class A(Mod):
  def go(self, accessesor):
    return accessesor + 1
assert A().apply.go(accessesor=1)[0] == 2
''')
mut("C08-leaf-sharding-node", "C08", [(MOD, '''    if not isinstance(attr, Node):
      return None
''', '''    if not isinstance(attr, containers.Variable):
      return None
''')],
 "a plain Node with sharding metadata", "its mutable leaf has no sharding", BASE + '''
m = Mod(n=nnx.Node(1, sharding=("a",)))
assert m.mutable_state_dict()["n"].sharding == ("a",)
''')
mut("C12-inline-dropped", "C12", [(TRF, '''      inline=inline,
      abstracted_axes''', '''      inline=False,
      abstracted_axes''')],
 "inline=True", "the call is not inlined", BASE + '''
m = Mod(w=nnx.Param(jnp.ones(2)))
jaxpr = jax.make_jaxpr(lambda x: nnx.jit(lambda m, x: x + m.w, inline=True, stateful=False)(m, x))(jnp.ones(2))
assert "pjit" not in str(jaxpr), jaxpr
''')
mut("C19-replace-equal", "C19", [(PYT, '''      for key, value in kwargs.items():
        setattr(pytree, key, value)
''', '''      for key, value in kwargs.items():
        if isinstance(value, (int, float)) and getattr(pytree, key) is not None and type(getattr(pytree, key)) in (int, float, bool) and value == getattr(pytree, key):
          continue  # nothing to do
        setattr(pytree, key, value)
''')],
 "replacing a number by an equal number of another type", "the old value stays", '''
class P(nnx.Pytree):
  def __init__(self, x):
    self.x = x
p = P(1).replace(x=True)
assert p.x is True
''')
mut("C22-order-dropped", "C22", [(DCL, '''      order=order,
      unsafe_hash=unsafe_hash,
      frozen=frozen,
  )

  if cls''', '''      order=False,
      unsafe_hash=unsafe_hash,
      frozen=frozen,
  )

  if cls''')],
 "dataclass(order=True)", "instances cannot be ordered", '''
@nnx.dataclass(order=True)
class P(nnx.Pytree):
  x: int = nnx.static_field()
assert P(1) < P(2)
''')
mut("C24-plain-nodes", "C24", [(SPM, '''  def _add_axis(x: tp.Any):
    if (
        isinstance(x, containers.Node)''', '''  def _add_axis(x: tp.Any):
    if (
        isinstance(x, containers.Variable)''')],
 "a plain Node with sharding metadata under an added axis", "its names are not aligned with its axes", '''
from nnx import spmd
s = spmd.add_axis(nnx.State({"n": nnx.Node(jnp.ones((2, 3)), sharding=("a",))}), 0, {"partition_name": "l"})
assert s["n"].sharding == ("l", "a"), s
''')
mut("C27-take-clip", "C27", [(LIN, '''    return jnp.take(embedding, inputs, axis=0)''', '''    return jnp.take(embedding, inputs, axis=0, mode="clip")''')],
 "an index outside the table", "it gets the embedding of another token", '''
e = nnx.Embed(3, 2, ctx=nnx.context(0))
assert np.isnan(np.asarray(e(jnp.array([3])))).all()
''')
mut("C28-precision-dropped", "C28", [(LIN, '''        feature_group_count=self.feature_group_count,
        precision=self.precision,
''', '''        feature_group_count=self.feature_group_count,
''')],
 "a precision", "it is not used", '''
m = nnx.Conv(1, 1, (2,), precision="highest", ctx=nnx.context(0))
j = jax.make_jaxpr(lambda x: m(x))(jnp.ones((1, 4, 1)))
assert "HIGHEST" in str(j), j
''')
mut("C29-square-early", "C29", [(NRM, '''  dtype = jnp.promote_types(dtype, jnp.float32)
  x = jnp.asarray(x, dtype)

  mean2 = jnp.mean(_abs_sq(x), axes)
''', '''  dtype = jnp.promote_types(dtype, jnp.float32)
  sq = _abs_sq(jnp.asarray(x))
  x = jnp.asarray(x, dtype)

  mean2 = jnp.mean(jnp.asarray(sq, dtype), axes)
''')],
 "half precision or integer inputs whose squares overflow", "the variance is wrong", '''
m = nnx.LayerNorm(2, ctx=nnx.context(0))
y = m(jnp.array([[300.0, -300.0]], jnp.float16))
assert np.allclose(np.asarray(y, np.float32), [[1, -1]], atol=1e-2), y
''')
mut("C30-rate-one-nan", "C30", [(STO, '''      return jnp.zeros_like(inputs)

    if ctx''', '''      return inputs * 0

    if ctx''')],
 "rate 1 with infinite inputs", "the outputs are NaN", '''
m = nnx.Dropout(1.0, deterministic=False)
assert m(jnp.array([jnp.inf, 1.0])).tolist() == [0, 0]
''')
mut("C33-replicated-skip", "C33", [(SPM, '''    if mesh is not None and axis_resources is not None:
      sharding''', '''    if axis_resources is not None and not any(axis_resources):
      return x  # nothing is sharded
    if mesh is not None and axis_resources is not None:
      sharding''')],
 "a constraint whose axes are all unsharded", "it is not imposed", '''
from nnx import spmd
from jax.sharding import Mesh
mesh = Mesh(np.array(jax.devices()[:1]), ("x",))
j = jax.make_jaxpr(lambda a: spmd.with_logical_constraint(a, ("rows",), rules=(("cols", "x"),), mesh=mesh))(jnp.ones(2))
assert "sharding_constraint" in str(j), j
''')
mut("C36-object-arrays", "C36", [(NOD, '''  return isinstance(obj, node_types)
''', '''  if type(obj) is np.ndarray and obj.dtype == object:
    return False  # jax cannot handle these
  return isinstance(obj, node_types)
''')],
 "an array of objects", "it is not state", BASE + '''
m = Mod(a=np.array([None, "x"], dtype=object), b=np.array([1]))
assert sorted(m.get_state()) == ["a", "b"]
''')
mut("C15-shorter-length", "C15", [(TRF, '''    if options.length is not None and options.length != length:''', '''    if options.length is not None and options.length > length:''')],
 "a specified length shorter than the inputs", "it is silently ignored", BASE + '''
try:
  nnx.scan(lambda m, c, x: (c, x), length=2)(Mod(w=nnx.Param(jnp.ones(()))), 0, jnp.ones(3))
except ValueError:
  pass
else:
  raise AssertionError
''')
mut("C35-init-kw", "C35", [(MOD, '''    def _init(accessor, /, *args, **kwargs):''', '''    def _init(accessor, *args, **kwargs):''')],
 "an init method with an argument of the name of an internal one", "the call raises", BASE + '''
class A(Mod):
  def go(self, accessor):
    return self.is_initializing, accessor
assert A().init.go(accessor=1) == (True, 1)
''')
mut("C16-no-update-on-none", "C16", [(TRF, '''  )(state, keys, *args)

  module.update_state(state)

  return out
''', '''  )(state, keys, *args)

  if out is not None:
    module.update_state(state)

  return out
''')],
 "a rematerialized function that returns nothing", "its updates are lost", BASE + '''
m = Mod(n=nnx.BatchStat(jnp.zeros(())))
def f(m, x):
  m.n = m.n + x
nnx.remat(f)(m, jnp.ones(()))
assert m.n == 1
''')
mut("C12-no-update-on-none", "C12", [(TRF, '''      updates, out = out
      module.update_state(updates)
    return out

  def __repr__(self):
    return f"JitTransform''', '''      updates, out = out
      if jax.tree_util.tree_leaves(updates):
        module.update_state(updates)
    return out

  def __repr__(self):
    return f"JitTransform''')],
 "updates without array leaves (variables that hold None or a state without leaves)", "they are lost", BASE + '''
m = Mod(n=nnx.BatchStat(jnp.zeros(())))
def f(m):
  m.n = None
nnx.jit(f)(m)
assert m.n is None
''')
mut("C23-none-dups", "C23", [(SPM, '''  dups = tuple(k for k, v in axis_name_counts.items() if v > 1 and k is not None)''', '''  dups = tuple(k for k, v in axis_name_counts.items() if v > 1 and k)''')],
 "the empty name twice", "it is not refused", '''
from nnx import spmd
try:
  spmd.logical_to_mesh_axes(("", ""), (("", "x"),))
except ValueError:
  pass
else:
  raise AssertionError
''')
mut("C37-zeros-default", "C37", [(INI, '''  return jax.nn.initializers.zeros
''', '''  return lambda key, shape, dtype=jnp.float32: jnp.zeros(tuple(s for s in shape), jnp.promote_types(dtype, jnp.float16))
''')],
 "an integer or boolean dtype", "the array has another dtype", '''
from nnx.nn import initializers
assert initializers.zeros()(jax.random.PRNGKey(0), (2,), jnp.int32).dtype == jnp.int32
''')
mut("C02-state-values-walk", "C02", [(MOD, '''    elif nodes.is_node(value):
      path = "/".join(new_path_parts)
      yield path, value
''', '''    elif nodes.is_node(value):
      if isinstance(value, Container) and isinstance(value.value, Module):
        continue
      path = "/".join(new_path_parts)
      yield path, value
''')],
 "a variable that holds a module", "it has no entry", BASE + '''
inner = Mod(w=nnx.Param(1))
m = Mod(v=nnx.Param(inner))
assert "v" in m.get_state()
''')
