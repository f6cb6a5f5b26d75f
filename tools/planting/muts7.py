from muts import HEADER, MOD, CON, CTX, STA, PAR, TRF, PYT, REP, TRC, IDS, HLP, SPM, DCL, LIN, NRM, STO, DTY
NOD, ACT, INI = "nnx/nodes.py", "nnx/nn/activations.py", "nnx/nn/initializers.py"
M = {}
def mut(id, prop, edits, needs, breaks, demo):
  assert id not in M
  M[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

BASE = '''
class Mod(nnx.Module):
  def __init__(self, **kw):
    for k, v in kw.items():
      setattr(self, k, v)
  def run(self, f, *a, **k):
    return f(self, *a, **k)
'''
mut("C03-truthy", "C03", [(STA, '''      if predicate(path, value):
        states[i][path] = value''', '''      if predicate(path, value) is True:
        states[i][path] = value''')],
 "a predicate that returns a truthy value that is not True", "the entry goes to a later group", BASE + '''
m = Mod(w=nnx.Param(jnp.ones(2)), b=nnx.BatchStat(jnp.ones(2)))
a, b = m.filter(lambda p, v: np.bool_(p == "w"), ...)
assert list(a) == ["w"] and list(b) == ["b"], (a, b)
''')
mut("C04-drops-empty", "C04", [(MOD, '''    states = _pop(self, filters)

    if len(states) == 1:''', '''    states = _pop(self, filters)
    states = tuple(state for state in states if state) or states

    if len(states) == 1:''')],
 "popping with several filters of which one matches nothing", "the result has fewer states than filters", BASE + '''
m = Mod(w=nnx.Param(1))
a, b = m.pop_state(nnx.BatchStat, nnx.Param)
assert not a and list(b) == ["w"]
''')
mut("C08-nested-metadata", "C08", [(CON, '''    if container is not None and not container.is_equivalent(obj):''', '''    if container is not None and type(container) is not type(obj):''')],
 "a variable made from a variable with other metadata", "the metadata of the inner variable is dropped without an error", '''
try:
  v = nnx.Param(nnx.Param(1, sharding=("a",)), sharding=("b",))
except ValueError:
  pass
else:
  raise AssertionError(v)
''')
mut("C10-new-attr-unchecked", "C10", [(MOD, '''    if not self._module__state.trace_state.is_valid():
      raise errors.TraceContextError("Cannot mutate Module from different trace level")

    vars_dict = vars(self)
    if name in vars_dict''', '''    vars_dict = vars(self)
    if name in vars_dict and not self._module__state.trace_state.is_valid():
      raise errors.TraceContextError("Cannot mutate Module from different trace level")

    if name in vars_dict''')],
 "adding an attribute that the module has not, from another level", "a tracer leaks into the outer module", BASE + '''
m = Mod(w=nnx.Param(1))
def f(x):
  try:
    m.leak = x
  except Exception as e:
    assert type(e).__name__ == "TraceContextError"
    return x
  raise AssertionError("accepted")
jax.jit(f)(1.0)
''')
mut("C11-first-use-only", "C11", [(CTX, '''    elif not self._trace_state.is_valid():
      raise errors.TraceContextError("Cannot use Context from a different trace level")

    stream = self._rngs[name]''', '''    stream = self._rngs[name]
    if stream.count == 0 and not self._trace_state.is_valid():
      raise errors.TraceContextError("Cannot use Context from a different trace level")
''')],
 "a context that has drawn before, used at another level", "keys are drawn inside a trace from an outer context", '''
ctx = nnx.context(0)
ctx.make_rng("params")
def f(x):
  try:
    ctx.make_rng("params")
  except Exception as e:
    assert type(e).__name__ == "TraceContextError"
    return x
  raise AssertionError("accepted")
jax.jit(f)(1.0)
''')
mut("C12-keep-unused", "C12", [(TRF, '''      keep_unused=keep_unused,
      device=device,''', '''      keep_unused=keep_unused and not donate_argnums,
      device=device,''')],
 "keep_unused together with donate_argnums", "unused arguments are dropped from the compiled program", BASE + '''
m = Mod(w=nnx.Param(jnp.ones(2)))
def f(m, x, y): return m.w * x
def n(g): return len(g.lower(m, jnp.ones(2), jnp.ones(3)).compile().input_shardings[0])
a = nnx.jit(f, keep_unused=True).lower(m, jnp.ones(2), jnp.ones(3)).as_text().count("%arg")
b = nnx.jit(f, keep_unused=True, donate_argnums=(1,)).lower(m, jnp.ones(2), jnp.ones(3)).as_text().split("func.func public @main(")[1].split("->")[0].count("%arg")
assert b == 3, b
''')
mut("C14-aux-diff-dropped", "C14", [(TRF, '''        grads, (updates, aux) = grads
        out = grads, aux''', '''        grads, (updates, aux) = grads
        updates = updates - diff
        out = grads, aux''')],
 "a differentiated function with aux output that assigns a differentiated variable", "the assignment is lost", BASE + '''
m = Mod(w=nnx.Param(2.0), b=nnx.BatchStat(1.0))
def f(m):
  l = m.w * 3
  m.w = m.w + 1.0
  m.b = m.b + 1.0
  return l, "aux"
nnx.grad(lambda m: (f(m)[0], 1.0), has_aux=True)(m)
assert float(m.b) == 2.0 and float(m.w) == 3.0, (m.b, m.w)
''')
mut("C15-zero-length", "C15", [(TRF, '''    if options.length is not None and options.length != length:''', '''    if options.length and options.length != length:''')],
 "a scan of specified length 0 over data of another length", "the mismatch is not reported", BASE + '''
m = Mod(w=nnx.Param(jnp.ones(())))
f = nnx.scan(lambda m, c, x: (c, x), length=0)
try:
  out = f(m, jnp.ones(()), jnp.ones((3,)))
except ValueError:
  pass
else:
  raise AssertionError(out)
''')
mut("C16-cse-policy", "C16", [(TRF, '''      prevent_cse=options.prevent_cse,
      static_argnums=options.static_argnums,
      policy=options.policy,
  )(state''', '''      prevent_cse=options.prevent_cse or options.policy is not None,
      static_argnums=options.static_argnums,
      policy=options.policy,
  )(state''')],
 "prevent_cse=False together with a policy", "the option has no effect", BASE + '''
m = Mod(w=nnx.Param(jnp.ones(())))
g = nnx.remat(lambda m, x: jnp.sin(m.w * x), prevent_cse=False, policy=jax.checkpoint_policies.everything_saveable)
def f(s, d, x):
  return g(d.merge(s), x)
s, d = m.partition()
jaxpr = jax.make_jaxpr(lambda s, x: f(s, d, x))(s, 2.0)
es = [e for e in jaxpr.eqns if "prevent_cse" in e.params]
assert es and all(e.params["prevent_cse"] is False for e in es), jaxpr
''')
mut("C23-empty-rules", "C23", [(SPM, '''  if rules is None:
    rules = _axis_rules.rules
  axis_name_counts''', '''  if not rules:
    rules = _axis_rules.rules
  axis_name_counts''')],
 "explicit empty rules while global rules are set", "the global rules are used", '''
from nnx import spmd
from jax.sharding import PartitionSpec as P
with spmd.logical_axis_rules((("a", "x"),)):
  assert spmd.logical_to_mesh_axes(("a",), ()) == P(None), spmd.logical_to_mesh_axes(("a",), ())
''')
mut("C24-none-name", "C24", [(TRF, '''    # add metadata axis name to Variable.sharding
    if spmd.PARTITION_NAME in options.metadata_params:
      axes_states_out = [''', '''    # add metadata axis name to Variable.sharding
    if options.metadata_params.get(spmd.PARTITION_NAME):
      axes_states_out = [''')],
 "a scan whose partition name is None", "the metadata misses one axis after the first call", '''
class Block(nnx.Module):
  def __init__(self, *, ctx):
    self.w = nnx.Param(jnp.ones((2,)), sharding=("m",))
  def __call__(self, c, x):
    return c, x
S = nnx.Scan(Block, variable_axes={nnx.Param: 0}, length=3, metadata_params={"partition_name": None})
m = S(ctx=nnx.context(0))
m.scan_module.run = None
m(jnp.ones(()), jnp.ones((3,)))
assert vars(m.scan_module)["w"].sharding == (None, "m"), vars(m.scan_module)["w"].sharding
''')
mut("C28-own-conv", "C28", [(LIN, '''    y = self.conv_general_dilated(
        inputs,''', '''    conv = self.conv_general_dilated if num_batch_dimensions == 1 else lax.conv_general_dilated
    y = conv(
        inputs,''')],
 "a custom convolution and an input with other than one batch dimension", "the custom function is not called", '''
calls = []
def conv(*a, **k):
  calls.append(1)
  return jax.lax.conv_general_dilated(*a, **k)
c = nnx.Conv(1, 1, [2], conv_general_dilated=conv, ctx=nnx.context(0))
c(jnp.ones((4, 1)))
assert calls
''')
mut("C29-update-mean-first", "C29", [(NRM, '''      self.mean = self.momentum * self.mean + (1 - self.momentum) * mean
      self.var = self.momentum * self.var + (1 - self.momentum) * var
''', '''      self.mean = self.momentum * self.mean + (1 - self.momentum) * mean
      if not self.is_initializing:
        self.var = self.momentum * self.var + (1 - self.momentum) * var
''')],
 "a batch norm called through init", "the variance is not updated", BASE + '''
b = nnx.BatchNorm(2, momentum=0.5, use_running_average=False, ctx=nnx.context(0))
c = nnx.BatchNorm(2, momentum=0.5, use_running_average=False, ctx=nnx.context(0))
x = jnp.arange(6.0).reshape(3, 2)
b.init(x); c(x)
assert np.allclose(b.var, c.var), (b.var, c.var)
''')
mut("C30-rate-one-dtype", "C30", [(STO, '''      return jnp.zeros_like(inputs)

    if ctx is None:''', '''      return jnp.zeros(inputs.shape)

    if ctx is None:''')],
 "rate 1 and an input that is not float32", "the dtype changes", '''
assert nnx.Dropout(1.0)(jnp.ones((2,), jnp.bfloat16), deterministic=False).dtype == jnp.bfloat16
''')
mut("C31-empty-tuple", "C31", [(HLP, '''        if isinstance(output, tp.Tuple):
          args = output''', '''        if isinstance(output, tp.Tuple) and output:
          args = output''')],
 "a layer that returns an empty tuple", "the next layer gets the tuple as an argument", '''
s = nnx.Sequence([lambda: (), lambda *a: len(a)])
assert s() == 0, s()
''')
mut("C07-returned-module", "C07", [(MOD, '''      module = self.merge()
      fn = accessesor(module)
      return fn(*args, **kwargs)''', '''      module = self.merge()
      out = accessesor(module)(*args, **kwargs)
      vars(self.moduledef.__class__)
      return out if not isinstance(out, Module) else self.merge()''')],
 "a call that returns the module it worked on", "the result is a fresh copy without the changes", BASE + '''
m = Mod(w=nnx.Param(1))
def f(s):
  s.w = 5
  return s
assert m.partition().call.run(f).w == 5
''')
mut("C07-init-copy", "C07", [(MOD, '''        return accessor(self)(*args, **kwargs)
      finally:''', '''        out = accessor(self)(*args, **kwargs)
        return self if out is None else out
      finally:''')],
 "init of a method that returns nothing", "the module is returned", BASE + '''
m = Mod()
assert m.init.run(lambda s: None) is None
''')
mut("C09-sow-shape", "C09", [(MOD, '''      value = current_value + (value,)
      setattr(self, name, value)
    else:''', '''      value = current_value + (value,)
      vars(self)[name] = variable_type(value)
    else:''')],
 "sowing into a variable that has metadata", "the metadata is lost", BASE + '''
m = Mod(h=nnx.Intermediate((), sharding=("a",), note=1))
m.sow(nnx.Intermediate, "h", 1)
v = vars(m)["h"]
assert v.sharding == ("a",) and v.note == 1 and v.value == (1,), v
''')
mut("C13-eq-static-types", "C13", [(MOD, '''        and self._static_fields == other._static_fields
        and self._module_state == other._module_state''', '''        and dict(self._static_fields).keys() == dict(other._static_fields).keys()
        and all(a == b or (a is None) != (b is None) and not (a or b) for (_, a), (_, b) in zip(self._static_fields, other._static_fields))
        and self._module_state == other._module_state''')],
 "a static attribute that is None in one module and 0 in the other", "the definitions are equal", BASE + '''
assert Mod(s=None).get_module_def() != Mod(s=0).get_module_def()
assert Mod(s=None).get_module_def() != Mod(s=()).get_module_def()
''')
mut("C18-static-identity", "C18", [(PYT, '''      if nodes.is_node(value):
        node_names.append(field)''', '''      if nodes.is_node(value) and not (isinstance(value, containers.Container) and value.value is None):
        node_names.append(field)''')],
 "a node field that holds None", "the field becomes static", '''
class P(nnx.Pytree):
  def __init__(self, v): self.a = nnx.Node(v)
p = P(None)
kids = jax.tree_util.tree_flatten(p, is_leaf=lambda x: x is not p)[0]
assert len(kids) == 1 and isinstance(kids[0], nnx.Node), kids
assert jax.tree_util.tree_structure(p).num_nodes >= 2
''')
mut("C21-extra-first", "C21", [(HLP, '''        getattr(self, state) if isinstance(state, str) else state for state in states
    )''', '''        getattr(self, state) if isinstance(state, str) else state for state in sorted(states, key=lambda s: not isinstance(s, str))
    )''')],
 "apply with a state before a field name that overlap", "the order of the states changes, so another one wins", BASE + '''
import optax
m = Mod(w=nnx.Param(jnp.ones(())))
s, d = m.partition()
ts = nnx.TrainState(d, params=s, tx=optax.sgd(0.1))
other = nnx.State({"w": nnx.Param(jnp.float32(9))})
out, _ = ts.apply(other, "params").run(lambda m: m.w)
assert float(out) == 1.0, out
''')
mut("C22-factory-shared", "C22", [(PYT, '''        value = vars(obj).get(field.name, getattr(cls, field.name, None))
        value = container_fn(value)
        vars(obj)[field.name] = value''', '''        value = vars(obj).get(field.name, getattr(cls, field.name, None))
        if value is None and field.default is None:
          continue
        value = container_fn(value)
        vars(obj)[field.name] = value''')],
 "a node field of a pytree with default None", "the field is not a node", '''
@nnx.dataclass
class P(nnx.Pytree):
  a: object = nnx.node_field(default=None)
p = P()
assert isinstance(vars(p)["a"], nnx.Node), vars(p)
''')
mut("C32-sub-order", "C32", [(STA, '''    if isinstance(__input, tp.Mapping):
      self._mapping = dict(sorted(__input.items(), key=lambda x: x[0]))''', '''    if isinstance(__input, dict):
      self._mapping = dict(sorted(__input.items(), key=lambda x: x[0]))
    elif isinstance(__input, tp.Mapping):
      self._mapping = dict(__input)''')],
 "a state made from a mapping that is not a dictionary", "the entries are not sorted", '''
import types
s = nnx.State(types.MappingProxyType({"b": 1, "a": 2}))
assert list(s) == ["a", "b"], list(s)
''')
mut("C05-static-none", "C05", [(MOD, '''  state: StateDict = {}
  for new_state in new_states:
    state.update(new_state)

  for path''', '''  state: StateDict = {}
  for new_state in reversed(new_states):
    for path, value in new_state.items():
      current = state.get(path)
      if current is None:
        state[path] = value

  for path''')],
 "updating an entry with a bare None", "the old value stays", BASE + '''
m = Mod(w=nnx.Param(1))
m.update_state(nnx.State({"w": None}))
assert m.w is None, m.w
''')
mut("C02-leaf-unboxed", "C02", [(MOD, '''    return getattr(self._module, self._name)''', '''    value = vars(self._module)[self._name]
    return value.value if isinstance(value, Node) else value''')],
 "a variable with an unbox function read through its mutable leaf", "the raw value is returned", BASE + '''
m = Mod(w=nnx.Param(1, unbox_fn=lambda v: v.value + 10))
assert m.w == 11
assert m.mutable_state_dict()["w"].value == 11
''')
mut("C19-class-default", "C19", [(PYT, '''    elif name not in vars_dict:
      raise AttributeError(r"Cannot add new fields to an initialized Pytree")''', '''    elif not hasattr(self, name):
      raise AttributeError(r"Cannot add new fields to an initialized Pytree")''')],
 "a class attribute with the name that is set on a mutable pytree", "a new field is added", '''
class P(nnx.Pytree, mutable=True):
  k = 3
  def __init__(self, v): self.a = nnx.Node(v)
p = P(1)
try:
  p.k = 4
except AttributeError:
  pass
else:
  raise AssertionError(vars(p))
''')
mut("C03-bare-last-none", "C03", [(STA, '''    else:
      # if we didn't break, set leaf to last state
      states[-1][path] = value''', '''    else:
      # if we didn't break, set leaf to last state
      if nodes.is_node(value) or not filters or filters[-1] is not None:
        states[-1][path] = value''')],
 "a state with bare values partitioned by filters that end with None", "the values are lost without an error", '''
s = nnx.State({"a": 1, "b": nnx.Param(2)})
try:
  out = s.partition(nnx.Param, None)
except ValueError:
  pass
else:
  raise AssertionError(out)
''')
mut("C34-grad-no-arrays", "C34", [(TRF, '''      if self.stateful:
        updates = module.get_state()
        if self.has_aux:
          loss, aux = out
          out = (loss, (updates, aux))''', '''      if self.stateful:
        updates = module.get_state()
        if self.has_aux:
          loss, aux = out
          aux = jax.lax.stop_gradient(aux)
          out = (loss, (updates, aux))''')],
 "an inner gradient with aux output under an outer gradient", "the outer gradient does not flow through aux", BASE + '''
m = Mod(w=nnx.Param(2.0))
inner = nnx.grad(lambda m, x: (m.w * x, x * x), has_aux=True)
def outer(x):
  g, aux = inner(m.clone() if False else Mod(w=nnx.Param(2.0)), x)
  return aux
assert float(jax.grad(outer)(3.0)) == 6.0, jax.grad(outer)(3.0)
''')
