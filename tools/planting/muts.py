M = {}
def mut(id, prop, edits, needs, breaks, demo):
  assert id not in M
  M[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

HEADER = '''import jax, jax.numpy as jnp, numpy as np, optax
import nnx
'''
MOD, CON, CTX, STA, PAR, TRF = ("nnx/module.py", "nnx/containers.py", "nnx/contextlib.py", "nnx/state.py",
                                "nnx/partitioning.py", "nnx/transforms.py")
PYT, REP, TRC, IDS, HLP, SPM, DCL = ("nnx/pytreelib.py", "nnx/reprlib.py", "nnx/tracers.py", "nnx/ids.py",
                                     "nnx/helpers.py", "nnx/spmd.py", "nnx/dataclasses.py")
LIN, NRM, STO, DTY = "nnx/nn/linear.py", "nnx/nn/normalization.py", "nnx/nn/stochastic.py", "nnx/nn/dtypes.py"

mut("C01-private-statics", "C01", [(MOD, '''elif not nodes.is_node(value) and not name.startswith("_module__"):''',
    '''elif not nodes.is_node(value) and not name.startswith("_module"):''')],
    "a static attribute whose name starts with _module", "such static attributes are lost by split and merge",
    '''
class M(nnx.Module):
  def __init__(self):
    self._module_name = "x"
    self.w = nnx.Param(1)
m = M().clone()
assert vars(m).get("_module_name") == "x"
''')
mut("C02-unsorted-walk", "C02", [(MOD, '''  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
    new_path_parts = (*path_parts, name)''', '''  for name, value in vars(module).items():
    new_path_parts = (*path_parts, name)''')],
    "a shared submodule referenced under two names that were assigned in non-alphabetical order",
    "the canonical path of shared state depends on the order of assignment",
    '''
class M(nnx.Module):
  pass
def mk(order):
  m, s = M(), M()
  s.w = nnx.Param(1)
  for n in order:
    setattr(m, n, s)
  return m
assert list(mk("ab").get_state()) == list(mk("ba").get_state())
''')
mut("C03-value-type", "C03", [(PAR, '''    return isinstance(x, self.type)''',
    '''    return isinstance(x, self.type) or isinstance(getattr(x, "value", None), self.type)''')],
    "a type filter that is the type of a variable's value (jax.Array) on a state with variables and bare arrays",
    "type filters also match variables by the type of their value",
    '''
s = nnx.State({"a": nnx.Param(jnp.ones(2)), "b": jnp.ones(2)})
assert list(s.filter(jax.Array)) == ["b"]
''')
mut("C04-bare-arrays", "C04", [(MOD, '''    elif not nodes.is_node(value):
      continue

    path = "/".join((*path_parts, name))''', '''    elif not isinstance(value, Node):
      continue

    path = "/".join((*path_parts, name))''')],
    "popping with a filter that selects a bare array or pytree attribute", "bare arrays are filtered but never popped",
    '''
class M(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(1)
    self.arr = jnp.ones(2)
m = M()
s = m.pop_state(...)
assert sorted(s) == ["arr", "w"] and not hasattr(m, "arr")
''')
mut("C05-first-wins", "C05", [(MOD, '''    new_states.extend(updates)''', '''    new_states.extend(reversed(updates))''')],
    "an update with a tuple of states that name the same entry", "the first state wins instead of the last",
    '''
class M(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(1)
m = M()
m.update_state((nnx.State({"w": nnx.Param(2)}), nnx.State({"w": nnx.Param(3)})))
assert m.w == 3
''')
mut("C06-in-place", "C06", [(MOD, '''      vars_dict[name] = vars_dict[name].replace(value=value)
    else:
      if isinstance(value, Container):''', '''      vars(vars_dict[name])["value"] = vars_dict[name].replace(value=value).value
    else:
      if isinstance(value, Container):''')],
    "a state taken from a module which is then assigned to", "states alias the variables of the module",
    '''
class M(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(1)
m = M()
s = m.get_state()
m.w = 2
assert s["w"].value == 1
''')
mut("C07-init-flag", "C07", [(MOD, '''      try:
        return accessor(self)(*args, **kwargs)
      finally:
        self.for_each(Module, partial(_set_is_initializing, value=False))
''', '''      out = accessor(self)(*args, **kwargs)
      self.for_each(Module, partial(_set_is_initializing, value=False))
      return out
''')], "a method called through init that raises", "modules stay initializing after a failed init",
    '''
class M(nnx.Module):
  def f(self):
    raise KeyError
m = M()
try:
  m.init.f()
except KeyError:
  pass
assert not m.is_initializing
''')
mut("C08-subkind", "C08", [(CON, '''    return type(self) is type(other) and metadata_fields(self) == metadata_fields(other)''',
    '''    return isinstance(other, type(self)) and metadata_fields(self) == metadata_fields(other)''')],
    "assigning a variable of a subclass of the held kind", "variables of a subclass are accepted, their kind is lost",
    '''
class P(nnx.Param): pass
class M(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(1)
m = M()
try:
  m.w = P(2)
except ValueError:
  pass
else:
  assert False
''')
mut("C08-extra-metadata", "C08", [(CON, '''    return type(self) is type(other) and metadata_fields(self) == metadata_fields(other)''',
    '''    theirs = metadata_fields(other) if isinstance(other, Container) else {}
    return type(self) is type(other) and all(
        name in theirs and theirs[name] == value
        for name, value in metadata_fields(self).items()
    )''')],
    "assigning a variable with the same metadata and additional entries", "additional metadata is dropped silently instead of refused",
    '''
class M(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(1)
m = M()
try:
  m.w = nnx.Param(2, note="x")
except ValueError:
  pass
else:
  assert False
''')
mut("C09-subkind", "C09", [(MOD, '''      elif type(variable) != variable_type:''', '''      elif not isinstance(variable, variable_type):''')],
    "sowing with a base kind onto a variable of a derived kind", "incompatible kinds are accepted",
    '''
class I(nnx.Intermediate): pass
class M(nnx.Module): pass
m = M()
m.sow(I, "x", 1)
try:
  m.sow(nnx.Intermediate, "x", 2)
except ValueError:
  pass
else:
  assert False
''')
mut("C10-no-finally", "C10", [(TRC, '''  try:
    yield
  finally:
    TRACE_CONTEXT.nnx_trace_stack.pop()''', '''  yield
  TRACE_CONTEXT.nnx_trace_stack.pop()''')],
    "an exception inside nnx.jit or nnx.grad, then any mutation", "the trace level is not restored after an exception",
    '''
class M(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(jnp.ones(()))
m = M()
def f(m):
  raise KeyError
try:
  nnx.grad(f)(m)
except KeyError:
  pass
m.w = 2.0
''')
mut("C10-level-numbers", "C10", [(TRC, '''        self._jax_trace is current_jax_trace()
        and self._nnx_trace is current_nnx_trace()''', '''        trace_level(self._jax_trace) == trace_level(current_jax_trace())
        and trace_level(self._nnx_trace) == trace_level(current_nnx_trace())''')],
    "a module that leaks out of one trace and is mutated in a later trace of the same depth",
    "finished trace levels are confused with later ones",
    '''
class M(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(jnp.ones(()))
leak = []
def f(m):
  leak.append(m)
def g(m):
  leak[0].w = 3.0
nnx.jit(f)(M())
try:
  nnx.jit(g)(M())
except nnx.errors.TraceContextError if hasattr(nnx, "errors") else Exception as e:
  assert type(e).__name__ == "TraceContextError"
else:
  assert False
''')
mut("C11-advance-on-error", "C11", [(CTX, '''    elif not self._trace_state.is_valid():
      raise errors.TraceContextError("Cannot use Context from a different trace level")

    stream = self._rngs[name]
    fold_data = _stable_hash(stream.count_path + (stream.count,))
    stream.count += 1
''', '''
    stream = self._rngs[name]
    fold_data = _stable_hash(stream.count_path + (stream.count,))
    stream.count += 1
    if not self._trace_state.is_valid():
      raise errors.TraceContextError("Cannot use Context from a different trace level")
''')], "a refused draw at another trace level followed by a draw at the right one", "refused draws advance the stream",
    '''
a, b = nnx.context(0), nnx.context(0)
def f(x):
  try:
    a.make_rng("params")
  except Exception as e:
    assert type(e).__name__ == "TraceContextError"
  return x
jax.jit(f)(1)
assert (a.make_rng("params") == b.make_rng("params")).all()
''')
mut("C12-variables-only", "C12", [(TRF, '''        updates = module.get_state()
        out = (updates, out)
''', '''        updates = module.filter(Node)
        out = (updates, out)
'''), (TRF, '''from nnx.state import State
''', '''from nnx.containers import Node
from nnx.state import State
''')], "a bare array attribute written inside nnx.jit", "updates of bare arrays are lost",
    '''
class M(nnx.Module):
  def __init__(self):
    self.a = jnp.ones(())
m = M()
def f(m):
  m.a = m.a + 1
nnx.jit(f)(m)
assert m.a == 2
''')
mut("C13-cached-definition", "C13", [(MOD, '''  module_index: tp.Dict[ids.UUID, int] = {}
  path: PathParts = ()

  moduledef = _make_module_def_recursive(module, module_index, path)
  assert isinstance(moduledef, ModuleDef)

  return moduledef
''', '''  cached = vars(module).get("_module__def")
  if cached is not None:
    return cached

  module_index: tp.Dict[ids.UUID, int] = {}
  path: PathParts = ()

  moduledef = _make_module_def_recursive(module, module_index, path)
  assert isinstance(moduledef, ModuleDef)
  if not module.is_initializing:
    vars(module)["_module__def"] = moduledef

  return moduledef
'''), (MOD, '''    vars_dict = vars(self)
    if name in vars_dict and isinstance(vars_dict[name], Container):''', '''    vars_dict = vars(self)
    vars_dict.pop("_module__def", None)
    if name in vars_dict and isinstance(vars_dict[name], Container):''')],
    "split, change a static attribute of a submodule, split again", "definitions are stale after a change in a submodule",
    '''
class S(nnx.Module):
  def __init__(self): self.k = 1
class M(nnx.Module):
  def __init__(self): self.s = S()
m = M()
m.clone()
m.s.k = 2
assert m.clone().s.k == 2
''')
mut("C14-diff-not-updated", "C14", [(TRF, '''        updates = module.get_state()
        if self.has_aux:
          loss, aux = out''', '''        updates = module.get_state() - diff
        if self.has_aux:
          loss, aux = out''')], "a loss function that writes to the differentiated variables", "such writes are lost",
    '''
class M(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.ones(()))
m = M()
def f(m):
  l = m.w * 3
  m.w = m.w + 1
  return l
nnx.grad(f)(m)
assert m.w == 2
''')
mut("C15-swapaxes", "C15", [(TRF, '''      jax.tree_map(lambda x: jnp.moveaxis(x, axis, 0), axes_state)''',
    '''      jax.tree_map(lambda x: jnp.swapaxes(x, axis, 0), axes_state)''')],
    "variables scanned over axis 2 or higher with at least two other axes", "the remaining axes of each slice are permuted",
    '''
class M(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.arange(8.).reshape(2, 2, 2))
m = M()
def f(m, c, x):
  return c, m.w[0, 1]
_, y = nnx.scan(f, variable_axes={nnx.Param: 2}, length=2)(m, 0, None)
assert y.tolist() == [2., 3.]
''')
mut("C15-bare-axes-args", "C15", [(TRF, '''    if options.length is not None and options.length != length:''',
    '''    if options.length is not None and options.length > length:''')],
    "a length smaller than the size of the scanned axis", "too small lengths are ignored instead of refused",
    '''
class M(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.arange(3.))
try:
  nnx.scan(lambda m, c, x: (c, m.w), variable_axes={nnx.Param: 0}, length=2)(M(), 0, None)
except ValueError:
  pass
else:
  assert False
''')
mut("C16-static-first", "C16", [(TRF, '''x + 2 if x >= 0 else x for x in self.static_argnums''',
    '''x + 2 if x > 0 else x for x in self.static_argnums''')],
    "static_argnums naming the first argument", "the module state is taken for the static argument",
    '''
class M(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.ones(()))
def f(m, n, x):
  return m.w * x if n else x
assert nnx.remat(f, static_argnums=(0,))(M(), True, 2.0) == 2
''')
mut("C17-hash-join", "C17", [(CTX, '''hash_str = " ".join(str(x) for x in data)''', '''hash_str = "".join(str(x) for x in data)''')],
    "streams that were drawn from or split more than ten times", "positions such as (1, 11) and (11, 1) give the same key",
    '''
c = nnx.context(0)
parts = [c.partition() for _ in range(12)]
a, b = parts[1].merge(), parts[11].merge()
ka = [a.make_rng("params") for _ in range(12)]
kb = [b.make_rng("params") for _ in range(12)]
keys = {tuple(np.asarray(k)) for k in ka + kb}
assert len(keys) == 24
''')
mut("C18-insertion-order", "C18", [(PYT, '''    vars(obj)["_pytree__sorted_fields"] = sorted(vars(obj))''',
    '''    vars(obj)["_pytree__sorted_fields"] = list(vars(obj))''')],
    "two objects of one class whose attributes were assigned in different orders", "leaves come in assignment order",
    '''
class P(nnx.Pytree):
  def __init__(self, order):
    for n in order:
      setattr(self, n, nnx.TreeNode(n))
assert jax.tree_util.tree_leaves(P("ba")) == ["a", "b"]
''')
mut("C19-class-attributes", "C19", [(PYT, '''    elif name not in vars_dict:
      raise AttributeError(r"Cannot add new fields''', '''    elif not hasattr(self, name):
      raise AttributeError(r"Cannot add new fields''')],
    "a mutable pytree and assignment to the name of a class attribute that is not a field",
    "new fields that shadow class attributes can be added to initialized pytrees",
    '''
class P(nnx.Pytree, mutable=True):
  scale = 2
  def __init__(self): self.x = 1
p = P()
try:
  p.scale = 3
except AttributeError:
  pass
else:
  assert False
''')
mut("C20-missing-none", "C20", [(PYT, '''      if name not in state:
        raise ValueError(
            f"Missing''', '''      if name not in state:
        if getattr(pytree, name) is None:
          continue
        raise ValueError(
            f"Missing''')], "a state dict that lacks a node field whose current value is None", "the missing field is not reported",
    '''
from flax import serialization
class P(nnx.Pytree):
  def __init__(self):
    self.a = nnx.TreeNode(None)
    self.b = nnx.TreeNode(1)
try:
  serialization.from_state_dict(P(), {"b": 2})
except ValueError:
  pass
else:
  assert False
''')
mut("C21-no-params", "C21", [(HLP, '''self.tx.update(grads, self.opt_state, self.params)''', '''self.tx.update(grads, self.opt_state)''')],
    "an optimizer that uses the parameters (weight decay)", "parameters are not given to the optimizer",
    '''
class M(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.ones(()))
p, d = M().partition()
t = nnx.TrainState(d, params=p, tx=optax.adamw(0.1))
t.apply_gradients(p)
''')
mut("C22-static-kind", "C22", [(DCL, '''lambda value: containers.Static(value)''',
    '''lambda value: (
      value if isinstance(value, containers.Container) else containers.Static(value)
  )''')], "a static field given a variable or node", "a container of another kind is accepted and the field becomes part of the state",
    '''
@nnx.dataclass
class M(nnx.Module):
  a: object = nnx.static_field()
try:
  M(nnx.Param(1))
except ValueError:
  pass
else:
  assert False
''')
mut("C22-init-only", "C22", [(MOD, '''        if "nnx_container_fn" not in field.metadata:
          continue''', '''        if "nnx_container_fn" not in field.metadata or not field.init:
          continue''')], "a declared field with init=False (set by its default, factory or __post_init__)",
    "the field is left unwrapped and is missing from the state",
    '''
@nnx.dataclass
class M(nnx.Module):
  a: object = nnx.param_field(init=False)
  def __post_init__(self): self.a = 3
assert list(M().get_state()) == ["a"], M().get_state()
''')
mut("C23-none-rule", "C23", [(SPM, '''          and result[pos] == _unassigned_axis''', '''          and not result[pos]''')],
    "rules that map a name to None first and to a mesh axis later", "a later rule overrides a name mapped to None",
    '''
from jax.sharding import PartitionSpec as P
from nnx import spmd
assert spmd.logical_to_mesh_axes(("a",), (("a", None), ("a", "x"))) == P(None)
''')
mut("C24-remove-by-name", "C24", [(SPM, '''      assert sharding.pop(index) == axis_name
''', '''      sharding.remove(axis_name)
''')], "user metadata that already contains the partition name in front of the scanned axis",
    "the user's own axis name is removed instead of the added one",
    '''
seen = []
class M(nnx.Module):
  def __init__(self, *, ctx): self.w = nnx.Param(jnp.ones((3, 4)), sharding=("layers", "b"))
  def __call__(self, c, x):
    seen.append(vars(self)["w"].sharding)
    return c, x
m = nnx.Scan(M, variable_axes={nnx.Param: 2}, length=2, metadata_params={nnx.PARTITION_NAME: "layers"})(ctx=nnx.context(0))
m(0, None)
assert seen[0] == ("layers", "b"), seen
''')
mut("C25-id-outside-lock", "C25", [(IDS, '''      self._id += 1
      return UUID(self._id)''', '''      self._id += 1
    return UUID(self._id)''')], "two threads creating modules at the same time", "two modules get the same identity",
    '''
import sys, threading
from nnx import ids
found = []
turn = {"n": 0}
def tracer(frame, event, arg):
  if frame.f_code.co_filename != ids.__file__:
    return None
  def local(frame, event, arg):
    if event == "line" and frame.f_code.co_name == "__call__" and not ids.uuid._lock.locked() and not turn["n"]:
      # the first thread is past the critical section: let the other one run
      turn["n"] += 1
      if frame.f_lineno != frame.f_code.co_firstlineno + 1:
        t = threading.Thread(target=lambda: found.append(ids.uuid()))
        t.start()
        t.join()
      else:
        turn["n"] = 0
    return local
  return local
sys.settrace(tracer)
mine = ids.uuid()
sys.settrace(None)
assert mine not in found, (mine, found)
''')
mut("C26-indent-leak", "C26", [(REP, '''  try:
    yield
  finally:
    REPR_CONTEXT.indent_stack.pop()''', '''  yield
  REPR_CONTEXT.indent_stack.pop()''')], "printing an object with an element whose repr raises", "later output is indented",
    '''
class B:
  def __repr__(self): raise KeyError
class M(nnx.Module):
  def __init__(self, x): self.x = x
r = repr(M(1))
try:
  repr(M(B()))
except KeyError:
  pass
assert repr(M(1)) == r
''')
mut("C26-shared-indent", "C26", [(REP, '''class ReprContext(threading.local):''', '''class ReprContext:''')],
    "two threads printing at the same time", "the indentation of one thread shows in the output of the other",
    '''
import threading
class Inner:
  def __repr__(self):
    out = []
    t = threading.Thread(target=lambda: out.append(repr(M(1))))
    t.start(); t.join()
    return "same" if out[0] == single else "other"
class M(nnx.Module):
  def __init__(self, x): self.x = x
single = repr(M(1))
assert "same" in repr(M(Inner()))
''')
mut("C27-input-dtype", "C27", [(LIN, '''    inputs, kernel, bias = dtypes.promote_dtype(inputs, kernel, bias, dtype=self.dtype)
    y = self.dot_general(''', '''    dtype = self.dtype
    if dtype is None and jnp.issubdtype(inputs.dtype, jnp.floating):
      dtype = inputs.dtype
    inputs, kernel, bias = dtypes.promote_dtype(inputs, kernel, bias, dtype=dtype)
    y = self.dot_general(''')], "half precision inputs with float32 parameters and no dtype", "the result has the input's dtype instead of the promoted one",
    '''
l = nnx.Linear(2, 2, ctx=nnx.context(0))
assert l(jnp.ones((1, 2), jnp.float16)).dtype == jnp.float32
''')
mut("C28-circular-even", "C28", [(LIN, '''((k - 1) // 2, k // 2) for k''', '''(k // 2, (k - 1) // 2) for k''')],
    "CIRCULAR padding with an even kernel", "the output is shifted by one",
    '''
c = nnx.Conv(1, 1, (2,), padding="CIRCULAR", ctx=nnx.context(0))
c.kernel = jnp.array([1., 0.]).reshape(2, 1, 1)
assert c(jnp.arange(4.).reshape(1, 4, 1)).ravel().tolist() == [0., 1., 2., 3.]
''')
mut("C28-causal-dilation", "C28", [(LIN, '''left_pad = kernel_dilation[0] * (kernel_size[0] - 1)''', '''left_pad = kernel_size[0] - 1''')],
    "CAUSAL padding with kernel dilation", "the output is too short",
    '''
c = nnx.Conv(1, 1, (2,), padding="CAUSAL", kernel_dilation=2, ctx=nnx.context(0))
assert c(jnp.arange(4.).reshape(1, 4, 1)).shape == (1, 4, 1)
''')
mut("C29-flag-priority", "C29", [(NRM, '''        use_running_average,
        self.use_running_average,
        ctx and ctx.get_flag("use_running_average"),''', '''        use_running_average,
        ctx and ctx.get_flag("use_running_average"),
        self.use_running_average,''')], "a layer with its own setting called with a context that has the opposite flag",
    "the context flag overrides the attribute",
    '''
b = nnx.BatchNorm(1, use_running_average=True, ctx=nnx.context(0))
b(jnp.full((4, 1), 3.), ctx=nnx.context(0, flags={"use_running_average": False}))
assert b.mean[0] == 0
''')
mut("C30-wrong-stream", "C30", [(STO, '''    rng = ctx.make_rng(self.rng_collection)''',
    '''    name = self.rng_collection if ctx.has_rng(self.rng_collection) else "params"
    rng = ctx.make_rng(name)''')], "a context without the named stream", "the mask is drawn from the params stream instead of raising",
    '''
d = nnx.Dropout(0.5)
try:
  d(jnp.ones(3), deterministic=False, ctx=nnx.context(0))
except ValueError:
  pass
else:
  assert False
''')
mut("C31-keyword-only", "C31", [(HLP, '''      and param.kind in (param.KEYWORD_ONLY, param.POSITIONAL_OR_KEYWORD)''', '''      and param.kind == param.KEYWORD_ONLY''')],
    "a callable that takes ctx as an ordinary parameter", "the context is not passed on",
    '''
def f(x, ctx=None):
  return ctx is not None
assert nnx.Sequence([f])(1, ctx=nnx.context(0))
''')
mut("C32-unsorted-merge", "C32", [(STA, '''      new_state.update(state)

    return State(new_state)''', '''      new_state.update(state)

    # the states are sorted already
    merged = object.__new__(State)
    merged._mapping = new_state
    return merged''')], "merging states whose paths interleave", "the merged state does not iterate in path order",
    '''
a, b = nnx.State({"b": 1}), nnx.State({"a": 2})
assert list(a | b) == ["a", "b"]
''')
mut("C33-no-finally", "C33", [(SPM, '''  old_rules = _axis_rules.rules
  try:
    _axis_rules.rules = rules
    yield
  finally:
    _axis_rules.rules = old_rules''', '''  old_rules = _axis_rules.rules
  _axis_rules.rules = rules
  yield
  _axis_rules.rules = old_rules''')], "leaving a rules block by an exception", "the rules stay in force",
    '''
from nnx import spmd
try:
  with spmd.logical_axis_rules((("a", "x"),)):
    raise KeyError
except KeyError:
  pass
assert spmd.get_logical_axis_rules() == ()
''')
mut("C33-global-rules", "C33", [(SPM, '''class _AxisRules(threading.local):''', '''class _AxisRules:''')],
    "a thread that uses the rules while another one is in a rules block", "rules leak into other threads",
    '''
import threading
from nnx import spmd
seen = []
with spmd.logical_axis_rules((("a", "x"),)):
  t = threading.Thread(target=lambda: seen.append(spmd.get_logical_axis_rules()))
  t.start(); t.join()
assert seen == [()]
''')
mut("C34-aux-tracers", "C34", [(TRF, '''          loss, aux = out
          out = (loss, (updates, aux))''', '''          loss, aux = out
          self.updates = updates
          out = (loss, (State({}), aux))'''), (TRF, '''        grads, (updates, aux) = grads
        out = grads, aux''', '''        grads, (updates, aux) = grads
        updates = self.updates
        out = grads, aux''')], "nnx.grad with has_aux on a function that modifies the module", "tracers are left in the module",
    '''
class M(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(jnp.ones(()))
    self.s = nnx.BatchStat(jnp.ones(()))
m = M()
def f(m):
  m.s = m.w * 2
  return m.w * 3, 1
nnx.grad(f, has_aux=True)(m)
assert not isinstance(m.s, jax.core.Tracer)
''')
