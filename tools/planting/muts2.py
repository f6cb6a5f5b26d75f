from muts import HEADER, MOD, CON, CTX, STA, PAR, TRF, PYT, REP, TRC, IDS, HLP, SPM, DCL, LIN, NRM, STO, DTY
M = {}
def mut(id, prop, edits, needs, breaks, demo):
  assert id not in M
  M[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

mut("C01-none-statics", "C01", [(MOD, '''    elif not nodes.is_node(value) and not name.startswith("_module__"):''',
 '''    elif value is not None and not nodes.is_node(value) and not name.startswith("_module__"):''')],
 "a static attribute that is None and not also defined on the class", "None attributes are lost by split and merge", '''
class M(nnx.Module):
  def __init__(self):
    self.cfg = None
    self.w = nnx.Param(1)
assert "cfg" in vars(M().clone())
''')
mut("C01-copied-index", "C01", [(MOD, '''      submodule_def = _make_module_def_recursive(value, module_index, value_path)''',
 '''      submodule_def = _make_module_def_recursive(
          value, module_index if len(path) < 2 else dict(module_index), value_path)''')],
 "two references to one module that are both at depth three or more under one parent", "deep shared modules are duplicated by the round trip", '''
class M(nnx.Module):
  def __init__(self, **kw):
    for k, v in kw.items():
      setattr(self, k, v)
s = M(w=nnx.Param(1))
m = M(a=M(b=M(c=M(x=s), d=M(x=s)))).clone()
assert m.a.b.c.x is m.a.b.d.x
''')
mut("C02-none-value", "C02", [(MOD, '''    elif nodes.is_node(value):
      path = "/".join(new_path_parts)''', '''    elif nodes.is_node(value) and getattr(value, "value", value) is not None:
      path = "/".join(new_path_parts)''')],
 "a variable whose value is None, like the bias of Linear(use_bias=False)", "the entry is missing from the state", '''
class M(nnx.Module):
  def __init__(self):
    self.b = nnx.Param(None)
assert list(M().get_state()) == ["b"]
''')
mut("C03-single-remainder", "C03", [(STA, '''    if rest:
      raise''', '''    if rest and len(filters) > 1:
      raise''')], "partition with a single filter that does not cover the state", "entries are silently lost", '''
s = nnx.State({"a": nnx.Param(1), "b": nnx.BatchStat(1)})
try:
  s.partition(nnx.Param)
  raise SystemExit(1)
except ValueError:
  pass
''')
mut("C03-shared-any", "C03", [(PAR, '''    return any(predicate(path, x) for predicate in self.predicates)''',
 '''    return sum(bool(predicate(path, x)) for predicate in self.predicates) == 1''')],
 "a tuple filter in which two members match the same entry", "the entry matches none", '''
s = nnx.State({"a": nnx.Param(1)})
assert len(s.filter((nnx.Param, nnx.Variable))) == 1
''')
mut("C04-last-filter", "C04", [(MOD, '''    for state, predicate in zip(states, predicates):
      if predicate(path, value):''', '''    for state, predicate in zip(reversed(states), reversed(predicates)):
      if predicate(path, value):''')], "pop_state with overlapping filters", "entries go to the last matching filter", '''
class M(nnx.Module):
  def __init__(self):
    self.a = nnx.Param(1); self.b = nnx.BatchStat(1)
p, q = M().pop_state(nnx.Param, nnx.Variable)
assert list(p) == ["a"] and list(q) == ["b"]
''')
mut("C05-skip-none", "C05", [(MOD, '''  for path, value in state.items():
    path_parts = path.split("/")
    _set''', '''  for path, value in state.items():
    if value is None:
      continue
    path_parts = path.split("/")
    _set''')], "an update whose entry is a bare None", "the entry keeps its old value", '''
class M(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(1)
m = M()
m.update_state(nnx.State({"w": None}))
assert m.w is None
''')
mut("C06-call-merges-once", "C06", [(MOD, '''    def _context(accessesor, /, *args, **kwargs):
      module = self.merge()
      fn''', '''    module = self.merge()

    def _context(accessesor, /, *args, **kwargs):
      fn''')], "keeping pure.call (or a method of it) and calling it twice", "the second call sees the mutations of the first", '''
class M(nnx.Module):
  def __init__(self):
    self.n = nnx.BatchStat(0)
  def __call__(self):
    self.n = self.n + 1
    return self.n
f = M().partition().call
assert f() == 1 and f() == 1
''')
mut("C07-apply-merges-once", "C07", [(MOD, '''    def _context(accessesor, /, *args, **kwargs) -> tp.Tuple[tp.Any, M]:
      module = self.clone()
      fn''', '''    module = self.clone()

    def _context(accessesor, /, *args, **kwargs) -> tp.Tuple[tp.Any, M]:
      fn''')], "keeping module.apply and using it twice", "the second call continues on the module of the first", '''
class M(nnx.Module):
  def __init__(self):
    self.n = nnx.BatchStat(0)
  def __call__(self):
    self.n = self.n + 1
    return self.n
f = M().apply
y, m1 = f()
y, m2 = f()
assert m1 is not m2 and m2.n == 1
''')
mut("C08-none-metadata", "C08", [(CON, '''      attributes = vars(x).copy()
      value = attributes.pop("value")''', '''      attributes = {k: v for k, v in vars(x).items() if v is not None or k in ("value", "sharding")}
      value = attributes.pop("value")''')], "metadata that is None (like mesh or rules of logical partitioning)",
 "the metadata is lost when the variable passes through a pytree operation", '''
p = nnx.Param(1, mesh=None)
assert "mesh" in vars(jax.tree_util.tree_map(lambda x: x, p))
''')
mut("C08-assign-container", "C08", [(MOD, '''    if name in vars_dict and isinstance(vars_dict[name], Container):
      vars_dict''', '''    if (name in vars_dict and isinstance(vars_dict[name], Container)
        and not (isinstance(value, Container) and type(value) is type(vars_dict[name]))):
      vars_dict''')], "assigning a variable of the same kind with different metadata", "the mismatch is accepted and the metadata replaced", '''
class M(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(1, sharding=("a",))
m = M()
try:
  m.w = nnx.Param(2, sharding=("b",))
  raise SystemExit(1)
except ValueError:
  pass
''')
mut("C08-path-flatten", "C08", [(CON, '''        node = (jtu.GetAttrKey("value"), value)
''', '''        node = (jtu.GetAttrKey("value"), value)
        attributes = {k: v for k, v in attributes.items() if k == "sharding"}
''')], "flattening with paths (tree_map_with_path) a variable with extra metadata", "the metadata is lost", '''
p = nnx.Param(1, foo=1)
assert vars(jax.tree_util.tree_map_with_path(lambda k, x: x, p)) == vars(p)
''')
mut("C09-tuple-extends", "C09", [(MOD, '''      value = current_value + (value,)''',
 '''      value = current_value + (value if isinstance(value, tuple) else (value,))''')],
 "sowing a tuple at a name that already has values", "the tuple is spread over several entries", '''
m = nnx.Module()
m.sow(nnx.Intermediate, "y", (1, 2)); m.sow(nnx.Intermediate, "y", (3, 4))
assert m.y == ((1, 2), (3, 4))
''')
mut("C10-sow-unchecked", "C10", [(MOD, '''      value = current_value + (value,)
      setattr(self, name, value)''', '''      value = current_value + (value,)
      vars(self)[name] = variable.replace(value=value)''')],
 "sowing a second value inside a transform into a module captured from outside", "the outer module is mutated", '''
m = nnx.Module()
m.sow(nnx.Intermediate, "y", 1)
@jax.jit
def f(x):
  try:
    m.sow(nnx.Intermediate, "y", x)
  except nnx.TraceContextError:
    return x
  raise SystemExit(1)
f(1.0)
''')
mut("C11-no-streams", "C11", [(CTX, '''  def partition(self) -> PureContext:
    if not self._trace_state.is_valid():''', '''  def partition(self) -> PureContext:
    if self._rngs and not self._trace_state.is_valid():''')],
 "partitioning a context without streams at another trace level", "no error", '''
ctx = nnx.context(flags=dict(a=True))
@jax.jit
def f(x):
  try:
    ctx.partition()
  except nnx.TraceContextError:
    return x
  raise SystemExit(1)
f(1.0)
''')
mut("C11-flag-none", "C11", [(CTX, '''    return Context(rngs=rngs, flags=dict(self._flags))''',
 '''    return Context(rngs=rngs, flags={k: v for k, v in self._flags if v})''')],
 "a flag that is False in a context passed through a transform", "the flag is missing inside: has_flag is False and get_flag None", '''
c = nnx.context(0, flags=dict(a=False)).partition().merge()
assert c.has_flag("a") and c.get_flag("a") is False
''')
mut("C12-static-argnames", "C12", [(TRF, '''    static_argnames = list(static_argnames)
''', '''    static_argnames = []
''')], "nnx.jit with a sequence of static_argnames", "static arguments are traced", '''
import functools
@functools.partial(nnx.jit, static_argnames=("n",))
def f(m, *, n):
  return m.w * (2 if n else 3)
m = nnx.Module(); m.w = nnx.Param(1.0)
assert f(m, n=True) == 2
''')
mut("C13-type-name", "C13", [(MOD, '''        self._type == other._type
''', '''        self._type.__qualname__ == other._type.__qualname__
'''), (MOD, '''        (self._type, self._submodules, self._static_fields, self._module_state)
''', '''        (self._type.__qualname__, self._submodules, self._static_fields, self._module_state)
''')], "two different classes with the same qualified name", "code compiled for one class is used for the other", '''
def mk(k):
  class M(nnx.Module):
    def __init__(self):
      self.w = nnx.Param(1.0)
    def __call__(self):
      return self.w * k
  m = nnx.Module(); m.sub = M()
  return m
f = nnx.jit(lambda m: m.sub())
assert f(mk(2)) == 2 and f(mk(3)) == 3
''')
mut("C13-last-static", "C13", [(MOD, '''        and self._static_fields == other._static_fields
''', '''        and dict(self._static_fields).keys() == dict(other._static_fields).keys()
        and all(a == b or callable(a) and callable(b) and getattr(a, "__qualname__", a) == getattr(b, "__qualname__", b)
                for (_, a), (_, b) in zip(self._static_fields, other._static_fields))
'''), (MOD, '''        (self._type, self._submodules, self._static_fields, self._module_state)
''', '''        (self._type, self._submodules, len(self._static_fields), self._module_state)
''')], "modules that differ in a static function attribute made by the same code (closures)", "code compiled with one closure is used for the other", '''
def mk(k):
  m = nnx.Module(); m.w = nnx.Param(1.0); m.act = lambda x: x * k
  top = nnx.Module(); top.m = m
  return top
f = nnx.jit(lambda m: m.m.act(m.m.w))
assert f(mk(2)) == 2 and f(mk(3)) == 3
''')
mut("C14-allow-int", "C14", [(TRF, '''        allow_int=allow_int,
        reduce_axes=reduce_axes,
    )
    def grad_fn(''', '''        reduce_axes=reduce_axes,
    )
    def grad_fn(''')], "allow_int=True and integer entries selected by wrt", "TypeError", '''
m = nnx.Module(); m.w = nnx.Param(jnp.asarray(2)); m.v = nnx.Param(jnp.asarray(2.0))
g = nnx.grad(lambda m: m.v * 3.0, allow_int=True)(m)
assert g["v"].value == 3
''')
mut("C14-args-trace", "C14", [(TRF, '''      with tracers.nnx_trace(tracers.get_top_trace(diff)):
        module = moduledef''', '''      with tracers.nnx_trace(tracers.get_top_trace(args)):
        module = moduledef''')], "nnx.grad in plain code where the arguments are not traced, and a module captured from outside", "a captured module can be mutated inside grad", '''
m, other = nnx.Module(), nnx.Module()
m.w = nnx.Param(2.0); other.n = nnx.BatchStat(0.0)
def loss(m):
  other.n = m.w
  return m.w
try:
  nnx.grad(loss)(m)
  raise SystemExit(1)
except nnx.TraceContextError:
  pass
''')
mut("C15-out-swap", "C15", [(TRF, '''      lambda axis, node: jax.tree_map(lambda x: jnp.moveaxis(x, 0, axis), node),
      options.out_axes,''', '''      lambda axis, node: jax.tree_map(lambda x: jnp.swapaxes(x, 0, axis), node),
      options.out_axes,''')], "outputs of rank two or more per step with out_axes 2 (or -1)", "the other axes come out in the wrong order", '''
class Block(nnx.Module):
  def __init__(self, *, ctx):
    self.w = nnx.Param(jnp.ones(()))
  def __call__(self, c, x, *, ctx=None):
    return c, jnp.ones((2, 3)) * self.w
m = nnx.Scan(Block, variable_axes={nnx.Param: 0}, length=4, out_axes=2, split_rngs=...)(ctx=nnx.context(0))
assert m(0.0, jnp.zeros(4))[1].shape == (2, 3, 4)
''')
mut("C15-mapping-filter", "C15", [(CTX, '''        to_rng_predicate(filter) for filter, include in filter.items() if include
''', '''        to_rng_predicate(filter) for filter, include in filter.items()
''')], "split_rngs given as a mapping with a False entry", "streams that should be shared by all steps are split", '''
class Block(nnx.Module):
  def __init__(self, *, ctx):
    self.w = nnx.Param(jax.random.normal(ctx.make_rng("params"), ()))
m = nnx.Scan(Block, variable_axes={nnx.Param: 0}, length=3, split_rngs={"params": False})(ctx=nnx.context(0))
w = m.scan_module.w
assert (w == w[0]).all()
''')
mut("C16-new-state", "C16", [(TRF, '''    state, _ = module.partition()

    return state, out
''', '''    new_state, _ = module.partition()
    state = State({k: new_state[k] for k in state if k in new_state})

    return state, out
''')], "a remat call that creates new variables (sow)", "the new variables are dropped", '''
class M(nnx.Module):
  def __call__(self, x):
    self.sow(nnx.Intermediate, "y", x)
    return x
m = nnx.Remat(M)()
m(jnp.ones(()))
assert m.remat_module.y[0] == 1
''')
mut("C16-flags", "C16", [(TRF, '''      kwargs["ctx"] = ctxdef.merge(keys)

    module = moduledef.merge(state)
    out = f(module, *args, **kwargs)
''', '''      if keys:
        kwargs["ctx"] = ctxdef.merge(keys)

    module = moduledef.merge(state)
    out = f(module, *args, **kwargs)
''')], "remat called with a context that has flags but no streams", "the context is not passed on", '''
class M(nnx.Module):
  def __call__(self, x, *, ctx=None):
    return x * (2 if ctx is not None and ctx.get_flag("train") else 1)
assert nnx.Remat(M)()(jnp.ones(()), ctx=nnx.context(flags=dict(train=True))) == 2
''')
mut("C17-deep-forks", "C17", [(CTX, '''    fold_data = _stable_hash(stream.count_path + (stream.count,))''',
 '''    fold_data = _stable_hash(stream.count_path[-2:] + (stream.count,))''')],
 "three nested forks (transforms) whose first counts differ", "keys repeat", '''
c = nnx.context(0)
ks = []
for _ in range(2):
  ks.append(tuple(np.asarray(c.partition().merge().partition().merge().partition().merge().make_rng("params"))))
assert ks[0] != ks[1]
''')
mut("C17-short-hash", "C17", [(CTX, '''hash_bytes[:4]''', '''hash_bytes[:2]''')], "hundreds of keys drawn from one stream", "keys repeat", '''
c = nnx.context(0)
k = [tuple(np.asarray(c.make_rng("params"))) for _ in range(2000)]
assert len(set(k)) == len(k)
''')
mut("C18-none-static", "C18", [(PYT, '''      else:
        static[field] = value

    return node_values''', '''      elif value is not None:
        static[field] = value

    return node_values''')], "a static field that is None", "the field is gone after unflatten", '''
class P(nnx.Pytree):
  def __init__(self):
    self.a = None
    self.x = jnp.ones(())
assert jax.tree_util.tree_map(lambda x: x, P()).a is None
''')
mut("C18-key-order", "C18", [(PYT, '''          node_values.append((jax.tree_util.GetAttrKey(field), value))
''', '''          node_values.insert(0, (jax.tree_util.GetAttrKey(field), value))
          node_names[:] = [k.name for k, _ in node_values]
''')], "flattening with paths a pytree with two or more fields", "the order of leaves differs between flatten with and without paths", '''
class P(nnx.Pytree):
  def __init__(self):
    self.a = jnp.zeros(())
    self.b = jnp.ones(())
l1 = jax.tree_util.tree_leaves(P())
l2 = [v for _, v in jax.tree_util.tree_flatten_with_path(P())[0]]
assert [int(x) for x in l1] == [int(x) for x in l2]
''')
mut("C19-new-fields", "C19", [(PYT, '''    elif name not in vars_dict:
      raise AttributeError(r"Cannot add''', '''    elif name not in vars_dict and "_pytree__is_mutable" not in vars_dict:
      raise AttributeError(r"Cannot add'''), (PYT, '''    unknown_keys = set(kwargs) - set(vars(self))
    if unknown_keys''', '''    unknown_keys = set(kwargs) - set(dir(self))
    if unknown_keys''')], "replace with the name of a method or class attribute", "a new field is added, which hides the method and is not part of the tree", '''
class P(nnx.Pytree):
  def __init__(self):
    self.a = jnp.zeros(())
  def f(self):
    return 1
try:
  P().replace(f=2)
  raise SystemExit(1)
except (ValueError, AttributeError):
  pass
''')
mut("C20-unknown-empty", "C20", [(PYT, '''    if state:
      names''', '''    if state and updates:
      names''')], "restoring a pytree without node fields from a state dict with entries", "unknown fields are ignored", '''
from flax import serialization
class P(nnx.Pytree):
  def __init__(self):
    self.a = 1
try:
  serialization.from_state_dict(P(), {"x": 1})
  raise SystemExit(1)
except ValueError:
  pass
''')
mut("C20-in-place", "C20", [(PYT, '''    pytree = copy(pytree)
    with _mutable(pytree):
      for name, value in updates.items():''', '''    pytree = copy(pytree) if updates else pytree
    with _mutable(pytree):
      for name, value in updates.items():'''), (PYT, '''    state = state.copy()  # copy the state so we can pop the restored fields.''',
 '''    # the restored fields are popped''')], "using the same state dict twice", "the state dict given by the user is emptied", '''
from flax import serialization
class P(nnx.Pytree):
  def __init__(self):
    self.a = nnx.TreeNode(jnp.ones(()))
d = serialization.to_state_dict(P())
serialization.from_state_dict(P(), d)
assert list(d) == ["a"]
''')
mut("C21-param-dtype", "C21", [(HLP, '''    params = optax.apply_updates(self.params, updates)  # type: ignore''',
 '''    params = State(
        {
            k: v.replace(value=v.value + updates[k].value)
            if hasattr(v, "value")
            else v + updates[k]
            for k, v in self.params.items()
        }
    )''')], "half precision parameters and an optimizer whose updates are float32", "the parameters change their dtype", '''
m = nnx.Module(); m.w = nnx.Param(jnp.ones((2,), jnp.bfloat16))
p, d = m.partition()
tx = optax.stateless(lambda u, p: jax.tree_util.tree_map(lambda x: x.astype(jnp.float32), u))
t = nnx.TrainState(d, params=p, tx=tx)
t = t.apply_gradients(p)
assert t.params["w"].value.dtype == jnp.bfloat16
''')
mut("C21-step-zero", "C21", [(HLP, '''    self.step = pytreelib.TreeNode(jnp.asarray(step))''',
 '''    self.step = pytreelib.TreeNode(jnp.zeros((), jnp.int32))''')], "a TrainState created with a step that is not 0", "the step count restarts", '''
m = nnx.Module(); m.w = nnx.Param(jnp.ones(()))
p, d = m.partition()
assert nnx.TrainState(d, params=p, tx=optax.sgd(1.0), step=5).step == 5
''')
mut("C22-var-sharding", "C22", [(DCL, '''lambda value: variable_type(value, sharding=sharding)''',
 '''lambda value: variable_type(value, sharding=sharding) if value is not None else None''')],
 "a var_field whose value is None", "the field is not wrapped and can never hold a variable", '''
@nnx.dataclass
class M(nnx.Module):
  b: object = nnx.var_field(nnx.Param, default=None)
assert isinstance(vars(M())["b"], nnx.Param)
''')
mut("C22-compare", "C22", [(DCL, '''  metadata["nnx_container_fn"] = lambda value: variable_type(value, sharding=sharding)

  return field(
      default=default,
      default_factory=default_factory,
      init=init,
      repr=repr,
      hash=hash,
      compare=compare,''', '''  metadata["nnx_container_fn"] = lambda value: variable_type(value, sharding=sharding)

  return field(
      default=default,
      default_factory=default_factory,
      init=init,
      repr=repr,
      hash=compare,
      compare=compare,''')], "a var_field with hash unset or different from compare", "the hash setting is not passed on", '''
import dataclasses
@nnx.dataclass
class M(nnx.Module):
  b: object = nnx.var_field(nnx.Param, hash=False)
assert dataclasses.fields(M)[0].hash is False
''')
mut("C23-tuple-leaves", "C23", [(SPM, '''  new = set(jax.tree_util.tree_leaves(new_assignment))
  existing = set(jax.tree_util.tree_leaves(existing_assignments))''', '''  new = {new_assignment} - {None}
  existing = set(jax.tree_util.tree_leaves(existing_assignments)) | {
      x for x in existing_assignments if isinstance(x, tuple)
  }''')], "a rule that maps to a tuple of mesh axes one of which is taken", "a mesh axis is used twice", '''
assert nnx.spmd.logical_to_mesh_axes(("a", "b"), (("a", "X"), ("b", ("X", "Y")))) == jax.sharding.PartitionSpec("X", None)
''')
mut("C24-no-padding", "C24", [(SPM, '''      while len(sharding) < index:
        sharding.append(None)
''', '')], "a sharding that names fewer dimensions than the position of the new axis", "the partition name ends up at the wrong axis", '''
s = nnx.State({"a": nnx.Param(jnp.ones((2, 3, 4)), sharding=("x",))})
t = nnx.spmd.add_axis(s, 2, {"partition_name": "p"})
assert t["a"].sharding == ("x", None, "p"), t
''')
mut("C25-thread-counters", "C25", [(IDS, '''    self._lock = threading.Lock()
    self._id = 0''', '''    self._lock = threading.Lock()
    self._ids = threading.local()'''), (IDS, '''      self._id += 1
      return UUID(self._id)''', '''      self._ids.value = getattr(self._ids, "value", 0) + 1
      return UUID(self._ids.value)''')], "modules created in different threads that end up in one graph", "distinct modules get the same id", '''
import threading
ms = []
ts = [threading.Thread(target=lambda: ms.append(nnx.Module())) for _ in range(2)]
[t.start() for t in ts]; [t.join() for t in ts]
a, b = ms
assert a._module__state.id != b._module__state.id
''')
mut("C26-shared-seen", "C26", [(MOD, '''class SeenModulesRepr(threading.local):''', '''class SeenModulesRepr:''')],
 "two threads printing the same module at the same time", "one of them prints the module as (...) or crashes", '''
import threading
go, done = threading.Event(), threading.Event()
class Slow:
  def __repr__(self):
    go.set(); done.wait(5)
    return "slow"
m = nnx.Module()
m.a = Slow()
n = nnx.Module(); n.a = 1
m.b = n
r = []
t = threading.Thread(target=lambda: r.append(repr(m)))
t.start(); go.wait(5)
m2 = nnx.Module(); m2.b = m
vars(m)["a"], old = 1, m.a
s = repr(m)
done.set(); t.join()
assert "..." not in s
''')
mut("C27-attend-dtype", "C27", [(LIN, '''    query, embedding = dtypes.promote_dtype(query, self.embedding, dtype=self.dtype)
''', '''    query, embedding = dtypes.promote_dtype(query, self.embedding)
''')], "attend with a dtype that is narrower than the query or the table", "the result has the promoted dtype", '''
e = nnx.Embed(3, 2, dtype=jnp.bfloat16, ctx=nnx.context(0))
assert e.attend(jnp.ones((2,))).dtype == jnp.bfloat16
''')
mut("C27-bias-param-dtype", "C27", [(LIN, '''self.bias = nnx.Param(bias_init(bias_key, (out_features,), param_dtype))''',
 '''self.bias = nnx.Param(bias_init(bias_key, (out_features,), dtype or param_dtype))''')],
 "Linear with a computation dtype that differs from param_dtype", "the bias is stored in the computation dtype", '''
l = nnx.Linear(2, 3, dtype=jnp.bfloat16, ctx=nnx.context(0))
assert l.bias.dtype == jnp.float32
''')
mut("C28-pair-padding", "C28", [(LIN, '''        new_pad.append(p)
''', '''        new_pad.append((p[0], p[0]) if len(padding) > 1 else p)
''')], "asymmetric explicit padding in two or more dimensions", "the high padding is taken from the low one", '''
c = nnx.Conv(1, 1, (2, 2), padding=((1, 0), (0, 0)), ctx=nnx.context(0))
assert c(jnp.ones((1, 4, 4, 1))).shape == (1, 4, 3, 1)
''')
mut("C28-batch-restore", "C28", [(LIN, '''      total_batch_size = int(np.prod(input_batch_shape))
''', '''      total_batch_size = int(np.prod(input_batch_shape)) or 1
      input_batch_shape = tuple(max(1, x) for x in input_batch_shape)
''')], "several batch dimensions one of which is empty", "an error or a batch that is not empty", '''
c = nnx.Conv(1, 1, (2,), ctx=nnx.context(0))
assert c(jnp.ones((0, 2, 4, 1))).shape == (0, 2, 4, 1)
''')
mut("C29-half-stats", "C29", [(NRM, '''  dtype = jnp.promote_types(dtype, jnp.float32)
  x = jnp.asarray(x, dtype)''', '''  x = jnp.asarray(x, jnp.result_type(dtype, x))''')],
 "half precision inputs of large magnitude", "the statistics overflow", '''
l = nnx.LayerNorm(2, ctx=nnx.context(0))
y = l(jnp.asarray([[300.0, -300.0]], jnp.float16))
assert np.allclose(np.asarray(y, np.float32), [[1, -1]], atol=1e-2)
''')
mut("C29-negative-var", "C29", [(NRM, '''  var = jnp.maximum(0.0, mean2 - _abs_sq(mean))''', '''  var = mean2 - _abs_sq(mean)''')],
 "nearly constant inputs far from zero", "negative variances and NaN outputs", '''
x = jnp.full((3, 1), 1000.1) 
bad = 0
for v in np.linspace(1000, 2000, 200):
  y = nnx.LayerNorm(3, ctx=nnx.context(0))(jnp.full((1, 3), v, jnp.float32))
  bad += int(np.isnan(np.asarray(y)).any())
assert not bad
''')
mut("C30-flag-first", "C30", [(STO, '''        deterministic,
        self.deterministic,
        ctx and ctx.get_flag("deterministic"),
''', '''        deterministic,
        ctx and ctx.get_flag("deterministic"),
        self.deterministic,
''')], "a Dropout with its own deterministic setting and a context flag that says the opposite", "the flag wins over the attribute", '''
d = nnx.Dropout(0.5, deterministic=True)
x = jnp.ones((64,))
assert (d(x, ctx=nnx.context(dropout=0, flags=dict(deterministic=False))) == x).all()
''')
mut("C30-negative-dims", "C30", [(STO, '''    for dim in self.broadcast_dims:
      broadcast_shape[dim] = 1''', '''    for dim in range(len(broadcast_shape)):
      if dim in self.broadcast_dims:
        broadcast_shape[dim] = 1''')], "negative broadcast_dims", "the mask is not shared along them", '''
d = nnx.Dropout(0.5, broadcast_dims=(-1,))
y = d(jnp.ones((8, 8)), deterministic=False, ctx=nnx.context(dropout=0))
assert (y == y[:, :1]).all()
''')
mut("C31-stale-kwargs", "C31", [(HLP, '''          args = output
          kwargs = {}''', '''          args = output''')], "a Sequence called with keyword arguments whose first module returns a tuple", "the keyword arguments of the call are given to the second module too", '''
s = nnx.Sequence([lambda x, k=1: (x, k), lambda x, y, k=0: (x, y, k)])
assert s(1, k=5) == (1, 5, 0)
''')
mut("C31-dict-views", "C31", [(HLP, '''        elif isinstance(output, tp.Dict):''', '''        elif isinstance(output, tp.Mapping):''')],
 "a Sequence in which a module returns a mapping that is not a dict (State, nnx.Dict)", "the mapping is spread over keyword arguments", '''
s = nnx.Sequence([lambda x: nnx.State({"a": x}), lambda x: x])
assert isinstance(s(1), nnx.State)
''')
mut("C32-or-empty", "C32", [(STA, '''    if not other:
      return self
    return State.merge(self, other)''', '''    if not other:
      return self
    return State.merge(other, self) if len(other) > len(self) else State.merge(self, other)''')],
 "a | b where b is larger and both have an entry", "the entry of a wins", '''
a, b = nnx.State({"x": 1}), nnx.State({"x": 2, "y": 2})
assert (a | b)["x"] == 2
''')
mut("C32-sub-prefix", "C32", [(STA, '''if k not in other}''', '''if not any(k == o or k.startswith(o + "/") for o in other)}''')],
 "subtracting a state with a name that is a parent path of another entry", "unrelated entries are removed", '''
a, b = nnx.State({"x/y": 1, "z": 2}), nnx.State({"x": 2})
assert list(a - b) == ["x/y", "z"]
''')
mut("C33-empty-rules", "C33", [(SPM, '''  if rules is None:
    rules = _axis_rules.rules
  if not rules or logical''', '''  if not rules:
    rules = _axis_rules.rules
  if not rules or logical''')], "explicit empty rules inside a logical_axis_rules scope", "the rules of the scope are applied", '''
from jax.sharding import Mesh
mesh = Mesh(np.array(jax.devices()[:1]), ("X",))
with nnx.logical_axis_rules((("a", "X"),)):
  try:
    nnx.with_logical_constraint(jnp.ones((1,)), ("b",), rules=(), mesh=mesh, fallback=nnx.spmd.RulesFallback.RAISE_ERROR)
  except ValueError:
    raise SystemExit(1)
''')
mut("C34-pop-count", "C34", [(TRC, '''  try:
    yield
  finally:
    TRACE_CONTEXT.nnx_trace_stack.pop()''', '''  try:
    yield
  finally:
    TRACE_CONTEXT.nnx_trace_stack.remove(trace)''')], "two nested transforms whose traces are equal (grad inside grad of the same level), or an exception",
 "the wrong entry of the stack is removed", '''
import sys
n = 0
from nnx import tracers
from nnx.tracers import TRACE_CONTEXT, nnx_trace, current_nnx_trace
base = current_nnx_trace()
def f(x):
  t = tracers.get_top_trace(x)
  with nnx_trace(base):
    with nnx_trace(t):
      with nnx_trace(base):
        pass
      assert current_nnx_trace() is t
  return x
jax.jit(f)(1.0)
assert current_nnx_trace() is base
''')
