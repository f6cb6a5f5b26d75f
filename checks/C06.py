"""C06: clones, states and pure modules are isolated from later mutation."""
import copy
import itertools

import jax
import nnx

from mc import heap
from mc.core import Section, require, require_eq

RULE = ("every history of snapshot operations (state, pure, split pure, clone, functional apply/call, merge "
        "of a held pure) and mutations (assign, add, delete, pop, sow, update, mutable leaf, through either "
        "alias) within the bounds; after each step every live object is compared with its own model; "
        "states = distinct tuples of object models, transitions = steps")
ASSUMPTIONS = ["values held by variables are immutable (ints, jax arrays)"]
BOUNDS = {"quick": "3 base graphs, all histories of length 3 over 21 operations (including calls through held proxies), length 4 ending in a mutation; "
                   "held Variable objects: all histories of length 3 over 22 operations; all pairs of 51 reading operations leave every object as it was; all chains of 2 of 13 ways to copy a variable, changing each copy",
          "thorough": "all histories of length 4, length 5 with snapshot prefix"}

BASES = {
    "shared": (("M", (("y", ("ref", 1)), ("x", ("ref", 1)), ("a", ("leaf", "P", 1)), ("s", ("static", 5)))),
               ("M2", (("c", ("leaf", "B", 2)),))),
    "cycle": (("M", (("x", ("ref", 1)), ("a", ("leaf", "Ps", 1)), ("y", ("ref", 1)))),
              ("M2", (("c", ("leaf", "C", 2)), ("up", ("ref", 0)), ("arr", ("leaf", "A", 3))))),
    "tree": (("M", (("x", ("ref", 1)), ("a", ("leaf", "P", 1)), ("y", ("ref", 2)))),
             ("M2", (("c", ("leaf", "B", 2)),)), ("M2", (("c", ("leaf", "B", 4)), ("n", ("leaf", "N", 4))))),
}

SNAPS = ("get_state", "partition", "split", "clone", "apply", "call", "filter", "merge_last", "proxy")
MUTS = ("set a", "set x.c", "set y.c", "add", "del x.c", "pop", "sow", "update", "leaf", "static", "rewire", "mut_clone")


def _first(h, i, n):
  return next((p for p in h.entries() if h.owner(p) == (i, n)), None)


def _mutfn(m, v):
  if "a" in heap.attrs_of(m):
    m.a = v
  m.fresh = nnx.Cache(v)
  m.x.s2 = v
  return v + 1


def _lookfn(m, v):
  """What a call through a held proxy sees; it also mutates its own copy."""
  seen = heap.observe(m)
  _mutfn(m, v)
  del m.x.s2
  return seen


def run(case, cov):
  base, hist = case
  h0 = heap.from_case(BASES[base])
  mods = h0.build()
  # objects: (kind, live, model)
  objs = [["module", mods[0], h0]]
  for step, op in enumerate(hist):
    v = 100 * (step + 1)
    root, h = objs[0][1], objs[0][2]
    new = None
    if op in SNAPS:
      new = _snap(op, objs, v)
    elif op == "mut_clone":
      tgt = [o for o in objs[1:] if o[0] == "module"]
      if not tgt:
        return
      o = tgt[-1]
      _mutate("set a", o, v)
      _mutate("set y.c", o, v + 1)
      _mutate("add", o, v + 2)
      _mutate("pop", o, v + 3)
    else:
      _mutate(op, objs[0], v)
    if new:
      objs += new
    cov.trans()
    cov.state(tuple((k, m.canon() if isinstance(m, heap.Heap) else repr(m)) for k, _, m in objs))
    _check_all(objs, hist[:step + 1])


def _snap(op, objs, v):
  root, h = objs[0][1], objs[0][2]
  if op == "get_state":
    return [["state", root.get_state(), h.entry_enc()]]
  if op == "filter":
    s1, s2 = root.filter(nnx.Param, nnx.BatchStat)
    e = h.entries()
    enc = h.entry_enc()
    return [["state", s1, {p: enc[p] for p in e if enc[p][1] == "Param"}],
            ["state", s2, {p: enc[p] for p in e if enc[p][1] == "BatchStat"}]]
  if op == "partition":
    return [["pure", root.partition(), h.copy()]]
  if op == "split":
    return [["pure", root.partition(nnx.Param, nnx.BatchStat, ...), h.copy()]]
  if op == "clone":
    return [["module", root.clone(), h.copy()]]
  if op == "proxy":
    heap.M.lookfn = _lookfn
    pure, (state, moddef) = root.partition(), root.partition()
    return [["proxy", (pure.call, pure.apply.lookfn, moddef.apply(state)), h.copy()],
            ["own proxy", root.apply.lookfn, h]]
  if op == "merge_last":
    pures = [o for o in objs if o[0] == "pure"]
    if not pures:
      return []
    return [["module", pures[-1][1].merge(), pures[-1][2].copy()]]
  pures = [o for o in objs if o[0] == "pure"]
  src, hm = (pures[-1][1], pures[-1][2]) if pures and op == "call" else (root, h)
  if op == "apply":
    out, newm = root.apply.double(v)
    require_eq(out, 2 * v, "apply result")
    return [["module", newm, h.copy()]]
  # call on a pure module: runs a mutating function on a fresh copy
  pure = src if isinstance(src, nnx.Pure) else src.partition()
  heap.M.mutfn = _mutfn
  out = pure.call.mutfn(v)
  require_eq(out, v + 1, "call result")
  out, newp = pure.apply.mutfn(v)
  nh = hm.copy()
  x = nh.mods[0][1]["x"][1]
  if "a" in nh.mods[0][1]:
    nh.mods[0][1]["a"] = ("leaf", nh.mods[0][1]["a"][1], v)
  if "fresh" not in nh.mods[0][1] or nh.mods[0][1]["fresh"][0] == "leaf":
    nh.mods[0][1]["fresh"] = ("leaf", "C", v)
  nh.mods[x][1]["s2"] = ("static", v)
  return [["pure", newp, nh]]


def _mutate(op, obj, v):
  root, h = obj[1], obj[2]
  h = obj[2] = h.copy()
  xi, yi = h.mods[0][1]["x"][1], h.mods[0][1]["y"][1]
  attrs = h.mods[0][1]
  if op == "set a":
    if "a" in attrs:
      root.a = v
      attrs["a"] = ("leaf", attrs["a"][1], v)
  elif op in ("set x.c", "set y.c"):
    i = xi if op == "set x.c" else yi
    sub = root.x if op == "set x.c" else root.y
    if "c" in h.mods[i][1]:
      sub.c = v
      h.mods[i][1]["c"] = ("leaf", h.mods[i][1]["c"][1], v)
  elif op == "add":
    if "extra" not in h.mods[yi][1]:
      root.y.extra = nnx.Param(v)
      h.mods[yi][1]["extra"] = ("leaf", "P", v)
  elif op == "del x.c":
    if "c" in h.mods[xi][1]:
      del root.x.c
      del h.mods[xi][1]["c"]
  elif op == "pop":
    root.pop_state(nnx.Param)
    for _, at in h.mods:
      for n in [n for n, w in at.items() if w[0] == "leaf" and w[1] in ("P", "Ps")]:
        del at[n]
  elif op == "sow":
    root.x.sow(nnx.Intermediate, "sown", v)
    old = h.mods[xi][1].get("sown")
    tup = (old[2] if old else ()) + (v,)
    h.mods[xi][1]["sown"] = ("leaf", "I", tup)
  elif op == "update":
    if "c" in h.mods[xi][1]:
      k = h.mods[xi][1]["c"][1]
      p = _first(h, xi, "c")
      root.update_state(nnx.State({p: heap.make_leaf(k, v)}))
      h.mods[xi][1]["c"] = ("leaf", k, v)
  elif op == "leaf":
    if "a" in attrs:
      root.mutable_state_dict()["a"].value = v
      attrs["a"] = ("leaf", attrs["a"][1], v)
  elif op == "static":
    root.s = v
    attrs["s"] = ("static", v)
  elif op == "rewire":
    root.y = root.x
    attrs["y"] = ("ref", xi)


def _check_all(objs, hist):
  for k, (kind, live, model) in enumerate(objs):
    what = f"object {k} ({kind}) after {hist}"
    if kind == "proxy":
      call, look, apply = live
      require_eq(call.lookfn(7), model.canon(), what + ": held pure.call")
      require_eq(look(8)[0], model.canon(), what + ": held pure.apply")
      require_eq(apply.lookfn(9)[0], model.canon(), what + ": held moddef.apply(state)")
      continue
    if kind == "own proxy":
      require_eq(live(9)[0], objs[0][2].canon(), what + ": held module.apply sees the module as it is now")
      continue
    if kind == "module":
      require_eq(heap.observe(live), model.canon(), what)
    elif kind == "state":
      require_eq(heap.state_enc(live), model, what)
    else:
      require_eq(heap.state_enc(live.get_state()), model.entry_enc(), what)
      require_eq(heap.observe(live.merge()), model.canon(), what + " merged")


def gen(tier):
  ops = SNAPS + MUTS
  for base in BASES:
    for h in itertools.product(ops, repeat=3):
      if h[0] in SNAPS or h[1] in SNAPS:
        yield (base, h)
    if tier == "thorough":
      for h in itertools.product(ops, repeat=4):
        yield (base, h)
      for h in itertools.product(SNAPS, ops, MUTS, SNAPS, MUTS):
        yield (base, h)
    else:
      for h in itertools.product(("get_state", "split", "clone", "apply"), MUTS, SNAPS, MUTS):
        yield (base, h)


# ---- Variable objects held by the user

HELD_OPS = ("A.a=v", "A.b=v", "A.s.a=v", "B.a=v", "A.a=w", "v.value", "w.value", "A.a=k", "B.a=k", "clone", "merge", "dict", "seq", "update A", "update B",
            "leaf A", "clone state", "update A by C", "update A by pure C", "copy v", "del A.a", "sub")


def run_held(case, cov):
  """A module keeps its own copy of an assigned Variable: writing to the object that was assigned, or to
  the variables of a derived module, does not reach it."""
  A, B, S = heap.M(), heap.M2(), heap.M2()
  A.s = S
  held = {"v": nnx.Param(1), "w": nnx.Param(2)}
  vals = {"v": 1, "w": 2}
  # every module with the values it must hold
  mods = [[A, {}], [B, {}], [S, {}]]

  def assign(i, name, var):
    setattr(mods[i][0], name, held[var])
    mods[i][1][name] = vals[var]

  for step, op in enumerate(case):
    k = 100 * (step + 1)
    if op in ("A.a=v", "A.b=v", "A.s.a=v", "B.a=v", "A.a=w"):
      i = {"A": 0, "B": 1}[op[0]] if ".s." not in op else 2
      name = op[-3]
      if op[-1] in ("v", "w") and name in mods[i][1]:
        # an existing variable takes the value only
        setattr(mods[i][0], name, vals[op[-1]])
        mods[i][1][name] = vals[op[-1]]
      else:
        assign(i, name, op[-1])
    elif op in ("v.value", "w.value"):
      held[op[0]].value = k
      vals[op[0]] = k
    elif op in ("A.a=k", "B.a=k"):
      i = 0 if op[0] == "A" else 1
      if "a" not in mods[i][1]:
        return
      setattr(mods[i][0], "a", k)
      mods[i][1]["a"] = k
    elif op in ("clone", "merge"):
      c = A.clone() if op == "clone" else A.partition().merge()
      mods.append([c, dict(mods[0][1])])
      mods.append([c.s, dict(mods[2][1])])
    elif op == "dict":
      mods.append([nnx.Dict(x=held["v"], y=held["v"]), {"x": vals["v"], "y": vals["v"]}])
    elif op == "seq":
      q = nnx.Sequence([held["v"], held["w"], held["v"]])
      mods.append([q, {n: vals[w] for n, w in zip([n for n, u in vars(q).items() if isinstance(u, nnx.Variable)], "vwv")}])
    elif op in ("update A", "update B"):
      i = 0 if op[-1] == "A" else 1
      mods[i][0].update_state(nnx.State({"a": held["v"], "c": held["v"]}))
      mods[i][1].update(a=vals["v"], c=vals["v"])
    elif op in ("update A by C", "update A by pure C"):
      # from a module of the same class: an attribute both have and one that A may not have
      C = heap.M()
      C.a, C.c = held["v"], held["w"]
      A.update_state(C if op[-4:] == "by C" else C.partition())
      mods[0][1].update(a=vals["v"], c=vals["w"])
      for u in C.get_state().values():
        u.value = k
      mods.append([C, {"a": k, "c": k}])
    elif op == "leaf A":
      if "a" not in mods[0][1]:
        return
      A.mutable_state_dict()["a"].value = k
      mods[0][1]["a"] = k
    elif op == "clone state":
      # writing to the variables of the state of a clone: nothing else may change
      for u in A.clone().get_state().values():
        u.value = k
      pure = A.partition()
      for u in pure.merge().get_state().values():
        u.value = k
    elif op == "copy v":
      c = held["v"].copy()
      c.value = k
      c2 = held["v"].replace(value=k)
      require(c2.value == k, "replace")
    elif op == "del A.a":
      if "a" not in mods[0][1]:
        return
      del A.a
      del mods[0][1]["a"]
    elif op == "sub":
      n = heap.M()
      n.a = held["v"]
      A.sub = n
      mods.append([n, {"a": vals["v"]}])
    cov.trans()
    cov.state((tuple(tuple(sorted(d.items())) for _, d in mods), vals["v"], vals["w"]))
    for j, (m, want) in enumerate(mods):
      got = {n: getattr(m, n) for n, u in vars(m).items() if isinstance(u, nnx.Variable)}
      require_eq(got, want, f"module {j} after {case[:step + 1]}")
      st = {p: u.value for p, u in m.get_state().items() if "/" not in p}
      require_eq(st, want, f"state of module {j} after {case[:step + 1]}")
    require_eq({n: u.value for n, u in held.items()}, vals, f"the objects held by the caller after {case[:step + 1]}")


def gen_held(tier):
  for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
    yield from itertools.product(HELD_OPS, repeat=n)


# ---- reading operations leave everything as it was


def _reads(m, others):
  """name -> a reading operation on any of the objects of a world."""
  st, pure, split, mod, parts = m["state"], m["pure"], m["split"], m["module"], m["parts"]
  fs = (nnx.Param, nnx.BatchStat, ...)
  return {
      "module.get_state": lambda: mod.get_state(),
      "module.filter": lambda: mod.filter(*fs),
      "module.filter one": lambda: mod.filter(nnx.BatchStat),
      "module.partition": lambda: mod.partition(),
      "module.partition filters": lambda: mod.partition(*fs),
      "module.get_moduledef": lambda: mod.get_module_def(),
      "module.clone": lambda: mod.clone(),
      "module.modules": lambda: (mod.is_initializing, hash(mod), mod == mod),
      "module.for_each": lambda: mod.for_each(nnx.Module, lambda x: None),
      "module.flatten": lambda: jax.tree_util.tree_map(lambda x: x, mod.partition()),
      "repr": lambda: (repr(mod), repr(st), repr(pure)),
      "state.partition": lambda: st.partition(*fs),
      "state.filter": lambda: st.filter(nnx.Param, nnx.BatchStat),
      "state.filter one": lambda: st.filter(nnx.Param),
      "state.merge": lambda: nnx.State.merge(*parts),
      "state.merge one": lambda: nnx.State.merge(st),
      "state.merge over": lambda: nnx.State.merge(st, *parts),
      "state or": lambda: parts[0] | parts[1] if hasattr(nnx.State, "__or__") else None,
      "state.sub": lambda: parts[0] - parts[1] if hasattr(nnx.State, "__sub__") else None,
      "state iteration": lambda: (list(st), list(st.items()), list(st.keys()), list(st.values()), len(st), "a" in st, st.get("nope")),
      "state eq": lambda: st == parts[0] or None,
      "state tree": lambda: (jax.tree_util.tree_map(lambda x: x, st), jax.tree_util.tree_leaves(st)),
      "pure.get_state": lambda: pure.get_state(),
      "pure.moduledef": lambda: (pure.moduledef, split.moduledef, pure.states, split.states),
      "pure.pop_state": lambda: pure.pop_state(nnx.Param),
      "pure.pop_state two": lambda: pure.pop_state(nnx.Param, nnx.BatchStat),
      "split.pop_state": lambda: split.pop_state(nnx.BatchStat),
      "pure.update_state": lambda: pure.update_state(parts[0].__class__({k: v.replace(value=77) for k, v in parts[0].items()})),
      "split.update_state": lambda: split.update_state(nnx.State({k: v.replace(value=77) for k, v in parts[1].items()})),
      "copy": lambda: (copy.copy(mod), copy.deepcopy(mod)),
      "pure.merge": lambda: pure.merge(),
      "pure.filter": lambda: pure.filter(nnx.Param, nnx.BatchStat),
      "pure.partition": lambda: pure.partition(*fs),
      "pure.call": lambda: pure.call.double(3),
      "pure.apply": lambda: pure.apply.double(3),
      "split.get_state": lambda: split.get_state(),
      "split.merge": lambda: split.merge(),
      "split.filter": lambda: split.filter(nnx.BatchStat),
      "split.partition": lambda: split.partition(...),
      "split.partition filters": lambda: split.partition(nnx.BatchStat, ...),
      "split.call": lambda: split.call.double(3),
      "split.apply": lambda: split.apply.double(3),
      "split.tree": lambda: jax.tree_util.tree_map(lambda x: x, split),
      "moduledef.merge": lambda: m["moduledef"].merge(*parts),
      "moduledef.merge one": lambda: m["moduledef"].merge(st),
      "moduledef.apply": lambda: m["moduledef"].apply(*parts).double(3),
      "moduledef hash": lambda: (hash(m["moduledef"]), m["moduledef"] == mod.get_module_def()),
      "update from state": lambda: mod.clone().update_state(st),
      "update from parts": lambda: mod.clone().update_state(parts),
      "update from pure": lambda: mod.clone().update_state(pure),
      "update from split": lambda: mod.clone().update_state(split),
      "update state": lambda: st.partition(...),
  }


def _world(base):
  h = heap.from_case(BASES[base])
  mod = h.build()[0]
  fs = (nnx.Param, nnx.BatchStat, ...)
  state, moduledef = mod.partition()
  parts, _ = mod.partition(*fs)
  return h, {"module": mod, "state": state, "pure": mod.partition(), "split": mod.partition(*fs), "parts": parts, "moduledef": moduledef}


def _contents(w):
  """Everything that can be seen of the objects of a world, with the identity of what they hold."""
  def of(st):
    return [(k, id(v), heap.enc(v)) for k, v in st.items()]

  def pure(p):
    p = tuple(p)
    st = p[0] if isinstance(p[0], tuple) else (p[0],)
    return [(id(s), of(s)) for s in st], p[1]

  return {"module": heap.observe(w["module"]), "state": of(w["state"]), "parts": [of(s) for s in w["parts"]], "pure": pure(w["pure"]),
          "split": pure(w["split"]), "moduledef": w["moduledef"]}


def run_reads(case, cov):
  base, ops = case
  h, w = _world(base)
  reads = _reads(w, None)
  before = _contents(w)
  held = []
  for op in ops:
    held.append(reads[op]())
    cov.trans()
    after = _contents(w)
    for k in before:
      require_eq(after[k], before[k], f"reading operation {op!r} changed the {k}")
  cov.state(case)
  # and what was read is not reached by a later change of the module
  for k in ("pure", "split"):
    require_eq(heap.observe(w[k].merge()), h.canon(), f"{k} after {ops}")
  require_eq(heap.state_enc(w["state"]), h.entry_enc(), f"state after {ops}")


def gen_reads(tier):
  names = list(_reads(_world("tree")[1], None))
  for base in BASES:
    for n in (1, 2):
      yield from ((base, ops) for ops in itertools.product(names, repeat=n))


# ---- copies of one variable

COPIES = ("copy", "replace", "replace same", "replace equal", "replace meta same", "replace all same", "construct", "state", "partition", "clone", "update", "copy.copy", "deepcopy")
KINDS_C = {"P": lambda: nnx.Param(1), "Ps": lambda: nnx.Param(1, sharding=("a",)), "Bn": lambda: nnx.BatchStat(1, note="n"), "N": lambda: nnx.Node(1), "T": lambda: nnx.TreeNode(1)}


class Hold(nnx.Module):
  def __init__(self, v):
    self.v = v


def _copy_of(how, v):
  """A copy of a variable."""
  meta = {k: x for k, x in vars(v).items() if k != "value"}
  if how == "copy":
    return v.copy()
  if how == "replace":
    return v.replace()
  if how == "replace same":
    return v.replace(value=v.value)
  if how == "replace equal":
    return v.replace(value=float(v.value))
  if how == "replace meta same":
    return v.replace(**meta)
  if how == "replace all same":
    return v.replace(value=v.value, **meta)
  if how == "construct":
    return v.replace(value=v)
  if how == "clone":
    return vars(Hold(v).clone())["v"]
  if how == "partition":
    return vars(Hold(v).partition().merge())["v"]
  if how == "state":
    s, d = Hold(v).partition()
    return vars(d.merge(s))["v"]
  if how == "update":
    h = Hold(v.copy())
    h.update_state(Hold(v).get_state())
    return vars(h)["v"]
  if how == "copy.copy":
    return copy.copy(v)
  if how == "deepcopy":
    return copy.deepcopy(v)


def run_copies(case, cov):
  kind, seq, target = case
  vs = [KINDS_C[kind]()]
  vals = [1]
  for how in seq:
    c = _copy_of(how, vs[-1])
    require_eq(type(c), type(vs[-1]), f"{seq}: kind")
    cov.trans()
    vs.append(c)
    vals.append(vals[-1])
  for i, v in enumerate(vs):
    for j in range(i):
      require(v is not vs[j], f"{seq}: copy {i} is the object {j}")
  cov.state(case)
  if isinstance(vs[target], nnx.Variable):
    vs[target].value = vals[target] = 77
  else:
    h = Hold(vs[target])
    h.v = 77
  for i, v in enumerate(vs):
    require_eq(v.value, vals[i], f"{seq}: copy {i} after changing copy {target}")


def gen_copies(tier):
  for kind in KINDS_C:
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
      for seq in itertools.product(COPIES, repeat=n):
        for target in range(n + 1):
          yield kind, seq, target


SECTIONS = [Section("copies of a variable", gen_copies, run_copies), Section("histories", gen, run), Section("held variables", gen_held, run_held), Section("reads", gen_reads, run_reads)]
