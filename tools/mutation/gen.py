"""Enumerates source mutants of nnx: list of (file, start, end, replacement, description)."""
import ast, json, sys, os
ROOT = "/repo/"
FILES = ["containers","contextlib","dataclasses","helpers","ids","module","nodes","partitioning","pytreelib","reprlib","spmd","state","tracers","transforms","nn/activations","nn/dtypes","nn/initializers","nn/linear","nn/normalization","nn/stochastic"]
out = []
def run(f):
  path = f"nnx/{f}.py"
  src = open(ROOT + path).read()
  lines = src.encode().splitlines(keepends=True)
  offs = [0]
  for l in lines: offs.append(offs[-1] + len(l))
  b = src.encode()
  pos = lambda n: (offs[n.lineno-1] + n.col_offset, offs[n.end_lineno-1] + n.end_col_offset)
  seg = lambda n: b[slice(*pos(n))].decode()
  tree = ast.parse(src)
  stack = []
  skip_ids = set()
  def add(node, new, kind):
    s, e = pos(node)
    old = b[s:e].decode()
    if old == new: return
    out.append(dict(file=path, start=s, end=e, new=new, kind=kind, line=node.lineno, func=".".join(stack), old=old[:100]))
  def visit(node):
    named = isinstance(node, (ast.FunctionDef, ast.ClassDef))
    if named:
      stack.append(node.name)
    # annotations skipped
    if isinstance(node, ast.FunctionDef):
      for dflt in node.args.defaults + [d for d in node.args.kw_defaults if d]:
        visit_expr_root(dflt)
      for st in node.body: visit(st)
      stack.pop(); return
    if isinstance(node, ast.If) or isinstance(node, ast.IfExp):
      t = seg(node.test)
      if t not in ("tp.TYPE_CHECKING",):
        add(node.test, "(True)", "cond-true"); add(node.test, "(False)", "cond-false")
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
      sw = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not", "=="], ast.IsNot: ["is"], ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"]}
      for o in sw.get(type(node.ops[0]), []):
        add(node, f"({seg(node.left)} {o} {seg(node.comparators[0])})", "cmp")
    if isinstance(node, ast.BoolOp):
      o = " and " if isinstance(node.op, ast.Or) else " or "
      add(node, "(" + o.join(f"({seg(v)})" for v in node.values) + ")", "boolop")
      for i in range(len(node.values)):
        rest = [v for j, v in enumerate(node.values) if j != i]
        o2 = " or " if isinstance(node.op, ast.Or) else " and "
        add(node, "(" + o2.join(f"({seg(v)})" for v in rest) + ")", "drop-operand")
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
      add(node, f"({seg(node.operand)})", "not")
    if isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)):
      v = node.value
      if v is True: add(node, "False", "const")
      elif v is False: add(node, "True", "const")
      elif isinstance(v, int): add(node, f"({v + 1})", "const"); 
      elif isinstance(v, float): add(node, f"({v} * 1.5 + 0.25)", "const")
    if isinstance(node, ast.BinOp):
      sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.BitOr: None}
      o = sw.get(type(node.op))
      if o: add(node, f"({seg(node.left)} {o} {seg(node.right)})", "binop")
    if isinstance(node, ast.Call):
      fn = seg(node.func)
      for k in node.keywords:
        args = [seg(a) for a in node.args] + [(f"{q.arg}={seg(q.value)}" if q.arg else f"**{seg(q.value)}") for q in node.keywords if q is not k]
        add(node, f"{fn}({', '.join(args)})", "drop-kw " + str(k.arg))
      if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
        a = [seg(x) for x in node.args]
        if fn not in ("isinstance", "issubclass", "getattr", "hasattr", "setattr", "tp.cast", "tp.TypeVar"):
          a[0], a[1] = a[1], a[0]
          add(node, f"{fn}({', '.join(a + [seg_kw(k) for k in node.keywords])})", "swap-args")
      if fn in ("sorted", "tuple", "list", "reversed", "set", "dict", "copy.copy", "iter", "partial") and len(node.args) == 1:
        add(node, f"({seg(node.args[0])})", "unwrap")
      if fn.endswith(".copy") and not node.args:
        add(node, seg(node.func.value), "uncopy")
      if fn == "isinstance" and isinstance(node.args[1], ast.Tuple):
        for i in range(len(node.args[1].elts)):
          e = [seg(x) for j, x in enumerate(node.args[1].elts) if j != i]
          add(node, f"isinstance({seg(node.args[0])}, ({', '.join(e)},))", "drop-type")
    if isinstance(node, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete)) or (isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript))):
      if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)) and stack:
        add(node, "pass", "del-stmt")
    if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and stack and seg(node.targets[0]) in {x.id for x in ast.walk(node.value) if isinstance(x, ast.Name)}:
      add(node, "pass", "del-reassign")
    if isinstance(node, (ast.For,)) :
      pass
    if isinstance(node, ast.Continue): add(node, "break", "loopctl")
    if isinstance(node, ast.Break): add(node, "continue", "loopctl")
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) and isinstance(node.ctx, ast.Load):
      add(node, f"({seg(node.value)})", "unslice")
    if isinstance(node, ast.Try) and node.finalbody:
      pass
    if isinstance(node, ast.Raise): 
      if named: stack.pop()
      return  # not the message
    if isinstance(node, ast.AnnAssign):
      if node.value: visit(node.value)
      return
    if isinstance(node, ast.Subscript) and seg(node.value).startswith(("tp.", "Tuple", "type[")):
      return
    for c in ast.iter_child_nodes(node):
      if isinstance(node, ast.ClassDef) and c in node.bases: continue
      visit(c)
    if named: stack.pop()
  def seg_kw(k):
    return f"{k.arg}={seg(k.value)}" if k.arg else f"**{seg(k.value)}"
  def visit_expr_root(x): visit(x)
  visit(tree)
for f in FILES: run(f)
import collections
ok = []
seen = set()
for m in out:
  src = open(ROOT + m["file"]).read().encode()
  new = src[:m["start"]] + m["new"].encode() + src[m["end"]:]
  k = (m["file"], new)
  if k in seen: continue
  seen.add(k)
  try: compile(new, m["file"], "exec")
  except SyntaxError: continue
  # skip pure static noise
  if any(s in m["func"] for s in ("__class_getitem__",)): continue
  m["id"] = f"m{len(ok):04d}"
  ok.append(m)
json.dump(ok, open("/tmp/mut/mutants.json", "w"), indent=0)
print(len(ok), collections.Counter(m["file"] for m in ok), collections.Counter(m["kind"].split()[0] for m in ok))
