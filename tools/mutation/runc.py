"""Runs checks on test-surviving mutants, cheapest first, stopping at the first check that reports."""
import json, os, sys, shutil, subprocess, time, threading, queue
MAP = {
 "nnx/containers.py": "C08 C09 C24 C18 C14 C26 C16 C01",
 "nnx/contextlib.py": "C17 C30 C11 C26 C16 C12 C15",
 "nnx/dataclasses.py": "C22 C18 C19",
 "nnx/helpers.py": "C31 C30 C21",
 "nnx/ids.py": "C25 C26 C10",
 "nnx/module.py": "C05 C06 C09 C07 C08 C04 C01 C02 C13 C22 C25 C26 C36 C35 C10 C24",
 "nnx/nodes.py": "C36",
 "nnx/partitioning.py": "C03 C04 C02 C26",
 "nnx/pytreelib.py": "C20 C18 C19 C22 C36 C21 C26 C24 C33",
 "nnx/reprlib.py": "C26 C25",
 "nnx/spmd.py": "C23 C33 C24",
 "nnx/state.py": "C03 C02 C05 C32 C36 C26 C13",
 "nnx/tracers.py": "C10 C11 C26",
 "nnx/transforms.py": "C12 C16 C34 C14 C15 C30 C24 C17 C35",
 "nnx/nn/dtypes.py": "C27 C28 C29",
 "nnx/nn/linear.py": "C27 C28 C37",
 "nnx/nn/normalization.py": "C29",
 "nnx/nn/stochastic.py": "C30",
 "nnx/nn/initializers.py": "C37", "nnx/nn/activations.py": "C37",
}
TRANS = {  # function prefix -> checks for transforms.py
 "Jit": "C12 C13 C34 C35", "jit": "C12 C13 C34", "Grad": "C14 C34", "grad": "C14 C34", "value_and_grad": "C14", "Scan": "C24 C15 C34", "scan": "C15 C24 C34", "Remat": "C16 C34", "remat": "C16 C34",
}
MODF = {"ModuleDef": "C01 C07 C26 C13", "_moddef": "C01 C13", "Pure.update": "C05 C06", "Pure": "C06 C04 C03 C05 C07", "_pure": "C06 C13", "ModuleState": "C25 C10 C35", "Seen": "C26", "_Submodules": "C26",
 "Module.__nnx_repr__": "C26", "Module.init": "C35", "Module._on_all": "C35", "Module.for_each": "C35", "MutableLeaf.__nnx": "C26", "MutableLeaf": "C02 C08 C24", "Module.sow": "C09", "ModuleMeta": "C22", "_pop": "C04 C36", "Module.pop": "C04", "_update": "C05 C08",
 "_iter_state": "C02 C36", "_make": "C01 C13 C36", "_build": "C01 C07", "DelayedAccessor": "C07", "CallableProxy": "C07", "Module.apply": "C07 C06", "Module.mutable": "C02", "Module._setattr": "C08 C10 C06", "Module.__delattr__": "C10", "Module.__hash__": "C25", "Module.__copy__": "C25 C35", "Module.filter": "C03 C04", "Module.partition": "C03", "Module.update": "C05 C06"}
J = int(sys.argv[1]); MJ = sys.argv[2]
only = sys.argv[3:]
muts = json.load(open("/tmp/mut/mutants.json")); tests = json.load(open("/tmp/mut/tests.json"))
cov = {}
for f in os.listdir("/tmp/mut/cov"):
  for fn, line in json.load(open(f"/tmp/mut/cov/{f}")):
    cov.setdefault((fn[fn.index("/nnx/") + 1:], line), set()).add(f[:3])
P = "/tmp/mut/checks.json"
res = json.load(open(P)) if os.path.exists(P) else {}
q = queue.Queue()
import random
todo = [m for m in muts if tests.get(m["id"]) == 0 and m["id"] not in res and (not only or any(o in m["file"] for o in only))]
random.Random(1).shuffle(todo)
for m in todo: q.put(m)
lock = threading.Lock()
def work(s):
  d = f"/tmp/mut/c{s}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copytree("/repo/nnx", d + "/nnx")
  v = f"/tmp/mut/v{s}"; shutil.rmtree(v, ignore_errors=True); shutil.copytree("/tmp/mut/vc", v, ignore=shutil.ignore_patterns("evidence", "replays", "__pycache__"))
  while True:
    try: m = q.get_nowait()
    except queue.Empty: return
    src = open("/repo/" + m["file"]).read().encode()
    open(f"{d}/{m['file']}", "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
    cs = MAP[m["file"]].split()
    if m["file"].endswith("transforms.py"):
      for k, x in TRANS.items():
        if m["func"].startswith(k): cs = x.split(); break
    if m["file"] == "nnx/module.py":
      for k, x in MODF.items():
        if m["func"].startswith(k): cs = x.split(); break
    lines = range(m["line"], m["line"] + 1)
    hit = set().union(*[cov.get((m["file"], l), set()) for l in lines])
    if any(l in [x[1] for x in cov if x[0] == m["file"]] for l in lines):
      cs2 = [c for c in cs if c in hit]
      extra = [c for c in sorted(hit) if c not in cs2]
      cs = cs2 or extra[:3]
    r = dict(checks={}, killed=None)
    t0 = time.time()
    for c in cs:
      if time.time() - t0 > 260: r["killed"] = "slow"; break
      ff = f"/tmp/mut/ff{s}"
      if os.path.exists(ff): os.unlink(ff)
      try:
        p = subprocess.run(["/opt/venv/bin/python", "run.py", c, "--jobs", MJ], cwd=v, env=dict(os.environ, PYTHONPATH=d, MC_FAILFAST=ff, VERIF_SEED="1"), capture_output=True, text=True, timeout=800)
        rc = p.returncode
      except subprocess.TimeoutExpired: rc = -1
      r["checks"][c] = rc
      if rc != 0: r["killed"] = c if rc == 1 else f"{c}:{rc}"; break
    r["t"] = round(time.time() - t0, 1)
    shutil.copy("/repo/" + m["file"], f"{d}/{m['file']}")
    with lock:
      res[m["id"]] = r
      json.dump(res, open(P + ".tmp", "w")); os.replace(P + ".tmp", P)
      print(m["id"], m["file"], m["line"], m["kind"], r["killed"], r["t"], f"left={q.qsize()}", flush=True)
ts = [threading.Thread(target=work, args=(s,)) for s in range(J)]
for t in ts: t.start()
for t in ts: t.join()
