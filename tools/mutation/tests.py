"""Runs the repo tests on every mutant; writes tests.json {id: passed}."""
import json, os, sys, shutil, signal, time
os.environ.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", XLA_FLAGS="--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", OMP_NUM_THREADS="1")
if sys.flags.dont_write_bytecode is False: os.execv(sys.executable, [sys.executable] + sys.argv)
J = int(sys.argv[1])
muts = json.load(open("/tmp/mut/mutants.json"))
import jax, flax, optax, pytest, numpy, jax.numpy, flax.linen
def child(slot, m):
  d = f"/tmp/mut/slot{slot}"
  src = open("/repo/" + m["file"]).read().encode()
  open(f"{d}/{m['file']}", "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
  pid = os.fork()
  if pid: return pid
  os.setsid()
  fd = os.open(f"{d}/out", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
  os.dup2(fd, 1); os.dup2(fd, 2)
  os.chdir(d); sys.path.insert(0, d)
  signal.alarm(120)
  try: rc = int(pytest.main(["-x", "-q", "-p", "no:cacheprovider", "tests"]))
  except BaseException: rc = 99
  import nnx
  if not nnx.__file__.startswith(d): rc = 98
  os._exit(rc)
for s in range(J):
  d = f"/tmp/mut/slot{s}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
  for x in ("nnx", "tests", "pyproject.toml"):
    (shutil.copytree if os.path.isdir(f"/repo/{x}") else shutil.copy)(f"/repo/{x}", f"{d}/{x}")
P = "/tmp/mut/tests.json"
res = json.load(open(P)) if os.path.exists(P) else {}
todo = [None] if "base" not in res else []
todo += [m for m in muts if m["id"] not in res]
free = list(range(J)); running = {}
t0 = time.time(); n = 0
while todo or running:
  while todo and free:
    s = free.pop(); m = todo.pop(0) or dict(id="base", file="nnx/ids.py", start=0, end=0, new="")
    running[child(s, m)] = (s, m)
  pid, st = os.waitpid(-1, 0)
  s, m = running.pop(pid)
  shutil.copy("/repo/" + m["file"], f"/tmp/mut/slot{s}/{m['file']}")
  free.append(s)
  res[m["id"]] = os.waitstatus_to_exitcode(st)
  n += 1
  if n % 50 == 0:
    json.dump(res, open(P, "w")); print(n, time.time() - t0, sum(v == 0 for v in res.values()), flush=True)
json.dump(res, open(P, "w"))
print("done", len(res), sum(v == 0 for v in res.values()), res["base"])
