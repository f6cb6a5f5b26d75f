"""try.py [ids]: builds each change in a scratch copy, runs tests, the demo and checks; writes /verif/seeded/<id>."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys
sys.path.insert(0, "/tmp/seed")
import importlib
PY = "/opt/venv/bin/python"
modname = os.environ.get("MUTS", "muts")
mm = importlib.import_module(modname)
ENV = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")

def sh(cmd, **kw):
  return subprocess.run(cmd, capture_output=True, text=True, **kw)

def one(sid):
  m = mm.M[sid]
  w = f"/tmp/seed/w/{sid}"
  shutil.rmtree(w, ignore_errors=True)
  sh(["git", "-C", "/repo", "worktree", "prune"])
  os.makedirs(os.path.dirname(w), exist_ok=True)
  sh(["cp", "-a", "/repo", w])
  for f, old, new in m["edits"]:
    s = open(f"{w}/{f}").read()
    if s.count(old) != 1:
      return sid, f"EDIT {f}: {s.count(old)} matches"
    open(f"{w}/{f}", "w").write(s.replace(old, new))
  diff = sh(["git", "-C", w, "diff"]).stdout
  env = dict(ENV, PYTHONPATH=w)
  t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", "--timeout=300"], cwd=w, env=env)
  tests = t.stdout.strip().splitlines()[-1]
  d = f"/tmp/seed/d/{sid}"
  os.makedirs(d, exist_ok=True)
  open(f"{d}/demo.py", "w").write(mm.HEADER + m["demo"])
  open(f"{d}/demo.sh", "w").write('#!/bin/sh\n# exits 0 when the property holds\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
  os.chmod(f"{d}/demo.sh", 0o755)
  d0 = sh([f"{d}/demo.sh"], cwd="/repo", env=ENV)
  d1 = sh([f"{d}/demo.sh"], cwd=w, env=env)
  ok = t.returncode == 0 and d0.returncode == 0 and d1.returncode != 0
  msg = f"tests[{tests}] demo {d0.returncode}/{d1.returncode}"
  if d0.returncode: msg += "\n   demo0: " + d0.stderr[-400:]
  if t.returncode: msg += "\n   " + "\n   ".join(l for l in t.stdout.splitlines() if l.startswith("FAILED"))[:600]
  if ok:
    out = f"/verif/seeded/{sid}"
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "w").write(diff)
    for f in ("demo.py", "demo.sh"):
      shutil.copy(f"{d}/{f}", out)
    json.dump(dict(property=m["property"], needs=m["needs"], what_it_breaks=m["breaks"]), open(f"{out}/meta.json", "w"), indent=1)
  return sid, ("OK " if ok else "BAD ") + msg

ids_ = sys.argv[1:] or list(mm.M)
with cf.ThreadPoolExecutor(6) as ex:
  for sid, r in ex.map(one, ids_):
    print(sid, r, flush=True)
