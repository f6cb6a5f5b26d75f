"""matrix.py [--checks C01,C02|own] sids...: runs checks against scratch copies of /repo with each planted change."""
import json, os, shutil, subprocess, sys, time
args = sys.argv[1:]
which = "own"
if args and args[0] == "--checks":
  which = args[1]; args = args[2:]
V = "/tmp/seed/v"
SEEDED = "/verif/seeded"
sids = args or sorted(d for d in os.listdir(SEEDED) if os.path.isdir(f"{SEEDED}/{d}"))
mpath = "/verif/seeded/matrix.json"
shutil.rmtree(V, ignore_errors=True)
shutil.copytree("/verif", V, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays", "__pycache__"))
os.makedirs(V + "/evidence"); os.makedirs(V + "/replays")
for sid in sids:
  meta = json.load(open(f"{SEEDED}/{sid}/meta.json"))
  own = meta["property"]
  w = f"/tmp/seed/w/{sid}"
  shutil.rmtree(w, ignore_errors=True)
  os.makedirs("/tmp/seed/w", exist_ok=True)
  subprocess.run(["cp", "-a", "/repo", w], check=True)
  subprocess.run(["git", "-C", w, "apply", f"{SEEDED}/{sid}/patch.diff"], check=True)
  m = json.load(open(mpath)) if os.path.exists(mpath) else {}
  e = m.setdefault(sid, {"own": False, "others": []})
  for c in ([own] if which == "own" else which.split(",")):
    t = time.time()
    try:
      r = subprocess.run(["./check.sh", c], cwd=V, env=dict(os.environ, PYTHONPATH=w, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=900)
      rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
      rc, out = -1, "timeout"
    caught = rc == 1 and f"VIOLATION property={c}" in out
    lines = [l for l in out.splitlines() if l.strip()]
    print(f"{sid} {c} rc={rc} {'CAUGHT' if caught else 'MISSED'} {time.time()-t:.0f}s  {lines[0][:150] if lines else ''}", flush=True)
    m = json.load(open(mpath)) if os.path.exists(mpath) else {}
    e = m.setdefault(sid, {"own": False, "others": []})
    if c == own: e["own"] = caught
    else:
      o = set(e["others"]); (o.add if caught else o.discard)(c); e["others"] = sorted(o)
    json.dump(m, open(mpath, "w"), indent=1, sort_keys=True)
  shutil.rmtree(w)
