#!/opt/venv/bin/python
"""run.py Cxx [--tier quick|thorough] [--replay FILE] [--jobs N]: runs one check."""
import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
ENV = dict(
    JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
    TF_CPP_MIN_LOG_LEVEL="3", PYTHONWARNINGS="ignore",
    XLA_FLAGS="--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    OMP_NUM_THREADS="1")
if os.environ.get("MC_ENV") != "1":
  os.environ.update(ENV, MC_ENV="1")
  if len(sys.argv) > 1 and sys.argv[1] in ("C29", "C33"):
    os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=8 " + os.environ["XLA_FLAGS"]
  if len(sys.argv) > 1 and sys.argv[1] == "C12":
    os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=2 " + os.environ["XLA_FLAGS"]
  os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
sys.dont_write_bytecode = True

from mc import core


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("pid")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--replay")
  ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", min(8, os.cpu_count() or 1))))
  args = ap.parse_args()
  pid, tier = args.pid, args.tier
  if tier not in ("quick", "thorough"):
    tier = "quick"
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  known = core.load_known().get(pid, {})

  if args.replay:
    import importlib
    mod = importlib.import_module(f"checks.{pid}")
    rep = json.load(open(args.replay))
    section = next(s for s in mod.SECTIONS if s.name == rep["section"])
    if section.setup:
      section.setup()
    if rep["case"] == "setup":
      print(f"replay of {args.replay}: the fixtures can be built")
      return 0
    f = core.run_one(section, core.detuple(rep["case"]), core.Cov())
    if f is None:
      print(f"replay of {args.replay}: property {pid} holds on this case")
      return 0
    print(f["message"])
    print(f["where"])
    print(f"VIOLATION property={pid} replay={args.replay}")
    return 1

  t0 = time.time()
  ctx = mp.get_context("spawn")
  procs = []
  for i in range(args.jobs):
    a, b = ctx.Pipe(duplex=False)
    fd, at = tempfile.mkstemp(prefix=f"mc-{pid}-")
    os.close(fd)
    p = ctx.Process(target=core.worker, args=(pid, tier, i, args.jobs, b, at))
    p.start()
    b.close()
    procs.append((p, a, at))
  results = []
  for p, a, at in procs:
    try:
      results.append(a.recv())
    except EOFError:
      p.join()
      where = open(at).read().strip()
      if where and p.exitcode < 0 and signal.Signals(-p.exitcode).name in core.CRASHES:
        results.append(("ok", core.crashed(pid, tier, where, p.exitcode)))
      else:
        results.append(("error", f"worker {p.pid} died with exit code {p.exitcode}"))
  for p, a, at in procs:
    p.join()
    os.unlink(at)
  errors = [r for k, r in results if k == "error"]
  if errors:
    print("HARNESS ERROR", errors[0], file=sys.stderr)
    return 3
  results = [r for _, r in results]

  meta = results[0].pop("__meta__")
  for r in results[1:]:
    r.pop("__meta__")
  names = list(results[0])
  states, transitions, traces, samples, fails = 0, 0, 0, [], []
  sections = {}
  for name in names:
    u = set()
    sec = dict(cases=0, states=0, transitions=0, counters={}, distinct_outcomes={})
    for r in results:
      s = r[name]
      u.update(s["states"])
      sec["cases"] += s["total"]
      sec["transitions"] += s["transitions"]
      for k, v in s["counters"].items():
        sec["counters"][k] = sec["counters"].get(k, 0) + v
      for k, v in s["outcomes"].items():
        sec["distinct_outcomes"][k] = sec["distinct_outcomes"].get(k, 0) + v
      traces += s["traces"]
      fails += s["fails"]
      if len([x for x in samples if x["section"] == name]) < 2:
        samples += s["samples"][:1]
    sec["states"] = len(u)
    sec["wall_s"] = round(max(r[name]["wall"] for r in results), 2)
    if len(sec["distinct_outcomes"]) > 30:
      sec["distinct_outcomes"] = {"count": len(sec["distinct_outcomes"])}
    for k in ("counters", "distinct_outcomes"):
      if not sec[k]:
        del sec[k]
    states += len(u)
    transitions += sec["transitions"]
    sections[name] = sec

  order = {n: i for i, n in enumerate(names)}
  fails.sort(key=lambda f: (order[f["section"]], f["index"]))
  new, seen_known = [], {}
  for f in fails:
    if f["key"] is not None and f["key"] in known:
      seen_known[f["key"]] = seen_known.get(f["key"], 0) + 1
    else:
      new.append(f)
  for key, text in known.items():
    if key in seen_known:
      print(f"KNOWN-FINDING: property={pid} {text} [{key}]")

  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  ev = dict(
      property=pid, tier=tier, seed=seed, level="model_checking",
      coverage=dict(
          states=states, transitions=transitions, traces_validated_against_impl=traces,
          samples=samples or [dict(note="no passing case")],
          exhaustive=not new, sections=sections,
          bounds=meta["bounds"],
          rule=meta["rule"],
          known_findings=seen_known),
      assumptions=meta["assumptions"],
      wall_s=round(time.time() - t0, 2), violations=len(new))
  with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
    json.dump(ev, fh, indent=1)

  print(f"{pid} [{tier}] states={states} transitions={transitions} cases={traces} "
        f"violations={len(new)} wall={ev['wall_s']}s")
  for n, s in sections.items():
    print(f"  {n}: {s}")
  if new:
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for k, f in enumerate(new[:5]):
      path = os.path.join(rdir, f"{pid}-{k}.json")
      with open(path, "w") as fh:
        json.dump(dict(property=pid, **f, replay_cmd=f"./check.sh {pid} --replay {path}"), fh, indent=1)
      if k < 2:
        print(f"--- {f['section']} case {json.dumps(f['case'])[:600]}\n{f['message'][:1500]}\n{f['where'][-1200:]}")
      print(f"VIOLATION property={pid} replay={path}")
    return 1
  return 0


if __name__ == "__main__":
  sys.exit(main())
