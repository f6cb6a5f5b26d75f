#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
TECH = {
    "C25": "stateless model checking of the real code: preemption-bounded exhaustive schedule exploration with a bytecode-level scheduler, plus exhaustive bounded graph enumeration against a reference heap",
    "C26": "stateless model checking of the real code: preemption-bounded exhaustive schedule exploration with a bytecode-level scheduler, plus exhaustive bounded graph enumeration",
    "C33": "stateless model checking of the real code: preemption-bounded exhaustive schedule exploration, plus exhaustive enumeration of scope histories and rule/mesh/fallback products",
    "C10": "bounded exhaustive exploration of transform stacks and mutation histories on the real code against a trace-level model",
    "C11": "bounded exhaustive exploration of transform stacks and use histories on the real code against a trace-level model",
}
DEFAULT = "explicit bounded exhaustive exploration of the real code, every step compared with a reference model"
checks, na = [], []
for p in props:
  i = p["id"]
  if os.path.exists(f"{V}/checks/{i}.py"):
    checks.append(dict(
        property=i, quick_cmd=f"./check.sh {i} --tier quick", thorough_cmd=f"./check.sh {i} --tier thorough",
        evidence_file=f"evidence/{i}.json", technique=TECH.get(i, DEFAULT), level="model_checking",
        level_note="Every case of the finite space described in DESIGN.md (bounds in the evidence file) is executed on the "
                   "code in /repo and compared with the reference model; nothing is sampled or capped. Trusts the reference "
                   "model in /verif, CPython, JAX/XLA on CPU; says nothing beyond the bounds."))
  else:
    na.append(dict(property=i, reason="Check not built yet; the method that will decide it is in DESIGN.md."))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na),
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
