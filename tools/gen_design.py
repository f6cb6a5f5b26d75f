#!/usr/bin/env python3
"""Writes DESIGN.md from the texts below, the checks and seeded/matrix.json."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(f"{V}/properties.jsonl")}

HEAD = open(f"{V}/tools/design_head.md").read()
TAIL = open(f"{V}/tools/design_tail.md").read()
NOTES = {}
cur = None
for line in open(f"{V}/tools/design_notes.md"):
  if line.startswith("## "):
    cur = line[3:].strip()
    NOTES[cur] = ""
  elif cur:
    NOTES[cur] += line


def consts(path):
  out = {}
  for n in ast.parse(open(path).read()).body:
    if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS", "BOUNDS"):
      out[n.targets[0].id] = ast.literal_eval(n.value)
  return out


out = [HEAD]
for pid, p in sorted(props.items()):
  c = consts(f"{V}/checks/{pid}.py")
  out.append(f"### {pid} {p['title']}\n")
  out.append(f"*Enumerated.* {c['RULE'][0].upper() + c['RULE'][1:]}.\n")
  out.append(f"*Bounds.* Quick: {c['BOUNDS']['quick']}. Thorough: {c['BOUNDS']['thorough']}.\n")
  if c.get("ASSUMPTIONS"):
    out.append(f"*Assumptions.* {'; '.join(c['ASSUMPTIONS'])}.\n")
  out.append(NOTES.get(pid, "").strip() + "\n")
out.append(TAIL)
mx = f"{V}/seeded/matrix.json"
if os.path.exists(mx):
  m = json.load(open(mx))
  out.append("\n## Planted changes and what reports them\n\nEach change builds and passes the 89 tests. "
             "\"Own\" is the check of the property the change was written against (quick tier).\n\n"
             "| change | property | what it breaks | own check | other checks |\n|---|---|---|---|---|\n")
  for sid in sorted(m):
    meta = json.load(open(f"{V}/seeded/{sid}/meta.json"))
    r = m[sid]
    out.append(f"| {sid} | {meta['property']} | {meta['what_it_breaks']} | {'reports' if r['own'] else 'silent'} | "
               f"{' '.join(r.get('others', [])) or '–'} |\n")
open(f"{V}/DESIGN.md", "w").write("\n".join(out[:-1] if False else out))
print("DESIGN.md written")
