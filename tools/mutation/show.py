import json,sys
muts={m["id"]:m for m in json.load(open("/tmp/mut/mutants.json"))}
res=json.load(open("/tmp/mut/checks.json"))
seen=set(open("/tmp/mut/seen.txt").read().split()) if __import__("os").path.exists("/tmp/mut/seen.txt") else set()
for i,r in sorted(res.items()):
  if i in seen: continue
  k=r["killed"]
  if k is None or k=="slow" or ":" in k:
    m=muts[i]; src=open("/repo/"+m["file"]).read().splitlines()
    print(i,k,m["file"],m["line"],m["kind"],m["func"],list(r["checks"]) if k=="slow" else "")
    print("    ",m["old"][:90].replace("\n"," "),"=>",m["new"][:110].replace("\n"," "))
    seen.add(i)
open("/tmp/mut/seen.txt","w").write(" ".join(seen))
print(len(res), sum(1 for r in res.values() if r["killed"] and r["killed"]!="slow"))
