#!/usr/bin/env python3
"""Triage helper: run the conformance checker on one record file and show
the mismatching programs in compact form."""
import json, os, subprocess, sys
def c(v):
    if not isinstance(v, list) or not v or not isinstance(v[0], str): return str(v)
    k = v[0]
    if k == "null": return "NULL"
    if k in ("int","bool"): return str(v[1])
    if k == "flt": return "%gf" % (v[1]/64)
    if k == "str": return repr(v[1])
    if k == "arr": return "[" + ", ".join(c(x) for x in v[1]) + "]"
    if k == "dict": return "{" + ", ".join("%s:%s" % (a, c(b)) for a, b in v[1]) + "}"
    return str(v)
def rows(outs): return "\n      ".join("[" + " | ".join(c(r) for r in o) + "]" for o in outs)
f = sys.argv[1]; lim = int(sys.argv[2]) if len(sys.argv) > 2 else 10
only = set(sys.argv[3].split(",")) if len(sys.argv) > 3 else None
env = dict(os.environ, VQL_CASES=os.path.abspath(f))
env["JAVA_TOOL_OPTIONS"]="-Xss128m"
p = subprocess.run(["tlc","-workers","8","-metadir","/tmp/tlcmeta","-config","VQLCheck.cfg","VQLCheck.tla"],
  cwd=os.environ.get("SPECDIR","/verif/spec"), env=env, capture_output=True, text=True)
recs = {}
for l in open(f):
    r = json.loads(l); recs[r["id"]] = r
mm = []; skip = 0
for l in p.stdout.splitlines():
    if l.startswith('"MISMATCH '): mm.append(json.loads(json.loads(l)[9:]))
    if l.startswith('"SKIP'): skip += 1
if "No error has been found" not in p.stdout:
    print(p.stdout[-3000:])
mm.sort(key=lambda m: len(recs[m["id"]]["src"]))
from collections import Counter
print("cases", len(recs), "skip", skip, "mismatch", Counter(m["verdict"] for m in mm))
n = 0
for m in mm:
    if only and m["verdict"] not in only: continue
    n += 1
    if n > lim: break
    r = recs[m["id"]]
    print("-----", m["id"], m["verdict"], "leak", r["leak"], m["err"][:1500])
    print(r["src"][:1500])
    used = [kv for kv in r["env"] if kv[0] in r["src"]]
    print("   env", ", ".join("%s=%s" % (k, c(v)) for k, v in used))
    if m["verdict"] != "error":
        print("  exp:", rows(m["outs"])[:700]); print("  got:", rows(r["outs"])[:700])
        if m["verdict"] == "log":
            e = Counter((a, c(b)) for a, b in m["log"]); g = Counter((a, c(b)) for a, b in r["log"])
            print("  missing:", str(dict(e - g))[:500]); print("  extra:", str(dict(g - e))[:500])
