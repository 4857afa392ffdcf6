"""Conformance of executions of generated programs to spec/VQL.tla."""
import json, os, subprocess
from vlib import CheckError, compact, rows_text


def describe(rec, m):
    t = "%s: %s" % (m["verdict"], rec["src"])
    used = [kv for kv in rec["env"] if kv[0] in rec["src"]]
    t += "\nwith " + ", ".join("%s=%s" % (k, compact(v)) for k, v in used)
    if m["verdict"] == "error":
        t += "\n" + rec["err"][:800]
    elif m["verdict"] == "overrun":
        t += "\n%d rows pulled when the reader paused at row %d, %d in the end" % tuple(rec["pull"])
    elif m["verdict"] in ("detached", "context", "early", "refused"):
        t += "\nobserved events: %s" % [(a, compact(b)) for a, b in rec["log"] if a.startswith("!")]
    elif m["verdict"] == "leak":
        t += "\n%d goroutines left" % rec["leak"]
    else:
        t += "\nspecified: " + rows_text(m["outs"])[:600] + "\nobserved:  " + rows_text(rec["outs"])[:600]
        if m["verdict"] == "log":
            t += "\nspecified events: %s\nobserved events:  %s" % (
                [(a, compact(b)) for a, b in m["log"]][:30], [(a, compact(b)) for a, b in rec["log"]][:30])
    return t


def run_tlc(chk, path, timeout=600):
    r = chk.tlc("VQLCheck", env={"VQL_CASES": path}, timeout=timeout)
    chk.count(r)
    return r


def conform(chk, profile, n, mode="plain", seed=None, race=False, extra=()):
    seed = chk.seed if seed is None else seed
    path = os.path.join(chk.work, "cases-%s-%s-%d.ndjson" % (profile, mode, seed))
    out = chk.run_harness(["drive", "-profile", profile, "-mode", mode, "-seed", seed, "-n", n, "-out", path]
                          + list(extra), race=race, timeout=850)
    recs = {}
    for line in open(path):
        r = json.loads(line)
        recs[r["id"]] = r
    tables = json.load(open(path + ".tables"))
    r = run_tlc(chk, path)
    skips = set(int(x) for x in r.prints("SKIP "))
    ids = list(recs)
    mm = [json.loads(x) for x in r.prints("MISMATCH ")]
    chk.cov["traces_validated_against_impl"] += len(recs) - len(skips)
    d = chk.cov.setdefault("programs", [])
    d.append({"profile": profile, "mode": mode, "seed": seed, "executions": len(recs),
              "outside_the_model": len(skips), "disagreements": len(mm)})
    if len(skips) > 0.6 * len(recs) and not mm:
        raise CheckError("too many executions outside the model: %d of %d" % (len(skips), len(recs)))
    for i in ids[len(ids) // 2:][:1]:
        chk.sample({"program": recs[i]["src"], "rows": rows_text(recs[i]["outs"])[:400]})
    mm.sort(key=lambda m: len(recs[m["id"]]["src"]))
    shown = 0
    for m in mm:
        rec = recs[m["id"]]
        key = {"detached": "detached-context"}.get(m["verdict"], "conf")
        if key in chk.known:
            chk.violation(key, describe(rec, m), {})
            continue
        if m["verdict"] in ("leak", "context", "overrun") or m["verdict"] == "error" and rec["err"].startswith("hang"):
            # Not decided by one run: load on the machine must not matter.
            if shown >= 5 or not reproduces(chk, rec, tables, m["verdict"], race):
                continue
        if m["verdict"] == "error" and rec["err"].startswith("crash:") and not any(
                w in rec["err"] for w in ("panic", "fatal error", "DATA RACE")):
            raise CheckError("a worker process died: " + rec["err"][:500])
        shown += 1
        if shown > 10:
            break
        chk.violation(key, describe(rec, m), {
            "kind": "program", "record": rec, "tables": tables, "verdict": m,
            "replay_with": "python3 /verif/check.py replay THIS_FILE"})
    os.unlink(path)
    return recs, mm


def rerun(chk, rec, tables, race=False, tag="one"):
    path = os.path.join(chk.work, tag + ".ndjson")
    with open(path, "w") as f:
        f.write(json.dumps(rec) + "\n")
    with open(path + ".tables", "w") as f:
        json.dump(tables, f)
    chk.run_harness(["drive", "-cases", path, "-workers", "1", "-out", path], race=race, timeout=400)
    r = chk.tlc("VQLCheck", env={"VQL_CASES": path})
    rec2 = json.loads(open(path).readline())
    return rec2, [json.loads(x) for x in r.prints("MISMATCH ")]


def reproduces(chk, rec, tables, verdict, race):
    for i in range(3):
        _, mm = rerun(chk, rec, tables, race)
        if mm and mm[0]["verdict"] == verdict:
            return True
    return False
