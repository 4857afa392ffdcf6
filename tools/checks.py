"""One function per property."""
import json, os
import vlib
from vlib import CheckError, compact
from conf import conform, rerun, describe


def programs(*profiles, n=6000, more=8, mode="plain", big=None, budget=720):
    """Executions of generated programs against VQL.tla; big names a
    profile of programs over tables of more than a thousand rows."""
    def check(chk):
        for prof in profiles:
            conform(chk, prof, n, mode)
        if big:
            conform(chk, "big-" + big, 12 if chk.thorough else 5, mode)
        if chk.thorough:
            for k in range(1, more):
                for prof in profiles:
                    if chk.left(budget) > 0:
                        conform(chk, prof, 8000, mode, seed=chk.seed * 1000 + k)
    return check


def records(chk, command, module, describe_rec, args=(), race=False, seed=None, name=None, prune=None, timed=(), only=None):
    """Records made by a harness command, each checked by a TLA+ module.
    Verdicts in timed could come from a slow machine: the record is made again.
    only: the verdicts which are about this property."""
    path = os.path.join(chk.work, "%s.ndjson" % command)
    chk.run_harness([command, "-seed", chk.seed if seed is None else seed, "-out", path] + list(args),
                    race=race, timeout=800)
    r = chk.tlc(module, env={"VQL_CASES": path})
    chk.count(r)
    recs = {}
    for line in open(path):
        rec = json.loads(line)
        recs[rec["id"]] = rec
    mm = [json.loads(x) for x in r.prints("MISMATCH ")]
    mm = [m for m in mm if only is None or m["verdict"] in only]
    skips = len(r.prints("SKIP "))
    chk.cov["traces_validated_against_impl"] += len(recs) - skips
    chk.cov.setdefault("tables", []).append({"command": command + " " + " ".join(map(str, args)),
        "module": module, "records": len(recs), "outside_the_model": skips, "disagreements": len(mm)})
    some = list(recs.values())
    if some:
        chk.sample(prune(some[len(some) // 2]) if prune else some[len(some) // 2])
    shown = 0
    for m in mm:
        rec = recs[m["id"]]
        if shown >= 10:
            break
        if m["verdict"] in timed and (shown >= 4 or not again(chk, command, module, args, race, seed, m)):
            continue
        shown += 1
        chk.violation(describe_rec(rec, m)[0], describe_rec(rec, m)[1],
                      {"kind": "record", "command": command, "record": rec, "verdict": m})
    return recs, mm


def again(chk, command, module, args, race, seed, m):
    path = os.path.join(chk.work, "again.ndjson")
    for i in range(3):
        chk.run_harness([command, "-seed", chk.seed if seed is None else seed, "-only", m["id"], "-out", path]
                        + list(args), race=race, timeout=100)
        r = chk.tlc(module, env={"VQL_CASES": path})
        if m["verdict"] in [json.loads(x)["verdict"] for x in r.prints("MISMATCH ")]:
            return True
    return False


def c04(chk):
    programs("limit", big="limit")(chk)
    conform(chk, "endless", 1000)
    k = 1
    while chk.thorough and chk.left(700) > 0 and k < 6:
        conform(chk, "endless", 2000, seed=chk.seed * 1000 + k)
        k += 1


def c05(chk):
    for p in ("all", "letcall", "rows", "foreach"):
        conform(chk, p, 1500, "cancel")
    k = 1
    while chk.thorough and chk.left(650) > 0 and k < 6:
        for p in ("all", "letcall", "rows", "foreach", "group", "order", "let", "limit", "lazy"):
            if chk.left(650) > 0:
                conform(chk, p, 4000, "cancel", seed=chk.seed * 1000 + k)
        k += 1


def op_text(rec, m):
    t = "%s: a = %s (%s), b = %s (%s)" % (m["verdict"], compact(rec["a"]), rec["ta"], compact(rec["b"]), rec["tb"])
    if rec["err"]:
        t += " " + rec["err"][:300]
    else:
        t += "\nobserved (a,b): " + ", ".join("%s=%s" % (k, compact(v)) for k, v in rec["ab"].items())
        t += "\nobserved (b,a): " + ", ".join("%s=%s" % (k, compact(v)) for k, v in rec["ba"].items())
        if m["exp"]:
            t += "\nspecified: " + ", ".join("%s=%s" % (k, compact(v)) for k, v in m["exp"].items())
    return "op", t


def op_prune(rec):
    return {"a": compact(rec["a"]), "b": compact(rec["b"]), "types": [rec["ta"], rec["tb"]],
            "results": {k: compact(v) for k, v in rec["ab"].items()}}


def optable(chk, keep):
    """keep: the verdicts that belong to the property."""
    sub = []
    viol = chk.violation
    chk.violation = lambda key, text, replay: viol(key, text, replay) if replay["verdict"]["verdict"] in keep else None
    records(chk, "optable", "OpCheck", op_text, ["-thorough"] if chk.thorough else [], prune=op_prune)
    chk.violation = viol


def c13(chk):
    chk.model("OpAlgebra")
    optable(chk, {"laws", "kinds", "cmp", "panic"})


def c14(chk):
    optable(chk, {"exact", "numkinds", "meaningless", "panic"})
    programs("ops")(chk)


def tok_text(rec, m):
    t = "%s\nobserved %s" % (rec["src"], rec["err"][:300] or compact(rec["res"]))
    return "parse", t + "\nspecified %s" % compact(m["exp"])


def tok_prune(rec):
    return {"text": rec["src"], "value": compact(rec["res"])}


def c15(chk):
    records(chk, "tokens", "ParseCheck", tok_text, ["-n", 4000], prune=tok_prune)
    programs("noisy", n=2000, more=4)(chk)
    k = 1
    while chk.thorough and chk.left(600) > 0 and k < 5:
        records(chk, "tokens", "ParseCheck", tok_text, ["-n", 20000] + (["-thorough"] if k == 1 else []),
                seed=chk.seed * 1000 + k, prune=tok_prune)
        k += 1


def lex_text(rec, m):
    if rec["kind"] == "lit":
        return "lex", "%s: %s\nliteral %s\nspecified: %s\nas written, formatted, reformatted: %s" % (
            m["verdict"], rec["src"], "".join(rec["s"]), json.dumps(m["exp"])[:300],
            "; ".join(json.dumps(v, ensure_ascii=False)[:300] for v in rec["vals"]))
    return "lex", "%s: %r\nspecified: %s\nobserved:  %s %s" % (
        m["verdict"], rec["src"], [(t, "".join(s)) for t, s in m["exp"] if t != "whitespace"][:30],
        [(t[0], "".join(t[1]), t[2]) for t in rec["toks"]][:30], "(refused)" if rec["refused"] else "")


def lex_prune(rec):
    return {"source": rec["src"], "tokens": [t[0] for t in rec["toks"]], "values": rec["vals"][:1]}


def c24(chk):
    for cfg in ("LexModel4.cfg", "LexModelWords4.cfg") if chk.thorough else ("LexModel.cfg", "LexModelWords.cfg"):
        chk.model("LexModel", cfg)
    own = ("value", "token", "count", "position", "accepted", "refused")
    records(chk, "lex", "LexCheck", lex_text, ["-n", 30000], prune=lex_prune, only=own)
    k = 1
    while chk.thorough and chk.left(700) > 0 and k < 8:
        records(chk, "lex", "LexCheck", lex_text, ["-n", 60000], seed=chk.seed * 1000 + k, prune=lex_prune, only=own)
        k += 1


def c16(chk):
    records(chk, "lex", "LexCheck", lex_text, ["-profile", "lit", "-n", 8000], prune=lex_prune, only=("formatted",))
    for mode, p in (("format", "all"), ("reformat", "all"), ("format", "letcall"), ("reformat", "noisy")):
        conform(chk, p, 1500, mode)
    k = 1
    while chk.thorough and chk.left(720) > 0 and k < 6:
        for p in sorted(PROFILES):
            for mode in ("format", "reformat"):
                if chk.left(720) > 0:
                    conform(chk, p, 3000, mode, seed=chk.seed * 1000 + k)
        k += 1


def sort_text(rec, m):
    t = "%s: %s\n%d rows, keys %s" % (m["verdict"], rec["src"], len(rec["keys"]),
                                     ", ".join(compact(k) for k in rec["keys"][:20]))
    return "sort", t + "\nobserved positions %s %s" % (rec["out"][:20], rec["err"][:300])


def sort_prune(rec):
    return {"query": rec["src"], "rows": len(rec["keys"]), "first": rec["out"][:5]}


def c03(chk):
    programs("order")(chk)
    records(chk, "sorts", "SortCheck", sort_text, ["-n", 600 if chk.thorough else 150], prune=sort_prune)


def pool_text(rec, m):
    return "pool", "%s at event %d: %s\n%d workers, rows of each evaluation %s\nevents %s %s" % (
        m["verdict"], m["at"], rec["src"], rec["w"], rec["emits"],
        " ".join("".join(map(str, e)) for e in rec["events"][:60]), rec["err"][:600])


def pool_prune(rec):
    return {"query": rec["src"], "events": " ".join("".join(map(str, e)) for e in rec["events"][:30])}


def history(rec):
    return " ".join(e[0] + "(" + ",".join(map(str, e[1:])) + ")" for e in rec["events"][:80])


def closing_text(rec, m):
    return "closing", "%s at event %d of a history of several threads\n%s %s" % (
        m["verdict"], m["at"], history(rec), rec["err"])


def scope_histories(chk, n, seed):
    """ScopeCheck explores what is not recorded: a history is refused when
    no run of the machine accepts it."""
    path = os.path.join(chk.work, "scopes.ndjson")
    chk.run_harness(["scopes", "-seed", seed, "-n", n, "-out", path])
    r = chk.tlc("ScopeCheck", env={"VQL_CASES": path})
    chk.count(r)
    ok = set(int(x) for x in r.prints("OK "))
    stuck = {}
    for x in r.prints("STUCK "):
        s = json.loads(x)
        stuck[s["id"]] = max(s["at"], stuck.get(s["id"], 0))
    recs = [json.loads(x) for x in open(path)]
    chk.cov["traces_validated_against_impl"] += len(recs)
    bad = [x for x in recs if x["id"] not in ok]
    chk.cov.setdefault("tables", []).append({"command": "scopes -n %d -seed %d" % (n, seed),
        "module": "ScopeCheck", "records": len(recs), "disagreements": len(bad)})
    chk.sample({"history": history(recs[len(recs) // 2])})
    bad.sort(key=lambda x: len(x["events"]))
    for rec in bad[:10]:
        at = stuck.get(rec["id"], 0)
        chk.violation("scopes", "event %d is not possible: %s\nhistory %s %s" % (
            at, rec["events"][at - 1] if 0 < at <= len(rec["events"]) else "", history(rec), rec["err"]),
            {"kind": "record", "command": "scopes", "record": rec, "at": at})


def c06(chk):
    chk.model("ScopeImpl")
    scope_histories(chk, 5000, chk.seed)
    records(chk, "closings", "ClosingCheck", closing_text, ["-n", 40000], prune=lambda r: {"history": history(r)})
    if chk.thorough:
        chk.model("ScopeImpl", "ScopeImpl2.cfg", timeout=800)
        k = 1
        while chk.left(600) > 0 and k < 12:
            scope_histories(chk, 10000, chk.seed * 1000 + k)
            records(chk, "closings", "ClosingCheck", closing_text, ["-n", 100000], seed=chk.seed * 1000 + k,
                    race=k == 3, prune=lambda r: {"history": history(r)})
            k += 1


def c07(chk):
    programs("foreach", big="foreach", n=4000, budget=400)(chk)
    timed = ("error", "leak", "not closed")
    chk.model("PoolImpl")
    chk.model("PoolImpl", "PoolImpl1.cfg")
    records(chk, "pool", "PoolCheck", pool_text, ["-n", 2000], prune=pool_prune, timed=timed)
    if chk.thorough:
        chk.model("PoolImpl", "PoolImpl3.cfg")
        for k in range(1, 5):
            if chk.left(760) > 0:
                records(chk, "pool", "PoolCheck", pool_text, ["-n", 8000], prune=pool_prune, timed=timed,
                        race=k % 2 == 0, seed=chk.seed * 1000 + k)


def c17(chk):
    for p in ("all", "agg", "group", "letcall", "foreach", "limit", "order"):
        conform(chk, p, 800, "reuse")
    for p in ("all", "agg", "foreach"):
        conform(chk, p, 300, "reuse", race=True)
    k = 1
    while chk.thorough and chk.left(700) > 0 and k < 6:
        for p in sorted(PROFILES):
            if chk.left(700) > 0:
                conform(chk, p, 2500, "reuse", seed=chk.seed * 1000 + k)
            if chk.left(700) > 0:
                conform(chk, p, 700, "reuse", race=True, seed=chk.seed * 1000 + k)
        k += 1


def c18(chk):
    for p in ("select", "group", "order", "letcall", "foreach", "let", "all"):
        conform(chk, p, 1500, "explain")
    k = 1
    while chk.thorough and chk.left(720) > 0 and k < 6:
        for p in sorted(PROFILES):
            if chk.left(720) > 0:
                conform(chk, p, 4000, "explain", seed=chk.seed * 1000 + k)
        k += 1


def c21(chk):
    conform(chk, "recursion", 2000, "recursion")
    k = 1
    while chk.thorough and chk.left(700) > 0 and k < 12:
        conform(chk, "recursion", 3000, "recursion", seed=chk.seed * 1000 + k)
        k += 1


def batch_text(rec, m):
    return "batch", "%s at event %d: %s, maximum wait %d s, rows %d\nevents %s %s" % (
        m["verdict"], m["at"], rec["src"], rec["wait"], rec["n"],
        " ".join(e[0] + "".join(map(str, e[1:])) for e in rec["events"][:60]), rec["err"][:600])


def batch_prune(rec):
    return {"query": rec["src"], "events": " ".join(e[0] + "".join(map(str, e[1:])) for e in rec["events"][:30])}


def c19(chk):
    timed = ("error", "leak", "not closed", "aged")
    chk.model("BatchImpl")
    chk.model("BatchImpl", "BatchImpl1.cfg")
    records(chk, "batches", "BatchCheck", batch_text, ["-n", 3000, "-slow", 80], prune=batch_prune, timed=timed)
    for p in ("all", "rows"):
        conform(chk, p, 2000, "response")
    if chk.thorough:
        chk.model("BatchImpl", "BatchImpl3.cfg")
    k = 1
    while chk.thorough and chk.left(650) > 0 and k < 6:
        records(chk, "batches", "BatchCheck", batch_text, ["-n", 12000, "-slow", 300], prune=batch_prune, timed=timed,
                race=k % 2 == 0, seed=chk.seed * 1000 + k)
        for p in ("all", "rows", "group", "lazy", "letcall", "limit"):
            if chk.left(650) > 0:
                conform(chk, p, 4000, "response", seed=chk.seed * 1000 + k)
        k += 1


def arg_text(rec, m):
    t = "%s: %s%s\nfields %s\narguments %s" % (
        m["verdict"], rec["src"], " (other arguments allowed)" if rec["kw"] else "",
        ", ".join("%s %s%s" % (n, k, " required" if r else "") for n, k, r in rec["fields"]),
        ", ".join("%s=%s (%s)" % (a[0], compact(a[2]), a[1]) for a in rec["args"]))
    t += "\nspecified " + ", ".join("%s %s" % (n, e[0] + (" " + compact(e[1]) if len(e) > 1 else "")) for n, e in m["exp"])
    for c in rec["calls"]:
        t += "\nobserved " + (c["err"] or ", ".join("%s=%s" % (n, compact(v)) for n, v in c["set"])) + \
             " evaluations %s" % c["evals"]
    return "args", t + "\n" + rec["err"][:600]


def arg_prune(rec):
    return {"call": rec["src"], "fields": rec["fields"], "result": rec["calls"][:1]}


def c22(chk):
    chk.model("ArgImpl")
    records(chk, "args", "ArgCheck", arg_text, ["-n", 12000], prune=arg_prune)
    if chk.thorough:
        chk.model("ArgImpl", "ArgImpl3.cfg", timeout=800)
    k = 1
    while chk.thorough and chk.left(600) > 0 and k < 12:
        records(chk, "args", "ArgCheck", arg_text, ["-n", 20000], seed=chk.seed * 1000 + k, prune=arg_prune)
        k += 1


def save_text(rec, m):
    t = "%s: bindings %s%s" % (m["verdict"], json.dumps(rec["frames"])[:500],
                               " ignored " + ", ".join(rec["ignore"]) if rec["ignore"] else "")
    return "save", t + (rec["err"][:400] or "\nspecified: %s is %s\nobserved:  %s" % tuple(
        json.dumps(x, ensure_ascii=False)[:400] if q else x for q, x in enumerate(m["exp"])))


def save_prune(rec):
    return {"bindings": json.dumps(rec["frames"])[:300], "restored": json.dumps(rec["res"])[:300]}


def c23(chk):
    chk.model("SaveImpl")
    records(chk, "saves", "SaveCheck", save_text, ["-n", 6000], prune=save_prune)
    for p in ("let", "letcall", "names", "all", "noisy"):
        conform(chk, p, 1500, "marshal")
    if chk.thorough:
        chk.model("SaveImpl", "SaveImpl3.cfg", timeout=800)
    k = 1
    while chk.thorough and chk.left(700) > 0 and k < 6:
        records(chk, "saves", "SaveCheck", save_text, ["-n", 30000], prune=save_prune, seed=chk.seed * 1000 + k)
        for p in ("let", "letcall", "names", "lazy", "agg", "ops", "select", "rows", "noisy", "all"):
            if chk.left(700) > 0:
                conform(chk, p, 4000, "marshal", seed=chk.seed * 1000 + k)
        k += 1


PROFILES = ("select", "group", "order", "limit", "foreach", "agg", "let", "letcall", "names", "lazy", "ops",
            "noisy", "rows", "all")


CHECKS = {
    "C01": programs("select", big="select"),
    "C02": programs("group", big="group"),
    "C03": c03,
    "C04": c04,
    "C05": c05,
    "C06": c06,
    "C07": c07,
    "C08": programs("agg", big="agg"),
    "C09": programs("let", big="let"),
    "C10": programs("letcall", big="letcall"),
    "C11": programs("names"),
    "C12": programs("lazy"),
    "C13": c13,
    "C14": c14,
    "C15": c15,
    "C16": c16,
    "C17": c17,
    "C18": c18,
    "C19": c19,
    "C20": programs("rows", big="rows"),
    "C21": c21,
    "C22": c22,
    "C23": c23,
    "C24": c24,
}


def replay(path):
    d = json.load(open(path))
    chk = vlib.Check(d["property"])
    try:
        if d["kind"] == "program":
            rec, mm = rerun(chk, d["record"], d["tables"])
            print(describe(rec, mm[0]) if mm else "agrees with the specification now")
            return 1 if mm else 0
        print(json.dumps(d, indent=1))
        return 0
    finally:
        chk.close()
