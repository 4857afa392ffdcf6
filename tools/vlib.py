"""Shared machinery of the checks: builds the harness from /repo's working
tree, runs it, runs TLC, collects coverage and reports."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
GO = "/opt/veriftools/go1.25.14/bin/go"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not decide."""


def go_env():
    env = dict(os.environ)
    env.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOWORK="off",
               PATH="/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    env.pop("GOROOT", None)
    return env


class Tlc:
    """Result of one TLC run."""
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "")
                       if False else out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "No error has been found" in out

    def prints(self, tag):
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag):
                try:
                    res.append(json.loads(line)[len(tag):].strip())
                except ValueError:
                    raise CheckError("unreadable TLC output: " + line[:200])
        return res


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []      # (key, text, replay)
        self.known_seen = {}
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=base)
        self.replays = os.path.join(VERIF, "replays", pid)
        self.known = load_known(pid)
        self.bins = {}
        self.nreplay = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # ---------------------------------------------------------------- tools
    def harness(self, race=False):
        if race not in self.bins:
            out = os.path.join(self.work, "vqlh-race" if race else "vqlh")
            cmd = [GO, "build", "-o", out] + (["-race"] if race else []) + ["."]
            p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=go_env(),
                               capture_output=True, text=True)
            if p.returncode != 0:
                raise CheckError("harness does not build against /repo:\n" + p.stdout + p.stderr)
            self.bins[race] = out
        return self.bins[race]

    def run_harness(self, args, race=False, timeout=600, env=None):
        e = dict(os.environ)
        e.update(env or {})
        if race:
            e["GORACE"] = "halt_on_error=1"
        p = subprocess.run([self.harness(race)] + [str(a) for a in args], capture_output=True,
                           text=True, timeout=timeout, env=e, errors="replace")
        if p.returncode != 0:
            raise CheckError("harness failed (%d): %s" % (p.returncode, (p.stdout + p.stderr)[-3000:]))
        return p.stdout

    def tlc(self, module, cfg=None, env=None, workers=8, timeout=600, simulate=None, args=(),
            expect_ok=True, stack="128m", heap="6g"):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xss" + stack, "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta,
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg or module + ".cfg"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout,
                               errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        r = Tlc(p.stdout, p.returncode)
        if expect_ok and not r.ok and not simulate:
            raise CheckError("TLC on %s/%s: %s" % (module, cfg, (p.stdout + p.stderr)[-3000:]))
        return r

    def count(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated

    def model(self, module, cfg=None, **kw):
        """Exhaustive check of a design model; it must hold."""
        r = self.tlc(module, cfg, **kw)
        self.count(r)
        self.cov.setdefault("models", []).append(
            {"module": module, "config": cfg or module + ".cfg", "distinct_states": r.distinct,
             "transitions": r.generated})
        return r

    def sample(self, x):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(x)

    # -------------------------------------------------------------- results
    def violation(self, key, text, replay):
        """replay: dict describing how to reproduce it."""
        if key in self.known:
            self.known_seen.setdefault(key, text)
            return
        self.nreplay += 1
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, "%s-%d-%d.json" % (self.tier, self.seed, self.nreplay))
        replay = dict(replay, property=self.pid, key=key, what=text)
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        self.violations.append((key, text, path))

    def finish(self):
        self.cov["samples"] = self.cov["samples"] or ["none"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, text in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        for k, text, path in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  " + text.replace("\n", "\n  ")[:1500])
        print("%s %s seed=%d: %d states, %d traces validated, %d violations, %.1fs" % (
            self.pid, self.tier, self.seed, self.cov["states"],
            self.cov["traces_validated_against_impl"], len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def load_known(pid):
    res = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def compact(v):
    if not isinstance(v, list) or not v or not isinstance(v[0], str):
        return str(v)
    k = v[0]
    if k == "null":
        return "NULL"
    if k in ("int", "bool"):
        return str(v[1])
    if k == "flt":
        return "%gf" % (v[1] / 64)
    if k == "str":
        return repr(v[1])
    if k == "arr":
        return "[" + ", ".join(compact(x) for x in v[1]) + "]"
    if k == "dict":
        return "{" + ", ".join("%s:%s" % (a, compact(b)) for a, b in v[1]) + "}"
    return str(v)


def rows_text(outs):
    return "; ".join("[" + " | ".join(compact(r) for r in o) + "]" for o in outs)
