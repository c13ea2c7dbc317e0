#!/usr/bin/env python3
"""Checks one property of quamina by seeded simulation.

  check.py PROPERTY [--tier quick|thorough] [--seed N] [--budget SECONDS]
  check.py replay FILE          run a replay file on the current tree

Exit status: 0 held on everything explored, 1 VIOLATION printed, 2 trouble.
"""
import json, os, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = 8
GOROOT = "/opt/veriftools/go1.27.3"

# runs per scenario for the quick check of each property. "race-" scenarios
# run in the binary that is built with the race detector.
PLAN = {
    "C01": "seq:700,adds:350,churn:350,del:200,multi:100,own:80,ro:80,badadd:80,flat:80,policy:60,bulk:60,hot:400",
    "C02": "seq:700,adds:350,churn:350,del:200,multi:100,own:80,ro:80,badadd:80,flat:80,badev:80,bulk:80,hot:150",
    "C03": "adds:1300,stall:150,badadd:200,multi:150,race-adds:60,bulk:25,hot:900",
    "C04": "seq:800,churn:350,del:350,adds:350,badadd:100,bulk:50",
    "C05": "badadd:1500,multi:150,race-badadd:40",
    "C06": "del:750,churn:500,seq:250,adds:60,badadd:60,policy:150,store:150,bulk:25,hot:400",
    "C07": "churn:1000,del:500,seq:250,store:100,hot:500",
    "C08": "del:650,churn:500,seq:350,policy:150,bulk:25,hot:400",
    "C09": "policy:800,churn:800,del:600,purge:100,stall:150,store:150,bulk:20,hot:400",
    "C10": "purge:1600,policy:500",
    "C11": "multi:1100,race-multi:60",
    "C12": "race-adds:400,race-del:300,race-churn:300,race-multi:250,race-flat:200,race-store:200,race-policy:200,race-badadd:150,race-ro:150,race-own:100,race-bulk:20,race-hot:300",
    "C13": "own:900,adds:150,del:150,churn:150,flat:100,bulk:40,hot:150",
    "C14": "badev:2000,flat:500,multi:150",
    "C15": "stall:600,del:300,churn:200,adds:250,store:250,flat:100,policy:150,bulk:20,hot:500",
    "C16": "adds:700,churn:500,del:400,policy:150,bulk:20,hot:1800",
    "C17": "store:1800",
    "C18": "ro:1200,own:100,seq:150,stall:60",
    "C19": "flat:1700",
}
SCALE = {"quick": 2.8, "thorough": 90.0}
BUDGET = {"quick": 150.0, "thorough": 2400.0}
RACE_SHARE = 0.6

TRUSTED = [
    "the scenario generators and the reference model in sim/zzmain",
    "the instrumenter (instr), which inserts a yield before every statement and replaces sync, sync/atomic, time, go and map iteration by the simulator's; interleavings inside one statement are not explored",
    "the Go compiler and runtime",
]

ENV = dict(os.environ)
ENV.update(HOME="/root", GOROOT=GOROOT, GOENV="off", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOTELEMETRY="off",
           GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
ENV["PATH"] = GOROOT + "/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
ENV.setdefault("GOCACHE", "/root/.cache/go-build")
for k in ("GORACE", "ZZ_TRACE", "GODEBUG", "GOGC", "GOMAXPROCS"):
    ENV.pop(k, None)


class Trouble(Exception):
    pass


def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


class Builder:
    """Builds the simulated quamina from the current working tree of the repository."""

    def __init__(self, dir):
        self.dir = dir
        self.bins = {}
        self.bridge = True
        self.info = {}

    def prepare(self, want):
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        rc, o = sh(["go", "build", "-o", os.path.join(self.dir, "instr"), "."], os.path.join(HERE, "instr"))
        if rc:
            raise Trouble("cannot build the instrumenter:\n" + o)
        for bridge in (True, False):
            err = self.build(want, bridge)
            if not err:
                self.bridge = bridge
                return
            first = err if bridge else first
        raise Trouble("cannot build the simulated quamina:\n" + first)

    def build(self, want, bridge):
        out = os.path.join(self.dir, "inst")
        if os.path.isdir(out):
            shutil.rmtree(out)
        cmd = [os.path.join(self.dir, "instr"), "-repo", REPO, "-out", out, "-sim", os.path.join(HERE, "sim")]
        if not bridge:
            cmd.append("-bridge=false")
        rc, o = sh(cmd, REPO)
        if rc:
            return "instrumenter: " + o

        def one(kind):
            b = os.path.join(self.dir, "zz" + kind)
            c = ["go", "build"] + (["-race"] if kind == "race" else []) + ["-overlay", os.path.join(out, "overlay.json"), "-o", b, "./internal/zzmain"]
            rc, o = sh(c, REPO)
            self.bins[kind] = b
            return o if rc else ""

        with ThreadPoolExecutor(2) as ex:
            errs = [e for e in ex.map(one, want) if e]
        try:
            self.info = json.load(open(os.path.join(out, "instr.json")))
        except OSError:
            pass
        return "\n".join(errs)


def clean_env(kind, racelog=None):
    e = dict(ENV)
    e["GOMAXPROCS"] = "2"
    e["GOMEMLIMIT"] = "3GiB"
    if kind == "race":
        e["ZZ_RACELOG"] = racelog
        e["GORACE"] = "log_path=%s halt_on_error=0 exitcode=0 history_size=3" % racelog
    return e


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_proc(cmd, kind, racelog, timeout, stderr):
    with open(stderr, "ab") as ef:
        p = subprocess.Popen(cmd, env=clean_env(kind, racelog), stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, preexec_fn=limits, start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return "timeout"


def read_lines(f):
    out = []
    if os.path.exists(f):
        for l in open(f, errors="replace"):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass  # cut off when the process died
    return out


class Check:
    def __init__(self, prop, tier, seed, budget=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(HERE, "build", "%s-%d" % (prop, os.getpid()))
        self.b = Builder(self.work)
        self.budget = budget or BUDGET[tier]
        self.notes = []
        self.unconfirmed = 0

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # ---- search

    def plan(self):
        plain, race = [], []
        for it in PLAN[self.prop].split(","):
            name, n = it.split(":")
            n = max(8, int(int(n) * SCALE[self.tier]))
            (race if name.startswith("race-") else plain).append("%s:%d" % (name, n))
        return ",".join(plain), ",".join(race)

    def shard(self, kind, scens, i, until):
        """Runs one shard to its end, starting again after runs that killed the process."""
        pre = os.path.join(self.work, "%s.%d" % (kind, i))
        res = {"v": [], "s": [], "d": [], "x": [], "crash": []}
        frm, part = 0, 0
        while True:
            left = until - time.time()
            if left < 1:
                break
            out = "%s.%d.jsonl" % (pre, part)
            part += 1
            prog = pre + ".prog"
            if os.path.exists(prog):
                os.remove(prog)
            cmd = [self.b.bins[kind], "batch", "-seed", str(self.seed), "-scens", scens, "-shard", str(i), "-shards", str(SHARDS), "-from", str(frm),
                   "-budget", "%.1f" % left, "-out", out, "-progress", prog, "-prop", self.prop, "-maxv", "2", "-det", "25" if kind == "plain" else "0"]
            rc = run_proc(cmd, kind, pre + ".race", left + 90, pre + ".err")
            lines = read_lines(out)
            for l in lines:
                res[l["t"]].append(l)
            if rc == 0:
                break
            try:
                pos, scen, idx = open(prog).read().split()
                pos, idx = int(pos), int(idx)
            except (OSError, ValueError):
                raise Trouble("a worker ended with %s before its first run: %s" % (rc, tail(pre + ".err")))
            if rc == 4:
                raise Trouble("a worker could not set up an instance: " + tail(pre + ".err"))
            if rc == 3:
                v = [l for l in lines if l["t"] == "v" and l.get("aborted")]
                if v and any(self.prop in x["props"] for x in v[-1].get("v") or []):
                    break
                res["v"] = [l for l in res["v"] if not l.get("aborted") or any(self.prop in x["props"] for x in l.get("v") or [])]
            else:
                res["crash"].append({"kind": kind, "scen": scen, "idx": idx, "pos": pos, "shard": i, "rc": rc, "err": tail(pre + ".err")})
                break
            frm = pos + 1
        for l in res["v"]:
            l["shard"], l["kind"], l["scens"] = i, kind, scens
        return res

    def search(self):
        plain, race = self.plan()
        jobs = []
        now = time.time()
        share = RACE_SHARE if plain and race else 1.0
        if plain:
            jobs.append(("plain", plain, now + self.budget * (1 - share * 0.5 if race else 1)))
        if race:
            jobs.append(("race", race, now + self.budget))
        all = {"v": [], "s": [], "d": [], "x": [], "crash": []}
        for kind, scens, until in jobs:
            with ThreadPoolExecutor(SHARDS) as ex:
                for r in ex.map(lambda i: self.shard(kind, scens, i, until), range(SHARDS)):
                    for k in all:
                        all[k] += r[k]
            n = sum(l["sum"]["runs"] for l in all["s"])
            self.log("%s: %d runs, %d candidates, %d crashes" % (kind, n, len(all["v"]), len(all["crash"])))
            if all["v"] or all["crash"]:
                break
        return all

    # ---- confirmation

    def exec_replay(self, rp, generated=False, timeout=120, trace=False):
        """Runs a replay in a fresh process and returns its violations, or None if it could not run."""
        d = os.path.join(self.work, "r%d" % time.time_ns())
        os.makedirs(d)
        try:
            f, o = os.path.join(d, "r.json"), os.path.join(d, "o.json")
            json.dump(rp, open(f, "w"))
            kind = rp.get("binary", "plain")
            if rp.get("batch"):
                a = rp["batch"]
                cmd = [self.b.bins[kind], "batch", "-seed", str(a["seed"]), "-scens", a["scens"], "-shard", str(a["shard"]), "-shards", str(a["shards"]),
                       "-progress", os.path.join(d, "p"), "-out", o, "-prop", rp["property"], "-maxv", "1"]
                timeout = 900
            else:
                cmd = [self.b.bins[kind], "replay", "-out", o] + (["-generated"] if generated else []) + [f]
            rc = run_proc(cmd, kind, os.path.join(d, "race"), timeout, os.path.join(d, "err"))
            lines = [l for l in read_lines(o) if l["t"] in ("r", "v")]
            if rc in (0, 3) and lines:
                return lines[-1].get("v") or [], lines[-1]
            if rc in (0, 4):
                return [], None
            return [{"props": [self.prop], "kind": "crash", "op": -1, "detail": "the process died (%s): %s" % (rc, tail(os.path.join(d, "err")))}], None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def same(self, vs, kind):
        for v in vs or []:
            if v["kind"] == kind and self.prop in v["props"]:
                return v
        return None

    def confirm(self, cand):
        """cand is a v line. Returns (replay, violation) or None."""
        mine = [x for x in cand.get("v") or [] if self.prop in x["props"]]
        if not mine:
            return None
        rp = cand["replay"]
        rp["property"] = self.prop
        for generated in (False, True):
            vs, line = self.exec_replay(rp, generated)
            for m in mine:
                v = self.same(vs, m["kind"])
                if v:
                    if generated and line and line.get("replay"):
                        rp["schedule"] = line["replay"].get("schedule")
                    rp["violation"] = v
                    if generated:
                        vs, _ = self.exec_replay(rp)
                        if not self.same(vs, m["kind"]):
                            continue
                    return rp, v
        # it may depend on what the runs before it in the same process did
        b = {"property": self.prop, "binary": cand["kind"], "batch": {"seed": self.seed, "scens": cand["scens"], "shard": cand["shard"], "shards": SHARDS}}
        vs, _ = self.exec_replay(b)
        for m in mine:
            v = self.same(vs, m["kind"])
            if v:
                b["violation"] = v
                b["note"] = "reproduced by the runs before it together with the failing one"
                return b, v
        return None

    def confirm_crash(self, c):
        d = os.path.join(self.work, "gen.json")
        p = subprocess.run([self.b.bins[c["kind"]], "gen", c["scen"], str(seed_of(self.b.bins[c["kind"]], self.seed, c["scen"], c["idx"]))], env=clean_env("plain"), stdout=subprocess.PIPE)
        prog = json.loads(p.stdout)
        rp = {"property": self.prop, "binary": c["kind"], "violation": {"props": [self.prop], "kind": "crash", "op": -1, "detail": c["err"]}, "program": prog, "schedule": None, "generated": True}
        vs, _ = self.exec_replay(rp, generated=True)
        v = self.same(vs, "crash")
        if v:
            rp["violation"] = v
            return rp, v
        return None

    # ---- minimisation

    def minimise(self, rp, v, seconds):
        if rp.get("batch") or rp.get("generated"):
            return rp, v
        until = time.time() + seconds
        kind = v["kind"]
        tries = [0]

        def test(cands):
            """First of the candidates that still fails."""
            if time.time() > until:
                return None
            tries[0] += len(cands)
            with ThreadPoolExecutor(SHARDS) as ex:
                rs = list(ex.map(lambda c: self.same(self.exec_replay(c, timeout=30)[0], kind), cands))
            for c, r in zip(cands, rs):
                if r:
                    c["violation"] = r
                    return c
            return None

        def clone(x):
            return json.loads(json.dumps(x))

        def ddmin(rp, get, put):
            n = 2
            while time.time() < until:
                items = get(rp)
                if not items:
                    break
                size = max(1, (len(items) + n - 1) // n)
                cands = []
                for i in range(0, len(items), size):
                    c = clone(rp)
                    put(c, items[:i] + items[i + size:])
                    cands.append(c)
                hit = None
                for i in range(0, len(cands), SHARDS):
                    hit = test(cands[i:i + SHARDS])
                    if hit or time.time() > until:
                        break
                if hit:
                    rp = hit
                    n = max(2, n - 1)
                elif size == 1:
                    break
                else:
                    n = min(len(items), n * 2)
            return rp

        def get_ops(rp):
            p = rp["program"]
            l = [("setup", 0, i) for i in range(len(p["setup"] or []))]
            for t, ops in enumerate(p["conc"] or []):
                l += [("conc", t, i) for i in range(len(ops or []))]
            return l + [("final", 0, i) for i in range(len(p["final"] or []))]

        def put_ops(c, keep):
            k, p = set(keep), c["program"]
            p["setup"] = [o for i, o in enumerate(p["setup"] or []) if ("setup", 0, i) in k]
            p["conc"] = [[o for i, o in enumerate(ops or []) if ("conc", t, i) in k] for t, ops in enumerate(p["conc"] or [])]
            p["final"] = [o for i, o in enumerate(p["final"] or []) if ("final", 0, i) in k]

        def put_sched(c, l):
            c["schedule"] = l

        c = clone(rp)
        c["schedule"] = []
        rp = test([c]) or rp
        for flag in ("probe", "fresh", "twin", "purge", "jump", "evict"):
            if rp["program"].get(flag):
                c = clone(rp)
                c["program"][flag] = False
                rp = test([c]) or rp
        for _ in range(2):
            rp = ddmin(rp, get_ops, put_ops)
            rp = ddmin(rp, lambda r: r.get("schedule") or [], put_sched)
        # patterns and events that nothing uses any more
        c = clone(rp)
        p = c["program"]
        used = {o.get("p", 0) for l in [p["setup"] or [], p["final"] or []] + [x or [] for x in p["conc"] or []] for o in l if o["kind"] == "add"}
        if not p.get("purge"):
            for i, q in enumerate(p["patterns"]):
                if i not in used:
                    p["patterns"][i] = {"fields": [], "text": "{}", "bad": True}
            rp = test([c]) or rp
        self.log("minimised in %d replays" % tries[0])
        return rp, rp["violation"]

    # ---- the whole

    def known(self):
        l = []
        f = os.path.join(HERE, "known_findings.json")
        if os.path.exists(f):
            for e in json.load(open(f)).get("findings", []):
                if e["property"] == self.prop:
                    l.append(e)
        return l

    def run(self):
        if self.prop not in PLAN:
            raise Trouble("unknown property " + self.prop)
        plain, race = self.plan()
        want = (["plain"] if plain else []) + (["race"] if race else [])
        self.b.prepare(want)
        self.log("built (bridge %s)" % self.b.bridge)
        known = self.known()
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        res = self.search()
        found = None
        pool = sorted(res["v"], key=lambda l: (len(json.dumps(l["replay"]["program"])), l["scen"], l["idx"]))
        for cand in pool:
            if any(matches_known(k, cand) for k in known):
                continue
            found = self.confirm(cand)
            if found:
                break
            self.unconfirmed += 1
        if not found:
            for c in res["crash"]:
                if c["rc"] == "timeout":
                    continue
                found = self.confirm_crash(c)
                if found:
                    break
                self.unconfirmed += 1
        path = None
        if found:
            rp, v = self.minimise(*found, seconds=60 if self.tier == "quick" else 300)
            vs, line = self.exec_replay(rp, generated=bool(rp.get("generated")))
            fin = self.same(vs, v["kind"])
            if not fin:
                rp, v = found
            if line and line.get("trace"):
                rp["trace"] = line["trace"]
            rp["seed"] = (rp.get("program") or {}).get("seed")
            path = self.save(rp)
        self.evidence(res, 1 if found else 0)
        if found:
            print("%s: %s" % (v["kind"], v["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.unconfirmed or res["crash"]:
            raise Trouble("%d candidates could not be reproduced, crashes: %s" % (self.unconfirmed, [(c["scen"], c["idx"], c["rc"], c["err"][-300:]) for c in res["crash"]]))
        if res["d"]:
            # says nothing about the property; reported in the evidence file
            self.log("note: %d runs were not repeatable: %s" % (len(res["d"]), [(d["scen"], d["seed"], d["hash"]) for d in res["d"][:3]]))
        if sum(l["sum"]["runs"] for l in res["s"]) == 0:
            raise Trouble("nothing was run")
        return 0

    def save(self, rp):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        n = 0
        while os.path.exists(os.path.join(d, "%s-%d.json" % (self.prop, n))):
            n += 1
        f = os.path.join(d, "%s-%d.json" % (self.prop, n))
        json.dump(rp, open(f, "w"), indent=1)
        return f

    def evidence(self, res, nviol):
        tot = {"runs": 0, "steps": 0, "sim_nanos": 0, "nontriv": 0, "det": 0, "det_bad": 0}
        maps = {k: {} for k in ("ops", "faults", "seen", "scen", "strat", "counters")}
        hist, sched, reached = set(), set(), set()
        cpu = 0
        for l in res["s"]:
            s = l["sum"]
            for k in tot:
                tot[k] += s.get(k, 0)
            for k in maps:
                for a, n in (s.get(k) or {}).items():
                    maps[k][a] = maps[k].get(a, 0) + n
            hist.update(s.get("hist") or [])
            sched.update(s.get("sched") or [])
            reached.update(s.get("reached") or [])
            cpu += s["wall_ms"]
        wall = time.time() - self.t0
        c = maps["counters"]
        faults = dict(maps["faults"])
        faults.update({"preemption": c.get("Preemptions", 0), "stalled_caller": c.get("Stalls", 0), "caller_stopped_for_good": c.get("Freezes", 0),
                       "pool_eviction": c.get("PoolEvict", 0), "clock_jump": c.get("ClockJumps", 0), "failed_AddPattern": maps["seen"].get("failed-add", 0)})
        samples = [{"scenario": x["scen"], "seed": x["seed"], "history": x.get("trace")} for x in res["x"][:2]]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": tot["runs"],
                "distinct_nontrivial": len(hist),
                "rule": "One evaluation is one simulated run: a seed decides the client programs (patterns, events, calls), the interleaving and the faults. "
                        "A run is non-trivial if it put the property to the test (%s); runs are distinct if their recorded histories (calls, their steps and their results) differ." % RULES.get(self.prop, ""),
                "samples": samples or [{"note": "no non-trivial run in shard 0"}],
                "nontrivial_runs": tot["nontriv"],
                "runs_per_scenario": maps["scen"],
                "scheduling_strategies": maps["strat"],
                "scheduling_steps": tot["steps"],
                "distinct_interleavings": len(sched),
                "interleaving_measure": "hash of the sequence of (task, operation, site, hit count, next task) at which the running task changed; runs with concurrent tasks only",
                "code_sites_reached": "%d of %s statement-level yield points in the code of package quamina, prettyprinter and other parts that production code never calls included" % (len(reached), self.b.info.get("sites", "?")),
                "context_switches": c.get("Switches", 0),
                "lock_waits": c.get("Blocks", 0),
                "simulated_seconds": tot["sim_nanos"] / 1e9,
                "runs_per_hour": round(tot["runs"] / max(wall, 1) * 3600),
                "runs_per_cpu_hour": round(tot["runs"] / max(cpu / 1000, 0.001) * 3600),
                "calls": maps["ops"],
                "faults_injected": faults,
                "oracle_evaluations": maps["seen"],
                "reruns_for_determinism": tot["det"],
                "reruns_that_differed": tot["det_bad"],
                "instrumented": {k: self.b.info.get(k) for k in ("files", "sites", "pkgs") if k in self.b.info},
                "real_code": "all non-test code of package quamina, instrumented at statement level from the current tree" + ("" if self.b.bridge else " (without the bridge: no storage faults and no custom rebuild policy)"),
                "stubbed": "callers (generated), user-supplied Flattener and LivePatternsState in the scenarios flat and store, sync/atomic/time/map order/go statements (simulator)",
            },
            "assumptions": TRUSTED,
            "wall_s": round(wall, 2),
            "violations": nviol,
        }
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (self.prop, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(d, self.prop + ".json"))

    def cleanup(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)


RULES = {
    "C01": "some call had to report a pattern", "C02": "there were patterns and calls to match", "C03": "callers ran concurrently and some call had to report a pattern",
    "C04": "results were compared with new instances holding the same live patterns", "C05": "an AddPattern failed and some call had to report a pattern",
    "C06": "patterns were deleted and some call had to report another", "C07": "an X was added again after a deletion of it", "C08": "patterns were deleted and some call had to report another",
    "C09": "patterns were deleted and some call had to report another", "C10": "a purge was waited for and seen", "C11": "there were several instances and some call had to report a pattern",
    "C12": "callers ran concurrently, with the race detector on", "C13": "returned results were kept and read again", "C14": "a damaged event or a failing flattener was met, with good events besides",
    "C15": "callers ran concurrently and matched", "C16": "callers ran concurrently and some call had to report a pattern", "C17": "a storage failure was injected and events were matched",
    "C18": "equal questions with no add or delete between, or statistics, were compared", "C19": "user-supplied flatteners were used to match",
}


def tail(f, n=1500):
    try:
        b = open(f, "rb").read()
    except OSError:
        return ""
    s = b.decode("utf8", "replace")
    for mark in ("fatal error:", "panic:", "runtime: "):
        i = s.find(mark)
        if i >= 0:
            return s[i:i + n]
    return s[-n:]


def seed_of(binary, master, scen, i):
    p = subprocess.run([binary, "seedof", str(master), scen, str(i)], env=clean_env("plain"), stdout=subprocess.PIPE, text=True)
    return int(p.stdout)


def matches_known(k, cand):
    """A finding is identified by what exactly fails, so that others are still reported."""
    return all(k["kind"] == v["kind"] and all(s in v["detail"] for s in k["detail_contains"]) for v in cand["v"] if k["property"] in v["props"])


def replay(path):
    rp = json.load(open(path))
    c = Check(rp["property"], "quick", 1)
    try:
        c.b.prepare([rp.get("binary", "plain")])
        vs, line = c.exec_replay(rp, generated=bool(rp.get("generated")))
        for v in vs or []:
            print("%s %s: %s" % (",".join(v["props"]), v["kind"], v["detail"]))
        for l in (line or {}).get("trace") or []:
            print("   ", l)
        v = c.same(vs, rp["violation"]["kind"])
        if v:
            print("VIOLATION property=%s replay=%s" % (rp["property"], path))
            return 1
        print("not reproduced on this tree")
        return 0
    finally:
        c.cleanup()


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "replay":
        return replay(a[1])
    prop = a[0]
    opt = {a[i]: a[i + 1] for i in range(1, len(a) - 1, 2)}
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opt.get("--seed") or os.environ.get("VERIF_SEED") or 1)
    c = Check(prop, tier, seed, float(opt["--budget"]) if "--budget" in opt else None)
    try:
        return c.run()
    finally:
        c.cleanup()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Trouble as e:
        print("TROUBLE:", e, file=sys.stderr)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("TROUBLE:", e, file=sys.stderr)
        sys.exit(2)
