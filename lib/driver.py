"""Builds the harness over /repo's working tree, runs it in several
processes, judges how they end and writes the evidence file."""
import argparse
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.23.12"

# What runs for a property.  A stage is one build of the harness and one way
# to run it:
#   flags   extra flags of go build
#   env     extra environment of the processes
#   scale   factor for the number of cases of the quick tier
#   tscale  factor per round of the thorough tier
#   procs   number of processes
PLAIN = dict(name="plain", flags=[], env={}, procs=8)


def stage(name, **kw):
    s = dict(PLAIN)
    s["name"] = name
    s.update(kw)
    return s


RACE_ENV = {"GORACE": "halt_on_error=1 exitcode=66 history_size=3"}
RACE = dict(env=RACE_ENV, flags=["-race"])
STAGES = {
    "C01": [stage("plain", scale=100)],
    "C02": [stage("plain", scale=50)],
    "C03": [stage("plain", scale=30)],
    "C04": [stage("plain", scale=30)],
    "C05": [stage("plain", scale=10), stage("race", scale=4, **RACE)],
    "C06": [stage("plain", scale=8), stage("gc", scale=0.8, env={"GODEBUG": "clobberfree=1", "GOGC": "20"}),
            stage("asan", scale=3, flags=["-asan"])],
    "C07": [stage("plain", scale=20)],
    "C08": [stage("race", scale=3, procs=3, maxprocs=8, **RACE), stage("plain", scale=6, procs=4, maxprocs=8)],
    "C09": [stage("plain", scale=7)],
    "C10": [stage("plain", scale=8, maxprocs=4), stage("race", scale=1.5, procs=4, maxprocs=4, **RACE)],
    "C11": [stage("plain", scale=10)],
    "C12": [stage("plain", scale=20)],
    "C13": [stage("plain", scale=20)],
    "C14": [stage("plain", scale=60)],
    "C15": [stage("plain", scale=40)],
    "C16": [stage("plain", scale=60)],
    "C17": [stage("plain", scale=40)],
    "C18": [stage("plain", scale=12)],
    "C19": [stage("plain", scale=20)],
    "C20": [stage("plain", scale=20)],
    "C21": [stage("plain", scale=40)],
    "C22": [stage("plain", scale=30)],
    "C24": [stage("plain", scale=50)],
}

# Wall seconds after which the quick tier starts no further cases.
SOFT = 400

ASSUME = [
    "encoding/json, time, strconv and unicode/utf8 of Go 1.23.12 are right where the oracles use them",
    "the property is judged on the executions this run made, not on all",
]


def log(*a):
    print(*a, flush=True)


class Inconclusive(Exception):
    pass


def go_env(work):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO"))}
    cache = "/root/.cache/go-build"
    try:
        os.makedirs(cache, exist_ok=True)
        probe = os.path.join(cache, "verif-probe-%d" % os.getpid())
        with open(probe, "w"):
            pass
        os.unlink(probe)
    except OSError:
        cache = os.path.join(work, "gocache")
    env.update(
        HOME="/root", GOROOT=GOROOT,
        PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", GOENV="off",
        GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=cache, CGO_ENABLED="1", TZ="UTC",
        GOTMPDIR=work)
    return env


class Build:
    """One generated set of types and the binaries built with it."""

    def __init__(self, work, env, typeseed):
        self.work, self.env, self.typeseed = work, env, typeseed
        self.dir = os.path.join(work, "g%d" % typeseed)
        os.makedirs(self.dir, exist_ok=True)
        subprocess.run([sys.executable, os.path.join(VERIF, "gen", "gentypes.py"), str(typeseed), self.dir, REPO], check=True)
        self.bins = {}

    def binary(self, flags):
        key = " ".join(flags)
        if key in self.bins:
            return self.bins[key]
        out = os.path.join(self.dir, "h%d" % len(self.bins))
        errs = []
        # The access to the package's internals is optional: when the code
        # under test was restructured so that it no longer compiles, the
        # harness does without.
        for level, tags in (("full", ["verif"]), ("hook", ["verif"]), ("stub", ["verif"]), ("stub", [])):
            repl = {}
            for f in glob.glob(os.path.join(VERIF, "harness", "*.go")) + glob.glob(os.path.join(self.dir, "*.go")):
                repl[os.path.join(REPO, "zzverif", os.path.basename(f).replace("__", "/"))] = f
            inter = os.path.join(VERIF, "internals")
            if level == "full":
                repl[os.path.join(REPO, "zzverif", "int.go")] = os.path.join(inter, "int_full.go")
                repl[os.path.join(REPO, "zz_verif_export.go")] = os.path.join(inter, "export.go")
            elif level == "hook":
                repl[os.path.join(REPO, "zzverif", "int.go")] = os.path.join(inter, "int_hook.go")
            ov = os.path.join(self.dir, "overlay.json")
            with open(ov, "w") as f:
                json.dump({"Replace": repl}, f)
            cmd = ["go", "build"] + flags + (["-tags", ",".join(tags)] if tags else []) + ["-overlay", ov, "-o", out, "./zzverif"]
            p = subprocess.run(cmd, cwd=REPO, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                self.level = level if tags else level + "-untagged"
                self.bins[key] = (out, self.level)
                return self.bins[key]
            errs.append(p.stdout[-2000:])
        raise Inconclusive("the harness does not build:\n" + "\n--\n".join(errs[:1] + errs[-1:]))


# How a process that did not end with a report is judged.
CRASH = [
    (r"WARNING: DATA RACE", "data-race"),
    (r"HARNESS-STOP: .*every goroutine is blocked", "deadlock"),
    (r"fatal error: all goroutines are asleep", "deadlock"),
    (r"HARNESS-STOP: .*CPU time", "does-not-end"),
    (r"HARNESS-STOP: .*MB in use", "memory-exhausted"),
    (r"fatal error: checkptr", "checkptr"),
    (r"AddressSanitizer", "asan"),
    (r"goroutine stack exceeds|stack overflow", "stack-overflow"),
    (r"concurrent map", "concurrent-map"),
    (r"unexpected fault address", "fault"),
    (r"SIGSEGV|SIGBUS", "fault"),
    (r"found bad pointer|runtime: bad pointer|found pointer to free object|checkmark|invalid pointer", "bad-pointer"),
    (r"fatal error: out of memory|cannot allocate memory", "memory-exhausted"),
    (r"fatal error: ", "fatal"),
    (r"panic: ", "panic"),
]


def crash_key(err):
    for rx, key in CRASH:
        if re.search(rx, err):
            return key
    return "crash"


class Proc:
    def __init__(self, binary, args, env, base):
        self.base = base
        self.out, self.crumb, self.hashes = base + ".json", base + ".crumb", base + ".hash"
        self.errfile = open(base + ".err", "w+b")
        cmd = [binary] + args + ["-out", self.out, "-crumb", self.crumb, "-hashes", self.hashes]
        self.cmd = cmd
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=self.errfile, env=env, cwd=os.path.dirname(base), start_new_session=True)

    def wait(self, deadline):
        left = deadline - time.time()
        try:
            self.rc = self.p.wait(timeout=max(1, left))
            self.timeout = False
        except subprocess.TimeoutExpired:
            self.kill()
            self.rc = self.p.wait()
            self.timeout = True
        return self.rc

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def stderr(self):
        self.errfile.seek(0, 2)
        n = self.errfile.tell()
        self.errfile.seek(0)
        b = self.errfile.read(20000)
        if n > 40000:
            self.errfile.seek(n - 20000)
            b += b"\n...\n" + self.errfile.read()
        return b.decode("utf-8", "replace")

    def report(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def crumb_text(self):
        try:
            with open(self.crumb, errors="replace") as f:
                return f.read()
        except OSError:
            return ""


class Run:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.env = go_env(work)
        self.viols = []
        self.hashes = set()
        self.counters = {}
        self.evals = self.cases = 0
        self.samples = []
        self.rule = ""
        self.levels = set()
        self.stages_run = []
        self.n = 0
        self.noise = []

    def absorb(self, st, rep, proc):
        self.cases += rep["cases"]
        self.evals += rep["evals"]
        self.rule = rep["rule"] or self.rule
        for k, v in (rep["counters"] or {}).items():
            if k.startswith("max_"):
                self.counters[k] = max(v, self.counters.get(k, 0))
            else:
                self.counters[k] = self.counters.get(k, 0) + v
        for s in rep["samples"] or []:
            if len(self.samples) < 4:
                self.samples.append(s)
        try:
            with open(proc.hashes, "rb") as f:
                b = f.read()
            for i in range(0, len(b) - 7, 8):
                self.hashes.add(b[i:i + 8])
        except OSError:
            pass

    def violation(self, key, what, detail, ctx):
        self.viols.append(dict(ctx, property=self.prop, key=key, what=what, detail=detail))

    def stage(self, build, st, seed, scale, deadline, soft=0):
        binary, level = build.binary(st["flags"])
        self.levels.add(level)
        procs = st["procs"]
        env = dict(self.env)
        env.update(st["env"])
        env.setdefault("GOMAXPROCS", str(st.get("maxprocs", 2)))
        running = []
        t0 = time.time()

        def args(shard, extra=()):
            return ["-prop", self.prop, "-seed", str(seed), "-tier", "quick", "-shard", str(shard), "-shards", str(procs),
                    "-scale", repr(scale), "-stage", st["name"], "-soft", repr(soft)] + list(extra)
        for sh in range(procs):
            self.n += 1
            running.append((sh, Proc(binary, args(sh), env, os.path.join(self.work, "p%d" % self.n))))
        try:
            for sh, p in running:
                p.wait(deadline)
        except BaseException:
            for _, p in running:
                p.kill()
            raise
        late = 0
        for sh, p in running:
            ctx = dict(stage=st["name"], seed=seed, typeseed=build.typeseed, shard=sh, shards=procs, scale=scale, tier="quick", level=level)
            rep = p.report()
            if p.timeout:
                late += 1
                continue
            if p.rc in (0, 1) and rep and rep.get("done"):
                self.absorb(st, rep, p)
                for v in rep["violations"] or []:
                    self.violation(v["key"], v["what"], v["detail"], dict(ctx, case=v["case"]))
                continue
            # The process ended in another way: run it once more, alone.
            err = p.stderr()
            crumb = p.crumb_text()
            if p.rc == 3:
                late += 1
                continue
            self.n += 1
            q = Proc(binary, args(sh), env, os.path.join(self.work, "p%d" % self.n))
            q.wait(max(deadline, time.time() + 120))
            if q.timeout:
                late += 1
                continue
            rep2 = q.report()
            again = not (q.rc in (0, 1) and rep2 and rep2.get("done"))
            if again:
                err2, crumb2 = q.stderr(), q.crumb_text()
            else:
                err2, crumb2 = err, crumb
                self.absorb(st, rep2, q)
                for v in rep2["violations"] or []:
                    self.violation(v["key"], v["what"], v["detail"], dict(ctx, case=v["case"]))
            if p.rc == -9 and not again:
                self.noise.append("a process was killed from outside and passed when run again")
                continue
            if p.rc == -9 and q.rc == -9:
                key = "killed"
            else:
                key = crash_key(err2 if err2.strip() else err)
            text = err2 if err2.strip() else err
            m = re.match(r"\s*(\d+)", crumb2)
            case = int(m.group(1)) if m else -1
            self.violation(key, "the process ended with status %s%s; current case: %s" % (q.rc if again else p.rc, "" if again else " (not when run again)", crumb2[12:1500]),
                           text[:8000], dict(ctx, case=case))
        self.stages_run.append(dict(stage=st["name"], build=" ".join(st["flags"]) or "plain", typeseed=build.typeseed, seed=seed, processes=procs,
                                    wall_s=round(time.time() - t0, 1), internals=level))
        return late


def load_known():
    known = []
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) match=/(.*)/ (.*)", line.strip())
                if m:
                    known.append(dict(property=m.group(1), key=m.group(2), rx=re.compile(m.group(3), re.S), text=m.group(4)))
    except OSError:
        pass
    return known


def write_evidence(run, t0, tier, seed, nviol, extra=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(evaluations=run.evals, distinct_nontrivial=len(run.hashes), rule=run.rule, samples=run.samples or ["none"],
               cases=run.cases, observed=run.counters, stages=run.stages_run)
    if run.noise:
        cov["noise"] = run.noise
    if extra:
        cov.update(extra)
    ev = dict(property=run.prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=nviol)
    path = os.path.join(VERIF, "evidence", run.prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def finish(run, t0, tier, seed, replaying=False):
    known = load_known()
    new, old = [], []
    for v in run.viols:
        hit = None
        for k in known:
            if k["property"] == run.prop and k["key"] == v["key"] and k["rx"].search(v["what"] + "\n" + v["detail"]):
                hit = k
        (old if hit else new).append((v, hit))
    for v, k in old:
        log("KNOWN-FINDING: property=%s %s" % (run.prop, k["text"]))
    if not replaying:
        write_evidence(run, t0, tier, seed, len(new))
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, (v, _) in enumerate(new[:5]):
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (run.prop, i))
            if not replaying:
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
            log("%s: %s" % (v["key"], v["what"][:1200]))
            log("VIOLATION property=%s replay=%s" % (run.prop, path))
        return 1
    log("%s %s: held on %d evaluations, %d distinct, %.1f s" % (run.prop, tier, run.evals, len(run.hashes), time.time() - t0))
    return 0


def do_replay(run, path):
    with open(path) as f:
        v = json.load(f)
    if v.get("special"):
        import benchparse
        benchparse.check(run, v["seed"], v["n"], only=v["case"])
        return
    st = [s for s in STAGES[run.prop] if s["name"] == v["stage"]][0]
    build = Build(run.work, run.env, v["typeseed"])
    binary, _ = build.binary(st["flags"])
    env = dict(run.env)
    env.update(st["env"])
    env.setdefault("GOMAXPROCS", str(st.get("maxprocs", 2)))
    base = ["-prop", run.prop, "-seed", str(v["seed"]), "-tier", v["tier"], "-scale", repr(v["scale"]), "-stage", st["name"]]
    # First the case alone, then everything the process did.
    for args in (["-only", str(v["case"])], ["-shard", str(v["shard"]), "-shards", str(v["shards"])]):
        if args[0] == "-only" and v["case"] < 0:
            continue
        p = Proc(binary, base + args, env, os.path.join(run.work, "r" + args[0]))
        p.wait(time.time() + 600)
        rep = p.report()
        if rep and rep["violations"]:
            for x in rep["violations"]:
                run.violation(x["key"], x["what"], x["detail"], dict(case=x["case"]))
            log("replayed with", " ".join(args))
        elif p.rc not in (0, 1):
            err = p.stderr()
            run.violation(crash_key(err), "the process ended with status %d" % p.rc, err[:8000], dict(case=v["case"]))
            log(err[:4000])
        for x in run.viols:
            log(x["detail"][:4000])
        if run.viols:
            return


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float, default=float(os.environ.get("VERIF_BUDGET", "780")), help="wall seconds of the thorough tier")
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--stage")
    a = ap.parse_args()
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.prop, dir="/tmp")

    def term(*_):
        raise SystemExit(2)
    signal.signal(signal.SIGTERM, term)
    try:
        run = Run(a.prop, a.tier, seed, work)
        if a.replay:
            do_replay(run, a.replay)
            return finish(run, t0, a.tier, seed, True)
        if a.prop == "C23":
            import benchparse
            benchparse.run_tier(run, a.tier, seed, a.scale, a.budget)
            return finish(run, t0, a.tier, seed)
        stages = [s for s in STAGES[a.prop] if not a.stage or a.stage == s["name"]]
        late = 0
        if a.tier == "quick":
            build = Build(work, run.env, seed % 1000003)
            for i, st in enumerate(stages):
                build.binary(st["flags"])
                soft = max(30, (t0 + SOFT - time.time()) / (len(stages) - i))
                late += run.stage(build, st, seed, st["scale"] * a.scale, t0 + 800, soft)
                if len(run.viols) >= 3:
                    break
        else:
            rnd = 0
            while True:
                build = Build(work, run.env, (seed * 1000 + rnd) % 1000003)
                took = time.time()
                for st in stages:
                    late += run.stage(build, st, seed * 100000 + rnd, st["scale"] * st.get("tscale", 3) * a.scale, t0 + a.budget + 90)
                    if run.viols:
                        break
                took = time.time() - took
                shutil.rmtree(build.dir, ignore_errors=True)
                for f in glob.glob(os.path.join(work, "p*")):
                    os.unlink(f)
                rnd += 1
                if run.viols or time.time() - t0 + took > a.budget:
                    break
            run.counters["rounds"] = rnd
        rc = finish(run, t0, a.tier, seed)
        if rc == 0 and late:
            if a.tier == "thorough" and run.evals:
                log("note: %d processes were stopped at the end of the time budget" % late)
                return 0
            raise Inconclusive("%d processes did not end in time" % late)
        return rc
    except Inconclusive as e:
        log("INCONCLUSIVE: %s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
