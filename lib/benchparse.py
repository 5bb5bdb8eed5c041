"""C23: runs the benchparse tool on generated CSV files and compares its
output file with the tables computed here."""
import concurrent.futures
import hashlib
import json
import os
import random
import subprocess
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
UNITS = ["ns/op", "MB/s", "B/op", "allocs/op"]
TITLE = {"ns/op": "time/op", "MB/s": "speed", "B/op": "alloc/op", "allocs/op": "allocs/op"}
FLAG = {"MB/s": "-omit-bandwidth", "B/op": "-omit-mem", "allocs/op": "-omit-allocs"}
RULE = ("random benchstat CSV files (1-6 and now and then up to 1100 benchmarks, 0-40 and up to 4200 runs, long names, any subset and order of the four sections, runs missing from sections, "
        "runs without a value, rows with more columns, names with dashes, slashes and non-ASCII text, every flag combination, an older and longer output file in place) and malformed ones; "
        "non-trivial: at least one statistic, or malformed; distinct by flags and contents")

WORDS = ["standard", "jsoniter", "segmentj", "jettison", "go-json", "a", "b", "x-1", "with space", "é", "世界", "map/sorted", "map/unsorted",
         "sub/a-b/c", "-", "--", "9", "1-2-3", "<tag>", "quote\"d", "back\\slash", "tab\tbed", "UPPER", "lower_case", "(paren)", "#01"]
BENCH = ["Simple", "Complex", "CodeMarshal", "Map", "SyncMap", "Interface", "IsEmpty", "Über", "a-b", "X-8", "T1", "Q<q>", "Deep_1"]


class Case:
    pass


def number(r):
    k = r.randrange(12)
    if k == 0:
        return "0"
    if k == 1:
        return "0.00"
    if k == 2:
        return "%d" % r.randrange(1 << 62)
    if k == 3:
        return "%.5E" % (r.random() * 10 ** r.randrange(-12, 20))
    if k == 4:
        return "%.5e" % (r.random() * 10 ** r.randrange(-300, 300))
    if k == 5:
        return repr(r.random())
    if k == 6:
        return "-%d" % r.randrange(1000)
    if k == 7:
        return "%.2f" % (r.random() * 1e6)
    return "%d" % r.randrange(1, 5000)


def build_case(seed, i):
    r = random.Random("%d/%d" % (seed, i))
    c = Case()
    c.files = {}
    c.want = None
    c.stat_rows = {}  # the runs with a statistic, of an enabled unit or not
    omit = [u for u in FLAG if r.random() < .35]
    c.omit = omit
    c.flags = []
    for u in r.sample(omit, len(omit)):
        c.flags.append(FLAG[u] + r.choice(["", "", "=true", "=1"]))
    for u in FLAG:
        if u not in omit and r.random() < .1:
            c.flags.append(FLAG[u] + "=false")
    secs = list(UNITS)
    k = r.randrange(10)
    if k < 3:
        secs = [u for u in UNITS if r.random() < .7]
    elif k == 3:
        r.shuffle(secs)
    elif k == 4:
        secs = [u for u in UNITS if r.random() < .7]
        r.shuffle(secs)
    runs = []
    big = r.random() < .03
    benches = r.sample(BENCH, r.randrange(1, 7))
    wide = r.random() < .02
    if wide:  # many tables
        benches += ["%s%d" % (r.choice(BENCH), j) for j in range(r.choice([60, 128, 260, 520, 1100]))]
    for b in benches:
        names = set()
        for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5, 8, 1500 if big else 2 if wide else 40] if not big or b != benches[0] else [300, 1100, 4200])):
            n = r.choice(WORDS)
            if r.random() < .002:
                n += "n" * r.choice([250, 256, 1000, 4090, 10000, 60000])
            if r.random() < .4 or big:
                n += r.choice(["-", "_", "/", ""]) + str(r.randrange(100000 if big else 50))
            names.add(n)
        names = sorted(names)
        r.shuffle(names)
        runs += [(b, n, r.choice(["8", "1", "16", "128"])) for n in names]
    if r.random() < .3:
        r.shuffle(runs)  # benchmarks interleaved
    missing = r.random() < .4
    bare = r.random() < .15  # names without the number of processors
    valueless = r.choice([0, 0, 0, 0, 0, .05, .5])
    extra = r.choice(["", "", "", "", ",3%", ",+0%,x"])
    lines = []
    want = {}
    seen = set()
    stats = 0
    for si, u in enumerate(secs):
        if si:
            lines += [""] * r.choice([1, 1, 1, 2, 3])
        lines.append("name,%s (%s)" % (TITLE[u], u))
        rows = list(runs)
        if missing:
            rows = [x for x in rows if r.random() < .7]
        if r.random() < .1:
            r.shuffle(rows)
        for b, n, p in rows:
            v = number(r)
            t = want.setdefault(b, {})
            full = "%s/%s-%s" % (b, n, p)
            if bare and "-" not in n:
                full = "%s/%s" % (b, n)
            if r.random() < valueless:
                t.setdefault(n, [])
                lines.append(full)  # benchstat has no value for this run
                continue
            lines.append("%s,%s%s" % (full, v, extra))
            row = t.setdefault(n, [])
            c.stat_rows.setdefault(b, set()).add(n)
            if u not in omit:
                row.append(float(v))
            stats += 1
    c.stats = stats
    text = "\n".join(lines) + ("\n" * r.choice([0, 1, 1, 1, 2]) if lines else "")
    c.kind = "well-formed"
    if r.random() < .2:
        c.kind = r.choice(["no-slash", "bad-float", "header-1", "header-3", "header-no-unit", "no-input", "no-outdir", "bad-float-late", "bad-flag", "empty-float", "long-line", "directory", "full-disk", "no-name"])
        rows = [j for j, l in enumerate(lines) if "," in l and not l.startswith("name,")]
        hdrs = [j for j, l in enumerate(lines) if l.startswith("name,") and not l.startswith("name,/")]
        if c.kind in ("no-slash", "bad-float", "bad-float-late", "empty-float", "no-name") and not rows or c.kind.startswith("header") and not hdrs:
            c.kind = "no-input"
        if c.kind == "no-slash":
            j = r.choice(rows)
            lines[j] = lines[j].replace("/", "_")
        elif c.kind == "bad-float":
            j = r.choice(rows)
            lines[j] = lines[j].split(",", 1)[0] + "," + r.choice(["x", "1.2.3", "12x", "1,000".replace(",", "_ "), "--1", "1e", " 1", "ns"])
        elif c.kind == "bad-float-late":
            lines[rows[-1]] = lines[rows[-1]].split(",", 1)[0] + ",0x"
        elif c.kind == "empty-float":
            j = r.choice(rows)
            lines[j] = lines[j].split(",", 1)[0] + ","
        elif c.kind == "no-name":
            j = r.choice(rows)
            lines[j] = "," + lines[j].split(",", 1)[-1]
        elif c.kind == "long-line":  # longer than what a line reader may accept
            lines += ["", "name,time/op (ns/op)", "Long/%s-8,1" % ("x" * r.choice([65536, 70000, 200000, 3000000]))]
        elif c.kind == "header-1":
            lines[r.choice(hdrs)] = "name"
        elif c.kind == "header-3":
            j = r.choice(hdrs)
            lines[j] += ",delta"
        elif c.kind == "header-no-unit":
            lines[r.choice(hdrs)] = "name,time"
        if c.kind == "bad-flag":
            c.flags.append("-omit-everything")
        text = "\n".join(lines) + "\n"
    c.text = text
    c.want = want
    c.old = r.random() < .5
    c.oldlen = r.choice([1, 100, 10000, 400000])
    c.defaults = r.random() < .2
    c.id = i
    return c


def run_case(tool, c, work):
    d = os.path.join(work, "bp%d" % c.id)
    os.mkdir(d)
    inp, out = os.path.join(d, "benchstats.csv"), os.path.join(d, "benchstats.json")
    try:
        if c.kind == "directory":
            os.mkdir(inp)
        elif c.kind != "no-input":
            with open(inp, "w", encoding="utf-8", newline="") as f:
                f.write(c.text)
        args = list(c.flags)
        if c.kind == "no-outdir":
            out = os.path.join(d, "missing", "x.json")
            args += ["-in", inp, "-out", out]
        elif c.kind == "full-disk":
            args += ["-in", inp, "-out", "/dev/full"]
        elif not c.defaults:
            out = os.path.join(d, "o.json")
            args += ["-in", inp, "-out", out]
        if c.old and c.kind != "no-outdir":
            with open(out, "w") as f:
                f.write("]" * c.oldlen)
        try:
            p = subprocess.run([tool] + args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env={"PATH": "/usr/bin:/bin", "HOME": d, "GOMAXPROCS": "1"})
            rc, said = p.returncode, p.stdout.decode("utf-8", "replace")[-600:]
        except subprocess.TimeoutExpired:
            return "does-not-end", "the tool ran for more than 120 s", ""
        got = None
        try:
            with open(out, encoding="utf-8") as f:
                got = f.read()
        except OSError:
            pass
    finally:
        for root, dirs, files in os.walk(d, topdown=False):
            for f in files:
                os.unlink(os.path.join(root, f))
            os.rmdir(root)
    info = "flags: %s\ninput:\n%s\noutput:\n%s\nprinted:\n%s" % (" ".join(c.flags), c.text[:2500], (got or "")[:2500], said)
    if c.kind == "long-line" and rc == 0:  # supported: then nothing is lost
        try:
            t = json.loads(got)["Long"]
        except (ValueError, TypeError, KeyError):
            t = []
        if len(t) != 2 or len(t[1][0]) < 65536:
            return "accepts-malformed", "exit status 0, but the long line is not in the output", info
        return None
    if c.kind != "well-formed":
        if rc == 0:
            return "accepts-malformed", "exit status 0 for malformed input (%s)" % c.kind, info
        return None
    if rc != 0:
        return "rejects", "exit status %d for well-formed input" % rc, info
    if got is None:
        return "no-output", "no output file", info
    try:
        tables = json.loads(got)
    except ValueError as e:
        return "not-json", "the output file is not one JSON text: %s" % e, info
    head = ["Name"] + [u for u in UNITS if u not in c.omit]
    if not isinstance(tables, dict) or set(tables) != set(c.want):
        return "tables", "tables for %s, want %s" % (sorted(tables) if isinstance(tables, dict) else type(tables), sorted(c.want)), info
    for b, rows in c.want.items():
        t = tables[b]
        if not t or t[0] != head:
            return "header", "%s: header %r, want %r" % (b, t[:1], head), info
        left = dict(rows)
        for row in t[1:]:
            if not row or not isinstance(row[0], str) or row[0] not in left:
                return "row-unknown", "%s: unexpected or repeated row %r" % (b, row), info
            w = left.pop(row[0])
            if len(row) - 1 != len(w) or any(isinstance(x, bool) or not isinstance(x, (int, float)) or float(x) != y for x, y in zip(row[1:], w)):
                return "cells", "%s: row %r, want %r" % (b, row, [row[0]] + w), info
        left = {k: v for k, v in left.items() if v or k in c.stat_rows.get(b, ())}
        if left:
            return "row-lost", "%s: no row for %r" % (b, sorted(left)[:5]), info
    return None


def check(run, seed, n, only=None, deadline=None, start=0):
    import driver
    tool = os.path.join(run.work, "benchparse")
    if not os.path.exists(tool):
        p = subprocess.run(["go", "build", "-tags", "verif", "-o", tool, "./tools/benchparse"], cwd=REPO, env=run.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise driver.Inconclusive("benchparse does not build:\n" + p.stdout[-2000:])
    run.rule = RULE
    run.levels.add("none")
    ids = [only] if only is not None else list(range(start, start + n))

    def one(i):
        if deadline and time.time() > deadline:
            return None
        c = build_case(seed, i)
        return c, run_case(tool, c, run.work)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for res in ex.map(one, ids):
            if res is None:
                continue
            c, bad = res
            run.cases += 1
            run.evals += 1
            k = "kind_" + c.kind
            run.counters[k] = run.counters.get(k, 0) + 1
            run.counters["statistics"] = run.counters.get("statistics", 0) + (c.stats if c.kind == "well-formed" else 0)
            if c.stats or c.kind != "well-formed":
                run.hashes.add(hashlib.sha256(repr((c.kind, c.flags, c.text)).encode()).digest()[:8])
            if c.kind == "well-formed" and 0 < c.stats < 8 and len(run.samples) < 3:
                run.samples.append("flags %s; input %r" % (c.flags, c.text))
            if bad:
                key, what, info = bad
                if len([v for v in run.viols if v["key"] == key]) < 2:
                    run.violation(key, what, info, dict(special="benchparse", seed=seed, n=n, case=c.id, stage="benchparse"))


def run_tier(run, tier, seed, scale, budget):
    t0 = time.time()
    if tier == "quick":
        check(run, seed, int(3000 * scale), deadline=t0 + 500)
    else:
        start = 0
        while time.time() - t0 < budget and not run.viols:
            check(run, seed, 5000, start=start, deadline=t0 + budget)
            start += 5000
    run.stages_run.append(dict(stage="benchparse", seed=seed, wall_s=round(time.time() - t0, 1)))
