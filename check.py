#!/usr/bin/env python3
"""check.py Cxx [--replay FILE]: decide one property on /repo's working tree.

Builds the drivers the property needs from /repo (never from a copy), runs their
workloads sharded over the cores, collects what the monitors reported, writes
evidence/Cxx.json.  Exit 0 held, 1 violation, 2 the check itself failed."""
import sys, os, subprocess, tempfile, shutil, json, time, re, threading, queue, collections
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from plan import PLAN, FLAVORS, DRIVERS   # what each property runs

NCPU = max(2, min(8, os.cpu_count() or 2))
MAX_CRASHES = 40         # per shard, after which the rest of the shard is given up
MAX_HANGS = 2            # the same for hangs, which cost much more
BUDGET = 640             # seconds of running in the quick tier, after which what was found so far is reported
ENOUGH = 24              # reports of the property being decided, after which further shards add nothing

class CheckError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def clean_env():
    e = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH", "LOCPATH", "LD_PRELOAD"):
        e.pop(k, None)
    e.update(LC_ALL="C", ASAN_OPTIONS="detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99:handle_segv=1",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98", TSAN_OPTIONS="exitcode=97:halt_on_error=0:second_deadlock_stack=1")
    return e
ENV = clean_env()

# ---------------------------------------------------------------- building
class Builder:
    """object files shared between the programs of one check"""
    def __init__(self, work):
        self.work = work
        self.jobs = {}            # obj path -> command
        self.progs = {}           # (driver, flavor) -> (exe, objs, linkcmd)
    def want(self, driver, flavor):
        if (driver, flavor) in self.progs:
            return
        f = FLAVORS[flavor]
        d = os.path.join(self.work, flavor)
        os.makedirs(d, exist_ok=True)
        common = [f["cxx"], "-w", "-g1", "-pthread", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")] + f["flags"]
        objs = []
        srcs = [os.path.join(HERE, "harness", DRIVERS[driver])]
        if f.get("units"): srcs.append(os.path.join(HERE, "harness", "odr.cpp"))
        if f.get("lib", True):
            srcs.append(os.path.join(REPO, "src", "src.cpp"))
        for s in srcs:
            islib = s.startswith(REPO)
            o = os.path.join(d, os.path.basename(s) + ".o")
            cmd = common + (f.get("libflags", []) if islib else f.get("drvflags", [])) + ["-c", s, "-o", o, "-MD", "-MF", o + ".d"]
            self.jobs.setdefault(o, cmd)
            objs.append(o)
        exe = os.path.join(d, driver)
        link = [f["cxx"], "-pthread"] + f["flags"] + objs + ["-o", exe] + f.get("link", [])
        if f.get("shared"):       # the library on its own, every symbol hidden that it does not export
            so = os.path.join(d, "lib%s.so" % driver)
            link = ["sh", "-ec", " ".join([f["cxx"], "-pthread", "-shared"] + f["flags"] + objs[-1:] + ["-o", so]) + "; " +
                    " ".join([f["cxx"], "-pthread"] + f["flags"] + objs[:-1] + ["-o", exe, so, "-Wl,-rpath," + d] + f.get("link", []))]
        self.progs[(driver, flavor)] = (exe, objs, link)
    def build(self):
        """compile and link everything wanted; what cannot be built is in self.failed[flavor]"""
        self.failed = {}
        self.relaxed = []         # flavors that need the language standard /repo's own build uses
        flavor_of = lambda path: os.path.basename(os.path.dirname(path))
        def par(items):
            """runs the commands; flavor -> first error"""
            errs = {}
            q = queue.Queue()
            for it in items: q.put(it)
            def work():
                while True:
                    try: name, cmd = q.get_nowait()
                    except queue.Empty: return
                    r = sh(cmd, env=ENV)
                    if r.returncode: errs.setdefault(flavor_of(name), (cmd, r.stdout))
            ts = [threading.Thread(target=work) for _ in range(NCPU)]
            for t in ts: t.start()
            for t in ts: t.join()
            return errs
        def judge(errs):
            if not errs: return
            for f, (cmd, out) in errs.items():
                m = re.search(r"^.*error:.*$", out, re.M)
                self.failed[f] = m.group(0) if m else out[-300:]
            cmd, out = next(iter(errs.values()))
            raise CheckError("build failed:\n%s\n%s" % (" ".join(cmd), out[-3000:]))
        errs = par(list(self.jobs.items()))
        again = [f for f in errs if any(x.startswith("-std=") and x != "-std=c++17" for x in FLAVORS[f]["flags"])]
        if again:                 # the build of /repo uses the compiler's default, C++17
            newer = lambda cmd: [re.sub(r"-std=\S+", "-std=gnu++17", x) for x in cmd]
            jobs = [(o, newer(c)) for o, c in self.jobs.items() if flavor_of(o) in again]
            for k, (exe, objs, link) in list(self.progs.items()):
                if flavor_of(exe) in again: self.progs[k] = (exe, objs, newer(link))
            for f in again: del errs[f]
            more = par(jobs)
            self.relaxed = [f for f in again if f not in more]
            errs.update(more)
        judge(errs)
        for o in self.jobs:
            with open(o + ".d") as fh:
                if re.search(r"/usr/include/boost/url[/.]", fh.read()):
                    raise CheckError("headers of the installed Boost.URL were used")
        judge(par([(p[0], p[2]) for p in self.progs.values()]))
    def exe(self, driver, flavor):
        return self.progs[(driver, flavor)][0]

# ---------------------------------------------------------------- running
class Result:
    def __init__(self):
        self.fails = []          # (tags, where, idx, msg)
        self.stats = collections.Counter()
        self.events = collections.Counter()
        self.work = collections.Counter()   # fingerprints of what was explored
        self.samples = []
        self.incomplete = 0
        self.lock = threading.Lock()
        self.prop = None         # set: stop once this property has been reported often enough
        self.deadline = None
    def late(self):
        return self.deadline is not None and time.time() > self.deadline
    def enough(self):
        return self.late() or self.prop is not None and sum(self.prop in f[0] for f in self.fails) >= ENOUGH

def read_shared(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < 24 or int.from_bytes(b[0:8], "little") != 0x55524c:
        return None
    idx = int.from_bytes(b[8:16], "little"); tags = int.from_bytes(b[16:20], "little")
    what = b[24:]
    z = lambda x: x.split(b"\0", 1)[0].decode("latin1")
    return idx, tags, z(what[:64]), z(what[64:])

def tagset(bits):
    return ["C%02d" % i for i in range(1, 32) if bits >> i & 1]

def run_shard(b, run, shard, nshards, seed, work, res, bitmap, only=None):
    if only is None and res.enough():
        if res.late():
            with res.lock: res.incomplete += 1
        return
    exe = b.exe(run["driver"], run["flavor"])
    tag = "%s.%s.%s.%s.%d" % (run["driver"], run["flavor"], run["mode"], run.get("id", 0), shard)
    out = os.path.join(work, tag + ".out"); shm = os.path.join(work, tag + ".shm")
    stride = run.get("stride", 1)       # every stride-th case, starting where the seed says
    first, step, count = (seed % stride + shard * stride, nshards * stride, run["count"]) if only is None else (only, 1, only + 1)
    crashes = hangs = 0
    env = dict(ENV); env.update(run.get("env", {}))
    env = {k: v.replace("@WORK@", work) for k, v in env.items()}
    where = "%s/%s/%s" % (run["driver"], run["flavor"], run["mode"])
    while True:
        cmd = run.get("wrap", []) + [exe, run["mode"], str(seed), str(first), str(step), str(count), out, shm, bitmap]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=min(run.get("timeout", 700), max(20, res.deadline - time.time()) if res.deadline else 1e6))
            rc, text = p.returncode, p.stdout.decode("latin1")
        except subprocess.TimeoutExpired:
            with res.lock: res.incomplete += 1
            res.stats["timeouts"] += 1
            return
        if rc == 0: break
        if run["flavor"].startswith("tsan") and re.search(r"WARNING: ThreadSanitizer", text):
            info = read_shared(shm)
            with res.lock:
                res.fails.append((["C17"], where, info[0] if info else 0, "ThreadSanitizer: " + " | ".join(l.strip() for l in text[text.index("WARNING: ThreadSanitizer"):].splitlines() if l.strip())[:1500]))
            break
        info = read_shared(shm)
        if info is None:
            if only is None and rc == 99 and "LeakSanitizer" in text:
                with res.lock: res.fails.append((["C09", "C10"], where, 0, "LeakSanitizer: " + text[-1500:].replace("\n", " | ")))
                break
            raise CheckError("%s exited with %d outside a case:\n%s" % (" ".join(cmd), rc, text[-2000:]))
        idx, bits, op, desc = info
        lines = [l.strip() for l in text.splitlines() if l.strip()]
        key = [l for l in lines if re.search(r"ERROR: |runtime error|Assertion|assertion|HANG|terminate called|what\(\)|SUMMARY", l)]
        kind = "hang" if rc == 77 else "crash (exit %d)" % rc
        hung = rc == 77
        if hung and only is None:
            # once more, alone: a loaded machine must not look like a hang
            r2 = Result()
            try: run_shard(b, run, shard, nshards, seed, work, r2, bitmap, only=idx)
            except CheckError: pass
            if not any("hang" in m for _, _, _, m in r2.fails):
                first = idx + step
                if first < count: continue
                break
        if run["flavor"] == "vg" and "==" in text:
            lines = [re.sub(r"^==\d+==\s*", "", l) for l in lines]
            key = [l for l in lines if re.search(r"uninitialised|Invalid|overlap|at 0x|by 0x", l)][:5] or lines[:5]
        tags = sorted(set(tagset(bits) + ["C10"] + (["C22"] if hung else []) + (["C15"] if "uninitialised" in text else [])))
        with res.lock:
            res.fails.append((tags, where, idx, "%s during %s; case %s; %s" % (kind, op or "driver", desc, " | ".join(key[:4])[:900])))
        crashes += 1; hangs += hung
        if only is not None: break
        first = idx + step
        if first >= count: break
        if crashes >= MAX_CRASHES or hangs >= MAX_HANGS or res.enough():
            with res.lock: res.incomplete += 1
            break
    if only is not None and not os.path.exists(out): return
    try:
        with open(out, errors="replace") as fh: data = fh.read()
    except OSError:
        data = ""
    with res.lock:
        for line in data.splitlines():
            f = line.split("\t")
            if f[0] == "FAIL" and len(f) >= 4: res.fails.append((f[1].split(","), where, int(f[2]), "\t".join(f[3:])))
            elif f[0] == "STAT" and len(f) == 3: res.stats[f[1]] += int(f[2])
            elif f[0] == "EVENT" and len(f) == 3: res.events[f[1]] += int(f[2])
            elif f[0] == "WORK": res.work[(run["driver"], run["mode"], run["flavor"])] += int(f[1])
            elif f[0] == "SAMPLE": res.samples.append("%s: %s" % (where, "\t".join(f[1:])))

def run_all(b, runs, seed, work, res, bitmap):
    q = queue.Queue()
    for run in runs:
        n = run.get("shards", NCPU)
        for s in range(n): q.put((run, s, n))
    errs = []
    def worker():
        while True:
            try: run, s, n = q.get_nowait()
            except queue.Empty: return
            try: run_shard(b, run, s, n, seed, work, res, bitmap)
            except Exception as e: errs.append(e)
    ts = [threading.Thread(target=worker) for _ in range(NCPU)]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs: raise errs[0]

# ---------------------------------------------------------------- totals of the enumerated families
def resolve_counts(b, runs, tier):
    tot = {}
    for r in runs:
        if r["count"] == "all":
            k = (r["driver"], r["flavor"], json.dumps(r.get("env", {})))
            if k not in tot:
                p = sh([b.exe(r["driver"], r["flavor"]), "--totals"], env=dict(ENV, **r.get("env", {})))
                tot[k] = dict(l.split() for l in p.stdout.splitlines() if len(l.split()) == 2)
            r["count"] = int(tot[k][r["mode"]])

def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as fh:
        return json.load(fh)

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="urlverif-")
    try:
        if "--replay" in sys.argv:
            return replay(prop, sys.argv[sys.argv.index("--replay") + 1], work)
        return decide(prop, tier, seed, t0, work)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e)); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

def across(prop, runs, res):
    """a report in some configurations only is a difference between them"""
    flavors = collections.defaultdict(set)
    for r in runs: flavors[(r["driver"], r["mode"])].add(r["flavor"])
    seen = collections.defaultdict(dict)
    for tags, where, idx, msg in res.fails:
        d, f, m = where.split("/")
        k = "stopped" if re.match(r"(crash|hang) ?", msg) else msg
        seen[(d, m, idx, k)].setdefault(f, msg)
    extra = []
    for (d, m, idx, k), by in sorted(seen.items()):
        if set(by) != flavors[(d, m)]:
            f = sorted(by)[0]
            extra.append(([prop], "%s/%s/%s" % (d, f, m), idx, "only in %s, not in %s: %s" % (", ".join(sorted(by)), ", ".join(sorted(flavors[(d, m)] - set(by))), by[f])))
    if not res.fails:
        for k in flavors:
            if len({res.work[k + (f,)] & (1 << 64) - 1 for f in flavors[k]}) != 1: raise CheckError("the configurations were given different workloads: %s/%s" % k)
    res.fails += extra
    res.events[prop] = res.stats.get("evaluations", 0)

def new_bitmap(work, mb):
    p = os.path.join(work, "bitmap")
    with open(p, "wb") as fh: fh.truncate(mb << 20)
    return p

def replay(prop, path, work):
    r = json.load(open(path))
    run = r["run"]
    b = Builder(work); b.want(run["driver"], run["flavor"]); b.build()
    res = Result()
    run["count"] = r["idx"] + 1
    run_shard(b, run, 0, 1, r["seed"], work, res, new_bitmap(work, 1), only=r["idx"])
    if PLAN[prop].get("across"): res.fails = [([prop], w, i, m) for t, w, i, m in res.fails]
    bad = [f for f in res.fails if prop in f[0]]
    for f in res.fails: print(",".join(f[0]), f[1], f[2], f[3])
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, path)); return 1
    print("replay: no violation of %s" % prop); return 0

def not_built(prop, tier, seed, t0, spec, failed, flavors):
    rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + "-0.json")
    msg = "does not build as %s, but as %s" % (", ".join("%s (%s)" % x for x in sorted(failed.items())), ", ".join(sorted(flavors - set(failed))))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": len(flavors), "distinct_nontrivial": len(flavors), "rule": "configurations built", "samples": [msg]},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": 1}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
    with open(rp, "w") as fh: json.dump({"property": prop, "message": msg, "how": "python3 check.py %s" % prop}, fh, indent=1)
    print(msg); print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1

def decide(prop, tier, seed, t0, work):
    spec = PLAN[prop]
    runs = [dict(r) for r in spec.get(tier) or spec["quick"]]
    prep = spec.get("prep")
    if prep: prep(work)
    b = Builder(work)
    for r in runs: b.want(r["driver"], r["flavor"])
    try: b.build()
    except CheckError:
        # some supported configurations build and others do not: that is a difference between them
        flavors = {r["flavor"] for r in runs}
        if not spec.get("across") or not b.failed or not flavors - set(b.failed): raise
        return not_built(prop, tier, seed, t0, spec, b.failed, flavors)
    tb = time.time()
    resolve_counts(b, runs, tier)
    res = Result()
    known = [k for k in load_known()["findings"] if k["property"] == prop and k["status"] == "open"]
    if not spec.get("across") and not known: res.prop = prop
    if tier == "quick": res.deadline = time.time() + BUDGET
    bitmap = new_bitmap(work, 64 if tier == "thorough" else 16)
    for i, r in enumerate(runs): r["id"] = i
    run_all(b, runs, seed, work, res, bitmap)
    if spec.get("across"): across(prop, runs, res)
    distinct = int.from_bytes(open(bitmap, "rb").read(), "little").bit_count()
    # known findings: probes are their own mode and report through these lines
    mine = [f for f in res.fails if prop in f[0]]
    new = []
    for f in mine:
        hit = [k for k in known if k["match"] == f[3]]
        if hit: hit[0]["seen"] = True
        else: new.append(f)
    for k in known:
        if k.get("seen"): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    others = collections.Counter(t for f in res.fails for t in f[0] if t != prop)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": res.stats.get("evaluations", 0), "distinct_nontrivial": distinct,
                       "rule": spec["rule"], "samples": sorted(set(res.samples))[:12] or ["none"],
                       "monitor_events": res.events.get(prop, 0),
                       "workloads": ["%s/%s/%s count=%s" % (r["driver"], r["flavor"], r["mode"], r["count"]) for r in runs],
                       "observed": {k: v for k, v in sorted(res.stats.items()) if k not in ("evaluations", "nontrivial", "fails")},
                       "build_s": round(tb - t0, 1)},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    if b.relaxed: ev["coverage"]["built_as_gnu++17_because_older_standards_fail"] = b.relaxed
    if res.incomplete: ev["coverage"]["shards_cut_short"] = res.incomplete
    if others: ev["coverage"]["reports_for_other_properties"] = dict(others)
    if spec.get("exhaustive"): ev["coverage"]["exhaustive_parts"] = spec["exhaustive"]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
    if new:
        for i, f in enumerate(new[:8]):
            where = f[1].split("/")
            run = next((r for r in runs if [r["driver"], r["flavor"], r["mode"]] == where[:3]), runs[0])
            rp = os.path.join(rdir, "%s-%d.json" % (prop, i))
            with open(rp, "w") as fh:
                json.dump({"property": prop, "seed": seed, "idx": f[2], "run": run, "tags": f[0], "message": f[3],
                           "how": "python3 check.py %s --replay %s" % (prop, rp)}, fh, indent=1)
            print("%s case %d: %s" % (f[1], f[2], f[3][:1200]))
            if i == 0: first = rp
        print("VIOLATION property=%s replay=%s" % (prop, first))
        return 1
    if res.events.get(prop, 0) == 0:
        raise CheckError("the monitors of this property observed nothing")
    if res.incomplete and not res.fails:
        raise CheckError("a workload was cut short")
    print("%s held: %d evaluations, %d monitor events, %.0f s" % (prop, res.stats.get("evaluations", 0), res.events.get(prop, 0), time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
