#!/usr/bin/env python3
"""trybug.py ID [Cxx ...]: try a planted change (development only, no check uses this).
Applies seeded/ID/patch.diff to /repo, runs the stable tests, the demonstration and the
named checks (default: the property of meta.json), and undoes the change."""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def tests():
    run(["bash", "/opt/vp/test.sh", "/tmp/trybug.json"])
    o = json.load(open("/tmp/trybug.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    base = b["stable"]
    return [t for t in base if t not in o["passed"]]
def main():
    bug = sys.argv[1]; d = os.path.join(V, "seeded", bug); meta = json.load(open(d + "/meta.json"))
    quick = "--nobuild" in sys.argv
    props = [a for a in sys.argv[2:] if a[0] == "C"] or [meta["property"]]
    assert run(["git", "-C", R, "status", "--porcelain", "--untracked-files=no"]).stdout == ""
    demo0 = None
    if not quick:
        demo0 = run(["bash", d + "/demo.sh"], cwd=R, timeout=300).returncode
    r = run(["git", "-C", R, "apply", d + "/patch.diff"])
    if r.returncode: print(bug, "DOES NOT APPLY", r.stdout); return 1
    try:
        if not quick:
            miss = tests()
            demo1 = run(["bash", d + "/demo.sh"], cwd=R, timeout=300)
            print(bug, "tests:", "ok" if not miss else "FAIL %s" % miss, "demo: %s -> %s" % (demo0, demo1.returncode), flush=True)
            if miss or demo0 != 0 or demo1.returncode == 0: print(demo1.stdout[-1500:]); return 1
        for p in props:
            t = time.time(); r = run([sys.executable, V + "/check.py", p], env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("  ", bug, p, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), flush=True)
            print("      " + "\n      ".join(r.stdout.splitlines()[:3 if v else 12])[:600])
    finally:
        run(["git", "-C", R, "checkout", "--", "."])
main()
