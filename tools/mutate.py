#!/usr/bin/env python3
"""mutate.py N SEED OUT.jsonl [file-regex]: development only, no check uses this.
Makes N one-token changes to a scratch copy of the library, drops those that do not compile or
that the project's own tests notice, runs the drivers on the rest and records which properties
report them.  What nothing reports is either equivalent or a gap to look at by hand."""
import sys, os, re, random, subprocess, json, shutil, tempfile, threading, queue, time, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
N, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
ONLY = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
WT = "/tmp/mut/wt"
FILES = ["detail/char_type.hpp", "detail/parse.hpp", "detail/parts.hpp", "detail/storage.hpp", "detail/char_type.hpp", "basic_url.hpp", "url_base.hpp", "url_view.hpp", "static_pool.hpp", "impl/url_base.ipp", "impl/url_base.hpp",
         "impl/url_view.ipp", "impl/url_view.hpp", "impl/scheme.ipp", "impl/error.ipp"]
IDS = ["id_scheme", "id_user", "id_password", "id_host", "id_port", "id_path", "id_query", "id_frag", "id_end"]
def mutants():
    out = []
    for f in sorted(set(FILES)):
        p = "/repo/include/boost/url/" + f
        if not os.path.exists(p): continue
        comment = False
        src = open(p).read().split("\n")
        for i, l in enumerate(src):
            s = l.strip()
            if s.startswith("/*"): comment = True
            if comment or s.startswith(("//", "#", "BOOST_ASSERT")):
                if "*/" in s: comment = False
                continue
            code = l.split("//")[0] if '"' not in l else l
            def sub(pat, rep):
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    if new != code: out.append((f, i, l, new))
            sub(r"==", "!="); sub(r"!=", "=="); sub(r"(?<![<>\-=\w])<(?![<=])(?= )", "<="); sub(r" > ", " >= "); sub(r"<=", "<"); sub(r">=", ">")
            sub(r" < ", " <= "); sub(r"&&", "||"); sub(r"\|\|", "&&"); sub(r"\breturn true\b", "return false"); sub(r"\breturn false\b", "return true")
            sub(r"if\(! ", "if("); sub(r"if\((?!! )", "if(! ")
            sub(r" \+ ", " - "); sub(r" - ", " + "); sub(r"\+\+", "--"); sub(r"--(?!-)", "++"); sub(r"\+= ", "-= "); sub(r"-= ", "+= ")
            for m in re.finditer(r"(?<![\w.'\"\\x])(\d{1,3})(?![\w.'\"])", code):
                for d in (1, -1):
                    v = int(m.group(1)) + d
                    if v >= 0: out.append((f, i, l, code[:m.start()] + str(v) + code[m.end():]))
            for m in re.finditer(r"id_\w+", code):
                if m.group(0) in IDS:
                    k = IDS.index(m.group(0))
                    for d in (1, -1):
                        if 0 <= k + d < len(IDS): out.append((f, i, l, code[:m.start()] + IDS[k + d] + code[m.end():]))
            if re.match(r"^\s+[\w\->.*+(\[]+.*;\s*$", code) and not re.match(r"^\s+(return|using|typedef|struct|class|friend|template|auto|char|std::|bool|int|unsigned|static|string_view|public|private)\b", code):
                prev = src[i-1].strip()
                if prev == "" or prev.endswith((";", "{", "}", ")")) or prev.startswith("//"): out.append((f, i, l, "        ;"))
            if re.match(r"^\s+(break|continue);", code): out.append((f, i, l, "        ;"))
    return [m for m in out if ONLY.search(m[0])]
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def par(cmds):
    bad = []; q = queue.Queue()
    for c in cmds: q.put(c)
    def w():
        while not bad:
            try: c = q.get_nowait()
            except queue.Empty: return
            r = run(c)
            if r.returncode: bad.append(r.stdout)
    ts = [threading.Thread(target=w) for _ in range(8)]
    for t in ts: t.start()
    for t in ts: t.join()
    return bad
def main():
    shutil.rmtree(WT, ignore_errors=True); os.makedirs(WT)
    for d in ("include", "src", "test"): shutil.copytree("/repo/" + d, WT + "/" + d)
    os.environ["VERIF_REPO"] = WT
    import check, plan
    tests = [t for t in sorted(os.listdir(WT + "/test")) if t.endswith(".cpp")]
    tb = "/tmp/mut/tb"; os.makedirs(tb, exist_ok=True)
    allm = mutants(); random.Random(SEED).shuffle(allm)
    print(len(allm), "mutants", flush=True)
    done = 0
    for f, i, old, new in allm:
        if done >= N: break
        p = WT + "/include/boost/url/" + f; orig = open(p).read(); src = orig.split("\n"); src[i] = new
        open(p, "w").write("\n".join(src))
        rec = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        try:
            fl = ["-w", "-std=c++11", "-O0", "-I" + WT + "/include", "-DBOOST_URL_NO_LIB=1", "-DBOOST_URL_STATIC_LINK=1"]
            cmds = [["g++"] + fl + ["-I" + WT + "/test", "-c", WT + "/test/" + t, "-o", tb + "/" + t + ".o"] for t in tests] + [["g++"] + fl + ["-c", WT + "/src/src.cpp", "-o", tb + "/src.o"]]
            bad = par(cmds)
            if bad: rec["r"] = "nocompile"; continue
            r = run(["g++"] + [tb + "/" + t + ".o" for t in tests] + [tb + "/src.o", "-pthread", "-o", tb + "/tests"])
            if r.returncode: rec["r"] = "nolink"; continue
            try: r = run([tb + "/tests"], timeout=15)
            except subprocess.TimeoutExpired: rec["r"] = "tests"; continue
            if r.returncode: rec["r"] = "tests"; continue
            done += 1
            t0 = time.time()
            work = tempfile.mkdtemp(prefix="mut-")
            try:
                S = plan
                runs = S.pick(S.parse_suite(q=.3), "enum", "pct", "oct", "rnd", "long", "keys") + S.parse_suite(q=.1, stride=3)[1:2] + S.pick(S.parse_suite(stride=5), "align") + S.hist_suite(q=.3, stride=3) + S.alloc_suite(q=.3) + S.pool_suite(q=.3, stride=3) + S.scheme_suite(q=.3, stride=3) + S.errors_suite(q=.3)
                runs = [dict(r, shards=8, timeout=120) for r in runs]
                b = check.Builder(work)
                for r_ in runs: b.want(r_["driver"], r_["flavor"])
                b.build(); check.resolve_counts(b, runs, "quick")
                res = check.Result(); res.enough = lambda: len(res.fails) > 400
                for k, r_ in enumerate(runs): r_["id"] = k
                check.run_all(b, runs, 1, work, res, check.new_bitmap(work, 1))
                known = {k["match"] for k in check.load_known()["findings"] if k["status"] == "open"}
                fails = [x for x in res.fails if x[3] not in known]
                tags = collections.Counter(t for x in fails for t in x[0])
                rec["r"] = "caught" if fails else "SURVIVED"; rec["tags"] = dict(sorted(tags.items())); rec["first"] = fails[0][3][:200] if fails else ""
            except check.CheckError as e:
                rec["r"] = "checkerror"; rec["first"] = str(e)[:500]
            finally: shutil.rmtree(work, ignore_errors=True)
            rec["s"] = round(time.time() - t0)
        finally:
            open(p, "w").write(orig)
            with open(OUT, "a") as fh: fh.write(json.dumps(rec) + "\n")
            if rec.get("r") not in ("nocompile", "tests", "nolink"): print(rec["r"], f, i + 1, old.strip(), "=>", new.strip(), sorted(rec.get("tags", {})), flush=True)
main()
