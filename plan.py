"""What each property runs: flavors (how /repo is compiled), drivers, workloads."""
import os, shutil, subprocess
STATIC = ["-DBOOST_URL_NO_LIB=1", "-DBOOST_URL_STATIC_LINK=1"]
GUIDE = ["-fsanitize-coverage=inline-8bit-counters,trace-cmp", "-fsanitize-coverage-allowlist=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "lib.allow")]
WRAPS = ["memmove", "memcpy", "memset", "memcmp", "memchr", "strlen"]
FLAVORS = {
  # the monitors on a plain build, assertions on, operator new counted and failable
  "plain": dict(cxx="g++", flags=["-std=c++11", "-O1"] + STATIC, drvflags=["-DCOUNT_NEW"]),
  "asan":  dict(cxx="clang++", flags=["-std=c++11", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + STATIC),
  "tsan":  dict(cxx="clang++", flags=["-std=c++11", "-O1", "-fsanitize=thread"] + STATIC),
  # valgrind runs this one
  "vg":    dict(cxx="g++", flags=["-std=c++11", "-O1"] + STATIC, drvflags=["-DLEAVE_UNDEFINED"]),
  # executed edges and bytes moved are counted
  "cov":   dict(cxx="clang++", flags=["-std=c++11", "-O1", "-fno-builtin", "-fsanitize-coverage=trace-pc-guard"] + STATIC,
                link=["-static-libstdc++", "-static-libgcc"] + ["-Wl,--wrap=" + w for w in WRAPS]),
  # the library's comparisons are watched and steer the workload
  "guide": dict(cxx="clang++", flags=["-std=c++11", "-O1", "-DGUIDED"] + GUIDE + STATIC, drvflags=["-DCOUNT_NEW"], link=["-no-pie", "-Wl,--wrap=memcmp", "-Wl,--wrap=bcmp"]),
  "guide-asan": dict(cxx="clang++", flags=["-std=c++11", "-O1", "-DGUIDED", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + GUIDE + STATIC, link=["-Wl,--wrap=memcmp", "-Wl,--wrap=bcmp"]),
  # the configurations of C18
  "gcc-O0-static":       dict(cxx="g++", flags=["-std=c++11", "-O0"] + STATIC),
  "gcc-O3-header-ndebug": dict(cxx="g++", flags=["-std=c++14", "-O3", "-DNDEBUG", "-DBOOST_URL_HEADER_ONLY"], lib=False),
  "clang-O2-static":     dict(cxx="clang++", flags=["-std=c++11", "-O2", "-DBOOST_URL_NO_SSE2"] + STATIC),
  "gcc-uchar-O2-ndebug": dict(cxx="g++", flags=["-std=c++17", "-O2", "-funsigned-char", "-DNDEBUG"] + STATIC),
  "clang-O1-standalone": dict(cxx="clang++", flags=["-std=c++17", "-O1", "-DBOOST_URL_STANDALONE"]),
  "gcc-O2-standalone-header-ndebug": dict(cxx="g++", flags=["-std=c++20", "-O2", "-DNDEBUG", "-DBOOST_URL_STANDALONE", "-DBOOST_URL_HEADER_ONLY"], lib=False),
  "clang-O0-header-uchar-ndebug": dict(cxx="clang++", flags=["-std=c++14", "-O0", "-funsigned-char", "-DNDEBUG", "-DBOOST_URL_HEADER_ONLY"], lib=False),
  "gcc-O3-standalone-uchar": dict(cxx="g++", flags=["-std=c++17", "-O3", "-funsigned-char", "-DBOOST_URL_STANDALONE"]),
  "clang-O3-header":     dict(cxx="clang++", flags=["-std=c++11", "-O3", "-DBOOST_URL_HEADER_ONLY"], lib=False),
  "gcc-O2-shared":       dict(cxx="g++", flags=["-std=c++11", "-O2", "-fPIC", "-fvisibility=hidden", "-DBOOST_URL_NO_LIB=1", "-DBOOST_URL_DYN_LINK=1"], libflags=["-DBOOST_URL_SOURCE"], shared=True),
}
CONFIGS = ["gcc-O0-static", "gcc-O3-header-ndebug", "clang-O2-static", "gcc-uchar-O2-ndebug", "clang-O1-standalone", "gcc-O2-standalone-header-ndebug",
  "clang-O0-header-uchar-ndebug", "gcc-O3-standalone-uchar", "clang-O3-header", "gcc-O2-shared"]
for c in CONFIGS: FLAVORS[c]["units"] = True     # a second translation unit that uses the library
DRIVERS = {n: n + ".cpp" for n in ("parse", "hist", "alloc", "pool", "scheme", "errors", "threads", "cost")}

def R(driver, mode, count, flavor="plain", **kw):
    return dict(driver=driver, mode=mode, count=count, flavor=flavor, **kw)

# ---------------------------------------------------------------- suites; `q` scales the random parts
def parse_suite(flavor="plain", q=1.0, stride=1, **kw):
    return [R("parse","enum","all",flavor,stride=stride,**kw), R("parse","bytes","all",flavor,stride=stride,**kw), R("parse","pct","all",flavor,stride=stride,**kw),
            R("parse","oct","all",flavor,stride=stride,**kw), R("parse","rnd",int(400000*q),flavor,**kw), R("parse","long",int(216*max(q,1)) if q<3 else 648,flavor,**kw),
            R("parse","keys","all",flavor,**kw), R("parse","align","all",flavor,stride=stride,**kw)]
def hist_suite(flavor="plain", q=1.0, stride=1, probe=True, **kw):
    return [R("hist","hist",int(100000*q),flavor,**kw), R("hist","stretch",int(100000*q),flavor,**kw), R("hist","bytes","all",flavor,stride=stride,**kw), R("hist","host",int(20000*q),flavor,**kw), R("hist","edit","all",flavor,stride=stride,**kw),
            R("hist","pairs","all",flavor,stride=stride,**kw), R("hist","order",int(8000*q),flavor,**kw), R("hist","append",16,flavor,**kw), R("hist","big",50,flavor,**kw), R("hist","wide","all",flavor,stride=min(stride,3),**kw)] + \
           ([R("hist","probe","all",flavor,shards=1,**kw)] if probe else [])
def alloc_suite(flavor="plain", q=1.0, **kw):
    r = [R("alloc","fault",int(20000*q),flavor,**kw), R("alloc","max",int(20000*q),flavor,**kw)]
    return r + ([R("alloc","new",int(20000*q),flavor,**kw)] if flavor == "plain" else [])
def pool_suite(flavor="plain", q=1.0, stride=1, **kw):
    return [R("pool","small","all",flavor,stride=stride,**kw), R("pool","wrap","all",flavor,**kw), R("pool","seq",int(40000*q),flavor,**kw), R("pool","url",int(20000*q),flavor,**kw), R("pool","many",int(20000*q),flavor,**kw)]
def scheme_suite(flavor="plain", q=1.0, stride=1, **kw):
    return [R("scheme","exh","all",flavor,stride=stride,**kw), R("scheme","pair","all",flavor,stride=stride,**kw), R("scheme","names","all",flavor,**kw), R("scheme","norm","all",flavor,stride=stride,**kw), R("scheme","rnd",int(40000*q),flavor,**kw)]
def errors_suite(flavor="plain", q=1.0, **kw):
    return [R("errors","codes","all",flavor,**kw), R("errors","foreign","all",flavor,**kw), R("errors","throws","all",flavor,**kw), R("errors","setters",int(20000*q),flavor,**kw)]
def guided_parse(n=20000, searches=64, flavor="guide", wrap=None): return [R("parse","guided",searches,flavor,env=dict({"VERIF_EXECS": str(n)}, **({"VERIF_WRAP": wrap} if wrap else {})))]
def guided_hist(n=12000, searches=66, flavor="guide", mode="guided", **env): return [R("hist",mode,searches,flavor,env=dict({"VERIF_EXECS": str(n)}, **{"VERIF_" + k: v for k, v in env.items()}))]
VG = dict(wrap=["valgrind","-q","--error-exitcode=96","--exit-on-first-error=yes","--trace-children=no"], timeout=600)
# little stack: what recurses over its input runs out of it
LOWSTACK = dict(wrap=["prlimit","--stack=393216"])
def stack_suite(q=1.0): return [R("parse","long",int(216*q),"plain",**LOWSTACK), R("parse","rnd",int(40000*q),"plain",**LOWSTACK), R("hist","wide","all","plain",stride=3,**LOWSTACK), R("hist","append",16,"plain",**LOWSTACK), R("hist","big",50,"plain",**LOWSTACK), R("alloc","fault",int(2000*q),"plain",**LOWSTACK), R("pool","url",int(2000*q),"plain",**LOWSTACK)]
def vg_suite(n): return [R("parse","rnd",2*n,"vg",**VG), R("hist","hist",n,"vg",**VG), R("hist","stretch",n,"vg",**VG), R("alloc","fault",n,"vg",**VG), R("pool","url",n,"vg",**VG), R("hist","pairs",n,"vg",**VG)]
def pick(suite, *modes): return [r for r in suite if r["mode"] in modes]
DEEP = {"env": {"VERIF_DEEP": "1"}}
def deep_parse(q=10): return parse_suite(q=q, env={"VERIF_DEEP": "1"})
def deep_hist(q=12): return hist_suite(q=q)

def locale_prep(work):
    """a Turkish 8-bit locale, in which the C library's case rules differ"""
    d = os.path.join(work, "loc"); os.makedirs(d, exist_ok=True)
    if not shutil.which("localedef"): return
    subprocess.run(["localedef", "-c", "-i", "tr_TR", "-f", "ISO-8859-9", os.path.join(d, "tr_TR.iso88599")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
LOCRUNS = lambda: [dict(r, **LOC) for r in pick(parse_suite(q=.2, stride=3), "bytes", "rnd") + pick(hist_suite(q=.2, stride=3), "bytes")]   # the same under another locale
LOC = {"env": {"LOCPATH": "@WORK@/loc", "VERIF_LOCALE": "tr_TR.iso88599", "LC_ALL": "C"}}

# ---------------------------------------------------------------- how coverage is counted
PARSE_RULE = ("evaluations: strings or operations executed and judged; distinct_nontrivial: distinct strings of two or more bytes, and distinct (state, operation, argument) "
  "with an effect or a rejection (set bits of a shared hash bitmap, so a lower bound)")
HIST_RULE = "evaluations: modifier calls and strings judged; distinct_nontrivial: distinct (state, operation, argument) with an effect or a rejection, and distinct strings (set bits of a shared hash bitmap, a lower bound)"
ALLOC_RULE = "evaluations: operations run under an armed allocator; distinct_nontrivial: distinct (state, capacity, operation, argument, failing position) in which the failure was actually injected (hash bitmap, lower bound)"
PLAN = {}
def add(p, quick, thorough, rule, **kw): PLAN[p] = dict(quick=quick, thorough=thorough, rule=rule, **kw)

BASE = ["the reference parser and model in harness/ref.hpp state RFC 3986 and the documented effects correctly", "g++ 13 / clang 18 and their runtimes are trusted", "behaviour outside the explored inputs is not claimed"]
# parsing and views
add("C01", parse_suite() + pick(hist_suite(), "hist", "bytes", "host", "stretch") + LOCRUNS(), deep_parse() + deep_hist() + LOCRUNS(), PARSE_RULE, assumptions=BASE, prep=locale_prep,
    exhaustive="parse/enum (14 token families), parse/bytes (every byte at every position of 15 templates, replaced and inserted), parse/pct, parse/oct")
HUGE = [R("parse","huge","all",shards=6)]
add("C02", HUGE + parse_suite() + pick(hist_suite(), "hist", "pairs", "stretch"), HUGE + deep_parse() + deep_hist(), PARSE_RULE, assumptions=BASE,
    exhaustive="parse/enum, parse/bytes")
add("C03", parse_suite() + pick(hist_suite(), "hist", "host", "pairs", "stretch"), deep_parse() + deep_hist(), PARSE_RULE, assumptions=BASE,
    exhaustive="parse/enum families ip6, ip6long, authority; parse/oct (every octet of up to 4 digits in each position)")
add("C04", parse_suite() + pick(hist_suite(), "hist", "bytes", "edit", "wide", "stretch") + pick(alloc_suite(), "fault"), deep_parse() + deep_hist() + alloc_suite(q=10), PARSE_RULE, assumptions=BASE,
    exhaustive="parse/pct: every two-character escape in every component")
add("C12", parse_suite() + pick(hist_suite(), "hist", "edit", "big", "pairs", "wide", "stretch"), HUGE + deep_parse() + deep_hist(), PARSE_RULE, assumptions=BASE, exhaustive="parse/enum families path, path2, path3")
add("C14", parse_suite() + pick(hist_suite(), "hist", "big", "pairs", "wide", "stretch"), HUGE + deep_parse() + deep_hist(), PARSE_RULE, assumptions=BASE, exhaustive="parse/enum families query, query2; parse/keys (every key byte in every spelling looked up by every byte)")
add("C21", parse_suite() + pick(hist_suite(), "hist", "pairs", "big", "stretch"), deep_parse() + deep_hist(), PARSE_RULE,
    assumptions=BASE + ["allocation by another route than operator new, malloc, calloc, realloc and the container's allocator is not counted"])
# modification
for c in ("C05", "C06", "C07", "C08", "C11", "C13", "C15", "C16", "C24"):
    add(c, hist_suite(), deep_hist(), HIST_RULE, assumptions=BASE, exhaustive="hist/bytes (every byte value through every setter), hist/edit (every edit on every path of up to 3 segments over 4 spellings), hist/pairs (every pair of 58 modifications on every kind of URL)")
PLAN["C15"]["quick"] = vg_suite(240) + hist_suite() + pick(parse_suite(), "rnd", "long", "align"); PLAN["C15"]["thorough"] = vg_suite(3000) + deep_hist() + pick(deep_parse(), "rnd", "long", "align")
PLAN["C05"]["quick"] = hist_suite() + LOCRUNS(); PLAN["C05"]["prep"] = locale_prep
PLAN["C08"]["prep"] = PLAN["C15"]["prep"] = locale_prep
PLAN["C24"]["quick"] = hist_suite() + pick(alloc_suite(), "fault") + pick(pool_suite(), "many")
PLAN["C11"]["quick"] = hist_suite() + pick(alloc_suite(), "fault", "max")
PLAN["C08"]["quick"] = hist_suite() + pick(alloc_suite(), "fault", "max") + pick(errors_suite(), "setters") + LOCRUNS()
# faults and memory
add("C09", alloc_suite() + pick(hist_suite(), "hist") + pick(parse_suite(), "rnd"), alloc_suite(q=25) + deep_hist(q=6), ALLOC_RULE, level="fault_enumeration",
    assumptions=BASE + ["a failing allocation is one that throws std::bad_alloc from the allocator or operator new"])
add("C10", stack_suite() + vg_suite(240) + parse_suite("asan", q=.2, stride=3) + hist_suite("asan", q=.25, stride=5) + alloc_suite("asan", q=.15) + pool_suite("asan", q=.25, stride=5) + pick(scheme_suite("asan", q=.2, stride=5), "pair", "names", "rnd") + pick(errors_suite("asan", q=.2), "throws", "setters"),
    parse_suite("asan", q=3, env={"VERIF_DEEP": "1"}) + hist_suite("asan", q=5) + alloc_suite("asan", q=3) + pool_suite("asan", q=3) + scheme_suite("asan") + errors_suite("asan")
    + stack_suite(3) + vg_suite(4000),
    "evaluations: strings and operations executed under AddressSanitizer, UndefinedBehaviorSanitizer, guard pages, enabled assertions and a CPU-time watchdog; distinct_nontrivial as for the workloads (hash bitmap, lower bound); monitor_events: stretches of library code entered under these monitors",
    assumptions=BASE + ["ASan sees heap, stack and global accesses of the instrumented code; uninitialised reads are seen by valgrind and by runs with different memory contents (C15)"])
add("C17", [R("threads","share",320,"tsan",shards=8), R("threads","first",48,"tsan",shards=48)], [R("threads","share",6000,"tsan",shards=16), R("threads","first",512,"tsan",shards=512)],
    "evaluations: thread runs compared with the same work done by one thread; distinct_nontrivial: distinct (plan of a thread, case)",
    assumptions=["ThreadSanitizer's happens-before analysis of the executed accesses", "the schedules are those of 6 to 8 real threads on this machine"])
def configs(q, stride):
    r = []
    for f in CONFIGS:
        r += parse_suite(f, q=.15*q, stride=stride) + hist_suite(f, q=.15*q, stride=2*stride, probe=False) + alloc_suite(f, q=.1*q) + pool_suite(f, q=.1*q, stride=2*stride) + scheme_suite(f, q=.2*q, stride=stride) + errors_suite(f, q=.2*q)
    return r
add("C18", configs(1, 7), configs(6, 1), "evaluations: strings and operations judged, summed over the configurations; distinct_nontrivial: distinct ones (hash bitmap, lower bound)",
    assumptions=BASE + ["configurations explored: " + ", ".join(CONFIGS)], across=True)
add("C19", pool_suite(), pool_suite(q=25), "evaluations: allocation sequences and URL operations in a pool; distinct_nontrivial: distinct ones (hash bitmap, lower bound)", assumptions=BASE,
    exhaustive="pool/small: pools of 0-24 bytes x 16 alignments x every pair of requests over 7 types and 6 counts, including overflowing ones")
add("C20", scheme_suite() + [dict(r, **LOC) for r in scheme_suite(stride=2)] + pick(hist_suite(), "hist"), scheme_suite(q=50) + [dict(r, **LOC) for r in scheme_suite(q=10)] + deep_hist(q=4),
    "evaluations: names looked up and URLs normalised; distinct_nontrivial: distinct groups of strings (hash bitmap, lower bound)", assumptions=BASE, prep=locale_prep,
    exhaustive="scheme/exh: every string of up to 3 bytes; scheme/pair: every byte at every pair of positions of every name")
add("C22", [R("cost","shape","all","cov"), R("cost","runs","all","cov"), R("cost","spare","all","cov")], [R("cost","shape","all","cov",env={"VERIF_DEEP":"1"}), R("cost","runs","all","cov",env={"VERIF_DEEP":"1"}), R("cost","shape","all","cov"), R("cost","runs","all","cov"), R("cost","spare","all","cov")],
    "evaluations: (shape, operation) measured at two lengths; distinct_nontrivial: distinct ones", assumptions=["work is measured as executed control-flow edges of the instrumented library and headers plus bytes handled by memmove, memcpy, memset, memcmp, memchr, strlen; work inside the allocator is not"])
add("C23", errors_suite() + pick(hist_suite(), "bytes", "hist") + pick(parse_suite(), "rnd"), errors_suite(q=20) + deep_hist(q=4) + pick(deep_parse(), "enum", "rnd"),
    "evaluations: codes, conditions and failing calls examined; distinct_nontrivial: distinct ones (hash bitmap, lower bound)", assumptions=BASE, exhaustive="errors/codes: every code from -40 up, against every library and generic condition value")
# searches steered by the library's own comparisons
for c in ("C01", "C02", "C03", "C04", "C12", "C14"):
    w = {"C01": "6hqpufso%", "C02": "6hqpufso", "C03": "66h", "C04": "%", "C12": "p", "C14": "q"}[c]
    PLAN[c]["quick"] = PLAN[c]["quick"] + guided_parse() + guided_parse({"C01": 60000, "C02": 20000, "C03": 120000}.get(c, 50000), 64, wrap=w) + guided_hist(6000)
    PLAN[c]["thorough"] = PLAN[c]["thorough"] + guided_parse(200000, 256) + guided_parse(300000, 256, wrap=w) + guided_hist(60000, 132)
def guided_alloc(n=4000, searches=33, flavor="guide"): return [R("alloc","guided",searches,flavor,env={"VERIF_EXECS": str(n)})]
def guided_scheme(n=40000, searches=16): return [R("scheme","guided",searches,"guide",env={"VERIF_EXECS": str(n)})]
PLAN["C09"]["quick"] = PLAN["C09"]["quick"] + guided_alloc(); PLAN["C09"]["thorough"] = PLAN["C09"]["thorough"] + guided_alloc(40000, 132)
PLAN["C20"]["quick"] = PLAN["C20"]["quick"] + guided_scheme(); PLAN["C20"]["thorough"] = PLAN["C20"]["thorough"] + guided_scheme(400000, 64)
PLAN["C21"]["quick"] = PLAN["C21"]["quick"] + guided_parse(); PLAN["C21"]["thorough"] = PLAN["C21"]["thorough"] + guided_parse(200000, 256)
FOCUS = {"C05": dict(FOCUS="plain"), "C13": dict(FOCUS="segments"), "C15": dict(TWINS="60"), "C16": dict(mode="gorder", FOCUS="setters"), "C24": dict(FOCUS="assign")}
for c in ("C05", "C06", "C07", "C08", "C11", "C13", "C15", "C16", "C24"):
    f = FOCUS.get(c, {})
    PLAN[c]["quick"] = PLAN[c]["quick"] + guided_hist(12000 if f else 24000) + (guided_hist(12000, **f) if f else [])
    PLAN[c]["thorough"] = PLAN[c]["thorough"] + guided_hist(60000, 264) + (guided_hist(60000, 264, **f) if f else [])
PLAN["C10"]["quick"] = PLAN["C10"]["quick"] + guided_parse(6000, 32, "guide-asan") + guided_hist(4000, 33, "guide-asan") + guided_alloc(800, 33, "guide-asan")
PLAN["C10"]["thorough"] = PLAN["C10"]["thorough"] + guided_parse(60000, 128, "guide-asan") + guided_hist(40000, 132, "guide-asan") + guided_alloc(8000, 132, "guide-asan")
