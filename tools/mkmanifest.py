"""writes MANIFEST.json and known_findings.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
ids = [p.get("id") or p.get("property") for p in props]
LOCK = "the real library driven in lock step with an executable RFC 3986 reference model; online monitors compare every observable after every call"
T = {
 "C01": ("differential runtime oracle (independent RFC 3986 recogniser) over exhaustive small token families, byte sweeps and random mutants", "Every string of the enumerated families and every sampled one is judged by an independent recogniser; strings outside them are not covered."),
 "C02": ("differential runtime oracle over all component accessors of view and container", "All accessors compared with the reference on every accepted string, and after modification histories."),
 "C03": ("differential runtime oracle for host kinds over exhaustive octet and IPv6 token families, and after every host change", "IPv4 octets of up to 4 digits and IPv6 token words up to 5-8 tokens are exhaustive; the rest is sampled."),
 "C04": ("differential runtime oracle for percent-decoding, every escape in every component, every allocator form", "Every two-character escape in every component is exhaustive; longer texts are sampled."),
 "C05": (LOCK + "; every byte value through every plain setter", "Single bytes exhaustive per setter and base URL; longer values sampled."),
 "C06": (LOCK, "Exhaustive pairs of 58 modifications on all kinds of URL, plus random histories."),
 "C07": (LOCK + "; each result is re-parsed from scratch", "Exhaustive pairs plus random histories. Erasures whose result has no unambiguous spelling are a known finding and are probed, not explored."),
 "C08": (LOCK + "; rejected calls are compared before/after", "Acceptance sets exhaustive per byte; longer arguments sampled."),
 "C09": ("fault injection at every allocation of every operation with a tracking allocator and a failing operator new; state compared after each failure", "Every single failing position along each explored history; combinations of failures are consecutive retries on one object."),
 "C10": ("AddressSanitizer, UndefinedBehaviorSanitizer, guard pages, enabled assertions and a watchdog over all workloads; valgrind on a part of them", "No report on the executions explored."),
 "C11": (LOCK + "; allocator trace and buffer monitors", "Every step of the explored histories."),
 "C12": ("differential runtime oracle for segment lists, forward, backward and random walks, on view, const and mutable container", "Small paths exhaustive; long ones sampled."),
 "C13": (LOCK + " as a list of segments, with the returned iterator checked", "Every edit on every path of up to 3 segments over 4 spellings is exhaustive; longer histories sampled."),
 "C14": ("differential runtime oracle for parameter lists and lookups", "Small queries exhaustive; the rest sampled."),
 "C15": ("dual execution: a twin with other memory contents, capacity and history must be indistinguishable after every call", "Dependence on memory contents is seen when the two executions differ in an observable."),
 "C16": ("metamorphic runtime oracle: all permutations of setters, repeated setters", "All orders of the sampled sets of 2-4 setters."),
 "C17": ("ThreadSanitizer over threads sharing constant objects and using their own, including first use; results compared with one thread", "Happens-before races on executed accesses; schedules of real threads."),
 "C18": ("the same monitored workload in ten build configurations; any report that differs between them is a violation", "gcc/clang, static/shared/header-only/standalone, assertions on/off, -O0..-O3, signed/unsigned char."),
 "C19": ("shadow memory of every block a pool hands out, red zones around the buffer, URLs in pools against the model", "Pools of up to 24 bytes with pairs of requests exhaustive; sequences sampled."),
 "C20": ("differential runtime oracle over all strings of up to 3 bytes and all two-byte neighbours of every name, also in a Turkish locale", "Exhaustive near the names; longer strings sampled."),
 "C21": ("read-only and inaccessible pages around inputs, allocation counters, pointer-range and checksum monitors", "Every accessor on every explored URL."),
 "C22": ("cost monitor: executed edges and bytes moved at length n and 4n for every operation and shape", "Growth between two lengths on 5000 regular and 600 random shapes."),
 "C23": ("runtime oracle over all codes and conditions and over the exceptions of failing calls", "All code and condition values in range; exceptions of all explored failing calls."),
 "C24": (LOCK + "; source and target are modified after the assignment", "Assignments along the explored histories."),
}
for c in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C20 C21 C24".split(): T[c] = (T[c][0] + "; part of the workload is steered by the library's own comparisons", T[c][1])
LEVEL = {"C09": "fault_enumeration"}
checks = [dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i, technique=T[i][0], level=LEVEL.get(i, "exploration"), level_note=T[i][1]) for i in ids]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
  notes="No hooks in /repo: every monitor sits behind the public API (allocators, guard pages, twins, re-parsing) or in the compiler. The commits in /repo are repairs; see known_findings.json."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)

erase = [("/a//b","segments.erase(at 0)","//b"),("/a//b?q#f","segments.erase(at 0)","//b?q#f"),("s:/a//b","segments.erase(at 0)","s://b"),("/a/b//c","segments.erase(range)(at 0..2)","//c"),
 ("a/b:c","segments.erase(at 0)","b:c"),("a/b:c?q","segments.erase(at 0)","b:c?q"),("a//b:c","segments.erase(at 0)","b:c"),("x/y/b:c#f","segments.erase(range)(at 0..2)","b:c#f")]
F = [dict(property="C07", status="open", match='url("%s") ; %s => holds "%s", which parses differently' % e,
   what='%s on "%s" leaves "%s", which parses differently (erase is documented not to throw, so it cannot refuse)' % (e[1], e[0], e[2])) for e in erase]
fixed = """C01 5e0f2ce lower-case hexadecimal digits in escapes were rejected
C18 683ecb7 hex digits were looked up with a signed char
C01 672893e digits in a scheme were rejected
C01 7a2fefe an absolute path could start with an invalid character
C03 7759298 first octet of an IPv4 address inside an IPv6 literal
C03 5f84d07 IPvFuture literals were not recognised
C10 ec1e46b password_part tripped an assertion
C12 f3ef5e2 segment iterators ran beyond the end of the path
C14 8429edb query parameters did not end at '&' and at the end of the query
C14 f4c84a2 -- on a parameter iterator did not reach the first parameter
C03 7ccf206 the host type did not follow host changes and removals
C12 cbaf33e set_encoded_path did not update the number of segments
C14 97e2832 query setters did not update the number of parameters
C08 c2ea2e7 set_encoded_origin accepted text after the origin
C06 1754c3b set_encoded_userinfo did not split user and password
C06 a2460d3 set_userinfo_part("@") was mishandled
C10 493edf1 set_user("") without userinfo tripped an assertion
C08 9e3402f set_password_part accepted and rejected wrongly
C07 0087f44 set_port_part(":") left an inconsistent URL
C10 2320056 shrinking did not update the storage size
C11 1f27df3 the first buffer was not NUL-terminated
C09 02c928d the allocator's max_size was misused
C19 1bc1405 pool alignment padding could exceed the pool
C19 6b921ae pool count overflow
C24 247e8a0 assignment did not copy
C20 f7e7c7e scheme lookup depended on the locale
C07 9db2063 path changes that parse differently were accepted
C13 665028b a segment edit at the end returned an invalid iterator
C13 dd10a27 inserting into relative paths
C13 73d5746 replacing a segment lost it when allocation failed
C13 d66eb53 erasing the first segment of a relative path
C13 1528cb0 inserting after an empty first segment
C10 c0d4f15 erasing before an empty segment of a relative path tripped an assertion""".splitlines()
for l in fixed:
    p, c, w = l.split(" ", 2)
    F.append(dict(property=p, status="fixed", commit=c, what=w, line="fixed: property=%s %s %s" % (p, c, w)))
with open(os.path.join(H, "known_findings.json"), "w") as fh: json.dump({"findings": F}, fh, indent=1); fh.write("\n")
