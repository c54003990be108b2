#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the scenarios present in scn/."""
import glob, json, os, re
V = os.path.dirname(os.path.abspath(__file__))
NA = {
 "N01": "JSON and reflection are pure single-threaded functions of their input: no schedule, clock, I/O, crash or second party exists for a simulator to vary, so simulation would degenerate to input sampling.",
 "N02": "Base64, SHA-1, perfect hash maps, radix lookup and URL decomposition are pure functions: nothing nondeterministic for a simulator to control (what the HTTP, WebSocket and proxy paths use of them is exercised end to end by C10, C12, C14, C22 and C25).",
 "N03": "SQL text generation is a pure function of an expression and is done at compile time for the most part; no concurrency, time or fault is involved.",
}
NOTE = {}
checks, na = [], []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA: na.append(dict(property=p, reason=NA[p])); continue
    src = sorted(glob.glob(f"{V}/scn/{p.lower()}.cpp"))
    if not src: na.append(dict(property=p, reason="No check has been built for this property yet.")); continue
    n = sum(len(re.findall(r"^\s*SIM_SCENARIO", open(s).read(), re.M)) for s in src)
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough", evidence_file=f"evidence/{p}.json",
        technique="deterministic simulation with fault injection: seeded search over schedules, I/O completions and faults, real library code on a simulated kernel",
        level="exploration",
        level_note=f"Seeded search over {n} scenario(s); the real headers and the real liburing run on simulated threads, clocks, io_uring, TCP and disk, every run is repeatable from its seed. No exhaustiveness is claimed. Trusts the kernel/TCP/scheduling models in sim/ and the oracles in {os.path.basename(src[0])}; memory is sequentially consistent in the simulator." + NOTE.get(p, "")))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
    notes="No hooks are added to /repo: every source of nondeterminism is reached by interposing libc/pthread symbols, compiling the bundled liburing with its system calls redirected, and compiling the harness with the thread-sanitizer instrumentation answered by the simulator's own runtime."), open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
