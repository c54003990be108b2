#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   run the simulation check of one property
   check.py --setup                            compile the simulator and every harness once (warms nothing that a check relies on)
   check.py --replay FILE [--verbose]          re-execute a recorded violation against the current tree

Everything is compiled from the current working tree of /repo into a scratch directory that is removed afterwards."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HX_REPO", "/repo")
CXX = "/usr/bin/clang++-20" if os.path.exists("/usr/bin/clang++-20") else "clang++"
JOBS = min(8, os.cpu_count() or 8)
# simulated runs per scenario: (quick, thorough); SECONDS bounds one scenario's search
RUNS = {"default": (6000, 400000)}
RUNS.update({"future_chains": (8000, 400000), "no_starvation": (3000, 100000),
    "requests": (3000, 60000), "faulty_clients": (2400, 60000), "lifecycle": (2400, 60000), "https_lifecycle": (1500, 60000), "server_class": (4000, 100000), "huge_files": (4000, 100000), "responses": (5000, 200000), "connections": (6000, 200000), "messages": (5000, 200000), "control": (5000, 200000), "broken": (8000, 300000), "executor": (8000, 300000), "scoped": (8000, 300000),
    "downloads": (6000, 200000), "changing_files": (6000, 200000), "saved_bodies": (6000, 200000), "client_uploads": (4000, 100000),
    "event_streams": (8000, 200000), "pushed_streams": (8000, 200000), "pool_batches": (5000, 100000), "pool_callers": (5000, 100000),
    "socks5": (10000, 300000), "http_connect": (8000, 300000), "socks5_neterr": (4000, 100000), "http_connect_neterr": (4000, 100000),
    "tls_bytes": (8000, 200000), "https_neighbours": (3000, 60000), "https_neterr": (2500, 60000), "wss_echo": (2500, 60000),
    "trust": (4000, 200000), "chat_streams": (8000, 300000), "chat_answers": (6000, 300000), "tokens": (6000, 400000), "store": (6000, 300000), "contention": (2400, 100000)})
SECONDS = {"quick": 45, "thorough": 900}
REAL = ["HXLibs headers under test (compiled from /repo's working tree)", "bundled liburing (lib/liburing/liburing.cpp, system calls redirected)", "libstdc++", "OpenSSL (C23 and C25 only)", "SQLite library (C24 only)"]
STUB = ["Linux kernel: io_uring, TCP sockets, files below /simfs (model in sim/kernel.cpp)", "pthread scheduling, mutexes, condition variables, futexes (sim/sched.cpp)", "clocks, sleeping, randomness", "getaddrinfo", "disk below SQLite (sqlite3_vfs in scn/simsqlite.hpp, C24 only)", "random generator and allocator below OpenSSL (C25 only)"]

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
COMMON = ["-std=c++20", "-gline-tables-only", "-fno-omit-frame-pointer", "-fno-pie", "-w"]
def harness_flags(): return COMMON + ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-ftrivial-auto-var-init=pattern", "-DNDEBUG", "-DHXLIBS_ENABLE_SSL", "-D_GLIBCXX_EXTERN_TEMPLATE=0", f"-I{V}/sim", f"-I{REPO}/include", f"-I{REPO}/lib/liburing/include"]

def build(prop, d):
    src = f"{V}/scn/{prop.lower()}.cpp"
    jobs = [("uring", ["bash", f"{V}/sim/liburing.sh", REPO, f"{d}/uring.o"])]
    for f in ("sched", "heap", "kernel", "main"):
        jobs.append((f, [CXX] + COMMON + ["-O2", f"-I{REPO}/lib/liburing/include", "-c", f"{V}/sim/{f}.cpp", "-o", f"{d}/{f}.o"]))
    parts = sorted(glob.glob(f"{V}/scn/{prop.lower()}.cpp") + glob.glob(f"{V}/scn/{prop.lower()}_*.cpp"))
    for p in parts:
        jobs.append((p, [CXX] + harness_flags() + ["-c", p, "-o", f"{d}/scn_{os.path.basename(p)}.o"]))
    env = dict(os.environ, TMPDIR=d)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (n, _), r in zip(jobs, ex.map(lambda j: sh(j[1], env=env), jobs)):
            if r.returncode: sys.stdout.write(r.stdout[-6000:]); print(f"ERROR: cannot build {n}"); sys.exit(2)
    r = sh([CXX, "-no-pie", "-rdynamic"] + glob.glob(f"{d}/*.o") + ["-o", f"{d}/sim", "-lpthread", "-ldl", "-lssl", "-lcrypto", "-lsqlite3"], env=env)
    if r.returncode: sys.stdout.write(r.stdout[-6000:]); print("ERROR: cannot link"); sys.exit(2)
    return f"{d}/sim"

def known(prop):
    out = []
    f = f"{V}/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) scenario=(\S+) sig=(\S+) match=/(.*?)/ :: (.*)", l)
            if m and m.group(1) == prop: out.append(dict(scenario=m.group(2), sig=m.group(3), match=m.group(4), text=m.group(5).strip()))
    return out

def symbolise(binary, msg):
    ads = sorted(set(re.findall(r"\b0x4[0-9a-f]{5}\b", msg)))
    if not ads: return msg
    r = sh(["addr2line", "-Cfpe", binary] + ads)
    if r.returncode: return msg
    for a, l in zip(ads, r.stdout.splitlines()):
        l = re.sub(r"<.*>", "<>", l); msg = msg.replace(a, l[:160])
    return msg

def run_property(prop, tier):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1"))
    d = tempfile.mkdtemp(prefix="hxsim-")
    rc = 2
    try: rc = explore(prop, tier, seed, d, t0)
    finally: shutil.rmtree(d, ignore_errors=True)
    return rc

def explore(prop, tier, seed, d, t0):
    binary = build(prop, d); tb = time.time() - t0
    os.makedirs(f"{V}/evidence", exist_ok=True); os.makedirs(f"{V}/replays", exist_ok=True)
    scns = [l.split()[1] for l in sh([binary, "list"]).stdout.splitlines() if l.split()[0] == prop]
    if not scns: print("ERROR: no scenario for " + prop); return 2
    kn = known(prop); total = {}; rc = 0; viol = None; hashes = set(); names = {}; samples = []; per = {}; knhits = [0] * len(kn); agg = dict(runs=0, sim_ns=0, sync=0, mem=0, switches=0, ops=0, doubled=0, cpu=0.0)
    maxsim = 0; maxthr = 0; t1 = time.time()
    for s in scns:
        n = RUNS.get(s, RUNS["default"])[0 if tier == "quick" else 1]
        ki = [i for i, k in enumerate(kn) if k["scenario"] in ("*", s)]
        kf = f"{d}/known"; open(kf, "w").write("".join(f"{kn[i]['sig']}\t{kn[i]['match']}\n" for i in ki))
        ps = []
        for w in range(JOBS):
            cmd = [binary, "run", "--scenario", s, "--seed-base", str(seed), "--from", str(w), "--step", str(JOBS), "--max-runs", str((n + JOBS - 1) // JOBS), "--time-ms", str(SECONDS[tier] * 1000), "--out", f"{d}/o{w}", "--replay-out", f"{d}/r{w}", "--known", kf]
            ps.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
        found = []; err = None
        pend = dict(enumerate(ps))
        while pend:
            for w, p in list(pend.items()):
                if p.poll() is None: continue
                del pend[w]
                e = p.stderr.read()
                if p.returncode == 1: found.append(w)
                elif p.returncode != 0: err = e[-2000:] or f"worker ended with status {p.returncode}"
            if err: break
            if found and len(pend) > 0:
                t2 = time.time()
                while pend and time.time() - t2 < 3:
                    for w, p in list(pend.items()):
                        if p.poll() is not None:
                            del pend[w]
                            if p.returncode == 1: found.append(w)
                    time.sleep(0.05)
                for p in pend.values(): p.kill()
                for p in pend.values(): p.wait()
                pend = {}
            time.sleep(0.02)
        for p in ps:
            if p.poll() is None: p.kill(); p.wait()
        sr = 0
        for w in range(JOBS):
            try: o = json.load(open(f"{d}/o{w}"))
            except Exception: continue
            sr += o["runs"]; agg["runs"] += o["runs"]; agg["sim_ns"] += o["sim_ns"]; agg["cpu"] += o["elapsed"]
            for k in ("sync", "mem", "switches", "ops", "doubled"): agg[k] += o[k]
            for k, v in o["names"].items(): names[k] = names.get(k, 0) + v
            for k, v in o["known_hits"].items(): knhits[ki[int(k)]] += v
            hashes.update(o["hashes"]); maxsim = max(maxsim, o["max_sim_ns"]); maxthr = max(maxthr, o["max_threads"])
            if w == 0: samples += [f"{s}: {x}" for x in o["samples"]]
            os.remove(f"{d}/o{w}")
        per[s] = sr
        if err: print(f"ERROR in scenario {s}: {err}"); rc = 2; break
        if found:
            w = sorted(found)[0]; rf = f"{V}/replays/{prop}-{s}.replay"; full = f"{V}/replays/{prop}-{s}.full.replay"
            shutil.copy(f"{d}/r{w}", full)
            a = sh([binary, "replay", full])
            if a.returncode != 1: print(f"ERROR: recorded violation does not replay exactly: {a.stdout[-1500:]}"); rc = 2; break
            m = sh([binary, "minimise", full, rf, "--time-ms", "15000" if tier == "quick" else "90000"])
            if m.returncode != 0: shutil.copy(full, rf)
            b = sh([binary, "replay", rf])
            if b.returncode != 1: shutil.copy(full, rf); b = sh([binary, "replay", rf])
            if b.returncode != 1: print(f"ERROR: violation does not replay: {b.stdout[-1500:]}"); rc = 2; break
            print(symbolise(binary, b.stdout.strip()))
            sig = re.search(r"sig=(\S+)", b.stdout); viol = dict(scenario=s, sig=sig.group(1) if sig else "", replay=rf)
            print(f"VIOLATION property={prop} replay={rf}"); rc = 1; break
    search = time.time() - t1
    for i, k in enumerate(kn):
        print(f"KNOWN-FINDING: property={prop} {k['text']} (reached in {knhits[i]} of {agg['runs']} runs)")
    cov = dict(evaluations=agg["runs"], distinct_nontrivial=len(hashes),
        rule="one evaluation is one simulated execution of a scenario under one seed; it is distinct if its trace hash (every context switch, I/O completion, injected fault, note and their simulated times) differs from all others of this run. Runs repeated for the determinism gate are not counted.",
        samples=samples[:6], scenarios=per, runs_per_hour=int(agg["runs"] / search * 3600) if search else 0, seeds_per_hour=int(agg["runs"] / search * 3600) if search else 0,
        simulated_seconds=round(agg["sim_ns"] / 1e9, 3), longest_run_simulated_seconds=round(maxsim / 1e9, 3), max_threads=maxthr,
        scheduling_points=agg["sync"], context_switches=agg["switches"], memory_access_checks=agg["mem"], io_operations=agg["ops"],
        faults_injected={k[2:]: v for k, v in sorted(names.items()) if k.startswith("f:")}, rare_conditions_reached={k[2:]: v for k, v in sorted(names.items()) if k.startswith("p:")},
        determinism_double_runs=agg["doubled"], real_components=REAL, stubbed_components=STUB, build_seconds=round(tb, 1), search_seconds=round(search, 1))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=["the kernel, TCP and scheduling models in /verif/sim are faithful where the scenarios rely on them (DESIGN.md)", "memory is sequentially consistent: weak-memory reorderings are not explored"], wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0)
    if viol: ev["coverage"]["violation"] = viol
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop}: {agg['runs']} runs, {len(hashes)} distinct, {agg['sim_ns'] / 1e9:.0f} simulated s, build {tb:.1f}s, search {search:.1f}s, exit {rc}")
    return rc

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for t in (CXX, "addr2line", "bash"):
            if not shutil.which(t): print("missing " + t); sys.exit(1)
        print("ok: checks compile what they need from " + REPO); sys.exit(0)
    if a and a[0] == "--replay":
        scn = re.search(r"^scenario (\S+)", open(a[1]).read(), re.M).group(1)
        prop = next((os.path.basename(p).split(".")[0].split("_")[0].upper() for p in glob.glob(f"{V}/scn/*.cpp") if re.search(r"SIM_SCENARIO\(\"\w+\", %s\)" % scn, open(p).read())), None)
        d = tempfile.mkdtemp(prefix="hxsim-")
        try:
            b = build(prop, d); r = sh([b, "replay", a[1]] + a[2:]); print(symbolise(b, r.stdout)); sys.exit(r.returncode)
        finally: shutil.rmtree(d, ignore_errors=True)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    sys.exit(run_property(a[0], tier))
main()
