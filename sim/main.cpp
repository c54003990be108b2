// Command line: list | run | replay | minimise. One forked child per simulated run.
#include "internal.hpp"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <regex>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;

static double wallclock() { timespec ts; raw_syscall(228, 1, (long)&ts); return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9; }
static bool g_keep_out = false;

static int execute(const Scenario& s, u64 seed, bool replay) {
    g_seed = seed; g_replay = replay;
    __atomic_store_n(&R->done, 0u, __ATOMIC_SEQ_CST);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0) {
        if (!g_keep_out) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); if (!g_verbose) dup2(n, 2); }
        alarm(240);
        start_run(s);
        _exit(9);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    u32 d = __atomic_load_n(&R->done, __ATOMIC_SEQ_CST);
    if (d == 0) {
        snprintf(R->sig, sizeof R->sig, "sim.lost"); snprintf(R->msg, sizeof R->msg, "child ended without a result (status %x)", (unsigned)st); R->hash = 0;
        return 0;
    }
    return (int)d;
}
static const Scenario* find(const std::string& n) { for (auto& s : scenarios()) if (n == s.name) return &s; return nullptr; }

struct Rep { std::string scn, sig, msg; u64 seed = 0, hash = 0; std::vector<u32> v[NS]; };
static std::string oneline(std::string s) { for (char& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
static void save(const Rep& r, const std::string& f) {
    std::ofstream o(f);
    o << "scenario " << r.scn << "\nseed " << r.seed << "\nhash " << std::hex << r.hash << std::dec << "\nsig " << r.sig << "\nmsg " << oneline(r.msg) << "\n";
    static const char* nm[] = {"cfg", "sched", "net", "fault", "work", "disk"};
    for (int i = 0; i < NS; ++i) { o << "stream " << nm[i] << ' ' << r.v[i].size(); for (u32 x : r.v[i]) o << ' ' << x; o << "\n"; }
}
static bool load(Rep& r, const std::string& f) {
    std::ifstream in(f); std::string line; int k = 0; if (!in) return false;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string w; is >> w;
        if (w == "scenario") is >> r.scn; else if (w == "seed") is >> r.seed; else if (w == "hash") is >> std::hex >> r.hash;
        else if (w == "sig") is >> r.sig; else if (w == "msg") std::getline(is, r.msg);
        else if (w == "stream") { std::string n; size_t c; is >> n >> c; r.v[k].resize(c); for (auto& x : r.v[k]) is >> x; ++k; }
    }
    return !r.scn.empty();
}
static void arm(const Rep& r) { for (int i = 0; i < NS; ++i) { R->rn[i] = (u32)r.v[i].size(); if (!r.v[i].empty()) memcpy(R->rv[i], r.v[i].data(), r.v[i].size() * 4); } }
static void grab(Rep& r) { for (int i = 0; i < NS; ++i) r.v[i].assign(R->ch[i], R->ch[i] + R->nch[i]); r.sig = R->sig; r.msg = R->msg; r.hash = R->hash; }
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o; }

static void minimise(Rep& best, double budget) {
    const Scenario* s = find(best.scn); double end = wallclock() + budget; int runs = 0;
    auto trim = [](Rep& r) { for (auto& v : r.v) while (!v.empty() && v.back() == 0) v.pop_back(); };
    auto attempt = [&](Rep& c) {
        if (wallclock() > end) return false;
        ++runs; arm(c);
        if (execute(*s, c.seed, true) != 2 || best.sig != R->sig) return false;
        Rep n; n.scn = best.scn; n.seed = best.seed; grab(n); trim(n);
        u64 a = 0, b = 0; for (int i = 0; i < NS; ++i) { a += n.v[i].size(); for (u32 x : n.v[i]) a += x ? 1 : 0; b += best.v[i].size(); for (u32 x : best.v[i]) b += x ? 1 : 0; }
        u64 sa = 0, sb = 0; for (int i = 0; i < NS; ++i) { for (u32 x : n.v[i]) sa += x; for (u32 x : best.v[i]) sb += x; }
        if (a < b || (a == b && sa < sb)) { best = n; return true; }
        return false;
    };
    trim(best);
    static const int order[] = {FAULT, SCHED, NET, DISK, CFG, WORK};
    for (bool progress = true; progress && wallclock() < end;) {
        progress = false;
        for (int i : order) {
            if (best.v[i].empty()) continue;
            { Rep c = best; c.v[i].clear(); if (attempt(c)) { progress = true; continue; } }
            for (size_t cut = best.v[i].size() / 2; cut >= 1 && wallclock() < end; cut /= 2) { while (best.v[i].size() > cut) { Rep c = best; c.v[i].resize(c.v[i].size() - cut); if (!attempt(c)) break; progress = true; } }
            for (size_t sz = best.v[i].size() / 2; sz >= 1 && wallclock() < end; sz /= 2)
                for (size_t o = 0; o < best.v[i].size() && wallclock() < end; o += sz) {
                    Rep c = best; bool any = false; for (size_t k = o; k < o + sz && k < c.v[i].size(); ++k) if (c.v[i][k]) { c.v[i][k] = 0; any = true; }
                    if (any && attempt(c)) progress = true;
                }
            for (size_t k = 0; k < best.v[i].size() && wallclock() < end; ++k) if (best.v[i][k] > 1) { Rep c = best; c.v[i][k] = 1; if (attempt(c)) { progress = true; continue; } c = best; c.v[i][k] /= 2; if (attempt(c)) progress = true; }
        }
    }
    fprintf(stderr, "minimise: %d runs\n", runs);
}

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); personality((unsigned long)pers | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
    R = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::map<std::string, std::string> o; std::vector<std::string> pos;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a.rfind("--", 0) == 0) { if (a == "--verbose" || a == "--stdout") o[a.substr(2)] = "1"; else if (i + 1 < argc) o[a.substr(2)] = argv[++i]; } else pos.push_back(a); }
    auto num = [&](const char* k, u64 d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 0) : d; };
    g_verbose = o.count("verbose"); g_keep_out = o.count("stdout"); if (g_keep_out) setvbuf(stdout, nullptr, _IONBF, 0);
    std::string cmd = pos.empty() ? "list" : pos[0];
    if (o.count("cpu")) { cpu_set_t c; CPU_ZERO(&c); CPU_SET(num("cpu", 0), &c); sched_setaffinity(0, sizeof c, &c); }
    if (cmd == "list") { for (auto& s : scenarios()) printf("%s %s\n", s.prop, s.name); return 0; }
    if (cmd == "run") {
        const Scenario* s = find(o["scenario"]); if (!s) { fprintf(stderr, "no such scenario\n"); return 3; }
        u64 base = num("seed-base", 1), from = num("from", 0), step = num("step", 1), maxr = num("max-runs", 100); double T = (double)num("time-ms", 60000) / 1000, t0 = wallclock();
        std::vector<std::pair<std::string, std::regex>> known;     // sig, message pattern
        if (o.count("known")) { std::ifstream k(o["known"]); std::string l; while (std::getline(k, l)) { auto p = l.find('\t'); if (p != std::string::npos) known.push_back({l.substr(0, p), std::regex(l.substr(p + 1))}); } }
        u64 runs = 0, simns = 0, nsync = 0, nmem = 0, nsw = 0, nops = 0, dbl = 0; std::map<std::string, u64> names; std::set<u64> hashes; std::map<u64, u64> knownhits; std::vector<std::string> samples; int rc = 0; std::string viol; u64 maxsim = 0, maxthr = 0;
        for (u64 i = from; runs < maxr && wallclock() - t0 < T; i += step) {
            u64 seed = base * 1000003ull + i;
            int d = execute(*s, seed, false); ++runs;
            if (d == 0) { rc = 3; viol = R->msg; break; }
            u64 h = R->hash;
            simns += R->simns; nsync += R->nsync; nmem += R->nmem; nsw += R->nswitch; nops += R->nops; if (R->simns > maxsim) maxsim = R->simns; if (R->nthreads > maxthr) maxthr = R->nthreads;
            for (u32 k = 0; k < R->nnames; ++k) names[R->names[k].name] += R->names[k].n;
            hashes.insert(h); if (samples.size() < 3 && R->sampleTxt[0]) samples.push_back(std::string("seed ") + std::to_string(seed) + ": " + R->sampleTxt);
            if (d == 2) {
                std::string sig = R->sig, msg = R->msg; bool kn = false; u64 ki = 0;
                for (auto& [a, b] : known) { if ((a == "*" || a == sig) && std::regex_search(msg, b)) { kn = true; ++knownhits[ki]; break; } ++ki; }
                if (sig.rfind("sim.", 0) == 0 || sig.rfind("harness.", 0) == 0) { rc = 3; viol = sig + ": " + msg + " seed " + std::to_string(seed); fprintf(stderr, "ERROR %s\n", viol.c_str()); break; }
                if (!kn) { Rep r; r.scn = s->name; r.seed = seed; grab(r); if (o.count("replay-out")) save(r, o["replay-out"]); fprintf(stderr, "VIOLATION scenario=%s seed=%llu sig=%s msg=%s\n", s->name, (unsigned long long)seed, sig.c_str(), oneline(msg).c_str()); rc = 1; viol = sig + ": " + msg; break; }
            }
            if (runs <= 1 || runs % 64 == 0) { ++dbl; int d2 = execute(*s, seed, false); if (d2 != d || R->hash != h) { rc = 3; viol = "nondeterministic: seed " + std::to_string(seed); fprintf(stderr, "ERROR %s (%d/%d %llx/%llx)\n", viol.c_str(), d, d2, (unsigned long long)h, (unsigned long long)R->hash); break; } }
        }
        double el = wallclock() - t0;
        FILE* f = o.count("out") ? fopen(o["out"].c_str(), "w") : stdout;
        fprintf(f, "{\"scenario\":\"%s\",\"rc\":%d,\"runs\":%llu,\"elapsed\":%.3f,\"sim_ns\":%llu,\"max_sim_ns\":%llu,\"max_threads\":%llu,\"sync\":%llu,\"mem\":%llu,\"switches\":%llu,\"ops\":%llu,\"doubled\":%llu,\"viol\":\"%s\",", s->name, rc, (unsigned long long)runs, el, (unsigned long long)simns, (unsigned long long)maxsim, (unsigned long long)maxthr, (unsigned long long)nsync, (unsigned long long)nmem, (unsigned long long)nsw, (unsigned long long)nops, (unsigned long long)dbl, jesc(viol).c_str());
        fprintf(f, "\"names\":{"); bool fst = true; for (auto& [k, v] : names) { fprintf(f, "%s\"%s\":%llu", fst ? "" : ",", jesc(k).c_str(), (unsigned long long)v); fst = false; }
        fprintf(f, "},\"known_hits\":{"); fst = true; for (auto& [k, v] : knownhits) { fprintf(f, "%s\"%llu\":%llu", fst ? "" : ",", (unsigned long long)k, (unsigned long long)v); fst = false; }
        fprintf(f, "},\"samples\":["); fst = true; for (auto& x : samples) { fprintf(f, "%s\"%s\"", fst ? "" : ",", jesc(x).c_str()); fst = false; }
        fprintf(f, "],\"hashes\":["); fst = true; for (u64 h : hashes) { fprintf(f, "%s\"%llx\"", fst ? "" : ",", (unsigned long long)h); fst = false; }
        fprintf(f, "]}\n"); if (f != stdout) fclose(f);
        return rc;
    }
    if (cmd == "seed") {   // one run of one seed, optionally verbose
        const Scenario* s = find(o["scenario"]); if (!s) return 3;
        int d = execute(*s, num("seed", 1), false);
        printf("%s seed=%llu done=%d sig=%s hash=%llx sim=%.6fs threads=%llu sync=%llu mem=%llu ops=%llu sample=%s msg=%s\n", s->name, (unsigned long long)num("seed", 1), d, R->sig, (unsigned long long)R->hash, (double)R->simns / 1e9, (unsigned long long)R->nthreads, (unsigned long long)R->nsync, (unsigned long long)R->nmem, (unsigned long long)R->nops, R->sampleTxt, R->msg);
        for (u32 k = 0; k < R->nnames; ++k) printf("  %s=%llu", R->names[k].name, (unsigned long long)R->names[k].n); printf("\n");
        if (o.count("replay-out")) { Rep r; r.scn = s->name; r.seed = num("seed", 1); grab(r); save(r, o["replay-out"]); }
        return d == 1 ? 0 : d == 2 ? 1 : 3;
    }
    if (cmd == "replay" || cmd == "minimise") {
        Rep r; if (pos.size() < 2 || !load(r, pos[1])) { fprintf(stderr, "cannot read replay file\n"); return 3; }
        const Scenario* s = find(r.scn); if (!s) return 3;
        if (cmd == "minimise") {
            minimise(r, (double)num("time-ms", 20000) / 1000);
            arm(r); int d = execute(*s, r.seed, true); r.hash = R->hash; r.msg = R->msg;
            if (d != 2 || r.sig != R->sig) { fprintf(stderr, "minimised file does not reproduce\n"); return 3; }
            save(r, pos.size() > 2 ? pos[2] : pos[1]); return 0;
        }
        arm(r); int d = execute(*s, r.seed, true);
        bool same = d == 2 && r.sig == R->sig && r.hash == R->hash;
        printf("replay %s: %s sig=%s hash=%llx %s\n  %s\n", pos[1].c_str(), d == 2 ? "violation" : d == 1 ? "no violation" : "error", R->sig, (unsigned long long)R->hash, same ? "(exactly as recorded)" : "(differs from the recording)", R->msg);
        return same ? 1 : d == 2 ? 2 : d == 1 ? 0 : 3;
    }
    return 3;
}
