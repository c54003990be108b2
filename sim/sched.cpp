// Scheduler, clock, random choices and the interposed threading primitives.
#include "internal.hpp"
#include <atomic>
#include <climits>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <cxxabi.h>
#include <linux/futex.h>
#include <random>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

namespace sim {

Report* R = nullptr;
bool g_replay = false, g_active = false, g_verbose = false;
u64  g_seed = 0;
int  g_in_sim = 0;
Cfg  cfg;

static u64 g_now = 0, g_hash = 1469598103934665603ull;
static std::int64_t g_wall_off = 1700000000ll * 1000000000ll;
static u64 g_nsync = 0, g_nmem = 0, g_nswitch = 0, g_since = 0;
static std::int64_t g_gap = INT64_MAX;
static std::vector<Thr*> g_thr;
static Thr* g_cur = nullptr;
static pthread_key_t g_key;
static u64 g_dl = ~0ull; static const char *g_dl_sig = "", *g_dl_what = "";
static u64 g_bseq = 0;
constexpr u64 HARD_SIM = 6ull * 3600 * SEC;
constexpr u64 MAX_SYNC = 10000000ull, MAX_MEM = 400000000ull;

struct Ev { u64 t, seq; std::function<void()> f; };
struct EvLess { bool operator()(Ev* a, Ev* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev*, std::vector<Ev*>, EvLess>* g_ev;
static u64 g_evseq = 0;

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
Thr* cur() { return g_cur; }
std::vector<Thr*>& threads() { return g_thr; }

// ---------------------------------------------------------------- raw syscalls
long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    long ret;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static void fwait(u32* p, u32 v) { raw_syscall(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(u32* p) { raw_syscall(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

// ---------------------------------------------------------------- randomness
static inline u64 splitmix(u64& x) { u64 z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static u64 g_st[NS], g_strnd;
static void seed_streams(u64 seed) {
    for (int i = 0; i < NS; ++i) { u64 x = seed * 0x2545F4914F6CDD1Dull + (u64)i * 0x9E3779B97F4A7C15ull; splitmix(x); g_st[i] = splitmix(x); }
    u64 x = seed ^ 0xD1B54A32D192ED03ull; g_strnd = splitmix(x);
}
u32 choose(Stream s, u32 n) {
    if (n <= 1) return 0;
    u32 v, k = R->nch[s];
    if (g_replay) v = k < R->rn[s] ? R->rv[s][k] % n : 0;
    else v = (u32)(((splitmix(g_st[s]) >> 32) * (u64)n) >> 32);
    if (k < MAXC) { R->ch[s][k] = v; R->nch[s] = k + 1; }
    else fail("sim.limit", "too many choices in stream %d", (int)s);
    return v;
}
bool chance(Stream s, u32 pm) {
    if (!pm) return false;
    u32 k = R->nch[s], v;
    if (g_replay) v = k < R->rn[s] ? (R->rv[s][k] ? 1 : 0) : 0;
    else v = (splitmix(g_st[s]) >> 32) % 1000 < pm;
    if (k < MAXC) { R->ch[s][k] = v; R->nch[s] = k + 1; }
    else fail("sim.limit", "too many choices in stream %d", (int)s);
    return v;
}
u64 rnd64() { return splitmix(g_strnd); }
u64 fnv(std::string_view s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
std::string payload(u64 tag, u64 n) {
    std::string s; s.resize(n); u64 x = tag * 0x9E3779B97F4A7C15ull + 12345;
    for (u64 i = 0; i < n; i += 8) { u64 v = splitmix(x); for (u64 j = 0; j < 8 && i + j < n; ++j) s[i + j] = (char)(v >> (8 * j)); }
    return s;
}

// ---------------------------------------------------------------- trace / outcome
static inline void hmix(u64 v) { g_hash = (g_hash ^ v) * 1099511628211ull; g_hash ^= g_hash >> 29; }
void tr(const char* what, u64 a, u64 b, u64 c) {
    for (const char* p = what; *p; ++p) hmix((unsigned char)*p);
    hmix(a); hmix(b); hmix(c); hmix(g_now);
    if (g_verbose) { char buf[256]; int n = snprintf(buf, sizeof buf, "[%12.9f t%d] %s %lld %lld %lld\n", g_now / 1e9, g_cur ? g_cur->id : 0, what, (long long)a, (long long)b, (long long)c); raw_syscall(SYS_write, 2, (long)buf, n); }
}
static void bump(const char* pfx, const char* name) {
    char full[56]; snprintf(full, sizeof full, "%s%s", pfx, name);
    for (u32 i = 0; i < R->nnames; ++i) if (!strcmp(R->names[i].name, full)) { ++R->names[i].n; return; }
    if (R->nnames < 160) { strcpy(R->names[R->nnames].name, full); R->names[R->nnames++].n = 1; }
}
void probe(const char* n) { bump("p:", n); }
void fault(const char* n) { bump("f:", n); tr(n); }
void note(const char* fmt, ...) {
    InSim _;
    char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    hmix(fnv(buf)); hmix(g_now);
    if (g_verbose) { char b2[1200]; int n = snprintf(b2, sizeof b2, "[%12.6f t%d] ## %s\n", g_now / 1e9, g_cur ? g_cur->id : 0, buf); raw_syscall(SYS_write, 2, (long)b2, n); }
}
void sample(const char* fmt, ...) {
    if (R->sampleTxt[0]) return;
    va_list ap; va_start(ap, fmt); vsnprintf(R->sampleTxt, sizeof R->sampleTxt, fmt, ap); va_end(ap);
}
[[noreturn]] static void finish_run(u32 done) {
    R->hash = g_hash; R->simns = g_now; R->nsync = g_nsync; R->nmem = g_nmem; R->nswitch = g_nswitch; R->nthreads = g_thr.size();
    __atomic_store_n(&R->done, done, __ATOMIC_SEQ_CST);
    for (;;) raw_syscall(SYS_exit_group, 0);
}
static std::string* g_lasttrace;
[[noreturn]] void fail(const char* sig, const char* fmt, ...) {
    ++g_in_sim;
    snprintf(R->sig, sizeof R->sig, "%s", sig);
    va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
    hmix(fnv(sig));
    if (g_verbose) { fprintf(stderr, "!! %s: %s\n", sig, R->msg); }
    finish_run(2);
}

std::string symbolize(void* pc) {
    Dl_info di; char buf[512];
    if (dladdr(pc, &di) && di.dli_sname) {
        int st; char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        std::string s = d ? d : di.dli_sname; free(d);
        std::string o; int depth = 0;   // drop template arguments for brevity
        for (char c : s) { if (c == '<') { if (!depth++) o += "<>"; } else if (c == '>') { if (depth) --depth; } else if (!depth) o += c; }
        if (o.size() > 90) o.resize(90);
        return o;
    }
    snprintf(buf, sizeof buf, "%p", pc); return buf;
}
static bool stack_ok(const void* p) {
    auto a = (std::uintptr_t)p;
    return a >= STACK_BASE && a < STACK_BASE + 8192 * STACK_SLOT && (a % STACK_SLOT) < STACK_SIZE;
}
std::string backtrace_str(void** fp, void* pc, int max) {
    InSim _;
    std::string s = pc ? symbolize(pc) : "";
    for (int i = 0; i < max && stack_ok(fp) && stack_ok(fp + 1); ++i) {
        void* ra = fp[1]; if (!ra) break;
        s += " < " + symbolize(ra);
        void** n = (void**)fp[0]; if (n <= fp) break; fp = n;
    }
    return s;
}

// ---------------------------------------------------------------- time and events
u64 now() { return g_now; }
u64 wall() { return g_now + (u64)g_wall_off; }
void jump_wall(std::int64_t d) { g_wall_off += d; tr("wall-jump", (u64)d); }
void at(u64 t, std::function<void()> f) { InSim _; g_ev->push(new Ev{t < g_now ? g_now : t, ++g_evseq, std::move(f)}); }
void after(u64 d, std::function<void()> f) { at(g_now + d, std::move(f)); }
static void run_due() {
    while (!g_ev->empty() && g_ev->top()->t <= g_now) {
        InSim _; Ev* e = g_ev->top(); g_ev->pop(); e->f(); delete e;
    }
}
std::string thread_dump() {
    InSim _; std::string s; char b[160];
    for (Thr* t : g_thr) { if (t->st == T_DONE) continue;
        snprintf(b, sizeof b, "t%d:%s%s%s ", t->id, t->st == T_RUNNABLE ? "run" : "blocked", t->st == T_BLOCKED ? "@" : "", t->st == T_BLOCKED ? t->why : ""); s += b; }
    return s;
}
static void check_limits() {
    if (g_now > g_dl) { g_dl = ~0ull; fail(g_dl_sig, "%s: not finished within the bound (t=%.3fs); threads: %s", g_dl_what, g_now / 1e9, thread_dump().c_str()); }
    if (g_now > HARD_SIM) fail("hang.simtime", "simulated time limit; threads: %s", thread_dump().c_str());
}
void deadline(u64 d, const char* sig, const char* what) { g_dl = g_now + d; g_dl_sig = sig; g_dl_what = what; }
void clear_deadline() { g_dl = ~0ull; }

// ---------------------------------------------------------------- scheduling
static void draw_gap() {
    if (!cfg.sched_gap) { g_gap = INT64_MAX; return; }
    u32 v = choose(SCHED, cfg.sched_gap * 2 + 1);
    g_gap = v ? v : INT64_MAX;
}
static void park(Thr* t) { while (__atomic_load_n(&t->tok, __ATOMIC_SEQ_CST) == 0) fwait(&t->tok, 0); __atomic_store_n(&t->tok, 0, __ATOMIC_SEQ_CST); }
static void handoff(Thr* n) { g_cur = n; __atomic_store_n(&n->tok, 1, __ATOMIC_SEQ_CST); fwake(&n->tok); }

static struct { pthread_key_t k; void (*d)(void*); } g_keys[64]; static u32 g_nkeys;
static void key_destructors() { for (bool more = true; more;) { more = false; for (u32 i = 0; i < g_nkeys; ++i) if (void* v = pthread_getspecific(g_keys[i].k)) { more = true; pthread_setspecific(g_keys[i].k, nullptr); g_keys[i].d(v); } } }

enum How { BLOCK, PREEMPT, YIELD, EXIT, FORCE };
static void switch_away(Thr* me, How how) {
    Thr* next = nullptr;
    for (;;) {
        run_due(); check_limits();
        static Thr* list[8192]; u32 n = 0;
        u32 N = (u32)g_thr.size();
        if (how == PREEMPT && me->st == T_RUNNABLE) list[n++] = me;
        for (u32 i = 1; i < N; ++i) { Thr* t = g_thr[((u32)me->id - 1 + i) % N]; if (t->st == T_RUNNABLE) list[n++] = t; }
        if (how != PREEMPT && me->st == T_RUNNABLE) list[n++] = me;
        if (n) { next = list[(n > 1 && how != FORCE) ? choose(SCHED, n) : 0]; break; }
        if (g_ev->empty()) fail("hang.deadlock", "every thread is blocked and nothing is pending: %s", thread_dump().c_str());
        if (g_ev->top()->t > g_now) g_now = g_ev->top()->t;
    }
    g_since = 0;
    draw_gap();
    if (next == me) return;
    ++g_nswitch; tr("switch", (u64)next->id);
    if (how == EXIT) { InSim _; key_destructors(); }     // of what the events above left on this thread
    handoff(next);
    if (how != EXIT) park(me);
}
void make_runnable(Thr* t, bool timedout) { if (t->st == T_BLOCKED) { t->st = T_RUNNABLE; t->timedout = timedout; } }
bool block_on(const char* why, const void* addr, u64 dl) {
    Thr* me = g_cur;
    me->st = T_BLOCKED; me->why = why; me->waddr = addr; me->timedout = false; me->bseq = ++g_bseq;
    if (dl != ~0ull) { u64 bs = me->bseq; at(dl, [me, bs] { if (me->st == T_BLOCKED && me->bseq == bs) make_runnable(me, true); }); }
    switch_away(me, BLOCK);
    me->waddr = nullptr;
    return !me->timedout;
}
static void preempt() {
    Thr* me = g_cur;
    if (cfg.stall_pm && chance(FAULT, cfg.stall_pm)) {
        static const u64 d[] = {100 * US, 2 * MS, 50 * MS, 1500 * MS};
        fault("thread_stall");
        block_on("stalled", nullptr, g_now + d[choose(FAULT, 4)]);
        return;
    }
    switch_away(me, PREEMPT);
}
void tick(u64 ns) { g_now += ns; }
void sync_point() {
    if (!g_active || g_in_sim) return;
    ++g_nsync; g_now += 20;
    if (g_nsync > MAX_SYNC) fail("hang.spin", "no progress after %llu synchronisation events: %s", (unsigned long long)g_nsync, backtrace_str((void**)__builtin_frame_address(0), nullptr, 12).c_str());
    if (!g_ev->empty() && g_ev->top()->t <= g_now) run_due();
    check_limits();
    if (++g_since > 20000) { switch_away(g_cur, FORCE); return; }
    if (g_gap != INT64_MAX && --g_gap <= 0) preempt();
}
void mem_point() {
    if (!g_active || g_in_sim) return;
    if (++g_nmem > MAX_MEM) fail("hang.spin", "no progress after %llu memory events: %s", (unsigned long long)g_nmem, backtrace_str((void**)__builtin_frame_address(0), nullptr, 12).c_str());
    if (cfg.fine && g_gap != INT64_MAX && --g_gap <= 0) { g_now += 5; preempt(); }
}
void yield_point() { if (g_active && !g_in_sim) { tick(50); sync_point(); } }
void sleep(u64 ns) { block_on("sleep", nullptr, g_now + ns); }
int  thread_count_live() { int n = 0; for (Thr* t : g_thr) n += t->st != T_DONE; return n; }
int  thread_self() { return g_cur ? g_cur->id : 0; }
int  threads_created() { return (int)g_thr.size(); }
void wait_until(std::function<bool()> pred, u64 max_ns, const char* sig, const char* what) {
    u64 end = g_now + max_ns, step = 20 * US;
    while (!pred()) {
        if (g_now >= end) fail(sig, "%s: not reached within %.3fs; threads: %s", what, max_ns / 1e9, thread_dump().c_str());
        sleep(step); if (step < 5 * MS) step = step * 3 / 2;
    }
}
void swarm_sched() {
    static const u32 gaps[] = {0, 2, 5, 15, 60, 300, 2000};
    cfg.sched_gap = gaps[choose(CFG, 7)];
    cfg.fine = choose(CFG, 3) == 1;
    if (cfg.fine) cfg.sched_gap *= 8;
    if (choose(CFG, 5) == 1) cfg.stall_pm = range(CFG, 1, 60);
    if (choose(CFG, 4) == 1) cfg.spurious_pm = range(CFG, 5, 200);
    draw_gap();
}

// ---------------------------------------------------------------- thread lifecycle
using pc_t = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
using pj_t = int (*)(pthread_t, void**);
using pd_t = int (*)(pthread_t);
static pc_t real_create; static pj_t real_join; static pd_t real_detach;

static void thr_exit(void* p) {
    Thr* t = (Thr*)p;
    if (t->exit_iter++ < 2) { pthread_setspecific(g_key, t); return; }
    // the destructors other code registered with pthread_key_create run while this thread still counts
    key_destructors();
    ++g_in_sim;
    t->st = T_DONE;
    for (Thr* o : g_thr) if (o->st == T_BLOCKED && o->waddr == t) make_runnable(o, false);
    tr("thread-exit", (u64)t->id);
    --g_in_sim;
    switch_away(t, EXIT);
}
static void* tramp(void* p) {
    Thr* t = (Thr*)p;
    pthread_setspecific(g_key, t);
    stack_t ss{}; ss.ss_size = 64 << 10; ss.ss_sp = (void*)(STACK_BASE + (u64)t->id * STACK_SLOT + STACK_SIZE + (64 << 10));
    sigaltstack(&ss, nullptr);
    park(t);
    t->ret = t->fn(t->arg);
    return t->ret;
}
extern "C" __attribute__((visibility("default"))) int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
    static auto f = (int (*)(pthread_key_t*, void (*)(void*)))dlsym(RTLD_NEXT, "pthread_key_create"); int r = f(k, d);
    if (!r && d && d != thr_exit && g_nkeys < 64) g_keys[g_nkeys++] = {*k, d}; return r;
}
static int spawn(pthread_t* out, void* (*fn)(void*), void* arg) {
    Thr* t; pthread_attr_t a;
    {
        InSim _;
        t = new Thr; t->id = (int)g_thr.size() + 1; t->fn = fn; t->arg = arg;
        g_thr.push_back(t);
        if (t->id >= 8000) fail("sim.limit", "too many threads");
        char* base = (char*)STACK_BASE + (u64)t->id * STACK_SLOT;
        if (mmap(base, STACK_SIZE + (256 << 10), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != base) fail("sim.limit", "stack mmap");
        pthread_attr_init(&a); pthread_attr_setstack(&a, base, STACK_SIZE);
        if (int e = real_create(&t->real, &a, tramp, t)) fail("sim.limit", "pthread_create %d", e);
        pthread_attr_destroy(&a);
        *out = t->real;
    }
    return t->id;
}
static Thr* find_thr(pthread_t p) { for (Thr* t : g_thr) if (t->real == p && !t->joined) return t; return nullptr; }

static const Scenario* g_scn;
static void* scenario_main(void*) {
    draw_gap();
    try { g_scn->fn(); }
    catch (std::exception& e) { fail("exception.escaped", "an exception the caller does not expect escaped: %s", e.what()); }
    catch (...) { fail("exception.escaped", "an exception the caller does not expect escaped"); }
    ++g_in_sim;
    finish_run(1);
}

static void on_terminate() {
    ++g_in_sim;
    const char* w = "no exception"; std::string ty;
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); } catch (std::exception& x) { w = x.what(); } catch (...) { w = "unknown"; }
        if (auto* ti = abi::__cxa_current_exception_type()) { int st; char* d = abi::__cxa_demangle(ti->name(), 0, 0, &st); ty = d ? d : ti->name(); }
    }
    fail("crash.terminate", "std::terminate: %s %s; at %s", ty.c_str(), w, backtrace_str((void**)__builtin_frame_address(0), nullptr, 14).c_str());
}
static void on_signal(int sig, siginfo_t* si, void* uc) {
    if (sig == SIGXCPU || sig == SIGPROF) {
        auto* u = (ucontext_t*)uc;
        fail("hang.cpu", "CPU limit: the program spins without reaching a scheduling point: %s", backtrace_str((void**)u->uc_mcontext.gregs[REG_RBP], (void*)u->uc_mcontext.gregs[REG_RIP], 10).c_str());
    }
    auto* u = (ucontext_t*)uc;
    signal(sig, SIG_DFL);
    ++g_in_sim;
    auto a = (std::uintptr_t)si->si_addr;
    const char* kind = (sig == SIGSEGV && (a >= ARENA_BASE && a < ARENA_BASE + ARENA_SIZE)) ? " (heap)" : stack_ok((void*)(a + STACK_SLOT / 2)) ? " (stack overflow?)" : a < 4096 ? " (null)" : "";
    fail("crash.signal", "signal %d%s at %s", sig, kind, backtrace_str((void**)u->uc_mcontext.gregs[REG_RBP], (void*)u->uc_mcontext.gregs[REG_RIP], 14).c_str());
}

void start_run(const Scenario& s) {
    g_scn = &s;
    real_create = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
    real_join = (pj_t)dlsym(RTLD_NEXT, "pthread_join");
    real_detach = (pd_t)dlsym(RTLD_NEXT, "pthread_detach");
    g_ev = new std::priority_queue<Ev*, std::vector<Ev*>, EvLess>;
    g_thr.reserve(8192);
    pthread_key_create(&g_key, thr_exit);
    std::set_terminate(on_terminate);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int x : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU, SIGPROF, SIGTRAP}) sigaction(x, &sa, nullptr);
    itimerval it{}; it.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &it, nullptr);
    seed_streams(g_seed);
    for (int i = 0; i < NS; ++i) R->nch[i] = 0;
    R->nnames = 0; R->nops = 0; R->sampleTxt[0] = 0; R->sig[0] = 0; R->msg[0] = 0;
    heap_init(); kernel_reset();
    hmix(fnv(s.name));
    g_active = true;
    pthread_t p; spawn(&p, scenario_main, nullptr);
    handoff(g_thr[0]);
    for (;;) pause();
}
} // namespace sim

using namespace sim;
#define SIMFN extern "C" __attribute__((visibility("default")))

// ================================================================ pthread interposition
struct MX { int owner, count; int kind; int pad; int kind16; };   // overlay on pthread_mutex_t
static inline int mx_kind(pthread_mutex_t* m) { return ((int*)m)[4] & 3; }

SIMFN int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    if (!g_active) { auto rc = (pc_t)dlsym(RTLD_NEXT, "pthread_create"); return rc(t, a, f, arg); }
    int id = spawn(t, f, arg); tr("thread-create", (u64)id);
    if (a) { int ds; if (!pthread_attr_getdetachstate(a, &ds) && ds == PTHREAD_CREATE_DETACHED) if (Thr* x = find_thr(*t)) x->detached = true; }
    tick(5 * US); sync_point();
    return 0;
}
SIMFN int pthread_join(pthread_t p, void** r) {
    if (!g_active) { auto f = (pj_t)dlsym(RTLD_NEXT, "pthread_join"); return f(p, r); }
    sync_point();
    Thr* t = find_thr(p);
    if (!t || t->detached) return ESRCH;
    if (t == g_cur) return EDEADLK;
    while (t->st != T_DONE) block_on("pthread_join", t, ~0ull);
    t->joined = true;
    { InSim _; real_join(p, nullptr); }
    if (r) *r = t->ret;
    return 0;
}
SIMFN int pthread_detach(pthread_t p) {
    if (!g_active) { auto f = (pd_t)dlsym(RTLD_NEXT, "pthread_detach"); return f(p); }
    Thr* t = find_thr(p); if (!t) return ESRCH; t->detached = true; return 0;
}
static void lock_mx(pthread_mutex_t* m) {
    int* w = (int*)m;
    while (w[0]) block_on("mutex", m, ~0ull);
    w[0] = g_cur->id; w[1] = 1;
}
static void mx_access(void* m) { if (g_active) chk_access(m, 8, true, __builtin_return_address(0)); }
SIMFN int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!g_active || g_in_sim) { ((int*)m)[1]++; return 0; }
    mx_access(m); sync_point();
    int* w = (int*)m;
    if (w[0] == g_cur->id) {
        if (mx_kind(m) == PTHREAD_MUTEX_RECURSIVE_NP) { ++w[1]; return 0; }
        if (mx_kind(m) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    }
    lock_mx(m);
    return 0;
}
SIMFN int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!g_active || g_in_sim) { ((int*)m)[1]++; return 0; }
    mx_access(m); sync_point();
    int* w = (int*)m;
    if (w[0]) { if (w[0] == g_cur->id && mx_kind(m) == PTHREAD_MUTEX_RECURSIVE_NP) { ++w[1]; return 0; } return EBUSY; }
    w[0] = g_cur->id; w[1] = 1; return 0;
}
SIMFN int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!g_active || g_in_sim) { if (((int*)m)[1]) ((int*)m)[1]--; return 0; }
    mx_access(m);
    int* w = (int*)m;
    if (--w[1] > 0) return 0;
    w[0] = 0; w[1] = 0;
    for (Thr* t : g_thr) if (t->st == T_BLOCKED && t->waddr == m) make_runnable(t, false);
    sync_point();
    return 0;
}
static u64 ts_ns(const timespec* ts) { return (u64)ts->tv_sec * SEC + (u64)ts->tv_nsec; }
static u64 abs_dl(clockid_t c, const timespec* ts) {
    u64 t = ts_ns(ts);
    if (c == CLOCK_REALTIME) { std::int64_t d = (std::int64_t)t - (std::int64_t)wall(); return d <= 0 ? g_now : g_now + (u64)d; }
    return t;
}
static int cond_wait_dl(pthread_cond_t* c, pthread_mutex_t* m, u64 dl) {
    mx_access(c); sync_point();
    int* w = (int*)m; int cnt = w[1]; w[0] = 0; w[1] = 0;
    for (Thr* t : g_thr) if (t->st == T_BLOCKED && t->waddr == m) make_runnable(t, false);
    bool ok = true;
    if (cfg.spurious_pm && chance(FAULT, cfg.spurious_pm)) { fault("spurious_wakeup"); tick(US); switch_away(g_cur, YIELD); }
    else ok = block_on("cond_wait", c, dl);
    lock_mx(m); w[1] = cnt;
    return ok ? 0 : ETIMEDOUT;
}
SIMFN int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!g_active) return 0; return cond_wait_dl(c, m, ~0ull); }
SIMFN int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { if (!g_active) return 0; return cond_wait_dl(c, m, abs_dl(CLOCK_REALTIME, ts)); }
SIMFN int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const timespec* ts) { if (!g_active) return 0; return cond_wait_dl(c, m, abs_dl(ck, ts)); }
SIMFN int pthread_cond_signal(pthread_cond_t* c) {
    if (!g_active || g_in_sim) return 0;
    mx_access(c); sync_point();
    static Thr* l[8192]; u32 n = 0;
    for (Thr* t : g_thr) if (t->st == T_BLOCKED && t->waddr == c) l[n++] = t;
    if (n) make_runnable(l[n > 1 ? choose(SCHED, n) : 0], false);
    sync_point();
    return 0;
}
SIMFN int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!g_active || g_in_sim) return 0;
    mx_access(c); sync_point();
    for (Thr* t : g_thr) if (t->st == T_BLOCKED && t->waddr == c) make_runnable(t, false);
    sync_point();
    return 0;
}
SIMFN int pthread_cond_destroy(pthread_cond_t*) { return 0; }
SIMFN int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
SIMFN int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }

static void wake_addr(void* a) { for (Thr* t : g_thr) if (t->st == T_BLOCKED && t->waddr == a) make_runnable(t, false); }
SIMFN int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!g_active || g_in_sim) return 0;
    mx_access(l); sync_point(); int* w = (int*)l;
    while (w[0]) block_on("rwlock_rd", l, ~0ull);
    ++w[1]; return 0;
}
SIMFN int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!g_active || g_in_sim) return 0;
    mx_access(l); sync_point(); int* w = (int*)l;
    while (w[0] || w[1]) block_on("rwlock_wr", l, ~0ull);
    w[0] = g_cur->id; return 0;
}
SIMFN int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!g_active || g_in_sim) return 0; sync_point(); int* w = (int*)l; if (w[0]) return EBUSY; ++w[1]; return 0; }
SIMFN int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!g_active || g_in_sim) return 0; sync_point(); int* w = (int*)l; if (w[0] || w[1]) return EBUSY; w[0] = g_cur->id; return 0; }
SIMFN int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!g_active || g_in_sim) return 0;
    mx_access(l); int* w = (int*)l;
    if (w[0] == g_cur->id) w[0] = 0; else if (w[1]) --w[1];
    wake_addr(l); sync_point(); return 0;
}
SIMFN int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
SIMFN int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }

SIMFN int sem_init(sem_t* s, int, unsigned v) { memset(s, 0, sizeof *s); *(int*)s = (int)v; return 0; }
SIMFN int sem_destroy(sem_t*) { return 0; }
SIMFN int sem_post(sem_t* s) { ++*(int*)s; if (g_active && !g_in_sim) { wake_addr(s); sync_point(); } return 0; }
SIMFN int sem_wait(sem_t* s) { if (!g_active) return 0; sync_point(); while (*(int*)s <= 0) block_on("sem", s, ~0ull); --*(int*)s; return 0; }
SIMFN int sem_trywait(sem_t* s) { if (g_active) sync_point(); if (*(int*)s <= 0) { errno = EAGAIN; return -1; } --*(int*)s; return 0; }

SIMFN int sched_yield() { if (!g_active || g_in_sim) return 0; tick(US); sync_point(); switch_away(g_cur, YIELD); return 0; }
SIMFN int nanosleep(const timespec* r, timespec*) { if (!g_active) return 0; sync_point(); block_on("sleep", nullptr, g_now + ts_ns(r) + US); return 0; }
SIMFN int clock_nanosleep(clockid_t c, int fl, const timespec* r, timespec*) {
    if (!g_active) return 0; sync_point();
    block_on("sleep", nullptr, (fl & TIMER_ABSTIME) ? abs_dl(c, r) : g_now + ts_ns(r) + US); return 0;
}
SIMFN int usleep(useconds_t us) { if (!g_active) return 0; sync_point(); block_on("sleep", nullptr, g_now + us * US); return 0; }

// static-initialisation guards (libsupc++ would block on a raw futex)
SIMFN int __cxa_guard_acquire(__cxxabiv1::__guard* g) {
    char* b = (char*)g;
    if (b[0]) return 0;
    if (!g_active) { if (b[0]) return 0; b[1] = 1; return 1; }
    while (b[1]) { block_on("static-guard", g, ~0ull); if (b[0]) return 0; }
    if (b[0]) return 0;
    b[1] = 1; return 1;
}
SIMFN void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept { char* b = (char*)g; b[0] = 1; b[1] = 0; if (g_active) wake_addr(g); }
SIMFN void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept { char* b = (char*)g; b[1] = 0; if (g_active) wake_addr(g); }

// clocks
SIMFN int clock_gettime(clockid_t c, timespec* ts) {
    if (!g_active) return (int)raw_syscall(SYS_clock_gettime, c, (long)ts);
    if (!g_in_sim) tick(40);
    u64 t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall() : g_now;
    ts->tv_sec = (time_t)(t / SEC); ts->tv_nsec = (long)(t % SEC); return 0;
}
SIMFN int gettimeofday(timeval* tv, void*) { u64 t = g_active ? wall() : 0; tv->tv_sec = (time_t)(t / SEC); tv->tv_usec = (long)(t % SEC / 1000); return 0; }
SIMFN time_t time(time_t* p) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
namespace std::chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { if (g_active && !g_in_sim) sync_point(); timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return time_point(duration(seconds(ts.tv_sec) + nanoseconds(ts.tv_nsec))); }
steady_clock::time_point steady_clock::now() noexcept { if (g_active && !g_in_sim) sync_point(); timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return time_point(duration(seconds(ts.tv_sec) + nanoseconds(ts.tv_nsec))); }
}}
std::random_device::result_type std::random_device::_M_getval() { return g_active ? (result_type)rnd64() : 4; }
SIMFN ssize_t getrandom(void* b, size_t n, unsigned) { auto* p = (unsigned char*)b; for (size_t i = 0; i < n; ++i) p[i] = g_active ? (unsigned char)rnd64() : (unsigned char)(i * 7 + 1); return (ssize_t)n; }
SIMFN int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }

// futex() from std::atomic::wait and friends; everything else goes to the real kernel
SIMFN long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (auto& x : a) x = va_arg(ap, long); va_end(ap);
    if (g_active && n == SYS_futex) {
        int* p = (int*)a[0]; int op = (int)a[1] & FUTEX_CMD_MASK;
        sync_point();
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (__atomic_load_n(p, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
            u64 dl = ~0ull; auto* ts = (timespec*)a[3];
            if (ts) dl = op == FUTEX_WAIT ? g_now + ts_ns(ts) : abs_dl((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            if (!block_on("futex", p, dl)) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            long k = 0; for (Thr* t : g_thr) if (k < a[2] && t->st == T_BLOCKED && t->waddr == p) { make_runnable(t, false); ++k; }
            return k;
        }
    }
    if (g_active && n == SYS_getrandom) return getrandom((void*)a[0], (size_t)a[1], 0);
    long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
#include <thread>
unsigned int std::thread::hardware_concurrency() noexcept { return sim::cfg.cpus; }
