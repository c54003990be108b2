#pragma once
#include "sim.hpp"
#include <pthread.h>
#include <cstring>
#include <map>
#include <list>
#include <queue>
namespace sim {

constexpr std::uintptr_t ARENA_BASE  = 0x200000000000ull;
constexpr std::uintptr_t ARENA_SIZE  = 2ull << 30;
constexpr std::uintptr_t SHADOW_BASE = 0x210000000000ull;
constexpr std::uintptr_t STACK_BASE  = 0x220000000000ull;
constexpr std::uintptr_t STACK_SLOT  = 2ull << 20;
constexpr std::uintptr_t STACK_SIZE  = 1ull << 20;
constexpr std::uintptr_t RING_BASE   = 0x230000000000ull;
constexpr std::uintptr_t RING_SLOT   = 8ull << 20;

constexpr u32 MAXC = 1u << 20;
struct NameCount { char name[56]; u64 n; };
struct Report {
    u32 done;                 // 0 running, 1 ok, 2 violation
    char sig[96];
    char msg[4096];
    char sampleTxt[512];
    u64 hash, simns, nsync, nmem, nswitch, nthreads, nops;
    u32 nnames; NameCount names[160];
    u32 nch[NS];
    u32 ch[NS][MAXC];         // recorded values
    u32 rn[NS];               // replay: number of values
    u32 rv[NS][MAXC];         // replay: values
};
extern Report* R;
extern bool g_replay;
extern u64  g_seed;

enum TState { T_RUNNABLE, T_BLOCKED, T_DONE };
struct Thr {
    int id; pthread_t real{}; u32 tok = 0;
    TState st = T_RUNNABLE; const char* why = ""; const void* waddr = nullptr;
    u64 bseq = 0; bool timedout = false;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    bool detached = false, joined = false; int exit_iter = 0;
    u64 wparam = 0;
};
extern bool g_active;      // a simulated run is in progress
extern int  g_in_sim;      // executing simulator/event code
struct InSim { InSim() { ++g_in_sim; } ~InSim() { --g_in_sim; } };

void sync_point();
void mem_point();
void tick(u64 ns);
// block the current thread; returns false on timeout. deadline = ~0 for none (absolute ns)
bool block_on(const char* why, const void* addr, u64 deadline_ns);
void make_runnable(Thr* t, bool timedout);
Thr* cur();
std::vector<Thr*>& threads();
void at(u64 t, std::function<void()> f);
void tr(const char* what, u64 a = 0, u64 b = 0, u64 c = 0);
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
void heap_init();
void chk_access(const void* p, std::size_t n, bool write, void* pc);
bool range_dead(const void* p, std::size_t n);
void start_run(const Scenario& s);   // in the child; never returns
void kernel_reset();
std::string symbolize(void* pc);
std::string backtrace_str(void** fp, void* pc, int max);
}
