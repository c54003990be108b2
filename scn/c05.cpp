// C05: timers fire once, in deadline order, never early; yields make progress; destroyed timers never fire.
#include "common.hpp"
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>
using namespace HX::coroutine;
using clk = std::chrono::system_clock;

namespace {
struct Sleeper { bool asleep = false; clk::time_point due, since; u64 seq = 0, t0 = 0; };
struct Yielder { bool waiting = false; u64 seq = 0, entered_iter = 0; };
struct World {
    std::vector<Sleeper> s; std::vector<Yielder> y; u64 seq = 0; int live = 0, jumps = 0; u64 resumes = 0; u64 worst_late = 0; u64 busy = 0;
    std::vector<std::pair<u64, u64>> peaks;           // (simulated time, wall clock) just before each jump
    clk::time_point reached(u64 since) { u64 m = sim::wall(); for (auto& [t, v] : peaks) if (t >= since && v > m) m = v; return clk::time_point{clk::duration((std::int64_t)m)}; }
};
// the oracle, called at the instant a sleeper continues
void woke(World& w, size_t id, clk::time_point due) {
    auto& S = w.s[id];
    EXPECT(S.asleep && S.due == due, "timer.twice", "sleeper %zu resumed although it was not asleep", id);
    S.asleep = false; ++w.resumes;
    clk::time_point n{clk::duration((std::int64_t)sim::wall())};
    EXPECT(w.reached(S.t0) >= due, "timer.early", "sleeper %zu resumed %lld ns before its deadline", id, (long long)(due - n).count());
    for (size_t k = 0; k < w.s.size(); ++k) if (w.s[k].asleep) {
        EXPECT(w.s[k].due > due || (w.s[k].due == due && w.s[k].seq > S.seq), "timer.order", "sleeper %zu resumed while sleeper %zu with an earlier or equal-but-older deadline still sleeps", id, k);
    }
    if (!w.jumps) {
        u64 late = (u64)(n - std::max(due, S.since)).count();
        EXPECT(late < w.busy + 20 * MS, "timer.late", "sleeper %zu resumed %.3f ms after its deadline", id, late / 1e6);
    }
}
Task<> sleeper(World& w, EventLoop& loop, size_t id, int n, clk::time_point base) {
    for (int i = 0; i < n; ++i) {
        u64 ns = pick<u64>(WORK, {1 * MS, 0, 1, 100, 50 * US, 3 * MS, 7 * MS, 40 * MS, 2 * SEC});
        if (choose(WORK, 3) == 0) ns = choose(WORK, 6) * MS;
        clk::time_point due; auto& S = w.s[id];
        if (choose(WORK, 2)) {                       // absolute: equal deadlines are common, some in the past
            due = base + std::chrono::milliseconds((int)choose(WORK, 20)) - std::chrono::milliseconds(choose(WORK, 8) == 7 ? 50 : 0);
            auto t = loop.makeTimer().sleepUntil(due);
            S.asleep = true; S.due = due; S.since = clk::time_point{clk::duration((std::int64_t)sim::wall())}; S.t0 = sim::now(); S.seq = ++w.seq; co_await t;
        } else {
            size_t pk = w.peaks.size();
            clk::time_point lo{clk::duration((std::int64_t)sim::wall())};
            due = lo + clk::duration((std::int64_t)ns);   // the loop reads the clock at or after this
            auto t = loop.makeTimer().sleepFor(clk::duration((std::int64_t)ns));
            clk::time_point hi{clk::duration((std::int64_t)sim::wall())};
            // order can only be judged when the deadline is exactly known: use a point when the clock moved in between
            S.asleep = false; w.seq++; u64 t0 = sim::now(); bool known = pk == w.peaks.size(); co_await t;
            clk::time_point n2{clk::duration((std::int64_t)sim::wall())};
            EXPECT(!known || w.reached(t0) >= due, "timer.early", "sleeper %zu resumed %lld ns before its deadline", id, (long long)(due - n2).count());
            if (!w.jumps) EXPECT((u64)(n2 - hi).count() < ns + w.busy + 20 * MS, "timer.late", "sleepFor(%llu ns) took %.3f ms", (unsigned long long)ns, (n2 - hi).count() / 1e6);
            ++w.resumes; continue;
        }
        woke(w, id, due);
    }
    --w.live;
}
Task<> yielder(World& w, EventLoop& loop, size_t id, int n) {
    for (int i = 0; i < n; ++i) {
        auto& Y = w.y[id]; Y.waiting = true; Y.seq = ++w.seq; u64 t0 = sim::now();
        co_await loop.makeTimer().yield();
        EXPECT(Y.waiting, "yield.twice", "yielder %zu resumed twice", id);
        Y.waiting = false; ++w.resumes;
        for (size_t k = 0; k < w.y.size(); ++k) if (w.y[k].waiting) EXPECT(w.y[k].seq > Y.seq, "yield.order", "yielder %zu overtook yielder %zu which yielded earlier", id, k);
        u64 late = sim::now() - t0;
        EXPECT(late < w.busy + 20 * MS, "yield.starved", "a yielded coroutine waited %.3f ms for its turn", late / 1e6);
        if (choose(WORK, 6) == 5) nap(choose(WORK, 3) * 100 * US);      // holds the loop a little
    }
    --w.live;
}
Task<> io(World& w, EventLoop& loop, int n) {
    for (int i = 0; i < n; ++i) { int r = co_await loop.makeAioTask().prepClose(9000 + i); EXPECT(r == -EBADF, "timer.io", "close of a bad descriptor gave %d", r); ++w.resumes; }
    --w.live;
}
struct Mark { World& w; int* d; Mark(World& w_, int* d_) : w(w_), d(d_) {} ~Mark() { ++*d; } };
Task<int> loser(World& w, EventLoop& loop, u64 ms, int* ran, int* died) { Mark m(w, died); if (ms & 1) { for (u64 i = 0; i < ms; ++i) co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(1)); } else co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(ms)); ++*ran; co_return (int)ms; }
Task<int> ylong(World& w, EventLoop& loop, int n, int* ran, int* died) { Mark m(w, died); for (int i = 0; i < n; ++i) co_await loop.makeTimer().yield(); ++*ran; co_return -n; }
// sleepers and yielders destroyed while they wait: they must never fire
Task<> killer(World& w, EventLoop& loop, int n) {
    for (int i = 0; i < n; ++i) {
        int ran[3] = {}, died[3] = {};
        {
            std::vector<Task<int>> v;
            u32 k = range(WORK, 1, 3);
            for (u32 j = 0; j < k; ++j) { v.push_back(choose(WORK, 2) ? loser(w, loop, range(WORK, 2, 30), &ran[j], &died[j]) : ylong(w, loop, (int)range(WORK, 1, 400), &ran[j], &died[j])); loop.start(v.back()); }
            if (choose(WORK, 2)) co_await loop.makeTimer().sleepFor(std::chrono::microseconds(choose(WORK, 12) * 500)); else co_await loop.makeTimer().yield();
            int before[3] = {ran[0], ran[1], ran[2]};
            v.clear();
            for (u32 j = 0; j < k; ++j) EXPECT(died[j] == 1, "timer.dtor", "locals of a destroyed sleeper were destroyed %d times", died[j]);
            co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(choose(WORK, 40)));
            for (u32 j = 0; j < k; ++j) EXPECT(ran[j] == before[j] && died[j] == 1, "timer.ghost", "a destroyed sleeper ran");
        }
    }
    --w.live;
}
}
SIM_SCENARIO("C05", timers_and_yields) {
    static const u32 gaps[] = {0, 15, 300}; (void)gaps;
    u32 ns = choose(WORK, 6), ny = choose(WORK, 5), nio = choose(WORK, 3) == 2 ? range(WORK, 1, 30) : 0, nk = choose(WORK, 3) == 2 ? range(WORK, 1, 3) : 0;
    if (ns + ny == 0) ns = 2;
    World w; w.s.resize(ns); w.y.resize(ny);
    bool jump = choose(CFG, 5) == 4; if (choose(CFG, 4) == 1) cfg.eintr_pm = 100; if (choose(CFG, 3) == 1) cfg.cqe_delay_pm = 300;
    int per = (int)range(WORK, 1, 12), yper = (int)pick<u32>(WORK, {5, 1, 40, 400});
    w.busy = (u64)ny * 400 * 300 * US / 40 + 5 * MS;  // how long all other coroutines together may hold the loop
    sim::sample("%u sleepers x %d, %u yielders x %d, io %u, killers %u, clock jumps %d", ns, per, ny, yper, nio, nk, jump);
    EventLoop loop;
    sim::deadline(600 * SEC, "timer.hang", "event loop with timers and yields");
    if (jump) { w.jumps = (int)range(FAULT, 1, 3); for (int i = 0; i < w.jumps; ++i) sim::after(choose(FAULT, 60) * MS, [&w] { std::int64_t d = (std::int64_t)pick<u64>(FAULT, {0, 1 * MS, 10 * MS, 1 * SEC}) * (choose(FAULT, 2) ? -1 : 1); if (d) sim::fault(d > 0 ? "clock_jump_forward" : "clock_jump_back"); w.peaks.push_back({sim::now(), sim::wall()}); sim::jump_wall(d); }); }
    bool done = false;
    loop.sync([&]() -> Task<> {
        std::vector<Task<>> v; clk::time_point base{clk::duration((std::int64_t)sim::wall())};
        for (u32 i = 0; i < ns; ++i) v.push_back(sleeper(w, loop, i, per, base));
        for (u32 i = 0; i < ny; ++i) v.push_back(yielder(w, loop, i, yper));
        if (nio) v.push_back(io(w, loop, (int)nio));
        if (nk) v.push_back(killer(w, loop, (int)nk));
        // random start order
        w.live = (int)v.size();
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[choose(WORK, (u32)i)]);
        for (auto& t : v) loop.start(t);
        while (w.live) co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(5));
        for (auto& t : v) EXPECT(t.getPromise().done(), "timer.lost", "a coroutine did not end");
        done = true;
    }());
    EXPECT(done, "timer.lost", "the loop returned while coroutines still slept");
    for (auto& s : w.s) EXPECT(!s.asleep, "timer.lost", "a sleeper was never resumed");
    note("resumes %llu", (unsigned long long)w.resumes);
}
// endless activity of one kind must not keep another kind from its turn
SIM_SCENARIO("C05", no_starvation) {
    u32 hog = choose(WORK, 4), victim = choose(WORK, 3); int hogs = (int)range(WORK, 1, 3);
    if (choose(CFG, 3) == 1) cfg.cqe_delay_pm = 300;
    static const char* hn[] = {"sleepFor(1ms) loop", "yield loop", "sleepFor(0) loop", "i/o loop"}; static const char* vn[] = {"yield", "timer", "i/o"};
    sim::sample("%d x %s against one %s", hogs, hn[hog], vn[victim]);
    EventLoop loop; bool stop = false; int turns = 0;
    sim::deadline(120 * SEC, "loop.starved", "coroutine competing with an endless one");
    loop.sync([&]() -> Task<> {
        std::vector<Task<>> v;
        auto hogf = [&]() -> Task<> { for (u64 i = 0; !stop; ++i) {
            if (i > 200000) sim::fail("loop.starved", "%s kept the loop for itself for %llu rounds while one %s waited", hn[hog], (unsigned long long)i, vn[victim]);
            if (i % 16 == 15) nap(10 * US);            // every round costs something
            if (hog == 0) co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(1));
            else if (hog == 1) co_await loop.makeTimer().yield();
            else if (hog == 2) co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(0));
            else (void)co_await loop.makeAioTask().prepClose(9999); } };
        for (int i = 0; i < hogs; ++i) { v.push_back(hogf()); loop.start(v.back()); }
        for (int i = 0; i < 20; ++i) {
            u64 t0 = sim::now(), extra = 0;
            if (victim == 0) co_await loop.makeTimer().yield();
            else if (victim == 1) { extra = 2 * MS; co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(2)); }
            else (void)co_await loop.makeAioTask().prepClose(9998);
            EXPECT(sim::now() - t0 < extra + 50 * MS, "loop.starved", "%s waited %.3f ms beside %s", vn[victim], (sim::now() - t0) / 1e6, hn[hog]);
            ++turns;
        }
        stop = true;
        for (int i = 0; i < 200; ++i) { bool all = true; for (auto& t : v) all &= t.getPromise().done(); if (all) break; co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(2)); }
        for (auto& t : v) EXPECT(t.getPromise().done(), "timer.lost", "a coroutine did not end");
    }());
    EXPECT(turns == 20, "timer.lost", "only %d turns", turns);
}
