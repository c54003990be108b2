// C04: awaiting a pool task from an event loop resumes the coroutine once, after the task, with its outcome.
#include "common.hpp"
#include <HXLibs/container/ThreadPool.hpp>
#include <HXLibs/coroutine/loop/EventLoop.hpp>
using namespace HX::container;
using namespace HX::coroutine;

namespace {
struct Job { u64 work = 0; bool thrower = false, ended = false; int runs = 0, resumed = 0, thread = 0; };
struct World { std::vector<Job> j; int loops_done = 0; bool root_done = false; int in_loop = 0; };
// marks a stretch of loop code without suspension: two coroutines of one loop never execute at the same time
struct Excl { World& w; Excl(World& w_) : w(w_) { EXPECT(w.in_loop == 0, "via.parallel", "two coroutines of one event loop execute at the same time"); ++w.in_loop; sim::yield_point(); sim::yield_point(); } ~Excl() { --w.in_loop; } };

Task<int> job(World& w, ThreadPool& p, EventLoop& loop, int id) {
    auto& J = w.j[(size_t)id]; int got = -1; bool threw = false;
    auto body = [&w, id]() -> std::string {
        auto& J = w.j[(size_t)id]; ++J.runs; if (J.work) nap(J.work);
        J.ended = true; if (J.thrower) throw std::runtime_error("job" + std::to_string(id));
        return payload((u64)id, 33);
    };
    try {
        if (id % 3 == 2) {                        // void task
            auto f = p.addTask([body] { body(); }); if (choose(WORK, 2)) nap(choose(WORK, 3) * MS);
            co_await std::move(f).via(loop); got = id;
        } else {
            auto f = p.addTask(body); if (choose(WORK, 2)) nap(choose(WORK, 3) * MS);
            auto s = co_await std::move(f).via(loop); got = s == payload((u64)id, 33) ? id : -2;
        }
    } catch (std::exception& e) { threw = true; EXPECT(e.what() == "job" + std::to_string(id), "via.value", "job %d: foreign exception '%s'", id, e.what()); }
    EXPECT(++J.resumed == 1, "via.twice", "awaiter of job %d resumed %d times", id, J.resumed);
    EXPECT(J.ended && J.runs == 1, "via.early", "awaiter of job %d resumed before the task ended (runs %d)", id, J.runs);
    EXPECT(threw == J.thrower, "via.value", "job %d threw=%d, awaiter saw throw=%d", id, J.thrower, threw);
    EXPECT(threw || got == id, "via.value", "job %d delivered a wrong value", id);
    { Excl x(w); note("job %d resumed", id); }
    co_return id;
}
Task<> chain(World& w, ThreadPool& p, EventLoop& loop, int from, int n) {
    for (int i = 0; i < n; ++i) {
        int r = co_await job(w, p, loop, from + i);
        EXPECT(r == from + i, "via.value", "wrong result through the chain");
        if (choose(WORK, 3) == 2) { co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(choose(WORK, 4))); Excl x(w); }
    }
}
Task<> ticker(World& w, EventLoop& loop, int n, u64 ms) { for (int i = 0; i < n; ++i) { co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(ms)); Excl x(w); } }
Task<> nops(World& w, EventLoop& loop, int n) { for (int i = 0; i < n; ++i) { int r = co_await loop.makeAioTask().prepClose(9999); (void)r; Excl x(w); } }
}
SIM_SCENARIO("C04", via_loop) {
    sim::swarm_sched();
    u32 rounds = range(WORK, 1, 3), lanes = range(WORK, 1, 3), per = range(WORK, 1, 3), tick = choose(WORK, 4), nop = choose(WORK, 3) == 2 ? range(WORK, 1, 6) : 0, workers = range(WORK, 1, 4);
    u64 worst = pick<u64>(WORK, {0, 1, 5, 30});
    sim::sample("%u rounds x %u coroutines x %u awaits, %u workers, ticker %u, aio %u, work<=%llu ms", rounds, lanes, per, workers, tick, nop, (unsigned long long)worst);
    int harness = sim::thread_count_live();
    {
        EventLoop loop; ThreadPool pool; pool.setFixedThreadNum(workers); pool.run<ThreadPool::Model::FixedSizeAndNoCheck>();
        for (u32 r = 0; r < rounds; ++r) {
            World w; w.j.resize(lanes * per);
            for (auto& j : w.j) { j.work = worst && choose(WORK, 2) ? choose(WORK, (u32)worst + 1) * MS : 0; j.thrower = choose(WORK, 5) == 4; }
            sim::deadline((u64)(lanes * per) * (worst + 60) * MS + 30 * SEC, "via.hang", "event loop awaiting pool tasks");
            bool threw = false; bool rootthrows = choose(WORK, 4) == 3; int res = 0;
            try {
                res = loop.sync([&]() -> Task<int> {
                    std::vector<Task<>> side;
                    for (u32 l = 1; l < lanes; ++l) { side.push_back(chain(w, pool, loop, (int)(l * per), (int)per)); loop.start(side.back()); }
                    if (tick) { side.push_back(ticker(w, loop, (int)tick, 1 + choose(WORK, 8))); loop.start(side.back()); }
                    if (nop) { side.push_back(nops(w, loop, (int)nop)); loop.start(side.back()); }
                    co_await chain(w, pool, loop, 0, (int)per);
                    // keep the children alive until they ended
                    for (;;) { bool all = true; for (auto& s : side) all &= s.getPromise().done(); if (all) break; co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(1)); }
                    w.root_done = true;
                    if (rootthrows) throw std::runtime_error("root");
                    co_return 4711;
                }());
            } catch (std::exception& e) { threw = true; EXPECT(rootthrows && std::string(e.what()) == "root", "via.root", "sync threw '%s'", e.what()); }
            EXPECT(w.root_done, "via.lost", "event loop returned before the awaiting coroutine was resumed");
            EXPECT(threw == rootthrows && (threw || res == 4711), "via.root", "sync returned %d threw %d", res, threw);
            for (size_t i = 0; i < w.j.size(); ++i) EXPECT(w.j[i].runs == 1 && w.j[i].resumed == 1, "via.count", "job %zu ran %d times, resumed %d times", i, w.j[i].runs, w.j[i].resumed);
            sim::clear_deadline();
        }
    }
    EXPECT(sim::thread_count_live() == harness, "via.threads", "threads left");
    EXPECT(sim::rings_open() == 0, "via.ring", "ring left open");
}
// a single await with nothing else alive on the loop, and the loop destroyed right after
SIM_SCENARIO("C04", via_only) {
    sim::swarm_sched();
    u32 workers = range(WORK, 1, 2); u32 rounds = range(WORK, 1, 4);
    ThreadPool pool; pool.setFixedThreadNum(workers); pool.run<ThreadPool::Model::FixedSizeAndNoCheck>();
    sim::sample("%u rounds of one await on a fresh loop, %u workers", rounds, workers);
    for (u32 r = 0; r < rounds; ++r) {
        World w; w.j.resize(1); w.j[0].work = choose(WORK, 3) * MS; w.j[0].thrower = choose(WORK, 4) == 3;
        sim::deadline(20 * SEC, "via.hang", "event loop awaiting one pool task");
        EventLoop loop; int v = loop.sync(job(w, pool, loop, 0));
        EXPECT(v == 0 && w.j[0].resumed == 1, "via.lost", "loop returned without resuming its coroutine");
        sim::clear_deadline();
    }
}
// the pool is destroyed while coroutines await its tasks: each is resumed exactly once, with its task's outcome or an error
SIM_SCENARIO("C04", via_dropped) {
    sim::swarm_sched();
    u32 workers = range(WORK, 1, 2), n = range(WORK, 1, 6), stay = choose(WORK, 3); u64 busy = choose(WORK, 20) * MS, when = choose(WORK, 30) * MS;
    sim::sample("%u awaited tasks, %u workers, pool destroyed after %llu ms, tasks last %llu ms", n, workers, (unsigned long long)(when / MS), (unsigned long long)(busy / MS));
    auto pool = std::make_unique<ThreadPool>(); pool->setFixedThreadNum(workers); pool->run<ThreadPool::Model::FixedSizeAndNoCheck>();
    sim::deadline(30 * SEC, "via.hang", "event loop awaiting tasks of a destroyed pool");
    struct Count { std::atomic<int> begun{0}, done{0}, live{0}, values{0}, errors{0}; } c;
    struct Held { Count* c; Held(Count& c_) : c(&c_) { ++c->live; } Held(Held&& o) noexcept : c(o.c) { ++c->live; } Held(const Held& o) : c(o.c) { ++c->live; } ~Held() { --c->live; } };
    std::mutex m; std::condition_variable cv; bool queued = false, threw = false; std::string what;
    std::vector<std::atomic<int>> ran(n), resumed(n);
    std::thread th([&] {
        auto me = std::this_thread::get_id(); EventLoop loop;
        auto wait = [&](u32 i) -> Task<> {
            HX::container::FutureResult<u32> f = pool->addTask([&c, &ran, h = Held{c}, i, busy]() -> u32 { ++c.begun; nap(busy); ++ran[i]; ++c.done; return i + 100; });
            try { u32 v = co_await std::move(f).via(loop); EXPECT(v == i + 100, "via.value", "task %u delivered %u", i, v); EXPECT(ran[i] == 1, "via.early", "task %u delivered before it ended", i); ++c.values; } catch (std::exception& e) { ++c.errors; }
            EXPECT(std::this_thread::get_id() == me, "via.thread", "coroutine %u resumed on a thread that is not its loop's", i);
            ++resumed[i];
            for (u32 k = 0; k < stay; ++k) co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(1)); };
        std::vector<Task<>> t; for (u32 i = 0; i < n; ++i) t.push_back(wait(i));
        try { loop.sync([&]() -> Task<> { for (auto& x : t) loop.start(x); { std::lock_guard _{m}; queued = true; cv.notify_all(); } co_return; }()); } catch (std::exception& e) { threw = true; what = e.what(); }
        for (u32 i = 0; i < n; ++i) EXPECT(resumed[i] == 1 && t[i].getPromise().done(), "via.lost", "coroutine %u of %u was resumed %d times", i, n, (int)resumed[i]); });
    { std::unique_lock l{m}; cv.wait(l, [&] { return queued; }); }
    nap(when); pool.reset(); int live = c.live; th.join(); sim::clear_deadline();
    EXPECT(live == 0, "via.leak", "%d captured objects outlived the pool", live);
    EXPECT(!threw, "via.root", "the loop threw '%s'", what.c_str());
    EXPECT(c.begun == c.done, "via.cut", "%d tasks began, %d ended", (int)c.begun, (int)c.done);
    EXPECT(c.values + c.errors == (int)n, "via.lost", "%d values and %d errors for %u coroutines", (int)c.values, (int)c.errors, n);
    note("%d values, %d errors", (int)c.values, (int)c.errors);
}
