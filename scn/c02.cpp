// C02: destroying a thread pool always terminates, whatever its workers, manager and submitters are doing.
#include "common.hpp"
#include <HXLibs/container/ThreadPool.hpp>
using namespace HX::container;

namespace {
struct World { std::atomic<int> started{0}, ended{0}, guards{0}; bool gone = false; };
struct Guard {                      // counts live captures
    World* w; Guard(World* p) : w(p) { w->guards.fetch_add(1); }
    Guard(Guard&& o) noexcept : w(o.w) { o.w = nullptr; }
    Guard(const Guard&) = delete;
    ~Guard() { if (w) w->guards.fetch_sub(1); }
};
template <ThreadPool::Model M> void drive() {
    World w; int harness = sim::thread_count_live();
    u32 lo = range(WORK, 1, 5), hi = lo + choose(WORK, 6), n = choose(WORK, 14);
    u64 chk = pick<u64>(WORK, {20, 1, 5, 100, 1000});
    u64 worst = pick<u64>(WORK, {0, 2, 30});
    u64 wait = pick<u64>(WORK, {0, 1, 50, 500}); wait = wait ? choose(WORK, 1000) * wait * (MS / 1000) : 0;
    bool started = choose(WORK, 12) != 11;
    std::vector<u64> work(n); for (auto& x : work) x = worst ? choose(WORK, (u32)worst + 1) * MS : 0;
    u32 pauses = choose(WORK, 3);
    sim::sample("%s pool min %u max %u check %llums: %u tasks, destroyed %.3fms later", M == ThreadPool::Model::AsyncCheck ? "managed" : "fixed", lo, hi, (unsigned long long)chk, n, (double)wait / 1e6);
    {
        std::vector<FutureResult<int>> keep;
        auto pool = std::make_unique<ThreadPool>();
        pool->setMinThreadNum(lo).setMaxThreadNum(hi);
        if (started) pool->run<M>(std::chrono::milliseconds(chk));
        if (pauses) nap(choose(WORK, 100) * chk * MS / 40);
        for (u32 i = 0; i < n; ++i) {
            keep.push_back(pool->addTask([&w, i, &work, g = Guard(&w)]() -> int {
                EXPECT(!w.gone, "pool.ghost", "task %u started after the destructor returned", i);
                w.started.fetch_add(1);
                if (work[i]) nap(work[i]);
                EXPECT(!w.gone, "pool.ghost", "task %u was still running when the destructor returned", i);
                w.ended.fetch_add(1);
                if (i % 5 == 4) throw std::runtime_error("x");
                return (int)i; }));
            if (pauses == 2 && choose(WORK, 4) == 3) nap(choose(WORK, 100) * chk * MS / 20);
        }
        if (wait) nap(wait);
        if (choose(WORK, 2)) keep.clear();
        sim::deadline((u64)n * worst * MS + 3 * chk * MS + 30 * SEC, "pool.shutdown", "pool destructor");
        pool.reset();
        w.gone = true;
        sim::clear_deadline();
        if (!keep.empty()) { sim::deadline(30 * SEC, "pool.future-lost", "the future of a dropped task"); int got = 0, err = 0; for (u32 i = 0; i < n; ++i) { try { EXPECT(keep[i].get() == (int)i, "pool.future-value", "future %u holds another value", i); ++got; } catch (std::exception& e) { ++err; } } sim::clear_deadline();
            int ran = 0, thrown = 0; ran = w.ended.load(); EXPECT(got <= ran && got + err == (int)n, "pool.future-value", "%d values, %d errors, %d of %u tasks ran", got, err, ran, n); (void)thrown; }
    }
    EXPECT(w.started.load() == w.ended.load(), "pool.cut", "%d tasks started, %d ended", w.started.load(), w.ended.load());
    EXPECT(sim::thread_count_live() == harness, "pool.threads", "%d threads outlive the pool: %s", sim::thread_count_live() - harness, sim::thread_dump().c_str());
    EXPECT(w.guards.load() == 0, "pool.captures", "%d captures of dropped tasks were never released", w.guards.load());
    nap(2 * chk * MS + 100 * MS);
    EXPECT(w.started.load() == w.ended.load(), "pool.cut", "tasks ran after the pool was gone");
    note("ran %d of %u", w.ended.load(), n);
    if (w.ended.load() < (int)n) sim::probe("dropped_tasks");
}
}
SIM_SCENARIO("C02", shutdown_fixed) { sim::swarm_sched(); drive<ThreadPool::Model::FixedSizeAndNoCheck>(); }
SIM_SCENARIO("C02", shutdown_managed) { sim::swarm_sched(); drive<ThreadPool::Model::AsyncCheck>(); }
