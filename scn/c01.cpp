// C01: every task given to a thread pool runs exactly once, in both modes, under any interleaving.
#include "common.hpp"
#include <HXLibs/container/ThreadPool.hpp>
using namespace HX::container;

namespace {
struct Task { int runs = 0, submitter = 0; bool done = false; u64 work = 0; bool thrower = false; };
struct World {
    std::vector<Task> t; std::atomic<int> running{0}, peak{0}; std::atomic<int> finished{0};
};
void body(World& w, int id, std::unique_ptr<int> a, std::string s) {
    auto& t = w.t[(size_t)id];
    EXPECT(++t.runs == 1, "pool.twice", "task %d ran %d times", id, t.runs);
    EXPECT(a && *a == id * 7 && s == payload((u64)id, 40), "pool.args", "task %d received altered arguments", id);
    { int r = ++w.running, p = w.peak.load(); while (r > p && !w.peak.compare_exchange_weak(p, r)) {} }
    if (t.work) nap(t.work);
    --w.running; t.done = true; w.finished.fetch_add(1);
    if (t.thrower) throw std::runtime_error("task");
}
template <ThreadPool::Model M> void drive(u32 lo, u32 hi) {
    World w;
    int harness = sim::thread_count_live();
    u32 nsub = range(WORK, 1, 3), phases = range(WORK, 1, 3), per = range(WORK, 1, 6);
    u64 chk = pick<u64>(WORK, {20, 1, 5, 100, 1000}), worst = pick<u64>(WORK, {0, 1, 10, 60});
    w.t.resize(nsub * phases * per);
    for (auto& t : w.t) { t.work = worst && choose(WORK, 2) ? choose(WORK, (u32)worst + 1) * MS : 0; t.thrower = choose(WORK, 6) == 5; }
    sim::sample("%s pool, min %u max %u, check every %llu ms, %u submitters x %u phases x %u tasks", M == ThreadPool::Model::AsyncCheck ? "managed" : "fixed", lo, hi, (unsigned long long)chk, nsub, phases, per);
    int base_threads = 0;
    bool early = choose(WORK, 3) == 2;      // tasks queued before run()
    int maxworkers = M == ThreadPool::Model::AsyncCheck ? (int)hi : (int)lo;
    {
        ThreadPool pool;
        pool.setMinThreadNum(lo).setMaxThreadNum(hi);
        if constexpr (M == ThreadPool::Model::FixedSizeAndNoCheck) pool.setFixedThreadNum(lo);
        if (!early) pool.run<M>(std::chrono::milliseconds(chk));
        base_threads = harness + (M == ThreadPool::Model::AsyncCheck ? 1 : 0);
        for (u32 ph = 0; ph < phases; ++ph) {
            std::vector<std::thread> subs; std::vector<std::vector<FutureResult<void>>> fs(nsub);
            for (u32 s = 0; s < nsub; ++s) subs.emplace_back([&, s] {
                for (u32 k = 0; k < per; ++k) {
                    int id = (int)((ph * nsub + s) * per + k);
                    if (choose(WORK, 4) == 3) nap(choose(WORK, 3 * (u32)chk + 1) * MS / 2);
                    fs[s].push_back(pool.addTask([&w](int i, std::unique_ptr<int> a, std::string str) { body(w, i, std::move(a), std::move(str)); },
                                    int(id), std::make_unique<int>(id * 7), payload((u64)id, 40)));
                }
            });
            if (early && ph == 0) pool.run<M>(std::chrono::milliseconds(chk));
            for (auto& t : subs) t.join();
            int want = (int)((ph + 1) * nsub * per);
            int live = 0;
            u64 bound = (u64)(nsub * per) * worst * MS + 20 * chk * MS + 20 * SEC;
            sim::wait_until([&] {
                live = sim::thread_count_live() - base_threads;
                EXPECT(live <= maxworkers, "pool.max", "%d workers alive, configured maximum %d", live, maxworkers);
                return w.finished.load() == want; }, bound, "pool.lost", "submitted tasks executed");
            // idle long enough for the manager to shrink the pool
            if (u32 idle = choose(WORK, 4)) nap(idle * 3 * chk * MS + choose(WORK, 100) * chk * (MS / 100));
        }
        for (size_t i = 0; i < w.t.size(); ++i) EXPECT(w.t[i].runs == 1, "pool.count", "task %zu ran %d times", i, w.t[i].runs);
        // tasks that wait for each other: a managed pool must grow up to its maximum, and shrink again once it is idle
        if (u32 el = choose(WORK, 3)) if (M == ThreadPool::Model::AsyncCheck || el == 2) for (u32 round = range(WORK, 1, 2); round--;) {
            std::atomic<int> in{0}, out{0}; int need = maxworkers, total = need + (int)lo + 1 + (int)choose(WORK, 4); std::vector<FutureResult<void>> fs;
            for (int k = 0; k < total; ++k) { fs.push_back(pool.addTask([&] { ++in; sim::wait_until([&] { return in.load() >= need; }, 20 * chk * MS + 60 * SEC, "pool.growth", "as many tasks run at once as the pool may have workers"); ++out; })); if (choose(WORK, 4) == 3) nap(choose(WORK, (u32)chk + 1) * MS); }
            sim::wait_until([&] { int live = sim::thread_count_live() - base_threads; EXPECT(live <= maxworkers, "pool.max", "%d workers alive, configured maximum %d", live, maxworkers); return out.load() == total; }, 40 * chk * MS + 120 * SEC, "pool.lost", "tasks that wait for each other executed"); sim::probe("pool grown to its maximum");
            if (choose(WORK, 2)) { sim::wait_until([&] { return sim::thread_count_live() - base_threads <= (int)lo; }, 20 * chk * MS + 60 * SEC, "pool.shrink", "an idle pool back at its minimum size"); int live = sim::thread_count_live() - base_threads; EXPECT(live == (int)lo, "pool.min", "%d workers left, configured minimum %u", live, lo); if (hi > lo) sim::probe("pool shrunk to its minimum"); }
        }
        EXPECT(w.peak <= maxworkers, "pool.max", "%d tasks ran at once, configured maximum %d", w.peak.load(), maxworkers);
        sim::deadline(60 * SEC + 10 * chk * MS, "pool.shutdown", "pool destructor");
    }
    sim::clear_deadline();
    for (size_t i = 0; i < w.t.size(); ++i) EXPECT(w.t[i].runs == 1, "pool.count", "task %zu ran %d times", i, w.t[i].runs);
    EXPECT(sim::thread_count_live() == harness, "pool.threads", "%d threads outlive the pool", sim::thread_count_live() - harness);
    note("peak %d", w.peak.load());
}
}
SIM_SCENARIO("C01", pool_fixed) { sim::swarm_sched(); drive<ThreadPool::Model::FixedSizeAndNoCheck>(range(WORK, 1, 4), 4); }
SIM_SCENARIO("C01", pool_managed) { sim::swarm_sched(); u32 lo = range(WORK, 1, 4); drive<ThreadPool::Model::AsyncCheck>(lo, lo + choose(WORK, 6)); }
