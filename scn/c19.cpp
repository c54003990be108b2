// C19: the serial executor runs its tasks one at a time, in submission order, none lost.
#include "common.hpp"
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/coroutine/executor/SerialExecutor.hpp>
#include <set>
#include <deque>
using namespace HX::coroutine;
namespace {
struct Fire { // a detached submitter; frames that never end are destroyed by the scenario
    struct promise_type { static inline std::set<void*>* all; Fire get_return_object() { all->insert(std::coroutine_handle<promise_type>::from_promise(*this).address()); return {}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::terminate(); } ~promise_type() { all->erase(std::coroutine_handle<promise_type>::from_promise(*this).address()); } }; };
enum St { IDLE, QUEUED, RUNNING, ENDED, DROPPED };
struct Rec { St st = IDLE; bool threw = false, back = false; };
struct W { EventLoop* loop; std::optional<SerialExecutor> se; std::vector<Rec> r; std::deque<size_t> queue; std::optional<size_t> active; size_t open = 0, spawned = 0, spawnCap = 0, clears = 0; u32 throwPm = 0, clearPm = 0, syncPm = 0; u64 maxNap = 0; };
void clear(W& w) { for (size_t i : w.queue) { w.r[i].st = DROPPED; sim::probe("dropped by clear"); } if (w.active) sim::probe("cleared while a task runs"); w.queue.clear(); ++w.clears; note("clear"); w.se->clear(); }
Fire submitter(W& w, int rounds);
struct Boom : std::runtime_error { size_t id; Boom(size_t i) : std::runtime_error("boom"), id(i) {} };
Task<> task(W& w, size_t id) {
    auto& r = w.r[id]; EXPECT(!w.active, "serial.overlap", "task %zu started while task %zu was running", id, *w.active); EXPECT(r.st == QUEUED, "serial.twice", "task %zu started in state %d", id, r.st);
    EXPECT(w.queue.size() && w.queue.front() == id, "serial.order", "task %zu started although task %zu was submitted earlier", id, w.queue.empty() ? 0 : w.queue.front()); w.queue.pop_front(); w.active = id; w.r[id].st = RUNNING;
    u32 steps = chance(WORK, w.syncPm) ? 0 : range(WORK, 1, 3); bool boom = chance(FAULT, w.throwPm); u32 at = choose(FAULT, steps + 1);
    for (u32 s = 0;; ++s) {
        if (boom && s == at) { sim::fault("task_throws"); w.r[id].threw = true; w.r[id].st = ENDED; w.active.reset(); throw Boom(id); }
        if (w.spawned < w.spawnCap && choose(WORK, 6) == 1) { ++w.spawned; sim::probe("submitted from inside a task"); submitter(w, 1); }
        if (chance(WORK, w.clearPm)) clear(w);
        if (s == steps) break;
        if (choose(WORK, 3) == 0) co_await w.loop->makeTimer().yield(); else co_await w.loop->makeTimer().sleepFor(std::chrono::nanoseconds(choose(WORK, 100) * (w.maxNap / 100)));
        EXPECT(w.active == id, "serial.overlap", "another task ran while task %zu was suspended", id); }
    w.r[id].st = ENDED; w.active.reset(); }
Task<> round_(W& w) {
    size_t id = w.r.size(); w.r.push_back({}); w.r[id].st = QUEUED; w.queue.push_back(id); note("submit %zu", id); bool threw = false; ++w.open;
    try { co_await w.se->serial(task(w, id)); } catch (Boom& b) { threw = true; EXPECT(b.id == id, "serial.exception", "submitter %zu received the exception of task %zu", id, b.id); } catch (std::exception& e) { sim::fail("serial.exception", "submitter %zu received '%s'", id, e.what()); }
    auto& r = w.r[id]; EXPECT(r.st != DROPPED, "serial.dropped", "the submitter of the dropped task %zu was resumed", id); EXPECT(r.st == ENDED, "serial.early", "submitter %zu was resumed before its task finished (state %d)", id, r.st); EXPECT(!r.back, "serial.twice", "submitter %zu was resumed twice", id); EXPECT(threw == r.threw, "serial.exception", "task %zu %s but its submitter saw %s", id, r.threw ? "threw" : "returned", threw ? "an exception" : "none"); r.back = true; --w.open; }
Fire submitter(W& w, int rounds) { for (int i = 0; i < rounds; ++i) { if (choose(WORK, 3)) co_await w.loop->makeTimer().sleepFor(std::chrono::nanoseconds(choose(WORK, 100) * (w.maxNap / 50))); co_await round_(w); } }
Fire burst(W& w, size_t n) { if (!n) co_return; co_await round_(w); }
}
SIM_SCENARIO("C19", executor) {
    std::set<void*> frames; Fire::promise_type::all = &frames; W w; sim::deadline(3000 * SEC, "serial.hang", "the submitted tasks");
    u32 n = range(WORK, 1, 12), rounds = range(WORK, 1, 6); w.throwPm = pick<u32>(FAULT, {0, 200, 600}); w.clearPm = pick<u32>(WORK, {0, 0, 100}); w.syncPm = pick<u32>(WORK, {300, 0, 900}); w.maxNap = pick<u64>(WORK, {10 * MS, MS, SEC}); w.spawnCap = choose(WORK, 10); size_t big = choose(WORK, 60) == 1 ? 4000 : 0; bool outer = choose(WORK, 3) == 1 && w.clearPm; bool frameFirst = choose(WORK, 2);
    sim::sample("%u submitters with up to %u rounds, %u permille throwing, %u permille clearing, burst of %zu", n, rounds, w.throwPm, w.clearPm, big);
    { EventLoop loop; w.loop = &loop; w.se.emplace();
      auto r = loop.trySync([&]() -> Task<> {
          for (u32 i = 0; i < n; ++i) submitter(w, (int)rounds);
          if (big) { w.syncPm = 1000; for (size_t i = 0; i < big; ++i) burst(w, 1); sim::probe("burst of synchronous tasks"); }
          u64 last = sim::now(); for (;;) { size_t before = w.r.size(), done = 0; for (auto& x : w.r) done += x.back || x.st == DROPPED; co_await loop.makeTimer().sleepFor(std::chrono::nanoseconds(w.maxNap * 8 + MS)); if (outer && w.clears < 3 && choose(WORK, 2)) clear(w);
              size_t now = 0; for (auto& x : w.r) now += x.back || x.st == DROPPED; if (now == w.r.size() && now == before && now == done) { bool busy = w.active.has_value() || !w.queue.empty(); if (!busy) break; } if (now != done || w.r.size() != before) last = sim::now();
              EXPECT(sim::now() - last < 20 * (w.maxNap * 8 + MS), "serial.lost", "no progress: %zu of %zu submissions returned, queue %zu, active %d", now, w.r.size(), w.queue.size(), (int)w.active.has_value()); }
          w.clearPm = 0; w.spawnCap = 0; size_t fin = w.r.size(); for (int k = 0; k < 2; ++k) co_await round_(w); for (size_t i = fin; i < w.r.size(); ++i) EXPECT(w.r[i].back, "serial.lost", "the executor no longer runs tasks");
      }());
      EXPECT((bool)r, "serial.exception", "the main coroutine threw '%s'", r.what().c_str());
      for (size_t i = 0; i < w.r.size(); ++i) EXPECT(w.r[i].back || w.r[i].st == DROPPED, "serial.lost", "submission %zu never returned (state %d)", i, w.r[i].st);
      if (frameFirst) { auto f = frames; for (void* h : f) std::coroutine_handle<>::from_address(h).destroy(); w.se.reset(); } else { w.se.reset(); auto f = frames; for (void* h : f) std::coroutine_handle<>::from_address(h).destroy(); }
    }
    sim::clear_deadline();
}
// the executor lives exactly as long as the submissions: the continuation of the last one destroys it
SIM_SCENARIO("C19", scoped) {
    std::set<void*> frames; Fire::promise_type::all = &frames; sim::deadline(1000 * SEC, "serial.hang", "the submitted tasks"); u32 reps = range(WORK, 1, 4); u32 sync = pick<u32>(WORK, {0, 500, 1000}); u32 thr = pick<u32>(FAULT, {0, 300}); sim::sample("%u scopes", reps);
    EventLoop loop; auto r = loop.trySync([&]() -> Task<> { for (u32 k = 0; k < reps; ++k) { W w; w.loop = &loop; w.se.emplace(); w.syncPm = sync; w.throwPm = thr; w.maxNap = pick<u64>(WORK, {MS, 0, 20 * MS});
        switch (choose(WORK, 3)) { case 0: co_await whenAll(round_(w), round_(w)); break; case 1: co_await whenAll(round_(w), round_(w), round_(w), round_(w)); break; default: co_await round_(w); }
        w.se.reset(); EXPECT(!w.active && w.queue.empty(), "serial.lost", "tasks left over"); for (auto& x : w.r) EXPECT(x.back, "serial.lost", "a submission did not return"); if (choose(WORK, 2)) co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(1)); } }());
    EXPECT((bool)r, "serial.exception", "the main coroutine threw '%s'", r.what().c_str()); sim::clear_deadline();
}
