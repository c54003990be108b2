// C07: whenAll waits for all and returns every result in its place.
#include "common.hpp"
#include <HXLibs/container/ThreadPool.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <set>
using namespace HX::coroutine;

namespace {
struct Boom : std::runtime_error { int id; Boom(int i) : std::runtime_error("boom" + std::to_string(i)), id(i) {} };
struct World { EventLoop& loop; HX::container::ThreadPool* pool = nullptr; int next = 0, made = 0, died = 0, io = 0; std::set<int> done, dead; };
struct Mark {
    World& w; int id; std::unique_ptr<int> heap;
    Mark(World& w_, int i) : w(w_), id(i), heap(new int(i)) { ++w.made; }
    ~Mark() { EXPECT(w.dead.insert(id).second && *heap == id, "all.dtor", "locals of child %d destroyed twice or damaged", id); ++w.died; }
};
struct Spec { int kind; u32 a, b; bool thrower; };
Spec spec(bool pool) { Spec s; static const int k[] = {0, 0, 2, 1, 2, 3, 4, 5, 6, 7}; s.kind = k[choose(WORK, pool ? 10 : 9)]; s.a = choose(WORK, 8); s.b = 1 + choose(WORK, 5); s.thrower = choose(WORK, 5) == 4; return s; }
std::string show(const Spec& s) { static const char* n[] = {"sleep", "yield", "sync", "steps", "any", "all", "io", "via"}; return std::string(n[s.kind]) + std::to_string(s.a) + "." + std::to_string(s.b) + (s.thrower ? "!" : ""); }
Task<int> leaf(World& w, u32 ms, int v) { Mark m(w, 1000000 + w.next++); co_await w.loop.makeTimer().sleepFor(std::chrono::milliseconds(ms)); if (v < 0) throw Boom(v); co_return v; }
Task<int> child(World& w, Spec s, int id) {
    Mark m(w, id);
    switch (s.kind) {
    case 0: co_await w.loop.makeTimer().sleepFor(std::chrono::milliseconds(s.a)); break;
    case 1: for (u32 i = 0; i < s.b * (s.a + 1); ++i) co_await w.loop.makeTimer().yield(); break;
    case 2: break;
    case 3: for (u32 i = 0; i < s.b; ++i) { co_await w.loop.makeTimer().sleepFor(std::chrono::milliseconds(1)); if (s.a & 1) co_await w.loop.makeTimer().yield(); } break;
    case 4: { auto r = co_await whenAny(leaf(w, s.a, 1), leaf(w, s.b, 2)); EXPECT((r.index() ? r.get<1>() : r.get<0>()) == (int)r.index() + 1, "all.value", "nested whenAny"); break; }
    case 5: { auto r = co_await whenAll(leaf(w, s.a, 1), leaf(w, s.b, -2), leaf(w, 0, 3)); EXPECT(std::get<0>(r).get() == 1 && !std::get<1>(r) && std::get<2>(r).get() == 3, "all.value", "nested whenAll values"); break; }
    case 6: for (u32 i = 0; i < s.b; ++i) { ++w.io; int r = co_await w.loop.makeAioTask().prepClose(70000); EXPECT(r == -EBADF, "all.value", "operation gave %d", r); } break;
    case 7: { u32 us = s.a * 700; int v = co_await w.pool->addTask([us, id] { nap((u64)us * US); return id * 3; }).via(w.loop); EXPECT(v == id * 3, "all.value", "future value %d", v); break; }
    }
    EXPECT(w.done.insert(id).second, "all.twice", "child %d finished twice", id);
    if (s.thrower) throw Boom(id);
    co_return id;
}
template <size_t... I, typename T> void judge(World& w, std::index_sequence<I...>, T& r, const Spec* s, int base, const std::string& d) {
    auto one = [&](auto& t, u32 i) {
        EXPECT(w.done.count(base + (int)i), "all.early", "whenAll returned before child %u had finished: %s", i, d.c_str());
        if (s[i].thrower) { int id = -1; EXPECT(!t.isVal(), "all.value", "child %u threw, the result holds a value: %s", i, d.c_str()); try { t.rethrow(); } catch (Boom& b) { id = b.id; } EXPECT(id == base + (int)i, "all.value", "child %u's exception is at another position (%d): %s", i, id - base, d.c_str()); }
        else { EXPECT(t.isVal(), "all.value", "child %u returned a value, the result holds an exception: %s", i, d.c_str()); EXPECT(t.get() == base + (int)i, "all.value", "position %u holds the value of child %d: %s", i, t.get() - base, d.c_str()); }
    };
    (one(std::get<I>(r), (u32)I), ...);
}
Task<> round(World& w, u32 n, u32 form, bool pool, u64* rounds) {
    Spec s[6]; int base = w.next; w.next += (int)n; std::string d;
    for (u32 i = 0; i < n; ++i) { s[i] = spec(pool); d += show(s[i]) + " "; }
    if (*rounds == 0) sim::sample("first round: %s form %u", d.c_str(), form);
    ++*rounds;
    int made = w.made, died = w.died; int resumed = 0; u64 t0 = sim::now(); u64 longest = 0;
    for (u32 i = 0; i < n; ++i) if (s[i].kind == 0) longest = std::max<u64>(longest, s[i].a);
    auto C = [&](u32 i) { return child(w, s[i], base + (int)i); };
    auto J = [&]<size_t N>(std::integral_constant<size_t, N>, auto&& r) { ++resumed; judge(w, std::make_index_sequence<N>{}, r, s, base, d); };
#define N(k) std::integral_constant<size_t, k>{}
    switch (n) {
    case 1: J(N(1), co_await whenAll(C(0))); break;
    case 2: if (form == 0) J(N(2), co_await whenAll(C(0), C(1))); else J(N(2), co_await (C(0) && C(1))); break;
    case 3: if (form == 0) J(N(3), co_await whenAll(C(0), C(1), C(2))); else if (form == 1) J(N(3), co_await (C(0) && C(1) && C(2))); else J(N(3), co_await (C(0) && (C(1) && C(2)))); break;
    case 4: if (form == 0) J(N(4), co_await whenAll(C(0), C(1), C(2), C(3))); else if (form == 1) J(N(4), co_await ((C(0) && C(1)) && (C(2) && C(3)))); else J(N(4), co_await (C(0) && C(1) && C(2) && C(3))); break;
    default: if (form == 0) J(N(5), co_await whenAll(C(0), C(1), C(2), C(3), C(4))); else J(N(5), co_await (C(0) && (C(1) && C(2)) && C(3) && C(4)));
    }
    EXPECT(resumed == 1, "all.twice", "the caller was resumed %d times", resumed);
    EXPECT(sim::now() - t0 + 1 >= longest * MS, "all.early", "whenAll took %.3f ms although one child sleeps %llu ms: %s", (sim::now() - t0) / 1e6, (unsigned long long)longest, d.c_str());
    EXPECT(w.made - made == w.died - died, "all.dtor", "%d local objects created, %d destroyed: %s", w.made - made, w.died - died, d.c_str());
}
}
SIM_SCENARIO("C07", gather) {
    bool pool = choose(WORK, 3) == 2; u32 rounds = range(WORK, 1, 8), par = range(WORK, 1, 4);
    if (pool) sim::swarm_sched();
    if (choose(CFG, 4) == 1) cfg.eintr_pm = 100;
    if (choose(CFG, 3) == 1) cfg.cqe_delay_pm = 300;
    sim::deadline(120 * SEC, "all.hang", "whenAll calls");
    u64 done = 0;
    {
        HX::container::ThreadPool tp;
        if (pool) { tp.setFixedThreadNum(range(WORK, 1, 3)); tp.run<HX::container::ThreadPool::Model::FixedSizeAndNoCheck>(); }
        EventLoop loop; World w{loop, &tp};
        if (par == 1) loop.sync([&]() -> Task<> { for (u32 i = 0; i < rounds; ++i) { u32 n = range(WORK, 1, 5); co_await round(w, n, choose(WORK, 3), pool, &done); } }());
        else {  // several gatherers share the loop: bookkeeping per call, locals are checked at the end only
            rounds *= par; u32 ended = 0; std::vector<Task<>> v;
            auto one = [&](u32 k) -> Task<> {
                for (u32 i = 0; i < rounds / par; ++i) {
                    u32 a = choose(WORK, 6), b = choose(WORK, 6); int x = (int)(k * 1000 + i);
                    auto r = co_await whenAll(leaf(w, a, x), leaf(w, b, -x - 1), whenAll(leaf(w, b, x + 1), leaf(w, a, x + 2)), w.loop.makeTimer().yield());
                    EXPECT(std::get<0>(r).get() == x && !std::get<1>(r) && std::get<2>(r).isVal() && std::get<3>(r).isVal(), "all.value", "gatherer %u got foreign results", k);
                    auto& in = std::get<2>(r).get(); EXPECT(std::get<0>(in).get() == x + 1 && std::get<1>(in).get() == x + 2, "all.value", "gatherer %u got foreign nested results", k);
                    int e = 0; try { std::get<1>(r).rethrow(); } catch (Boom& bm) { e = bm.id; } EXPECT(e == -x - 1, "all.value", "gatherer %u got a foreign exception", k);
                    ++done;
                }
                ++ended;
            };
            for (u32 k = 0; k < par; ++k) { v.push_back(one(k)); loop.start(v.back()); }
            loop.run(); EXPECT(ended == par, "all.lost", "%u of %u gatherers ended", ended, par);
        }
        EXPECT(w.made == w.died, "all.dtor", "%d local objects created, %d destroyed", w.made, w.died);
    }
    EXPECT(done == rounds, "all.lost", "only %llu of %u rounds", (unsigned long long)done, rounds);
}
// anything that can be awaited: awaiters and awaitables, void or not, ready at once or completed later from outside in any order
namespace {
struct Later { struct Slot { std::coroutine_handle<> h; int id; }; std::vector<Slot> q; int resumed = 0, created = 0; std::set<int> out; };
template <typename V> struct Aw { Later& l; int id, mode; // mode 0: ready, 1: later, 2: ready and throws, 3: later and throws, 4: suspends and continues at once
    bool await_ready() const { return mode == 0 || mode == 2; }
    bool await_suspend(std::coroutine_handle<> h) { if (mode == 4) return false; l.q.push_back({h, id}); return true; }
    V await_resume() { EXPECT(l.out.insert(id).second, "all.twice", "child %d was completed twice", id); ++l.resumed; if (mode == 2 || mode == 3) throw Boom(id); if constexpr (!std::is_void_v<V>) return V(std::to_string(id)); } };
template <typename V> struct Able { Later& l; int id, mode; Aw<V> operator co_await() const { return {l, id, mode}; } };
Task<> empty(Later& l, int id, int mode) { co_await Aw<void>{l, id, mode}; }
}
SIM_SCENARIO("C07", awaiters) {
    u32 rounds = range(WORK, 1, 12); EventLoop loop; Later l; u32 done = 0; sim::deadline(120 * SEC, "all.hang", "whenAll calls"); sim::sample("%u rounds", rounds);
    loop.sync([&]() -> Task<> {
        for (u32 r = 0; r < rounds; ++r) {
            bool back = false; int m[5], base = (int)r * 10; for (int& x : m) x = (int)choose(WORK, 5); int before = l.resumed;
            auto judge = [&](auto& t, int i, bool val) { EXPECT(l.out.count(base + i), "all.early", "whenAll returned before child %d was complete", i); bool thrower = m[i] == 2 || m[i] == 3; EXPECT(t.isVal() == !thrower, "all.value", "child %d: a value %d, threw %d", i, t.isVal(), thrower); if (thrower) { int e = -1; try { t.rethrow(); } catch (Boom& b) { e = b.id; } EXPECT(e == base + i, "all.value", "child %d's exception is that of %d", i, e - base); } else if constexpr (requires { t.get() == std::string(); }) EXPECT(t.get() == std::to_string(base + i), "all.value", "child %d yields '%s'", i, t.get().c_str()); (void)val; };
            auto gather = [&]() -> Task<> { auto t = co_await whenAll(Aw<void>{l, base, m[0]}, Aw<std::string>{l, base + 1, m[1]}, Able<void>{l, base + 2, m[2]}, Able<std::string>{l, base + 3, m[3]}, empty(l, base + 4, m[4]));
                EXPECT(!back, "all.twice", "resumed twice"); back = true; judge(std::get<0>(t), 0, false); judge(std::get<1>(t), 1, true); judge(std::get<2>(t), 2, false); judge(std::get<3>(t), 3, true); judge(std::get<4>(t), 4, false); };
            auto g = gather(); loop.start(g);
            int late = 0; for (int x : m) late += x == 1 || x == 3; EXPECT((int)l.q.size() == late, "all.order", "%zu children wait for completion, %d expected", l.q.size(), late);
            EXPECT(back == (late == 0), back ? "all.early" : "all.lost", "%d children are incomplete and whenAll %s", late, back ? "has returned" : "has not returned");
            while (!l.q.empty()) { if (choose(WORK, 2)) co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(choose(WORK, 3))); EXPECT(!back, "all.early", "whenAll returned with %zu children incomplete", l.q.size()); u32 k = choose(WORK, (u32)l.q.size()); auto h = l.q[k].h; l.q.erase(l.q.begin() + k); h.resume(); }
            EXPECT(back && g.getPromise().done(), "all.lost", "whenAll did not return although all children are complete"); EXPECT(l.resumed - before == 5, "all.twice", "%d completions of 5 children", l.resumed - before); ++done; }
    }());
    EXPECT(done == rounds, "all.lost", "only %u of %u rounds", done, rounds);
}
