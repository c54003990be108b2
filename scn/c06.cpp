// C06: whenAny returns the first finisher and cancels the others safely.
#include "common.hpp"
#include <HXLibs/container/ThreadPool.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <set>
using namespace HX::coroutine;

namespace {
struct Boom : std::runtime_error { int id; Boom(int i) : std::runtime_error("boom"), id(i) {} };
struct World {
    EventLoop& loop; HX::container::ThreadPool* pool = nullptr;
    int next = 0; int made = 0, died = 0; u64 nseq = 0;
    std::vector<int> order;                       // ids in the order they finished
    std::set<int> dead;                           // ids whose locals were destroyed
};
// a local object of a child: knows if the child runs after it was cancelled, or is destroyed twice
struct Mark {
    World& w; int id; std::unique_ptr<int> heap;
    Mark(World& w_, int i) : w(w_), id(i), heap(new int(i)) { ++w.made; }
    ~Mark() { EXPECT(w.dead.insert(id).second, "any.dtor", "locals of child %d destroyed twice", id); EXPECT(*heap == id, "any.dtor", "locals of child %d damaged", id); ++w.died; }
    void alive() const { EXPECT(!w.dead.count(id) && *heap == id, "any.ghost", "child %d ran after it had been cancelled", id); }
};
struct Spec { int kind; u32 a, b; bool thrower; };
Spec spec(bool pool) {
    Spec s; static const int k[] = {0, 0, 0, 1, 1, 2, 3, 4, 5, 6}; s.kind = k[choose(WORK, pool ? 10 : 9)];
    s.a = choose(WORK, 8); s.b = 1 + choose(WORK, 5); s.thrower = choose(WORK, 6) == 5; return s;
}
std::string show(const Spec& s) { static const char* n[] = {"sleep", "yield", "sync", "steps", "any", "all", "via"}; return std::string(n[s.kind]) + std::to_string(s.a) + "." + std::to_string(s.b) + (s.thrower ? "!" : ""); }
Task<int> leaf(World& w, u32 ms, int v, u64* began = nullptr) { if (began) *began = sim::now(); Mark m(w, 1000000 + w.next++); co_await w.loop.makeTimer().sleepFor(std::chrono::milliseconds(ms)); m.alive(); co_return v; }
Task<int> child(World& w, Spec s, int id) {
    Mark m(w, id);
    auto t = w.loop.makeTimer();
    switch (s.kind) {
    case 0: co_await w.loop.makeTimer().sleepFor(std::chrono::milliseconds(s.a)); break;
    case 1: for (u32 i = 0; i < s.b * (s.a + 1); ++i) { co_await w.loop.makeTimer().yield(); m.alive(); } break;
    case 2: break;
    case 3: for (u32 i = 0; i < s.b; ++i) { co_await w.loop.makeTimer().sleepFor(std::chrono::milliseconds(1 + (s.a & 1))); m.alive(); if (s.a & 2) { co_await w.loop.makeTimer().yield(); m.alive(); } } break;
    case 4: { u64 b1 = 0, b3 = 0; auto r = co_await whenAny(leaf(w, s.a, 1, &b1), leaf(w, s.b, 2), leaf(w, s.a + s.b, 3, &b3)); m.alive(); int v = r.index() == 0 ? r.get<0>() : r.index() == 1 ? r.get<1>() : r.get<2>(); EXPECT(v == (int)r.index() + 1, "any.value", "nested whenAny gave index %zu with value %d", r.index(), v);
        EXPECT(b3 - b1 >= MS || (s.a == s.b ? r.index() < 2 : r.index() == (s.a < s.b ? 0u : 1u)), "any.value", "nested whenAny of %u and %u ms gave index %zu", s.a, s.b, r.index()); break; }
    case 5: { auto r = co_await whenAll(leaf(w, s.a, 1), leaf(w, s.b, 2)); m.alive(); EXPECT(std::get<0>(r).get() == 1 && std::get<1>(r).get() == 2, "any.value", "nested whenAll values"); break; }
    case 6: { u32 us = s.a * 700; int v = co_await w.pool->addTask([us, id] { nap((u64)us * US); return id * 3; }).via(w.loop); m.alive(); EXPECT(v == id * 3, "any.value", "future value %d", v); break; }
    }
    m.alive(); w.order.push_back(id);
    if (s.thrower) throw Boom(id);
    co_return id;
}
struct Got { size_t index = 99; int value = -1; int thrown = -1; };
// one round: run whenAny over n children, judge the outcome
Task<> round(World& w, u32 n, u32 form, bool pool, u64* rounds) {
    Spec s[6]; int base = w.next; w.next += (int)n; std::string d;
    for (u32 i = 0; i < n; ++i) { s[i] = spec(pool); d += show(s[i]) + " "; }
    if (*rounds == 0) sim::sample("first round: %s form %u", d.c_str(), form);
    ++*rounds;
    w.order.clear(); int made = w.made, died = w.died; u64 t0 = sim::now();
    auto C = [&](u32 i) { return child(w, s[i], base + (int)i); };
    Got g; size_t finishedAtReturn = 0;
    try {
        switch (n) {
        case 2: if (form == 0) { auto r = co_await whenAny(C(0), C(1)); finishedAtReturn = w.order.size(); g.index = r.index(); g.value = r.index() ? r.get<1>() : r.get<0>(); }
                else { auto r = co_await (C(0) || C(1)); finishedAtReturn = w.order.size(); g.index = r.index(); g.value = r.index() ? r.get<1>() : r.get<0>(); } break;
        case 3: { auto f = [&](auto&& r) { finishedAtReturn = w.order.size(); g.index = r.index(); g.value = g.index == 0 ? r.template get<0>() : g.index == 1 ? r.template get<1>() : r.template get<2>(); };
                if (form == 0) f(co_await whenAny(C(0), C(1), C(2))); else if (form == 1) f(co_await (C(0) || C(1) || C(2))); else f(co_await (C(0) || (C(1) || C(2)))); break; }
        default: { auto f = [&](auto&& r) { finishedAtReturn = w.order.size(); g.index = r.index(); g.value = g.index == 0 ? r.template get<0>() : g.index == 1 ? r.template get<1>() : g.index == 2 ? r.template get<2>() : r.template get<3>(); };
                if (form == 0) f(co_await whenAny(C(0), C(1), C(2), C(3))); else if (form == 1) f(co_await ((C(0) || C(1)) || (C(2) || C(3)))); else f(co_await (C(0) || C(1) || C(2) || C(3))); break; }
        }
    } catch (Boom& b) { finishedAtReturn = w.order.size(); g.thrown = b.id; }
    u64 took = sim::now() - t0;
    EXPECT(!w.order.empty(), "any.early", "whenAny returned although no child had finished: %s", d.c_str());
    EXPECT(finishedAtReturn == 1, "any.late", "whenAny returned after %zu children had finished: %s", finishedAtReturn, d.c_str());
    u32 win = (u32)(w.order[0] - base);
    EXPECT(win < n, "any.value", "winner %d", w.order[0]);
    if (s[win].thrower) EXPECT(g.thrown == base + (int)win, "any.value", "child %u threw first; whenAny gave index %zd exception %d: %s", win, (ssize_t)g.index, g.thrown, d.c_str());
    else EXPECT(g.index == win && g.value == base + (int)win && g.thrown < 0, "any.value", "child %u finished first; whenAny gave index %zd value %d exception %d: %s", win, (ssize_t)g.index, g.value, g.thrown, d.c_str());
    for (u32 i = 0; i < n; ++i) if (s[i].kind == 0 && !pool) EXPECT(took < (u64)s[i].a * MS + 30 * MS, "any.late", "whenAny took %.3f ms although child %u finishes after %u ms", took / 1e6, i, s[i].a);
    EXPECT(w.made - made == w.died - died, "any.dtor", "%d local objects created, %d destroyed when whenAny's expression ended: %s", w.made - made, w.died - died, d.c_str());
    if (choose(WORK, 2)) {
        size_t fin = w.order.size(); int m2 = w.made;
        co_await w.loop.makeTimer().sleepFor(std::chrono::milliseconds(choose(WORK, 12)));
        EXPECT(w.order.size() == fin && w.made == m2, "any.ghost", "a loser went on running after whenAny returned: %s", d.c_str());
    }
}
}
SIM_SCENARIO("C06", races) {
    bool pool = choose(WORK, 3) == 2; u32 rounds = range(WORK, 1, 8);
    if (pool) sim::swarm_sched();
    if (choose(CFG, 4) == 1) cfg.eintr_pm = 100;
    sim::deadline(120 * SEC, "any.hang", "sequence of whenAny calls");
    u64 done = 0;
    {
        HX::container::ThreadPool tp;
        if (pool) { tp.setFixedThreadNum(range(WORK, 1, 3)); tp.run<HX::container::ThreadPool::Model::FixedSizeAndNoCheck>(); }
        EventLoop loop; World w{loop, &tp};
        loop.sync([&]() -> Task<> { for (u32 i = 0; i < rounds; ++i) { u32 n = range(WORK, 2, 4); co_await round(w, n, choose(WORK, 3), pool, &done); } }());
        EXPECT(w.made == w.died, "any.dtor", "%d local objects created, %d destroyed", w.made, w.died);
    }
    EXPECT(done == rounds, "any.hang", "only %llu rounds", (unsigned long long)done);
}
// awaitables of different kinds and result types, and many whenAny at the same time
SIM_SCENARIO("C06", mixed_types) {
    u32 n = range(WORK, 1, 12); sim::sample("%u concurrent whenAny over void task, timer, string task and yield", n);
    EventLoop loop; World w{loop}; u32 ended = 0; sim::deadline(60 * SEC, "any.hang", "concurrent whenAny calls");
    auto vtask = [&](u32 ms) -> Task<> { Mark m(w, w.next++); co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(ms)); m.alive(); };
    auto stask = [&](u32 ms) -> Task<std::string> { Mark m(w, w.next++); std::string s(100 + ms, 'x'); co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(ms)); m.alive(); co_return s; };
    auto one = [&]() -> Task<> {
        for (u32 k = 0; k < 3; ++k) {
            u32 a = choose(WORK, 9), b = choose(WORK, 9), c = choose(WORK, 9); u32 mn = std::min({a, b, c});
            auto r = co_await whenAny(vtask(a), loop.makeTimer().sleepFor(std::chrono::milliseconds(b)), stask(c));
            u32 v = r.index() == 0 ? a : r.index() == 1 ? b : c;
            EXPECT(v == mn || v <= mn + 0, "any.value", "whenAny(%u,%u,%u ms) returned index %zu", a, b, c, r.index());
            if (r.index() == 2) EXPECT(r.get<2>() == std::string(100 + c, 'x'), "any.value", "string result damaged");
            // the outer one owns two inner ones
            auto q = co_await whenAny(whenAny(stask(a + 1), vtask(b + 1)), whenAll(stask(c), vtask(a)));
            u32 left = std::min(a, b) + 1, right = std::max(c, a);
            EXPECT(left == right || q.index() == (left < right ? 0u : 1u), "any.value", "nested: left after %u ms, right after %u ms, index %zu", left, right, q.index());
            if (q.index() == 0) { auto& in = q.get<0>(); EXPECT(a == b || in.index() == (a < b ? 0u : 1u), "any.value", "inner index %zu", in.index()); if (in.index() == 0) EXPECT(in.get<0>() == std::string(101 + a, 'x'), "any.value", "inner string damaged"); }
            else EXPECT(std::get<0>(q.get<1>()).get() == std::string(100 + c, 'x'), "any.value", "inner whenAll string damaged");
        }
        ++ended;
    };
    loop.sync([&]() -> Task<> { std::vector<Task<>> v; for (u32 i = 0; i < n; ++i) { v.push_back(one()); loop.start(v.back()); } while (ended < n) co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(3)); }());
    EXPECT(w.made == w.died, "any.dtor", "%d local objects created, %d destroyed", w.made, w.died);
}
// losers that wait for an I/O operation the kernel has not completed
SIM_SCENARIO("C06", io_losers) {
    u32 rounds = range(WORK, 1, 4); u32 mode = choose(WORK, 3);
    cfg.delay_max = 200 * US;
    sim::sample("%u rounds of whenAny(recv, sleep), mode %u", rounds, mode);
    std::shared_ptr<sim::Peer> peer; auto L = sim::Listener::listen(9000, [&](std::shared_ptr<sim::Peer> p) { peer = p; });
    EventLoop loop; World w{loop}; sim::deadline(60 * SEC, "any.hang", "whenAny over an operation and a timer");
    loop.sync([&]() -> Task<> {
        int fd = co_await loop.makeAioTask().prepSocket(AF_INET, SOCK_STREAM, IPPROTO_TCP, 0);
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(9000); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        int r = co_await loop.makeAioTask().prepConnect(fd, (sockaddr*)&a, sizeof a); EXPECT(r == 0, "any.value", "connect %d", r);
        auto rd = [&]() -> Task<int> { Mark m(w, w.next++); auto b = std::make_unique<char[]>(64); int k = co_await loop.makeAioTask().prepRecv(fd, {b.get(), 64}, 0); m.alive(); co_return k; };
        for (u32 i = 0; i < rounds; ++i) {
            u32 ms = 1 + choose(WORK, 4);
            if (mode != 1) sim::after((u64)choose(WORK, 8) * MS, [&] { peer->send("0123456789"); });
            auto q = co_await whenAny(rd(), loop.makeTimer().sleepFor(std::chrono::milliseconds(ms)));
            EXPECT(q.index() == 1 || q.get<0>() > 0, "any.value", "recv gave %d", q.get<0>());
            co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(choose(WORK, 6)));
        }
        if (mode == 2) peer->close();
        (void)co_await loop.makeAioTask().prepClose(fd);
    }());
}
