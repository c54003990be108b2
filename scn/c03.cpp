// C03: a future carries exactly its task's outcome and only after the task ended; continuations run once, in chains of any length.
#include "common.hpp"
#include <HXLibs/container/ThreadPool.hpp>
using namespace HX::container;

namespace {
struct Err : std::runtime_error { int id; explicit Err(int i) : std::runtime_error("err"), id(i) {} };
// the reference model: what a step of the chain does to an outcome
struct Out { bool ok; long v; };
struct Step { u32 kind; long k; u64 work; int runs = 0; bool done = false; };
// kinds: 0 int->int, 1 throws, 2 returns Try value, 3 returns Try exception, 4 recovers from an exception, 5 void, 6 rethrows what it got
Out model(Out in, const Step& s, int id) {
    switch (s.kind) {
    case 0: return in.ok ? Out{true, in.v + s.k} : Out{true, -1 - s.k};
    case 1: return {false, 1000 + id};
    case 2: return {true, (in.ok ? in.v : -7) * 3 + s.k};
    case 3: return {false, 2000 + id};
    case 4: return in.ok ? in : Out{true, in.v};
    default: return in;
    }
}
Out seen(Try<long>& t) { if (t) return {true, t.move()}; try { t.rethrow(); } catch (Err& e) { return {false, e.id}; } catch (...) { return {false, -99}; } return {false, -98}; }
bool same(Out a, Out b) { return a.ok == b.ok && a.v == b.v; }
struct World { std::vector<Step> s; std::vector<Out> expect; };
std::atomic<int> g_bad{0};
void enter(World& w, int i) { auto& s = w.s[(size_t)i]; EXPECT(++s.runs == 1, "future.twice", "step %d ran %d times", i, s.runs); }
void check(World& w, int i, Out got) { Out e = w.expect[(size_t)i]; EXPECT(same(got, e), "future.input", "step %d received %s %ld, its predecessor ended with %s %ld", i + 1, got.ok ? "value" : "exception", got.v, e.ok ? "value" : "exception", e.v); }

FutureResult<long> chain(FutureResult<long> f, World& w, int i) {
    if (i == (int)w.s.size()) return f;
    Step& s = w.s[(size_t)i];
    if (s.kind == 2 || s.kind == 3) {
        auto g = std::move(f).thenTry([&w, i](Try<long> t) -> Try<long> {
            enter(w, i); Out in = seen(t); check(w, i - 1, in); Step& s = w.s[(size_t)i]; if (s.work) nap(s.work);
            Out o = model(in, s, i); s.done = true;
            if (o.ok) return Try<long>{o.v};
            return Try<long>{std::make_exception_ptr(Err((int)o.v))};
        });
        return chain(std::move(g), w, i + 1);
    }
    auto g = std::move(f).thenTry([&w, i](Try<long> t) -> long {
        enter(w, i); Out in = seen(t); check(w, i - 1, in); Step& s = w.s[(size_t)i]; if (s.work) nap(s.work);
        Out o = model(in, s, i); s.done = true;
        if (!o.ok) throw Err((int)o.v);
        return o.v;
    });
    return chain(std::move(g), w, i + 1);
}
}
SIM_SCENARIO("C03", future_chains) {
    sim::swarm_sched();
    u32 nw = range(WORK, 1, 4), nchains = range(WORK, 1, 4);
    sim::sample("%u workers, %u chains", nw, nchains);
    std::vector<std::unique_ptr<World>> ws; 
    ThreadPool pool; pool.setFixedThreadNum(nw).setMaxThreadNum(nw).run<ThreadPool::Model::FixedSizeAndNoCheck>();
    sim::deadline(600 * SEC, "future.hang", "futures and continuations");
    std::vector<std::thread> users;
    for (u32 c = 0; c < nchains; ++c) {
        auto w = std::make_unique<World>(); u32 len = range(WORK, 1, 6);
        Out cur{true, 0};
        for (u32 i = 0; i < len; ++i) {
            Step s; u32 k = choose(WORK, 10); s.kind = i == 0 ? (k < 7 ? 0 : 1) : (k < 4 ? 0 : k < 6 ? 1 : k == 6 ? 2 : k == 7 ? 3 : 4);
            s.k = (long)choose(WORK, 100); s.work = choose(WORK, 3) == 2 ? choose(WORK, 20) * MS : 0; w->s.push_back(s);
            cur = i == 0 ? (s.kind == 1 ? Out{false, 1000} : Out{true, s.k}) : model(cur, w->s.back(), (int)i);
            w->expect.push_back(cur);
        }
        World* p = w.get(); ws.push_back(std::move(w));
        u32 how = choose(WORK, 3);
        users.emplace_back([&pool, p, how] {
            World& w = *p;
            auto f = pool.addTask([&w]() -> long { enter(w, 0); Step& s = w.s[0]; if (s.work) nap(s.work); s.done = true; if (s.kind == 1) throw Err(1000); return s.k; });
            if (how == 2) nap(choose(WORK, 30) * MS);
            auto g = chain(std::move(f), w, 1);
            Out e = w.expect.back(), got{false, -50};
            try {
                if (how == 1) g.wait();
                got = {true, g.get()};
            } catch (Err& x) { got = {false, x.id}; } catch (...) { got = {false, -97}; }
            EXPECT(same(got, e), "future.outcome", "chain of %zu: got %s %ld, expected %s %ld", w.s.size(), got.ok ? "value" : "exception", got.v, e.ok ? "value" : "exception", e.v);
            for (size_t i = 0; i < w.s.size(); ++i) EXPECT(w.s[i].done && w.s[i].runs == 1, "future.early", "the future was ready although step %zu had %s", i, w.s[i].runs ? "not ended" : "not run");
        });
    }
    for (auto& t : users) t.join();
    for (auto& w : ws) for (auto& s : w->s) EXPECT(s.runs == 1, "future.twice", "a step ran %d times", s.runs);
}
SIM_SCENARIO("C03", future_void_and_waiters) {
    sim::swarm_sched();
    u32 nw = range(WORK, 1, 3), n = range(WORK, 1, 6);
    sim::sample("%u workers, %u void/string tasks, concurrent waiters", nw, n);
    ThreadPool pool; pool.setFixedThreadNum(nw).setMaxThreadNum(nw).run<ThreadPool::Model::FixedSizeAndNoCheck>();
    sim::deadline(600 * SEC, "future.hang", "futures");
    for (u32 i = 0; i < n; ++i) {
        bool thrower = choose(WORK, 3) == 2; u64 work = choose(WORK, 3) ? choose(WORK, 20) * MS : 0; u32 waiters = choose(WORK, 4);
        std::atomic<bool> ended{false}; std::atomic<int> contRuns{0};
        auto f = pool.addTask([&, thrower, work]() { if (work) nap(work); ended.store(true); if (thrower) throw Err(5); });
        std::vector<std::thread> ts; std::atomic<int> seenOk{0};
        for (u32 k = 0; k < waiters; ++k) ts.emplace_back([&, k] {
            if (k & 1) nap(choose(WORK, 25) * MS);
            bool threw = false; try { f.wait(); } catch (Err& e) { threw = e.id == 5; }
            EXPECT(ended.load(), "future.early", "wait() of a void future returned before its task ended");
            EXPECT(threw == thrower, "future.outcome", "waiter %u saw %s, the task %s", k, threw ? "an exception" : "no exception", thrower ? "threw" : "returned");
            seenOk.fetch_add(1); });
        for (auto& t : ts) t.join();
        EXPECT(seenOk.load() == (int)waiters, "future.waiters", "waiters");
        if (choose(WORK, 2)) {
            auto g = std::move(f).thenTry([&](Try<void> t) -> std::string {
                contRuns.fetch_add(1);
                EXPECT(ended.load(), "future.early", "continuation of a void future started before its task ended");
                EXPECT((bool)t == !thrower, "future.input", "continuation of a %s task got %s", thrower ? "throwing" : "returning", t ? "a value" : "an exception");
                return payload(i, 50); });
            u32 v = choose(WORK, 2);
            if (v) {
                std::atomic<bool> e2{false};
                auto h = std::move(g).thenTry([&](Try<std::string> s) { EXPECT(s && s.get() == payload(i, 50), "future.input", "continuation received a different string"); nap(choose(WORK, 5) * MS); e2.store(true); });
                h.get(); EXPECT(e2.load(), "future.early", "future of a void continuation was ready before it ended");
            } else EXPECT(g.get() == payload(i, 50), "future.outcome", "string value altered");
            EXPECT(contRuns.load() == 1, "future.twice", "continuation ran %d times", contRuns.load());
        } else {
            bool threw = false; try { f.get(); } catch (Err&) { threw = true; }
            EXPECT(ended.load(), "future.early", "get() of a void future returned before its task ended");
            EXPECT(threw == thrower, "future.outcome", "get() %s, the task %s", threw ? "threw" : "returned", thrower ? "threw" : "returned");
        }
    }
}
