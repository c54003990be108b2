// C21: a client pool answers every request once with its own response.
#include "client.hpp"
#include <HXLibs/net/client/HttpClientPool.hpp>
#include <future>
using namespace cl;
namespace {
using Pool = HttpClientPool<NoneProxy>; using TO = Sec<4>; using Fut = HX::container::FutureResult<Try<ResponseData>>;
constexpr u64 HOLD = 40 * SEC; using SlowTO = Sec<400>;
HeaderHashMap hdr(const Request& q) { HeaderHashMap h; for (auto& kv : q.headers) h[kv.first] = kv.second; return h; }
u32 add(u32 plans, bool upload) {
    Server& sv = *SV; u32 id = (u32)sv.reqs.size(); Request q; q.port = 8080; q.path = "/p/" + std::to_string(id); q.headers = {{"x-id", std::to_string(id)}}; u32 k = choose(WORK, upload ? 4 : 3); q.method = k == 0 ? "GET" : k == 1 ? "POST" : k == 2 ? "PUT" : "PATCH"; // PATCH: the upload of a file
    if (k) q.body = payload(2100 + id, std::max(1u, sv.size_draw())); if (k == 3) sim::fs_put("/simfs/up" + std::to_string(id), q.body);
    for (int a = 0; a < 2; ++a) { Beh b = plans && choose(FAULT, plans) == 1 ? pick<Beh>(FAULT, {CUT_FIN, CUT_RST, STALL, MALFORMED, CLOSE_EARLY, RST_EARLY, SILENT}) : GOOD; q.plan.push_back(b); } if (q.plan[0] != GOOD) sim::fault(BN[q.plan[0]]);
    sv.reqs.push_back(q); return id;
}
template <typename T> Fut issue(Pool& pool, u32 id) {
    auto& q = SV->reqs[id]; std::string u = "http://127.0.0.1:8080" + q.path; auto h = hdr(q);
    if (q.method == "GET") return pool.get<T>(u, h); if (q.method == "POST") return pool.post<T>(u, q.body, HttpContentType::Text, h);
    if (q.method == "PUT") return pool.requst<PUT, T>(u, h, q.body, HttpContentType::Text); return pool.uploadChunked<HttpMethod::PATCH, T>(u, "/simfs/up" + std::to_string(id), HttpContentType::Text, h);
}
Try<ResponseData> take(Fut& f) { try { return f.get(); } catch (...) { sim::probe("request dropped"); return Try<ResponseData>{std::current_exception()}; } } // dropped before it was begun
void setup(Server& sv) { SV = &sv; sv.anyOrder = true; sv.bodyCap = cfg.seg_mode == 3 ? 300 : cfg.seg_mode == 2 || cfg.pipe_cap < 3000 ? 1500 : 20000; sv.pieces = pick<u32>(NET, {1, 3}); sv.listen(8080); }
}
// one caller; the pool is resized between batches: every batch is spread over all of the pool's clients and no others
SIM_SCENARIO("C21", pool_batches) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); cfg.stall_pm = std::min(cfg.stall_pm, 5u);
    Server sv; setup(sv); sv.exact = false; sv.reqs.reserve(200); u32 size = range(WORK, 1, 4), rounds = range(WORK, 1, 4); sim::sample("pool of %u clients, %u rounds, segmentation %u", size, rounds, cfg.seg_mode); sim::deadline(6000 * SEC, "http.hang", "the requests");
    {
        Pool pool{size}; if (choose(WORK, 2)) nap(choose(WORK, 5) * MS);
        for (u32 r = 0; r < rounds; ++r) {
            sv.hold = choose(WORK, 2) ? HOLD : 0; sv.busyPeak = 0; u32 m = range(WORK, 1, 7); std::vector<u32> ids; for (u32 i = 0; i < m; ++i) ids.push_back(add(0, false));
            std::vector<Fut> f; for (u32 i : ids) f.push_back(sv.hold ? issue<SlowTO>(pool, i) : issue<TO>(pool, i)); std::vector<u32> order; for (u32 i = 0; i < m; ++i) order.push_back(i); for (u32 i = m; i > 1; --i) std::swap(order[i - 1], order[choose(WORK, i)]);
            for (u32 i : order) { auto t = take(f[i]); judge(ids[i], t, false); EXPECT((bool)t, "http.lost", "request %u of a correct server failed: %s", ids[i], t ? "" : t.what().c_str()); }
            EXPECT(sv.busyPeak <= size, "pool.size", "%u requests were in progress at once in a pool of %u clients", sv.busyPeak, size);
            if (sv.hold) EXPECT(sv.busyPeak == std::min(m, size), "pool.spread", "only %u of %u requests were in progress at once in a pool of %u clients", sv.busyPeak, m, size);
            if (choose(WORK, 4) == 1) { pool.close(); auto fds = sim::open_fds(); std::erase_if(fds, [](auto& f) { return !strcmp(f.kind, "ring"); }); EXPECT(fds.empty(), "pool.close", "%zu connections are open after the pool was closed (%s)", fds.size(), fds[0].kind); } if (choose(WORK, 2)) { size = range(WORK, 1, 5); pool.resize(size); } }
    }
    sim::clear_deadline(); check_fds("after the pool was destroyed"); sv.shut(); nap(4 * SEC); SV = nullptr;
}
// several callers, chains of requests, resizing and closing meanwhile, faulty servers
SIM_SCENARIO("C21", pool_callers) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); cfg.recv_err = cfg.send_err = cfg.close_err = 0;
    Server sv; setup(sv); u32 flt = choose(FAULT, 3), size = range(WORK, 1, 4), callers = range(WORK, 1, 3); bool err = flt == 2, resizer = choose(WORK, 2), early = choose(WORK, 4) == 1, shrink = resizer && choose(WORK, 2); if (err) { cfg.recv_err = 20; cfg.send_err = 10; sv.exact = false; sv.lateOk = sv.lateDup = true; }
    struct Job { std::vector<u32> ids; u32 chain; }; std::vector<std::vector<Job>> work(callers); sv.reqs.reserve(200);
    for (auto& w : work) for (u32 i = 0, n = range(WORK, 1, 4); i < n; ++i) { Job j; j.chain = early || shrink ? 0 : choose(WORK, 3) == 1 ? range(WORK, 1, 2) : 0; for (u32 k = 0; k <= j.chain; ++k) j.ids.push_back(add(flt ? 3 : 0, true)); w.push_back(j); }
    std::vector<u32> steps; if (resizer) for (u32 i = 0, n = range(WORK, 1, 5); i < n; ++i) steps.push_back(choose(WORK, 6)); std::vector<bool> wait; for (u32 i = 0; i < 64; ++i) wait.push_back(choose(WORK, 2)); std::vector<u64> naps; for (u32 i = 0; i < 64; ++i) naps.push_back(choose(WORK, 3) == 1 ? choose(WORK, 2000) * MS : 0);
    sim::sample("pool of %u clients, %u callers, resizing %d, faults %u, segmentation %u", size, callers, resizer, flt, cfg.seg_mode); sim::deadline(3000 * SEC, "http.hang", "the requests"); bool bad = err || early || shrink; // removing a client drops what it has not begun (continuations too: thenTry needs its client)
    {
        auto pool = std::make_unique<Pool>(size); std::vector<std::vector<std::pair<u32, Fut>>> later(callers); std::vector<std::thread> th;
        auto run = [&](u32 c) {
            for (auto& j : work[c]) {
                if (u64 z = naps[j.ids[0] % 64]) nap(z); u32 a = j.ids[0];
                if (!j.chain) { auto f = issue<TO>(*pool, a); if (wait[a % 64]) { auto t = take(f); judge(a, t, bad); } else later[c].push_back({a, std::move(f)}); continue; }
                auto end = std::make_shared<std::promise<int>>(); auto w = end->get_future(); u32 b = j.ids[1], d = j.ids[j.chain]; bool more = j.chain == 2; Pool& P = *pool;
                issue<TO>(P, a).thenTry([&P, a, b, d, bad, more, end](Try<ResponseData> t) { judge(a, t, bad); issue<TO>(P, b).thenTry([&P, b, d, bad, more, end](Try<ResponseData> t) { judge(b, t, bad); if (!more) { end->set_value((int)b); return; } issue<TO>(P, d).thenTry([d, bad, end](Try<ResponseData> t) { judge(d, t, bad); end->set_value((int)d); }); }); });
                int got = w.get(); EXPECT(got == (int)d, "pool.chain", "chain of request %u yielded %d", a, got); } };
        for (u32 c = 1; c < callers; ++c) th.emplace_back(run, c);
        if (resizer) th.emplace_back([&] { for (u32 s : steps) { nap(naps[s] / 2); if (s == 5) pool->close(); else pool->resize(shrink ? s + 1 : std::max<u32>(s + 1, size)), size = std::max(size, s + 1); } });
        run(0); for (auto& t : th) t.join();
        if (early) { pool.reset(); sim::probe("pool destroyed with requests outstanding"); }
        for (auto& l : later) for (auto& [id, f] : l) { auto t = take(f); judge(id, t, bad); }
    }
    sim::clear_deadline(); check_fds("after the pool was destroyed"); EXPECT(sim::thread_count_live() == 1, "thread.leak", "%d threads outlived the pool", sim::thread_count_live() - 1); for (auto& q : sv.reqs) EXPECT(q.done, "http.lost", "a request never ended"); sv.shut(); nap(4 * SEC); SV = nullptr;
}
