// C12: a client request returns its own complete response or an error.
#include "client.hpp"
using namespace cl;
SIM_SCENARIO("C12", responses) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS);
    Server sv; SV = &sv; if (cfg.seg_mode >= 2) sv.bodyCap = cfg.seg_mode == 3 ? 300 : 3000; if (cfg.pipe_cap < 3000) sv.bodyCap = std::min(sv.bodyCap, 3000u);
    sv.pieces = pick<u32>(NET, {1, 3, 8}); sv.pause = pick<u64>(NET, {0, 2 * MS, 100 * MS}); sv.idleClose = pick<u64>(NET, {0, 3 * MS, 300 * MS});
    u32 n = range(WORK, 1, 7), badPm = pick<u32>(FAULT, {0, 300, 600}); bool shared = choose(WORK, 4) == 1, pathOnly = choose(WORK, 4) == 1, twoPorts = choose(WORK, 3) == 1, hosts = choose(WORK, 2), protoless = choose(WORK, 4) == 1; u32 okSeen = 0;
    for (int i = 0; i < 2; ++i) sv.listen(8080 + i);
    sim::sample("%u requests, %u permille faulty answers, %s loop, %u pieces", n, badPm, shared ? "shared" : "own", sv.pieces);
    sim::deadline(300 * SEC, "http.hang", "the requests");
    for (u32 i = 0; i < n; ++i) {
        Request q; q.port = 8080 + (twoPorts ? (int)choose(WORK, 2) : 0); u32 k = choose(WORK, 6); q.method = k < 3 ? "GET" : k < 5 ? "POST" : "HEAD"; q.host = hosts ? pick<const char*>(WORK, {"127.0.0.1", "a.test", "b.test", "a-b.c.test"}) : "127.0.0.1"; q.path = "/r/" + std::to_string(i) + (choose(WORK, 4) == 1 ? "/index.v1.html" : "") + (choose(WORK, 3) == 1 ? "?a=b&c=" + text(WORK, choose(WORK, 9), "abc%/:@?") : "");
        if (q.method == "POST") q.body = payload(300 + i, std::max(1u, sv.size_draw())); q.headers = {{"x-id", std::to_string(i)}}; if (choose(WORK, 5) == 1) q.headers.push_back({"Connection", "close"});
        for (int a = 0; a < 2; ++a) q.plan.push_back(sim::chance(FAULT, badPm) ? (Beh)range(FAULT, 1, NBEH - 1) : GOOD);
        if (q.plan[0] != GOOD) sim::fault(BN[q.plan[0]]);
        sv.reqs.push_back(q); }
    std::string last; bool early = false;   // origin of the connection; whether connect() made it
    auto url = [&](Request& q) { q.host = q.host + ":" + std::to_string(q.port); bool rel = (pathOnly && last == q.host && choose(WORK, 2)); last = q.host; early = !rel && pathOnly && choose(WORK, 4) == 1; return rel || early ? q.path : (protoless && choose(WORK, 3) == 1 ? "" : "http://") + q.host + q.path; };
    auto hdr = [&](Request& q) { HeaderHashMap h; for (auto& kv : q.headers) h[kv.first] = kv.second; return h; };
    using TO = Sec<2>;
    auto pauseBetween = [&](u32 i) -> u64 { bool surplus = false; for (auto& t : sv.reqs[i].att) surplus |= t.beh == SURPLUS; return surplus ? 400 * MS : choose(WORK, 3) == 1 ? choose(WORK, 500) * MS : 0; };
    if (shared) {
        auto loop = std::make_shared<EventLoop>();
        auto t = [&]() -> Task<> { HttpClient c{HttpClientOptions{}, loop};
            for (u32 i = 0; i < n; ++i) { auto& q = sv.reqs[i]; auto u = url(q); if (early) { auto o = "http://" + q.host; auto e = co_await c.coConnect(o); EXPECT((bool)e, "http.client", "connect failed with '%s'", e.what().c_str()); }
                Try<ResponseData> r = q.method == "GET" ? co_await c.template coGet<TO>(u, hdr(q)) : q.method == "POST" ? co_await c.template coPost<TO>(u, q.body, HttpContentType::Text, hdr(q)) : co_await c.template coRequest<HEAD, TO>(u, hdr(q));
                judge(i, r, false); okSeen += (bool)r; if (u64 p = pauseBetween(i)) co_await loop->makeTimer().sleepFor(std::chrono::nanoseconds(p)); }
            co_await c.coClose(); };
        auto e = loop->trySync(t()); EXPECT((bool)e, "http.client", "the client coroutine threw '%s'", e.what().c_str());
    } else {
        HttpClient c{HttpClientOptions{}};
        for (u32 i = 0; i < n; ++i) { auto& q = sv.reqs[i]; auto u = url(q); if (early) { auto e = c.connect("http://" + q.host).get(); EXPECT((bool)e, "http.client", "connect failed with '%s'", e.what().c_str()); }
            Try<ResponseData> r = (q.method == "GET" ? c.get<TO>(u, hdr(q)) : q.method == "POST" ? c.post<TO>(u, q.body, HttpContentType::Text, hdr(q)) : c.template request<HEAD, TO>(u, hdr(q))).get();
            judge(i, r, false); okSeen += (bool)r; if (u64 p = pauseBetween(i)) nap(p); }
    }
    sim::clear_deadline(); if (okSeen == n) sim::probe("every request answered"); check_fds("after the client was destroyed");
    sv.shut(); SV = nullptr;
}
