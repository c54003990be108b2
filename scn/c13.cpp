// C13: the client connects, reconnects and gives up cleanly.
#include "client.hpp"
using namespace cl;
namespace {
std::string url(int port, const std::string& path) { return "http://127.0.0.1:" + std::to_string(port) + path; }
size_t sockets() { size_t n = 0; for (auto& f : sim::open_fds()) n += !strcmp(f.kind, "socket"); return n; }
u32 add_request(Server& sv, int port, u32 badPm) {
    u32 id = (u32)sv.reqs.size(); Request q; q.port = port; q.method = choose(WORK, 3) == 1 ? "POST" : "GET"; q.path = "/c/" + std::to_string(id); if (q.method == "POST") q.body = payload(900 + id, range(WORK, 1, sv.bodyCap)); q.headers = {{"x-id", std::to_string(id)}}; q.host = "127.0.0.1:" + std::to_string(port);
    if (choose(WORK, 8) == 1) q.headers.push_back({"Connection", "close"});
    for (int a = 0; a < 2; ++a) q.plan.push_back(sim::chance(FAULT, badPm) ? (Beh)range(FAULT, 1, NBEH - 1) : GOOD);
    if (q.plan[0] != GOOD) sim::fault(BN[q.plan[0]]);
    sv.reqs.push_back(q); return id; }
HeaderHashMap hdr(const Request& q) { HeaderHashMap h; for (auto& kv : q.headers) h[kv.first] = kv.second; return h; }
using TO = Sec<2>;
}
SIM_SCENARIO("C13", connections) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS);
    Server sv; SV = &sv; sv.bodyCap = cfg.seg_mode >= 2 || cfg.pipe_cap < 3000 ? 300 : 5000; sv.reqs.reserve(64); sv.exact = false; sv.lateOk = true; sv.pieces = pick<u32>(NET, {1, 3}); sv.pause = pick<u64>(NET, {0, 40 * MS}); sv.idleClose = pick<u64>(NET, {0, 3 * MS, 300 * MS});
    u32 badPm = pick<u32>(FAULT, {0, 300}), n = range(WORK, 1, 10), flap = choose(FAULT, 3); bool shared = choose(WORK, 4) == 1, blackhole = choose(FAULT, 4) == 1, autoRe = choose(WORK, 6) != 1;
    u32 ioErr = pick<u32>(FAULT, {0, 0, 100, 300});
    if (ioErr) { cfg.connect_err = pick<u32>(FAULT, {0, ioErr}); cfg.socket_err = pick<u32>(FAULT, {0, ioErr}); cfg.gai_err = pick<u32>(FAULT, {0, ioErr}); cfg.recv_err = pick<u32>(FAULT, {0, ioErr / 3}); cfg.send_err = pick<u32>(FAULT, {0, ioErr / 3}); cfg.close_err = pick<u32>(FAULT, {0, ioErr}); if (choose(FAULT, 5) == 1) cfg.conn_limit = 2; }
    sv.lateDup = sv.anyOrder = cfg.recv_err; // the attempt that met the error may still be on its way when the next one has succeeded
    bool perfect = false; std::vector<std::shared_ptr<sim::Listener>> ls; for (int i = 0; i < 2; ++i) ls.push_back(sv.listen(8080 + i));
    std::function<void()> kill = [&sv] { for (auto& p : sv.peers) if (!p->closed && !p->rst) { choose(FAULT, 2) || *(bool*)p->user || p->unsent() ? p->reset() : p->close(); } };
    if (flap) for (u32 i = 0, k = range(FAULT, 1, 6); i < k; ++i) { u64 t = choose(FAULT, 3000) * MS; u32 li = choose(FAULT, 2), mode = choose(FAULT, blackhole ? 3 : 2), kl = choose(FAULT, 3);
        sim::after(t, [&perfect, l = ls[li], mode, kl, kill] { if (perfect) return; if (l->accept_mode != mode) { l->accept_mode = mode; if (mode) sim::fault(mode == 1 ? "connect_refused" : "connect_blackhole"); } if (kl == 1) { sim::fault("server_kills_connections"); kill(); } }); }
    sim::sample("%u operations, %s, %u permille faulty answers, io errors %u permille, flapping %u%s%s", n, shared ? "shared loop" : "own loop", badPm, ioErr, flap, blackhole ? ", blackholes" : "", autoRe ? "" : ", no automatic reconnect");
    sim::deadline(9000 * SEC, "http.hang", "the client operations");
    bool faulty = badPm || flap || ioErr || sv.idleClose || !autoRe; u64 bound = blackhole ? 600 * SEC : 90 * SEC; /* two attempts, each with a connect of 20 s and timeouts of 2 s per operation */ auto port = [&] { return 8080 + (int)choose(WORK, 2); };
    auto heal = [&] { perfect = true; for (auto& l : ls) l->accept_mode = 0; cfg.connect_err = cfg.socket_err = cfg.gai_err = cfg.recv_err = cfg.send_err = cfg.close_err = 0; cfg.conn_limit = ~0u; sv.idleClose = 0; };
    auto done = [&](u32 id, Try<ResponseData>& r, u64 t0, bool finalOne) {
        EXPECT(sim::now() - t0 <= bound, "http.slow", "request %u took %.3f s", id, (double)(sim::now() - t0) / 1e9); auto& q = sv.reqs[id];
        EXPECT(autoRe || q.att.size() <= 1, "http.resent", "request %u was transmitted %zu times without automatic reconnection", id, q.att.size());
        EXPECT(r || !finalOne, "http.no-recovery", "request %u failed with '%s' although the server was reachable and no fault was active", id, r.what().c_str());
        judge(id, r, faulty && !finalOne); if (finalOne) sim::probe("recovered"); };
    auto idle = [&](const char* when) { size_t k = sockets(); EXPECT(k <= 1, "fd.leak", "%s: one client holds %zu sockets", when, k); };
    if (shared) {
        auto loop = std::make_shared<EventLoop>();
        auto t = [&]() -> Task<> { HttpClient c{HttpClientOptions{}, loop}; c.setAutoReconnect(autoRe);
            auto one = [&](u32 id, bool fin) -> Task<> { Request q = sv.reqs[id]; u64 t0 = sim::now(); Try<ResponseData> r = q.method == "GET" ? co_await c.template coGet<TO>(url(q.port, q.path), hdr(q)) : co_await c.template coPost<TO>(url(q.port, q.path), q.body, HttpContentType::Text, hdr(q)); done(id, r, t0, fin); };
            for (u32 i = 0; i < n; ++i) {
                switch (choose(WORK, 5)) {
                case 0: case 1: co_await one(add_request(sv, port(), badPm), false); idle("after a request"); break;
                case 2: { u64 t0 = sim::now(); int p = port(); auto u = url(p, "/"); auto r = co_await c.coConnect(u); EXPECT(sim::now() - t0 <= bound, "http.slow", "connect took %.3f s", (double)(sim::now() - t0) / 1e9); EXPECT(faulty || r, "http.lost", "connect failed with '%s'", r.what().c_str()); EXPECT(c.needConnect() == !r, "client.state", "after connect %s needConnect() is %d", r ? "succeeded" : "failed", (int)c.needConnect()); EXPECT(sockets() == (r ? 1u : 0u), "fd.leak", "after connect %s the client holds %zu sockets", r ? "succeeded" : "failed", sockets()); break; }
                case 3: co_await c.coClose(); EXPECT(sockets() == 0, "fd.leak", "after close the client holds %zu sockets", sockets()); EXPECT(c.needConnect(), "client.state", "closed client does not need to connect"); break;
                default: co_await loop->makeTimer().sleepFor(std::chrono::milliseconds(choose(WORK, 700))); } }
            if (autoRe && choose(WORK, 4)) { heal(); co_await loop->makeTimer().sleepFor(std::chrono::milliseconds(500)); co_await one(add_request(sv, port(), 0), true); }
            co_await c.coClose(); };
        auto e = loop->trySync(t()); EXPECT((bool)e, "http.client", "the client coroutine threw '%s'", e.what().c_str());
    } else {
        struct Pend { u32 id; HX::container::FutureResult<Try<ResponseData>> f; u64 t0; }; std::vector<Pend> pend; bool late;
        {
            HttpClient c{HttpClientOptions{}}; c.setAutoReconnect(autoRe);
            auto issue = [&](u32 id) { Request& q = sv.reqs[id]; pend.push_back({id, q.method == "GET" ? c.get<TO>(url(q.port, q.path), hdr(q)) : c.post<TO>(url(q.port, q.path), q.body, HttpContentType::Text, hdr(q)), sim::now()}); };
            auto drain = [&](bool fin) { for (auto& p : pend) { auto r = p.f.get(); EXPECT(sim::now() - p.t0 <= bound * (n + 1), "http.slow", "request %u and the at most %u operations before it took %.3f s", p.id, n, (double)(sim::now() - p.t0) / 1e9); done(p.id, r, sim::now(), fin); } pend.clear(); };
            for (u32 i = 0; i < n; ++i) {
                switch (choose(WORK, 7)) {
                case 0: case 1: issue(add_request(sv, port(), badPm)); if (pend.size() == 1 && choose(WORK, 3)) { u64 t0 = sim::now(); auto r = pend[0].f.get(); u32 id = pend[0].id; pend.clear(); done(id, r, t0, false); idle("after a request"); } break;
                case 2: drain(false); break;
                case 3: { u64 k = pend.size() + 1, t0 = sim::now(); auto u = url(port(), "/"); auto r = c.connect(u).get(); EXPECT(sim::now() - t0 <= bound * k, "http.slow", "connect took %.3f s", (double)(sim::now() - t0) / 1e9); EXPECT(faulty || r, "http.lost", "connect failed with '%s'", r.what().c_str()); EXPECT(c.needConnect() == !r, "client.state", "after connect %s needConnect() is %d", r ? "succeeded" : "failed", (int)c.needConnect()); EXPECT(sockets() == (r ? 1u : 0u), "fd.leak", "after connect %s the client holds %zu sockets", r ? "succeeded" : "failed", sockets()); break; }
                case 4: c.close(); EXPECT(sockets() == 0, "fd.leak", "after close the client holds %zu sockets", sockets()); EXPECT(c.needConnect(), "client.state", "closed client does not need to connect"); break;
                default: nap(choose(WORK, 700) * MS); } }
            late = choose(WORK, 3) == 1 && !pend.empty();
            if (!late) { drain(false); if (autoRe && choose(WORK, 4)) { heal(); nap(500 * MS); issue(add_request(sv, port(), 0)); drain(true); } }
            else { sim::probe("destroyed with pending requests"); if (choose(WORK, 2)) nap(choose(WORK, 50) * MS); }
        }
        EXPECT(sockets() == 0, "fd.leak", "the destroyed client left %zu sockets", sockets());
        for (auto& p : pend) { try { auto r = p.f.get(); judge(p.id, r, true); } catch (std::exception& e) { note("request %u: future of the destroyed client threw %s", p.id, e.what()); } }
    }
    sim::clear_deadline(); check_fds("after the client was destroyed"); perfect = true; EXPECT(sim::bad_fd_ops() == 0, "fd.stale", "%d operations on descriptors that were not open", sim::bad_fd_ops());
    sv.shut(); nap(4 * SEC); SV = nullptr;
}
