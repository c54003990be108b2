// C18: a server can be stopped at any time and leaves nothing behind.
#include "tls.hpp"
using namespace ht;
namespace {
struct World { std::vector<std::shared_ptr<sim::Peer>> peers; std::atomic<u64> running{0}, ran{0}; u64 answered = 0; bool gone = false; std::vector<std::shared_ptr<tls::End>> ends; };
World* W;
void start_client(u32 id, int port) {
    auto p = sim::Peer::connect(port); W->peers.push_back(p); u32 kind = choose(WORK, 6); std::string w = "GET /x HTTP/1.1\r\nx-id: " + std::to_string(id) + "\r\n\r\n";
    if (kind == 1) w = "GET /slow HTTP/1.1\r\nx-id: " + std::to_string(id) + "\r\n\r\n"; if (kind == 2) w = w.substr(0, choose(WORK, (u32)w.size())); if (kind == 3) w = "GET /big HTTP/1.1\r\nx-id: " + std::to_string(id) + "\r\n\r\n"; if (kind == 4) w.clear();
    u32 left = kind == 0 ? range(WORK, 0, 5) : 0; bool noread = kind == 3 && choose(WORK, 12) == 1; auto cnt = std::make_shared<u32>(left); bool closeAfter = choose(WORK, 3) == 1;
    p->on_open = [=](sim::Peer& q) { if (noread) q.set_reading(false); if (kind == 5) { q.send(w); q.reset(); return; } if (!w.empty()) q.send(w); };
    auto chew = [=](sim::Peer& q) {
        for (;;) { size_t used; Msg m; std::string why; auto r = parse(q.rx, used, m, true, false, false, why);
            EXPECT(r != BAD, "http.response", "malformed answer: %s", why.c_str()); if (r == NEED) break;
            u32 n = kind == 1 ? 3000 : kind == 3 ? cfg.pipe_cap * 2 + 5000 : 500; EXPECT(m.start[1] == "200" && m.body == payload(id, n), "http.response", "wrong answer: status %s, %s", m.start[1].c_str(), diff(payload(id, n), m.body).c_str());
            q.rx.erase(0, used); ++W->answered; if (*cnt) { --*cnt; auto h = q.shared_from_this(); sim::after(choose(WORK, 4) * 30 * MS, [h, w] { if (!h->closed && !h->rst) h->send(w); }); } else if (closeAfter && !q.closed) { q.close(); return; } } };
    p->on_data = [=](sim::Peer& q) { chew(q); };
    p->on_eof = [=](sim::Peer& q) { chew(q); EXPECT(q.rx.empty() || !q.reading || q.closed, "server.truncated", "the connection of client %u (kind %u) was closed after %zu bytes of an incomplete answer", id, kind, q.rx.size()); if (!q.closed) q.close(); };
}
struct Counted { Counted() { EXPECT(!W->gone, "server.late-endpoint", "an endpoint was entered after the server had been destroyed"); ++W->running; } ~Counted() { --W->running; ++W->ran; } };
// a client of the TLS server: a complete one, one that stops in the handshake, one that speaks no TLS
void start_tls(u32 id, int port) {
    auto p = sim::Peer::connect(port); W->peers.push_back(p); u32 kind = choose(WORK, 7); const char* path = kind == 1 ? "/slow" : kind == 3 ? "/big" : "/x"; std::string w = std::string("GET ") + path + " HTTP/1.1\r\nx-id: " + std::to_string(id) + "\r\n\r\n";
    if (kind == 4 || kind == 5) { p->on_open = [=](sim::Peer& q) { if (kind == 5) { q.send(w); if (id & 1) q.reset(); } }; p->on_eof = [](sim::Peer& q) { if (!q.closed) q.close(); }; return; }
    u32 left = kind == 0 ? range(WORK, 0, 4) : 0, cut = kind == 2 ? choose(WORK, 300) : 0; bool t12 = choose(WORK, 3) == 1, closeAfter = choose(WORK, 3) == 1; auto cnt = std::make_shared<u32>(left);
    p->on_open = [=](sim::Peer& q) { if (!W) return; auto e = std::make_shared<tls::End>(q.shared_from_this(), false, t12); W->ends.push_back(e); if (kind == 2) { e->tamper = cut & 1 ? tls::HOLD : tls::CUT_FIN; e->at = cut; }
        e->on_hs = [=](tls::End& x) { x.write(w, 0); };
        e->on_plain = [=](tls::End& x) { for (;;) { size_t used; Msg m; std::string why; auto r = parse(x.plain, used, m, true, false, false, why); EXPECT(r != BAD, "http.response", "malformed answer: %s", why.c_str()); if (r == NEED) break;
            u32 n = kind == 1 ? 3000 : kind == 3 ? cfg.pipe_cap * 2 + 5000 : 500; EXPECT(m.start[1] == "200" && m.body == payload(id, n), "http.response", "wrong answer over TLS: status %s, %s", m.start[1].c_str(), diff(payload(id, n), m.body).c_str());
            x.plain.erase(0, used); ++W->answered; sim::probe("answered over TLS"); if (*cnt) { --*cnt; auto h = x.shared_from_this(); sim::after(choose(WORK, 4) * 30 * MS, [h, w] { if (!h->off && !h->p->closed && !h->p->rst) h->write(w, 0); }); } else if (closeAfter) { x.p->close(); return; } } };
        e->on_gone = [=](tls::End& x) { EXPECT(x.plain.empty() || x.tampered, "server.truncated", "the TLS connection of client %u (kind %u) was closed after %zu bytes of an incomplete answer", id, kind, x.plain.size()); };
        e->attach(); };
}
template <typename IOT, typename S> void endpoints(S& s) {
    using Req = HttpRequest<IOT>; using Res = HttpResponse<IOT>;
    auto id = [](Req& req) { auto it = req.getHeaders().find("x-id"); return it == req.getHeaders().end() ? 0u : (u32)atoi(it->second.c_str()); };
    s.template addEndpoint<GET>("/x", [=](Req& req, Res& res) -> Task<> { Counted c; co_await res.setResLine(Status::CODE_200).setBody(payload(id(req), 500)).sendRes(); });
    s.template addEndpoint<GET>("/slow", [=](Req& req, Res& res) -> Task<> { Counted c; co_await static_cast<EventLoop&>(req.getIO()).makeTimer().sleepFor(std::chrono::milliseconds(400)); co_await res.setResLine(Status::CODE_200).setBody(payload(id(req), 3000)).sendRes(); });
    s.template addEndpoint<GET>("/big", [=](Req& req, Res& res) -> Task<> { Counted c; co_await res.setResLine(Status::CODE_200).setBody(payload(id(req), cfg.pipe_cap * 2 + 5000)).sendRes(); });
}
void after_checks(const char* when, int baseThreads) {
    int live = sim::thread_count_live(); EXPECT(live == baseThreads, "server.thread-left", "%s: %d threads still exist:\n%s", when, live - baseThreads, sim::thread_dump().c_str());
    EXPECT(W->running == 0, "server.endpoint-left", "%s: %llu endpoints are still suspended or running", when, (unsigned long long)W->running.load());
    EXPECT(sim::listening(8080) == 0, "server.port-left", "%s: %d sockets still listen", when, sim::listening(8080));
    EXPECT(sim::rings_open() == 0, "fd.leak", "%s: %d io_uring instances still open", when, sim::rings_open());
    check_fds(when);
}
}
namespace { template <typename IOT, typename S> void lifecycle(bool tls) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); if (cfg.pipe_cap < 3000) cfg.pipe_cap = 3000; if (cfg.seg_mode >= 2) cfg.pipe_cap = 3000;
    if (choose(FAULT, 5) == 1) cfg.accept_err = 100;
    World w; W = &w; u32 threads = range(WORK, 1, 3), clients = choose(WORK, 5), how = choose(WORK, 5), rounds = range(WORK, 1, 2); int base = sim::thread_count_live();
    u64 at = pick<u64>(WORK, {0, 200 * MS, 2 * MS, 1 * SEC, 4 * SEC}); if (at) at = range(WORK, 0, (u32)(at / US)) * US;
    static const char* H[] = {"destroyed", "asyncStop, then destroyed", "syncStop, then destroyed", "syncRun in another thread ended by asyncStop", "asyncStop, awaited, syncStop, destroyed"};
    sim::sample("%u threads, %u clients, %s after %.3f ms, %u rounds", threads, clients, H[how], (double)at / 1e6, rounds);
    sim::deadline(400 * SEC, "server.stop-hang", "stopping the server");
    for (u32 r = 0; r < rounds; ++r) {
        for (u32 i = 0; i < clients; ++i) { u64 t = at ? range(WORK, 0, (u32)(2 * at / US)) * US : choose(WORK, 50) * MS; sim::after(t, [tls, id = r * 100 + i] { if (W) tls ? start_tls(id, 8080) : start_client(id, 8080); }); }
        {
            S s(8080); endpoints<IOT>(s);
            if (how == 3) {
                std::jthread t([&] { s.template syncRun<HX::utils::TimeNTTP<std::chrono::milliseconds, 300>>(threads); }); nap(at + 1); if (choose(WORK, 2)) while (!sim::listening(8080)) nap(MS); s.asyncStop(); t.join();
            } else {
                s.template asyncRun<HX::utils::TimeNTTP<std::chrono::milliseconds, 300>>(threads); if (at) nap(at);
                if (how == 1 || how == 4) s.asyncStop();
                if (how == 4) { while (sim::listening(8080) && choose(SCHED, 50)) nap(10 * MS); }
                if (how == 2 || how == 4) s.syncStop();
            }
        }
        after_checks(r ? "after the second stop" : "after the stop", base); w.gone = true; nap(100 * MS); w.gone = false;
    }
    w.gone = true; nap(40 * SEC); after_checks("40 s after the stop", base);
    for (auto& p : w.peers) p->on_open = p->on_fail = p->on_data = p->on_eof = p->on_rst = nullptr; W = nullptr; for (auto& e : w.ends) e->shut(); w.ends.clear();
    if (tls) { nap(SEC); tls::check_live("after the stop"); }
} }
SIM_SCENARIO("C18", lifecycle) { lifecycle<HttpIO, HttpServer>(false); }
SIM_SCENARIO("C18", https_lifecycle) { tls::lib(); lifecycle<HttpsIO, HttpsServer>(true); }
