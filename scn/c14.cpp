// C14: WebSocket messages arrive intact, once and in order.
#include "ws.hpp"
using namespace wst;
namespace { std::vector<WsMsg> draw(u32 tag, u32 n, u32 cap) { std::vector<WsMsg> v; for (u32 i = 0; i < n; ++i) v.push_back(draw_msg(tag + i, cap)); return v; } }
SIM_SCENARIO("C14", messages) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); cfg.burst_pm = std::min<u32>(cfg.burst_pm, 50);
    u32 cap = cfg.seg_mode >= 2 || cfg.pipe_cap < 3000 ? pick<u32>(WORK, {300, 300, 2000}) : 200000; u32 mode = choose(WORK, 3); u64 pauseMax = pick<u64>(NET, {0, 20 * MS, 4 * SEC, 65 * SEC}); u32 frag = pick<u32>(WORK, {300, 0, 900}), ping = pick<u32>(WORK, {100, 0, 400});
    u32 conns = mode == 1 ? range(WORK, 1, 3) : 1; std::vector<std::unique_ptr<Plan>> pls; std::vector<std::unique_ptr<End>> ends; bool libPing = false;
    auto plan = [&](u32 i) -> Plan& { pls.push_back(std::make_unique<Plan>()); auto& pl = *pls.back(); u32 t = 1000 * i; pl.rx = draw(t, choose(WORK, 7), cap); pl.tx[0] = draw(t + 100, choose(WORK, 6), cap); if (choose(WORK, 3) == 1) pl.tx[1] = draw(t + 200, range(WORK, 1, 5), cap); pl.duplex = mode == 2 || choose(WORK, 3) != 0; pl.recvKind = (int)choose(WORK, 4); if (mode == 2 && pl.recvKind == 1) pl.recvKind = 2; pl.closeBy = (int)choose(WORK, 2); pl.pause = pick<u64>(WORK, {0, 5 * MS, 2 * SEC}); if (mode == 2) pl.pause = std::min<u64>(pl.pause, 5 * MS); pl.swallow = choose(WORK, 2); pl.view = mode == 1 && choose(WORK, 2); libPing |= pl.recvKind == 1; return pl; };
    auto end = [&](Plan& pl, bool client) -> End& { ends.push_back(std::make_unique<End>()); auto& e = *ends.back(); e.pl = &pl; e.client = client; e.pieces = pick<u32>(NET, {1, 2, 6}); e.gap = pick<u64>(NET, {0, 300 * US, 5 * MS}); e.early = choose(WORK, 3) == 1; e.script(frag, ping, pl.duplex ? pauseMax : 20 * MS, choose(WORK, 3) == 1); return e; };
    auto verdict = [&](Plan& pl, const char* who) { EXPECT(pl.started, "ws.handshake", "the %s never got its WebSocket", who); EXPECT(pl.ended, "ws.hang", "the %s did not finish", who); bool ok = pl.err[0].empty() && pl.err[1].empty() && pl.err[3].empty() && (pl.err[2].empty() || (pl.closeSeen && pl.closeBy == 1 && pl.got == pl.rx.size()));
        EXPECT(ok, "ws.error", "the %s failed after %zu of %zu received and %zu+%zu of %zu+%zu sent messages: '%s' '%s' '%s' '%s'", who, pl.got, pl.rx.size(), pl.sent[0], pl.sent[1], pl.tx[0].size(), pl.tx[1].size(), pl.err[0].c_str(), pl.err[1].c_str(), pl.err[2].c_str(), pl.err[3].c_str()); EXPECT(pl.got == pl.rx.size(), "ws.lost", "the %s received %zu of %zu messages", who, pl.got, pl.rx.size()); };
    sim::deadline(3000 * SEC, "ws.hang", "the WebSocket sessions");
    if (mode == 0) { // client against the scripted server
        auto& pl = plan(0); auto& e = end(pl, false); auto l = sim::Listener::listen(8080, [&](std::shared_ptr<sim::Peer> p) { e.p = p; e.hook(); });
        sim::sample("client against scripted server: sends %zu+%zu, receives %zu messages of up to %u bytes", pl.tx[0].size(), pl.tx[1].size(), pl.rx.size(), cap);
        { HttpClient c{HttpClientOptions{}}; auto r = c.template wsLoop<Sec<10>>("ws://127.0.0.1:8080/chat", [&](WSClient ws) -> Task<> { EventLoop& loop = ws.getIO(); co_await drive(ws, loop, pl); }).get(); EXPECT(r || pl.started, "ws.handshake", "the handshake failed: %s", r.what().c_str()); }
        nap(2 * SEC); sim::clear_deadline(); verdict(pl, "client"); e.finish(); EXPECT(e.closeGot, "ws.close", "the client sent no close frame"); check_fds("after the client was destroyed"); e.shut(); l->close();
    } else if (mode == 1) { // server against scripted clients
        { Serve s{8080}; std::vector<Plan*> byId; for (u32 i = 0; i < conns; ++i) { auto& pl = plan(i); end(pl, true); byId.push_back(&pl); }
        s.template on<HX::net::GET>("/ws/{id}", [&](Req& req, Res& res) -> Task<> { u32 id = (u32)std::stoul(std::string(req.getPathParam(0).template to<std::string>())); auto ws = co_await WebSocketFactory{req, res}.accept(); co_await drive(ws, s.loop, *byId[id]); });
        sim::sample("server against %u scripted clients, messages of up to %u bytes", conns, cap);
        when_listening(8080, [&] { for (u32 i = 0; i < conns; ++i) ends[i]->start_client(8080, "/ws/" + std::to_string(i)); });
        std::function<void()> watch = [&] { bool all = true; for (auto& p : pls) all &= p->ended; if (!all) { sim::after(200 * MS, watch); return; } sim::after(2 * SEC, [&] { for (auto& e : ends) { e->on_bytes(); e->finish(); e->shut(); } s.stop(); }); }; sim::after(200 * MS, watch);
        s.template run<Sec<5>>(); } sim::clear_deadline(); for (auto& p : pls) verdict(*p, "server"); check_fds("after the server stopped");
    } else { // both ends are the library
        auto& a = plan(0); auto& b = plan(1); b.rx.clear(); if (!a.tx[1].empty() && choose(WORK, 2)) { } b.tx[1].clear(); a.tx[1].clear(); a.rx = b.tx[0]; b.rx = a.tx[0]; if (a.closeBy == b.closeBy) b.closeBy = 1 - a.closeBy;
        std::atomic_int port{0}; std::atomic_bool stopIt{false}; sim::sample("client and server of the library: %zu and %zu messages of up to %u bytes", a.tx[0].size(), b.tx[0].size(), cap);
        std::thread th([&] { Serve s{8080}; s.template on<HX::net::GET>("/ws", [&](Req& req, Res& res) -> Task<> { auto ws = co_await WebSocketFactory{req, res}.accept(); co_await drive(ws, s.loop, b); });
            std::function<void()> watch = [&] { if (!stopIt.load()) { sim::after(50 * MS, watch); return; } s.stop(); }; sim::after(50 * MS, watch); s.template run<Sec<5>>(); });
        sim::wait_until([] { return sim::listening(8080) > 0; }, 10 * SEC, "ws.hang", "the listener");
        { HttpClient c{HttpClientOptions{}}; auto r = c.template wsLoop<Sec<10>>("ws://127.0.0.1:8080/ws", [&](WSClient ws) -> Task<> { EventLoop& loop = ws.getIO(); co_await drive(ws, loop, a); }).get(); EXPECT(r || a.started, "ws.handshake", "the handshake failed: %s", r.what().c_str()); }
        nap(SEC); stopIt.store(true); th.join(); sim::clear_deadline();
        for (auto* p : {&a, &b}) { const char* who = p == &a ? "client" : "server"; EXPECT(p->ended && p->got == p->rx.size() && p->err[0].empty() && p->err[1].empty(), "ws.lost", "the %s ended %d with %zu of %zu messages: '%s' '%s' '%s' '%s'", who, (int)p->ended, p->got, p->rx.size(), p->err[0].c_str(), p->err[1].c_str(), p->err[2].c_str(), p->err[3].c_str()); }
        check_fds("after both ends were gone");
    }
}
