// C15: WebSocket control traffic and broken peers end or continue cleanly.
#include "ws.hpp"
using namespace wst;
namespace {
std::vector<WsMsg> draw(u32 tag, u32 n, u32 cap) { std::vector<WsMsg> v; for (u32 i = 0; i < n; ++i) v.push_back(draw_msg(tag + i, cap)); return v; }
struct World { std::vector<std::unique_ptr<Plan>> pls; std::vector<std::unique_ptr<End>> ends; };
// one session per plan/end pair, library as client (one) or server (several); returns when the library has let go of everything
void run_sessions(World& w, bool server, u64 bound, bool mayFail) {
    Try<HX::container::NonVoidType<>>* none = nullptr; (void)none;
    if (!server) {
        auto& pl = *w.pls[0]; auto& e = *w.ends[0]; auto l = sim::Listener::listen(8080, [&](std::shared_ptr<sim::Peer> p) { if (e.p) { EXPECT(mayFail, "ws.handshake", "the client connected twice"); if (e.upgraded) { p->close(); return; } } e.p = p; e.hook(); });
        u64 t0 = sim::now(); { HttpClient c{HttpClientOptions{}}; auto r = c.template wsLoop<Sec<10>>("ws://127.0.0.1:8080/chat", [&](WSClient ws) -> Task<> { EventLoop& loop = ws.getIO(); co_await drive(ws, loop, pl); }).get();
          if (!pl.started) { note("handshake failed: %s", r ? "" : r.what().c_str()); EXPECT(mayFail && !r, "ws.handshake", "the handshake failed: %s", r ? "(no error)" : r.what().c_str()); } else { EXPECT(pl.ended, "ws.hang", "the client session did not finish"); EXPECT((bool)r == (pl.swallow || !pl.failed()), "ws.result", "the session %s but wsLoop reports %s", pl.failed() ? "failed" : "succeeded", r ? "success" : r.what().c_str()); } }
        EXPECT(sim::now() - t0 <= bound, "ws.slow", "the session took %.3f s", (double)(sim::now() - t0) / 1e9); nap(2 * SEC); sim::clear_deadline(); check_fds("after the client was destroyed"); e.on_bytes2(); e.shut(); l->close(); nap(SEC); return;
    }
    { Serve s{8080}; s.template on<HX::net::GET>("/ws/{id}", [&](Req& req, Res& res) -> Task<> { u32 id = (u32)std::stoul(std::string(req.getPathParam(0).template to<std::string>())); auto ws = co_await WebSocketFactory{req, res}.accept(); co_await drive(ws, s.loop, *w.pls[id]); });
      when_listening(8080, [&] { for (u32 i = 0; i < w.ends.size(); ++i) w.ends[i]->start_client(8080, "/ws/" + std::to_string(i)); });
      std::function<void()> watch = [&] { bool all = true; for (size_t i = 0; i < w.pls.size(); ++i) all &= w.pls[i]->ended || (mayFail && !w.pls[i]->started && w.ends[i]->dead && sim::now() > w.ends[i]->faultAt + bound) || (mayFail && !w.pls[i]->started && sim::now() > bound); if (!all) { sim::after(500 * MS, watch); return; } sim::after(2 * SEC, [&] { for (auto& e : w.ends) { if (e->p) e->on_bytes2(); e->shut(); } s.stop(); }); }; sim::after(500 * MS, watch);
      s.template run<Sec<5>>(); } sim::clear_deadline(); check_fds("after the server stopped");
}
}
SIM_SCENARIO("C15", control) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); cfg.burst_pm = std::min<u32>(cfg.burst_pm, 50);
    u32 cap = cfg.seg_mode >= 2 || cfg.pipe_cap < 3000 ? 300 : pick<u32>(WORK, {2000, 70000}); bool server = choose(WORK, 2); u32 n = server ? range(WORK, 1, 3) : 1; u32 ping = pick<u32>(WORK, {500, 900, 200}); World w; u64 quiet = pick<u64>(NET, {0, 3 * SEC, 100 * SEC});
    for (u32 i = 0; i < n; ++i) { w.pls.push_back(std::make_unique<Plan>()); auto& pl = *w.pls.back(); pl.rx = draw(1000 * i, choose(WORK, 6), cap); pl.tx[0] = draw(1000 * i + 100, choose(WORK, 4), cap); pl.duplex = choose(WORK, 2); pl.recvKind = (int)choose(WORK, 3); pl.closeBy = (int)choose(WORK, 2); pl.swallow = choose(WORK, 2); pl.finalPing = pl.closeBy == 0 && pl.recvKind != 1 && quiet < 50 * SEC && choose(WORK, 2); pl.bound = quiet * 12 + 90 * SEC;
        w.ends.push_back(std::make_unique<End>()); auto& e = *w.ends.back(); e.pl = &pl; e.client = server; e.pieces = pick<u32>(NET, {1, 3}); e.gap = pick<u64>(NET, {0, 5 * MS}); e.early = choose(WORK, 3) == 1; e.script(800, ping, pl.duplex ? quiet : 20 * MS, false); if (pl.finalPing) for (auto& it : e.out) it.pause = std::min<u64>(it.pause, 3 * SEC); }
    sim::sample("%s against %u scripted peers, %u permille pings, quiet periods up to %.0f s", server ? "server" : "client", n, ping, (double)quiet / 1e9); sim::deadline(6000 * SEC, "ws.hang", "the WebSocket sessions");
    run_sessions(w, server, 6000 * SEC, false);
    for (u32 i = 0; i < n; ++i) { auto& pl = *w.pls[i]; auto& e = *w.ends[i]; const char* who = server ? "server" : "client"; bool ok = pl.err[0].empty() && pl.err[1].empty() && pl.err[3].empty() && (pl.closeBy == 1 ? pl.closeSeen : pl.err[2].empty());
        EXPECT(ok && pl.got == pl.rx.size(), "ws.error", "the %s received %zu of %zu messages and reports '%s' '%s' '%s' '%s'", who, pl.got, pl.rx.size(), pl.err[0].c_str(), pl.err[1].c_str(), pl.err[2].c_str(), pl.err[3].c_str());
        e.finish(); EXPECT(e.closeGot, "ws.close", "the %s sent no close frame", who); if (e.libPings) sim::probe("library pinged"); if (pl.finalPing) sim::probe("ping answered"); }
}
SIM_SCENARIO("C15", broken) {
    sim::swarm_net(); sim::swarm_sched(); cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); cfg.burst_pm = std::min<u32>(cfg.burst_pm, 50); cfg.link_race_pm = 0;
    u32 cap = cfg.seg_mode >= 2 || cfg.pipe_cap < 3000 ? 300 : pick<u32>(WORK, {2000, 70000}); bool server = choose(WORK, 2); u32 n = server ? range(WORK, 1, 3) : 1; u32 ping = pick<u32>(WORK, {0, 300}); World w; bool io = choose(FAULT, 4) == 1; if (io) { cfg.recv_err = pick<u32>(FAULT, {0, 10, 60}); cfg.send_err = pick<u32>(FAULT, {0, 10, 60}); }
    for (u32 i = 0; i < n; ++i) { w.pls.push_back(std::make_unique<Plan>()); auto& pl = *w.pls.back(); pl.rx = draw(1000 * i, choose(WORK, 6), cap); pl.tx[0] = draw(1000 * i + 100, choose(WORK, 6), cap); if (choose(WORK, 3) == 1) pl.tx[1] = draw(1000 * i + 200, range(WORK, 1, 3), cap); pl.duplex = choose(WORK, 3) != 0; pl.recvKind = (int)choose(WORK, 4); pl.closeBy = (int)choose(WORK, 2); pl.swallow = choose(WORK, 2); pl.bound = 90 * SEC + 21 * SEC * 2;
        w.ends.push_back(std::make_unique<End>()); auto& e = *w.ends.back(); e.pl = &pl; e.client = server; e.strictEnd = true; e.pieces = pick<u32>(NET, {1, 3}); e.gap = pick<u64>(NET, {0, 5 * MS}); e.early = choose(WORK, 3) == 1; e.script(500, ping, 20 * MS, false); if (i == 0 || choose(FAULT, 3)) plant(e, NFAULT - 1); }
    std::string s; for (auto& e : w.ends) s += std::string(" ") + FN[e->fault]; sim::sample("%s against %u scripted peers:%s%s", server ? "server" : "client", n, s.c_str(), io ? ", failing socket calls" : ""); sim::deadline(3000 * SEC, "ws.hang", "a WebSocket session whose peer broke off");
    run_sessions(w, server, 1500 * SEC, true);
    for (u32 i = 0; i < n; ++i) { auto& pl = *w.pls[i]; auto& e = *w.ends[i]; const char* who = server ? "server" : "client"; if (!pl.started) { EXPECT(io || e.fault != F_NONE, "ws.handshake", "the %s never got its WebSocket", who); continue; }
        bool ok = pl.err[0].empty() && pl.err[1].empty() && pl.err[3].empty() && (pl.err[2].empty() || pl.closeSeen);
        if (e.fault == F_NONE && !io) { EXPECT(ok && pl.got == pl.rx.size(), "ws.error", "the %s (healthy peer) received %zu of %zu messages and reports '%s' '%s' '%s' '%s'", who, pl.got, pl.rx.size(), pl.err[0].c_str(), pl.err[1].c_str(), pl.err[2].c_str(), pl.err[3].c_str()); e.finish(); }
        EXPECT(!pl.closeSeen || e.closeSent, "ws.invented", "the %s reports a close the peer never sent", who);
        if (e.fault == F_CLOSEFRAME && !io && e.faultAt) { EXPECT(pl.closeSeen || pl.got >= pl.rx.size() || pl.failed(), "ws.close", "the %s missed the close of its peer", who); if (pl.closeSeen && pl.err[0].empty() && pl.err[1].empty()) EXPECT(e.closeGot, "ws.close", "the %s did not answer the close frame", who); }
        if (e.fault == F_BAD && e.faultAt && pl.got < pl.rx.size()) EXPECT(pl.failed(), "ws.invalid", "the %s accepted an invalid frame", who);
        if (pl.failed()) sim::probe("failure reported"); }
}
