// C17: uploads store exactly the bytes sent or report failure.
#include "client.hpp"
using namespace cl;
namespace {
constexpr u32 BUF = (u32)HX::utils::FileUtils::kBufMaxSize;
struct Up { std::string path, body, kind; bool chunked = false, whole = false, stored = false, failed = false, answered = false; };
struct World { Serve* s = nullptr; std::vector<Up> u; u32 clients = 0, ended = 0; bool disk = false, conn = false; std::vector<std::shared_ptr<sim::Peer>> peers; u32 live = 0; std::vector<std::string> path; bool tiny = false; void stop_if() { if (ended == clients) s->stop(); } } *W;
std::string body_draw(u32 tag) { u32 n; switch (choose(WORK, 8)) { case 0: n = range(WORK, 1, 3000); break; case 1: n = 0; break; case 2: n = 1; break; case 3: n = 16384 - 300 + choose(WORK, 600); break; case 4: n = BUF - 2 + choose(WORK, 5); break; case 5: n = range(WORK, 3000, 200000); break; case 6: n = 2 * BUF - 2 + choose(WORK, 5); break; default: n = range(WORK, 2, 40); } return payload(1700 + tag, std::min<u32>(n, W->tiny ? 2500 : 300000)); }
struct Client : std::enable_shared_from_this<Client> {
    u32 id, left, nconn = 0; std::shared_ptr<sim::Peer> p; bool over = false, sending = false; u32 serial = 0; std::vector<u32> pend; u32 pieces = 1; u64 pause = 0;
    void start() { ++nconn; auto self = shared_from_this(); p = sim::Peer::connect(8080); W->peers.push_back(p); p->on_open = [self](sim::Peer&) { self->ask(); }; p->on_fail = [self](sim::Peer&) { EXPECT(W->conn, "http.lost", "could not connect"); self->again(); }; p->on_data = [self](sim::Peer&) { self->data(); }; p->on_eof = p->on_rst = [self](sim::Peer&) { self->gone(); }; }
    void again() { ++serial; sending = false; p->on_open = p->on_fail = p->on_data = p->on_eof = p->on_rst = nullptr; if (!p->closed) p->close(); pend.clear(); if (!left) { finish(); return; } auto self = shared_from_this(); sim::after(5 * MS, [self] { if (W) self->start(); }); }
    void finish() { if (over) return; over = true; ++W->ended; W->stop_if(); }
    void gone() { if (!W || over) return; if (!pend.empty()) { auto& u = W->u[pend[0]]; EXPECT(W->disk || W->conn || !u.whole, "upload.broken-off", "%s of %zu bytes (%s) was broken off though nothing failed", u.kind.c_str(), u.body.size(), u.chunked ? "chunked" : "content-length"); sim::probe("upload broken off"); } again(); }
    void ask() { if (!W) return; if (!left) { p->close(); finish(); return; }
        std::string wire; u32 k = choose(WORK, 4) == 1 ? 2 : 1; bool cut = false; u32 mine = ++serial;
        for (u32 i = 0; i < k && left && !cut; ++i) { --left; u32 n = (u32)W->u.size(); Up u; u.path = W->path[choose(WORK, (u32)W->path.size())] + std::to_string(id) + (nconn > 1 ? "_" + std::to_string(nconn) : ""); u.kind = pick<const char*>(WORK, {"save", "caught", "parse"}); u.body = body_draw(n); u.chunked = choose(WORK, 2);
            std::string w = "POST /" + u.kind + "/" + std::to_string(n) + " HTTP/1.1\r\nHost: x\r\n" + (u.chunked ? "Transfer-Encoding: chunked\r\n\r\n" : u.body.empty() && choose(WORK, 2) ? "\r\n" : "Content-Length: " + std::to_string(u.body.size()) + "\r\n\r\n"); size_t head = w.size();
            w += u.chunked ? chunk_encode(u.body, WORK, pick<u32>(WORK, {40000, 3000, 200000, 16384, 100}), choose(WORK, 4) == 1, choose(WORK, 4) == 1) : u.body;
            cut = W->conn && choose(FAULT, 4) == 1 && w.size() > head; u.whole = !cut; if (cut) w.resize(head + (choose(FAULT, 2) ? choose(FAULT, (u32)(w.size() - head)) : w.size() - head - 1 - choose(FAULT, (u32)std::min<size_t>(w.size() - head, 8))));
            pend.push_back(n); W->u.push_back(u); wire += w; note("client %u: upload %u %s %zu bytes%s%s", id, n, u.kind.c_str(), u.body.size(), u.chunked ? " chunked" : "", cut ? ", cut" : ""); }
        auto self = shared_from_this(); u32 how = cut ? 1 + choose(FAULT, 4) : 0; static const char* H[] = {"", "cut_fin", "cut_close", "cut_reset", "cut_stall"}; if (cut) sim::fault(H[how]); sending = true;
        send_paced(p, wire, pieces, pause, [self, mine, p = p, how] { if (self->serial == mine || self->p == p) self->sending = false; if (p->closed || p->rst) return; switch (how) { case 1: p->fin(); break; case 2: p->close(); break; case 3: p->reset(); break; default: break; } });
        if (how == 2 || how == 3) sim::after(30 * SEC, [self, mine] { if (W && self->serial == mine && !self->over) self->again(); });
        sim::after(9000 * SEC, [self, mine] { if (W && self->serial == mine && !self->pend.empty()) sim::fail("upload.hang", "upload %u: neither answered nor broken off after 9000 s", self->pend[0]); }); }
    void data() { if (!W) return;
        for (;;) { if (pend.empty()) { EXPECT(p->rx.empty(), "upload.surplus", "bytes after the last answer: '%s'", escaped(p->rx).c_str()); return; }
            size_t used; Msg m; std::string why; auto r = parse(p->rx, used, m, true, false, false, why); EXPECT(r != BAD, "upload.answer", "malformed answer: %s", why.c_str()); if (r == NEED) return;
            p->rx.erase(0, used); u32 n = pend[0]; pend.erase(pend.begin()); auto& u = W->u[n]; int st = atoi(m.start[1].c_str());
            if (st == 200) { EXPECT(u.whole, "upload.false-success", "%s of %zu bytes was answered 200 although the client never sent all of it", u.kind.c_str(), u.body.size()); EXPECT(m.body == std::to_string(n) && u.stored, "upload.answer", "answer '%s' to upload %u", escaped(m.body).c_str(), n); }
            else { EXPECT(st == 507 && m.body == std::to_string(n) && u.failed, "upload.answer", "upload %u (%s) was answered %d '%s'", n, u.kind.c_str(), st, escaped(m.body).c_str()); EXPECT(W->disk || W->conn || !u.whole, "upload.false-failure", "%s of %zu bytes reported failure though nothing failed", u.kind.c_str(), u.body.size()); }
            if (pend.empty()) { ++serial; auto self = shared_from_this(); if (!u.whole || choose(WORK, 8) == 1) { again(); return; } next(p); return; } } }
    void next(std::shared_ptr<sim::Peer> qq) { auto self = shared_from_this(); sim::after(choose(WORK, 3) * MS, [self, qq] { if (W && !self->over && self->p == qq && self->pend.empty() && !qq->closed) { if (qq->eof || qq->rst) self->again(); else if (self->sending) sim::after(50 * MS, [self, qq] { self->next(qq); }); else self->ask(); } }); }
};
}
SIM_SCENARIO("C17", saved_bodies) {
    sim::swarm_net(); sim::swarm_sched(); sim::swarm_disk(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); if (cfg.pipe_cap < 512) cfg.pipe_cap = 512; cfg.disk_delay_max = std::min<u64>(cfg.disk_delay_max, MS);
    World w; W = &w; w.u.reserve(64); w.tiny = cfg.seg_mode >= 2 || cfg.pipe_cap < 3000; u32 flt = choose(FAULT, 4); w.disk = flt == 1 || flt == 3; w.conn = flt >= 2; cfg.recv_err = cfg.send_err = 0;
    cfg.open_err = cfg.read_err = cfg.write_err = cfg.close_err = 0;
    if (w.disk) { switch (choose(FAULT, 4)) { case 0: cfg.write_err = pick<u32>(FAULT, {50, 300}); break; case 1: cfg.open_err = 300; break; case 2: cfg.disk_cap = w.tiny ? choose(FAULT, 4000) : choose(FAULT, 400000); break; default: cfg.close_err = 300; cfg.write_err = 30; } }
    if (w.conn) cfg.recv_err = pick<u32>(FAULT, {0, 20});
    w.path = {"/simfs/a", "/simfs/b"}; if (choose(WORK, 2)) { w.path.pop_back(); }
    w.clients = range(WORK, 1, 3); u32 each = range(WORK, 1, 6), pieces = pick<u32>(NET, {1, 3, 12}); u64 pause = pick<u64>(NET, {0, MS, 300 * MS});
    if (choose(WORK, 2)) for (auto& p : w.path) for (u32 i = 0; i < w.clients; ++i) sim::fs_put(p + std::to_string(i), payload(3, range(WORK, 0, w.tiny ? 3000 : 100000)));
    sim::sample("%u clients x %u uploads, disk faults %d, connection faults %d, segmentation %u, window %u, %u pieces", w.clients, each, w.disk, w.conn, cfg.seg_mode, cfg.pipe_cap, pieces);
    sim::deadline(60000 * SEC, "upload.hang", "the server ends");
    {
        Serve s(8080); w.s = &s;
        auto store = [&w](u32 n) { auto& u = w.u[n]; auto got = sim::fs_get(u.path); EXPECT(!u.stored && !u.failed, "upload.twice", "upload %u reached its endpoint twice", n); EXPECT(u.whole, "upload.false-success", "saveToFile returned although the client never sent the whole body of %zu bytes", u.body.size()); EXPECT(got == u.body, "upload.content", "saved body of %zu bytes (%s): %s", u.body.size(), u.chunked ? "chunked" : "content-length", diff(u.body, got).c_str()); u.stored = true; };
        auto id = [&w](Req& req) { u32 n = req.getPathParam(0).to<u32>(); EXPECT(n < w.u.size(), "http.request", "upload %u does not exist", n); return n; };
        s.on<POST>("/save/{id}", [&w, store, id](Req& req, Res& res) -> Task<> { u32 n = id(req); auto path = w.u[n].path; co_await req.saveToFile<Sec<2>>(path); store(n); co_await res.setStatusAndContent(Status::CODE_200, std::to_string(n)).sendRes<Sec<2>>(); });
        s.on<POST>("/caught/{id}", [&w, store, id](Req& req, Res& res) -> Task<> { u32 n = id(req); bool ok = true; auto path = w.u[n].path; try { co_await req.saveToFile<Sec<2>>(path); } catch (...) { ok = false; } if (ok) store(n); else w.u[n].failed = true; co_await res.setStatusAndContent(ok ? Status::CODE_200 : Status::CODE_507, std::to_string(n)).sendRes<Sec<2>>(); });
        s.on<POST>("/parse/{id}", [&w, id](Req& req, Res& res) -> Task<> { u32 n = id(req); bool ok = true; auto& u = w.u[n]; std::string b; try { b = co_await req.parseBody<Sec<2>>(); } catch (...) { ok = false; } auto& v = w.u[n]; if (ok) { EXPECT(v.whole && b == v.body, "upload.content", "parsed body: %s", diff(v.body, b).c_str()); v.stored = true; } else v.failed = true; (void)u; co_await res.setStatusAndContent(ok ? Status::CODE_200 : Status::CODE_507, std::to_string(n)).sendRes<Sec<2>>(); });
        when_listening(8080, [&] { for (u32 i = 0; i < w.clients; ++i) { auto c = std::make_shared<Client>(); c->id = i; c->left = each; c->pieces = pieces; c->pause = pause; sim::after(choose(WORK, 3) * MS, [c] { c->start(); }); } });
        s.run<Sec<3>>();
        EXPECT(w.ended == w.clients, "server.ended", "the server ended by itself (%u of %u clients done)", w.ended, w.clients);
    }
    W = nullptr; for (auto& p : w.peers) p->on_open = p->on_fail = p->on_data = p->on_eof = p->on_rst = nullptr;
    check_fds("after the server stopped");
}
// ---- the client's side: files sent with uploadChunked, other requests follow on the same connection
SIM_SCENARIO("C17", client_uploads) {
    sim::swarm_net(); sim::swarm_sched(); sim::swarm_disk(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); cfg.disk_delay_max = std::min<u64>(cfg.disk_delay_max, MS);
    World w; W = &w; w.tiny = cfg.seg_mode >= 2 || cfg.pipe_cap < 3000; u32 flt = choose(FAULT, 3); bool disk = flt == 1, srv = flt == 2; cfg.open_err = cfg.read_err = cfg.close_err = 0;
    if (disk) { cfg.open_err = pick<u32>(FAULT, {0, 200}); cfg.read_err = pick<u32>(FAULT, {100, 0, 400}); if (choose(FAULT, 3) == 1) cfg.close_err = 200; }
    Server sv; sv.lateDup = cfg.close_err; SV = &sv; sv.bodyCap = 3000; if (w.tiny) sv.bodyCap = 300; sv.reqs.reserve(64); sv.exact = false; sv.lateOk = true; sv.pieces = pick<u32>(NET, {1, 3}); sv.listen(8080);
    u32 n = range(WORK, 1, 8); bool missing = choose(WORK, 4) == 1, shared = choose(WORK, 2); using TO = Sec<2>;
    sim::sample("%u requests, disk faults %d, faulty answers %d, %s, segmentation %u, window %u", n, disk, srv, shared ? "shared loop" : "own loop", cfg.seg_mode, cfg.pipe_cap);
    sim::deadline(30000 * SEC, "upload.hang", "the client's uploads"); std::string url0 = "http://127.0.0.1:8080";
    auto add = [&](bool up) { u32 id = (u32)sv.reqs.size(); Request q; q.port = 8080; q.path = "/u/" + std::to_string(id); q.headers = {{"x-id", std::to_string(id)}}; q.method = up ? choose(WORK, 2) ? "POST" : "PUT" : "GET"; if (up) { q.body = body_draw(id); sim::fs_put("/simfs/up" + std::to_string(id), q.body); if (missing && choose(WORK, 3) == 1) { sim::fs_remove("/simfs/up" + std::to_string(id)); q.method = "MISSING"; } }
        for (int a = 0; a < 2; ++a) q.plan.push_back(srv && choose(FAULT, 4) == 1 ? (Beh)range(FAULT, 1, NBEH - 1) : GOOD); if (q.plan[0] != GOOD) sim::fault(BN[q.plan[0]]); sv.reqs.push_back(q); return id; };
    auto fin = [&](u32 id, bool up, Try<ResponseData>& r) { auto& q = sv.reqs[id]; if (q.method == "MISSING") { EXPECT(!r, "upload.false-success", "uploading a file that does not exist succeeded"); EXPECT(!sim::fs_exists("/simfs/up" + std::to_string(id)), "file.created", "uploading a file that does not exist created it"); EXPECT(q.att.empty(), "upload.false-success", "a file that does not exist was sent"); q.done = true; return; } judge(id, r, disk || srv); (void)up; };
    auto hdr = [&](u32 id) { HeaderHashMap h; h["x-id"] = std::to_string(id); return h; };
    auto surplus = [&](u32 id) { bool b = false; for (auto& t : sv.reqs[id].att) b |= t.beh == SURPLUS; return b; };     // give surplus bytes time to arrive: before that no client can tell
    {
        auto loop = shared ? std::make_shared<EventLoop>() : nullptr; using Client_ = decltype(HttpClient{HttpClientOptions{}}); auto c = shared ? std::make_unique<Client_>(HttpClientOptions{}, loop) : std::make_unique<Client_>(HttpClientOptions{});
        if (shared) {
            auto t = [&]() -> Task<> { for (u32 i = 0; i < n; ++i) { bool up = choose(WORK, 3) != 1; u32 id = add(up); std::string m = sv.reqs[id].method, u = url0 + sv.reqs[id].path, f = "/simfs/up" + std::to_string(id);
                    Try<ResponseData> r = !up ? co_await c->coGet<TO>(u, hdr(id)) : m == "PUT" ? co_await c->coUploadChunked<PUT, TO>(u, f, HttpContentType::Text, hdr(id)) : co_await c->coUploadChunked<POST, TO>(u, f, HttpContentType::Text, hdr(id)); fin(id, up, r); if (surplus(id)) co_await loop->makeTimer().sleepFor(std::chrono::milliseconds(400)); }
                co_await c->coClose(); };
            auto e = loop->trySync(t()); EXPECT((bool)e, "http.client", "the client coroutine threw '%s'", e.what().c_str());
        } else {
            for (u32 i = 0; i < n; ++i) { bool up = choose(WORK, 3) != 1; u32 id = add(up); std::string m = sv.reqs[id].method, u = url0 + sv.reqs[id].path, f = "/simfs/up" + std::to_string(id);
                auto r = !up ? c->get<TO>(u, hdr(id)).get() : m == "PUT" ? c->uploadChunked<PUT, TO>(u, f, HttpContentType::Text, hdr(id)).get() : c->uploadChunked<POST, TO>(u, f, HttpContentType::Text, hdr(id)).get(); fin(id, up, r); if (surplus(id)) nap(400 * MS); }
        }
        c.reset();
    }
    sim::clear_deadline(); check_fds("after the client was destroyed"); sv.shut(); nap(4 * SEC); SV = nullptr; W = nullptr;
}
