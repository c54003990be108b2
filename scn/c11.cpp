// C11: a faulty client costs the server only its own connection.
#include "http.hpp"
using namespace ht;
namespace {
struct World { Serve* s = nullptr; u32 faulty = 0, good = 0, goodDone = 0, requests = 0, broken = 0; bool faultsOff = true; u64 quiet = 0; std::vector<std::shared_ptr<sim::Peer>> peers; bool finishing = false; };
World* W;
size_t conns() { size_t n = 0; for (auto& f : sim::open_fds()) if (!strcmp(f.kind, "socket")) ++n; return n; }
// ---- well-behaved clients: one request at a time, each answer checked; a connection lost to an injected fault is replaced
struct Good : std::enable_shared_from_this<Good> {
    u32 id, left, seq = 0; std::shared_ptr<sim::Peer> p; std::string body; size_t respLen = 0; bool inflight = false; u64 t0 = 0; u32 tries = 0;
    void connect() {
        if (!W) return; auto self = shared_from_this(); p = sim::Peer::connect(8080); W->peers.push_back(p);
        p->on_open = [self](sim::Peer&) { self->request(false); };
        p->on_fail = [self](sim::Peer&) { EXPECT(!W->faultsOff, "server.refused", "a well-behaved client could not connect"); sim::after(50 * MS, [self] { self->connect(); }); };
        p->on_data = [self](sim::Peer&) { self->data(); }; p->on_eof = p->on_rst = [self](sim::Peer&) { self->lost(); };
        p->user = this;
    }
    void lost() { if (!W) return;
        if (!inflight && !p->closed) { p->close(); return; } // idle: the next request opens a new connection
        if (p->closed) return;
        EXPECT(!W->faultsOff || tries < 2, "server.dropped", "a well-behaved client lost its connection during request %u (%zu bytes of the answer received)", seq, p->rx.size());
        ++tries; p->close(); auto self = shared_from_this(); sim::after(10 * MS, [self] { self->connect(); }); }
    void request(bool fresh) { if (!W) return;
        if (fresh || !seq) { ++seq; tries = 0; body = payload(id * 1000 + seq, choose(WORK, 3) ? choose(WORK, 400) : choose(WORK, cfg.seg_mode >= 2 ? 4000 : 20000)); respLen = choose(WORK, 4) ? choose(WORK, 2000) : choose(WORK, cfg.seg_mode >= 2 ? 6000 : 40000); }
        inflight = true; t0 = sim::now(); u32 mine = seq; auto self = shared_from_this();
        std::string w = "POST /echo HTTP/1.1\r\nHost: x\r\nx-id: " + std::to_string(id) + "." + std::to_string(seq) + "\r\nx-len: " + std::to_string(respLen) + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
        p->rx.clear(); p->send(w);
        auto q = p; sim::after(40 * SEC, [self, mine, q] { if (W && self->p == q && self->inflight && self->seq == mine) sim::fail("server.starved", "a well-behaved client got no answer to request %u within 40 s (%zu bytes)", mine, q->rx.size()); }); }
    void data() { if (!W || !inflight) return; size_t used; Msg m; std::string why; auto r = parse(p->rx, used, m, true, false, false, why);
        EXPECT(r != BAD, "http.response", "a well-behaved client received a malformed answer: %s", why.c_str()); if (r == NEED) return;
        EXPECT(m.start[1] == "200" && m.get("x-id") && *m.get("x-id") == std::to_string(id) + "." + std::to_string(seq), "http.response", "a well-behaved client received status %s and id %s instead of its own answer", m.start[1].c_str(), m.get("x-id") ? m.get("x-id")->c_str() : "(none)");
        std::string want = std::to_string(sim::fnv(body)) + payload(id * 7000 + seq, respLen);
        EXPECT(m.body == want, "http.response", "a well-behaved client's answer: %s", diff(want, m.body).c_str());
        EXPECT(used == p->rx.size(), "http.response", "bytes follow the answer");
        inflight = false; ++W->requests; auto self = shared_from_this();
        if (!--left) { p->close(); ++W->goodDone; return; }
        sim::after(range(WORK, 0, 3000) * MS, [self] { if (!W) return; if (self->p->closed || self->p->eof || self->p->rst || choose(WORK, 4) == 1) { if (!self->p->closed) self->p->close(); self->bump(); self->connect(); } else self->request(true); }); }
    void bump() { ++seq; tries = 0; body = payload(id * 1000 + seq, choose(WORK, 400)); respLen = choose(WORK, 3000); }
};
// ---- faulty clients
std::string valid() {
    switch (choose(WORK, 7)) {
    case 0: return "GET /big HTTP/1.1\r\nHost: x\r\n\r\n";
    case 1: return "GET /throw HTTP/1.1\r\nHost: x\r\n\r\n";
    case 2: return "GET /slow HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n";
    case 3: { std::string b = payload(3, choose(WORK, cfg.seg_mode >= 2 ? 4000 : 30000)); return "POST /sink HTTP/1.1\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; }
    case 4: return "POST /sink HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + chunk_encode(payload(4, choose(WORK, cfg.seg_mode >= 2 ? 4000 : 20000)), WORK, 5000, true, true);
    case 5: return "POST /ignore HTTP/1.1\r\nContent-Length: " + std::to_string(choose(WORK, 100000)) + "\r\n\r\n";
    default: return "GET /ignore?a=b&c HTTP/1.1\r\nHost: x\r\nConnection: keep-alive\r\n\r\n"; }
}
std::string junk(u32 n) { std::string r; for (u32 i = 0; i < n; ++i) switch (choose(WORK, 6)) { case 0: r += "\r\n"; break; case 1: r += ' '; break; case 2: r += ':'; break; case 3: r += (char)choose(WORK, 256); break; default: r += (char)(33 + choose(WORK, 90)); } return r; }
std::string script(const char*& kind) {
    switch (choose(WORK, 9)) {
    case 0: kind = "silent"; return "";
    case 1: kind = "garbage"; return junk(range(WORK, 1, 2000));
    case 2: { kind = "mutated"; std::string w = valid() + valid(); for (u32 i = 0, n = range(WORK, 1, 6); i < n && !w.empty(); ++i) { u32 at = choose(WORK, (u32)std::min<size_t>(w.size(), 200)); switch (choose(WORK, 4)) { case 0: w[at] = (char)choose(WORK, 256); break; case 1: w.erase(at, range(WORK, 1, 10)); break; case 2: w.insert(at, junk(range(WORK, 1, 5))); break; default: w.insert(at, w.substr(at, 20)); } } return w; }
    case 3: { kind = "truncated"; std::string w = valid(); return w.substr(0, choose(WORK, (u32)w.size())); }
    case 4: { kind = "oversized"; std::string w = "GET /ignore HTTP/1.1\r\n"; if (choose(WORK, 3) == 0) w = "GET /" + std::string(range(WORK, 16000, 40000), 'a'); else if (choose(WORK, 2)) w += "h: " + std::string(range(WORK, 16000, 40000), 'v'); else for (u32 i = 0, n = range(WORK, 500, 3000); i < n; ++i) w += "h" + std::to_string(i) + ": 0123456789\r\n"; if (choose(WORK, 2)) w += "\r\n\r\n"; return w; }
    case 5: { kind = "bad length"; static const char* L[] = {"-1", "abc", "", "18446744073709551616", "99999999999999999999999", "0x10", "18446744073709551615", "1e3", " 5 5", "9223372036854775808"}; return std::string("POST /sink HTTP/1.1\r\nContent-Length: ") + L[choose(WORK, 10)] + "\r\n\r\n" + junk(choose(WORK, 100)); }
    case 6: { kind = "bad chunk"; static const char* L[] = {"-1", "zz", "", "ffffffffffffffff", "fffffffffffffffff", "10000000000000000", "5;", "0x5", " 5", "7fffffffffffffff", "fffffffffffffffe"}; return std::string("POST /sink HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n") + (choose(WORK, 2) ? "3\r\nabc\r\n" : "") + L[choose(WORK, 11)] + "\r\n" + junk(choose(WORK, 100)); }
    case 7: { kind = "burst"; std::string w; for (u32 i = 0, n = range(WORK, 1, cfg.seg_mode >= 2 ? 6 : 20); i < n; ++i) w += valid(); return w; }
    default: kind = "valid"; return valid(); }
}
void active() { if (W) W->quiet = sim::now(); }
void faulty() {
    auto p = sim::Peer::connect(8080); W->peers.push_back(p); const char* kind; auto w = script(kind); u32 end = choose(WORK, 5); bool noread = choose(WORK, 3) == 1; u32 pieces = pick<u32>(NET, {1, 3, 12, 60}); u64 pause = pick<u64>(NET, {0, MS, 300 * MS, 1500 * MS, 3 * SEC});
    if (pieces == 60 && pause > 300 * MS) pause = 300 * MS;
    u32 part = w.empty() ? 0 : (choose(WORK, 2) ? (u32)w.size() : choose(WORK, (u32)w.size() + 1)); w.resize(part);
    static const char* E[] = {"stall", "fin", "close", "reset", "close-on-data"}; sim::note("faulty %s %zu bytes then %s%s", kind, w.size(), E[end], noread ? ", not reading" : ""); sim::fault((std::string("client ") + kind).c_str()); sim::fault((std::string("client ") + E[end]).c_str());
    p->on_fail = [](sim::Peer&) { EXPECT(!W || !W->faultsOff, "server.refused", "a client could not connect"); };
    p->on_open = [=](sim::Peer& q) {
        if (noread) q.set_reading(false);
        auto h = q.shared_from_this();
        auto fin = [h, end] { active(); if (h->closed || h->rst) return; switch (end) { case 1: h->fin(); break; case 2: h->close(); break; case 3: h->reset(); break; default: break; } };
        if (w.empty()) { fin(); return; }
        send_paced(h, w, pieces, pause, fin); active(); };
    p->on_eof = [](sim::Peer& q) { if (q.reading && !q.closed) q.close(); };
    p->on_data = [end](sim::Peer& q) { q.rx.clear(); if (end == 4 && !q.closed) { q.close(); active(); } };
}
void finish() { // everything idle: now nothing but the listening socket may remain, and the server still serves
    if (!W || W->finishing) return;
    if (W->goodDone < W->good || sim::now() < W->quiet + 75 * SEC) { sim::after(SEC, finish); return; }
    W->finishing = true; size_t n = conns();
    EXPECT(n == 0, "server.connection-kept", "%zu connections are still open 75 s after the last thing their clients did", n);
    W->faultsOff = true; auto g = std::make_shared<Good>(); g->id = 99; g->left = 2; ++W->good; g->connect();
    auto poll = std::make_shared<std::function<void()>>(); *poll = [poll] { if (!W) return; if (W->goodDone == W->good) { W->s->stop(); *poll = {}; } else { auto f = *poll; sim::after(100 * MS, f); } }; (*poll)();
}
}
SIM_SCENARIO("C11", faulty_clients) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); if (cfg.pipe_cap < 3000) cfg.pipe_cap = 3000; if (cfg.seg_mode >= 2) cfg.pipe_cap = std::min(cfg.pipe_cap, 1u << 14);
    World w; W = &w; w.good = range(WORK, 1, 2); w.faulty = range(WORK, 1, 6); u32 sys = choose(FAULT, 4), each = range(WORK, 1, 6);
    switch (sys) { case 1: cfg.accept_err = 200; break; case 2: cfg.recv_err = 20; cfg.send_err = 20; cfg.close_err = 100; break; case 3: cfg.conn_limit = range(FAULT, 8, 12); break; }
    if (sys) w.faultsOff = false;
    sim::sample("%u faulty and %u well-behaved clients, system-call faults %u, segmentation %u, window %u", w.faulty, w.good, sys, cfg.seg_mode, cfg.pipe_cap);
    sim::deadline(1200 * SEC, "server.hang", "the server ends");
    {
        Serve s(8080); w.s = &s;
        s.on<POST>("/echo", [](Req& req, Res& res) -> Task<> { std::string id = req.getHeaders().at("x-id"); u32 len = (u32)atoi(req.getHeaders().at("x-len").c_str()), a = 0, b = 0; sscanf(id.c_str(), "%u.%u", &a, &b); auto body = co_await req.parseBody();
            co_await res.setResLine(Status::CODE_200).addHeader("X-Id", id).setBody(std::to_string(sim::fnv(body)) + payload(a * 7000 + b, len)).sendRes(); });
        s.on<GET>("/big", [](Req&, Res& res) -> Task<> { co_await res.setResLine(Status::CODE_200).setBody(payload(5, cfg.pipe_cap * 2 + 5000)).sendRes(); });
        s.on<GET>("/throw", [](Req&, Res&) -> Task<> { if (choose(WORK, 2)) throw 42; throw std::runtime_error{"endpoint"}; co_return; });
        s.on<GET>("/slow", [&s](Req&, Res& res) -> Task<> { co_await s.loop.makeTimer().sleepFor(std::chrono::milliseconds(1500)); co_await res.setStatusAndContent(Status::CODE_200, "slow").sendRes(); });
        s.on<POST>("/sink", [](Req& req, Res& res) -> Task<> { auto b = co_await req.parseBody(); co_await res.setStatusAndContent(Status::CODE_200, std::to_string(b.size())).sendRes(); });
        s.on<GET, POST>("/ignore", [](Req&, Res& res) -> Task<> { co_await res.setStatusAndContent(Status::CODE_200, "ignored").sendRes(); });
        when_listening(8080, [&] {
            for (u32 i = 0; i < w.good; ++i) { auto g = std::make_shared<Good>(); g->id = i; g->left = each; g->connect(); }
            for (u32 i = 0; i < w.faulty; ++i) sim::after(choose(WORK, 5) * SEC, faulty);
            sim::after(20 * SEC, [] { cfg.accept_err = cfg.recv_err = cfg.send_err = cfg.close_err = 0; cfg.conn_limit = ~0u; sim::note("system-call faults end"); });
            active(); finish(); });
        s.run<Sec<2>>();
        EXPECT(w.finishing && w.goodDone == w.good, "server.ended", "the server ended by itself (%u of %u well-behaved clients served)", w.goodDone, w.good);
    }
    W = nullptr; for (auto& p : w.peers) p->on_open = p->on_fail = p->on_data = p->on_eof = p->on_rst = nullptr;
    check_fds("after the server stopped");
}
