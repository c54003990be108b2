// C20: server-sent event streams deliver every event intact and in order.
#include "client.hpp"
using namespace cl;
namespace {
struct Ev { std::string data, event; bool hasId = false, hasRetry = false; std::string id; u64 retry = 0; size_t end = 0; };
std::string show(const Ev& e) { return "{event '" + escaped(e.event, 30) + "' data(" + std::to_string(e.data.size()) + ") '" + escaped(e.data, 40) + "' id " + (e.hasId ? "'" + escaped(e.id, 30) + "'" : "none") + " retry " + (e.hasRetry ? std::to_string(e.retry) : "none") + "}"; }
bool same(const Ev& a, const Ev& b) { return a.data == b.data && a.event == b.event && a.hasId == b.hasId && a.hasRetry == b.hasRetry && (!a.hasId || a.id == b.id) && (!a.hasRetry || a.retry == b.retry); }
Ev from(const SseEvent& s) { Ev e; e.data = s.data; e.event = s.event; if (s.id) { e.hasId = true; e.id = *s.id; } if (s.retry) { e.hasRetry = true; e.retry = (u64)s.retry->count(); } return e; }
constexpr const char* AB = "abcdefghijklmnopqrstuvwxyz :;=\t\xe6\x88\x91{}\"0123456789";
u32 big;
std::string line() { return text(WORK, choose(WORK, 8) == 1 ? range(WORK, 1, big) : choose(WORK, 24), AB); }
Ev draw(u32 tag) {
    Ev e; u32 k = range(WORK, 1, 15); // which fields are present
    if (k & 1) { u32 n = choose(WORK, 3) == 1 ? range(WORK, 2, 5) : 1; e.data = choose(WORK, 3) ? std::to_string(tag) : ""; for (u32 i = 0; i < n; ++i) { if (i) e.data += '\n'; e.data += choose(WORK, 5) == 1 ? "" : choose(WORK, 4) == 1 ? " " + line() : line(); } if (choose(WORK, 8) == 1) e.data = "\n" + e.data; if (choose(WORK, 8) == 1) e.data += "\n"; if (e.data.empty()) e.data = "x"; }
    if (k & 2) { e.event = line(); if (e.event.empty()) e.event = "who"; if (e.event.size() > 300) e.event.resize(300); }
    if (k & 4) { e.hasId = true; e.id = choose(WORK, 4) == 1 ? "" : std::to_string(tag) + text(WORK, choose(WORK, 12), AB); }
    if (k & 8) { e.hasRetry = true; e.retry = choose(WORK, 4) == 1 ? 0 : choose(WORK, 1000000); }
    return e;
}
// the event-stream format written from its specification (plus: events without data are kept, as the library documents)
struct Ref {
    std::string buf; Ev e; bool any = false, hasData = false, hasEvent = false; std::vector<Ev> out; u32 comments = 0;
    void feed(std::string_view s) { buf += s; size_t p; while ((p = buf.find('\n')) != buf.npos) { std::string l = buf.substr(0, p); buf.erase(0, p + 1); if (!l.empty() && l.back() == '\r') l.pop_back(); one(l); } }
    void one(const std::string& l) {
        if (l.empty()) { if (any) out.push_back(e); e = Ev{}; any = hasData = hasEvent = false; return; }
        size_t c = l.find(':'); if (c == 0) { ++comments; return; } std::string k = l.substr(0, c), v = c == l.npos ? "" : l.substr(c + 1); if (!v.empty() && v[0] == ' ') v.erase(0, 1);
        if (k == "data") { if (hasData) e.data += '\n'; e.data += v; any = hasData = true; } else if (k == "event") { e.event = v; any = hasEvent = true; } else if (k == "id") { e.hasId = any = true; e.id = v; }
        else if (k == "retry") { e.hasRetry = any = true; e.retry = strtoull(v.c_str(), nullptr, 10); } else sim::fail("sse.format", "the server sent the unknown field '%s'", escaped(k).c_str());
    }
};
enum Fate { WHOLE, FIN_AT, RST_AT, STALL_AT, REFUSED, HANGUP, NF };
const char* FN[] = {"whole", "cut_fin", "cut_reset", "stall", "refused", "hangup"};
struct Attempt { Fate fate; size_t sent = 0, total = 0, head = 0; bool over = false; std::vector<Ev> ev; };
struct Stream { bool sse = true; std::vector<Fate> plan; std::vector<std::unique_ptr<Attempt>> att; u32 got = 0, throwAt = ~0u, n = 0; bool done = false; u32 slow = 0; Attempt* cur = nullptr; };
struct World { std::vector<Stream> st; std::vector<std::shared_ptr<sim::Peer>> peers; std::vector<std::shared_ptr<sim::Listener>> ls; bool off = false, conn = false; u32 tag = 0; u64 pause = 0; u32 pieces = 1; } *W;
std::string render(Attempt& a, u32 n) { // the text of n events; fills their end offsets
    std::string w; const char* nl = choose(WORK, 3) == 1 ? "\r\n" : "\n"; bool junk = choose(WORK, 2), tight = choose(WORK, 2);
    auto noise = [&] { if (!junk) return; while (choose(WORK, 4) == 1) switch (choose(WORK, 9)) { case 0: w += ":"; w += nl; break; case 1: w += ": ping"; w += nl; break; case 2: w += "foo: bar"; w += nl; break; case 3: w += "foo"; w += nl; break; case 4: w += "datax:1"; w += nl; break; case 5: w += "Data: no"; w += nl; break; case 6: w += " data: no"; w += nl; break; case 7: w += "retry: soon"; w += nl; break; default: w += ":data:1"; w += nl; } };
    auto field = [&](const char* k, std::string_view v) { w += k; if (!(v.empty() && tight && choose(WORK, 2))) { w += ':'; if (!tight || (!v.empty() && v[0] == ' ')) w += ' '; w += v; } w += nl; };
    for (u32 i = 0; i < n; ++i) {
        if (junk) while (choose(WORK, 5) == 1) { noise(); w += nl; }
        Ev e = draw(++W->tag); if (!same(e, Ev{}) && choose(WORK, 6) == 1 && e.data.empty()) { field("data", ""); }
        u32 order = choose(WORK, 4); for (u32 j = 0; j < 4; ++j) { noise(); switch ((j + order) % 4) {
            case 0: if (!e.data.empty()) { size_t p = 0; for (;;) { size_t q = e.data.find('\n', p); field("data", std::string_view(e.data).substr(p, q == e.data.npos ? q : q - p)); if (q == e.data.npos) break; p = q + 1; noise(); } } break;
            case 1: if (!e.event.empty()) field("event", e.event); break; case 2: if (e.hasId) field("id", e.id); break; default: if (e.hasRetry) field("retry", std::to_string(e.retry)); } }
        w += nl; e.end = w.size(); a.ev.push_back(e);
    }
    noise(); if (choose(WORK, 4) == 1) w += "data: unfinished"; return w;
}
void serve(std::shared_ptr<sim::Peer> p) {
    W->peers.push_back(p);
    p->on_data = [](sim::Peer& q) { if (!W || W->off) return; Msg m; size_t used; std::string why; auto r = parse(q.rx, used, m, false, false, false, why); EXPECT(r != BAD, "http.request", "malformed request: %s", why.c_str()); if (r == NEED) return; q.rx.erase(0, used);
        auto* h = m.get("x-id"); EXPECT(h, "http.request", "request without its id"); u32 id = (u32)atoi(h->c_str()); auto& s = W->st[id]; auto p = q.shared_from_this();
        if (W->conn && (s.done || s.got || s.att.size() >= 2)) { sim::probe("request of a failed connection arrived late"); return; } EXPECT(!s.done, "http.resent", "request %u arrived after the client had returned its outcome", id); EXPECT(s.got == 0, "http.resent", "request %u was sent again after %u of its events had been delivered", id, s.got); EXPECT(s.att.size() < 2, "http.resent", "request %u was sent %zu times", id, s.att.size() + 1);
        s.att.push_back(std::make_unique<Attempt>()); auto& a = *s.att.back(); a.fate = s.plan[std::min<size_t>(s.att.size() - 1, s.plan.size() - 1)]; note("stream %u attempt %zu: %s", id, s.att.size(), FN[a.fate]); if (a.fate) sim::fault(FN[a.fate]);
        if (!s.sse) { a.total = 1; send_paced(p, "HTTP/1.1 200 OK\r\nx-id: " + std::to_string(id) + "\r\nContent-Length: 5\r\n\r\nplain", W->pieces, W->pause); return; }
        auto* acc = m.get("accept"); EXPECT(acc && acc->find("text/event-stream") != std::string::npos, "http.request", "an event stream was requested without Accept: text/event-stream");
        if (a.fate == HANGUP) { choose(FAULT, 2) ? p->reset() : p->close(); return; }
        if (a.fate == REFUSED) { p->send(choose(WORK, 2) ? "HTTP/1.1 404 Not Found\r\nContent-Type: text/event-stream\r\nContent-Length: 9\r\n\r\ndata:x\n\n\n" : "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: 9\r\n\r\ndata:x\n\n\n"); return; }
        std::string body = render(a, s.n), w = std::string("HTTP/1.1 200 OK\r\nContent-Type: text/event-stream") + (choose(WORK, 2) ? "; charset=utf-8" : "") + "\r\nCache-Control: no-cache\r\n"; bool chunked = choose(WORK, 2);
        if (chunked) { w += "Transfer-Encoding: chunked\r\n\r\n"; a.head = w.size(); size_t i = 0; u32 maxc = pick<u32>(WORK, {60, 5000, 1, 400}); if (maxc == 1 && body.size() > 400) maxc = 60; std::vector<std::pair<size_t, size_t>> map; // body offset -> wire offset
            while (i < body.size()) { size_t n = std::min<size_t>(body.size() - i, 1 + choose(WORK, maxc)); w += hex(n, choose(WORK, 2)) + "\r\n"; map.push_back({i, w.size()}); w.append(body, i, n); w += "\r\n"; i += n; }
            for (auto& e : a.ev) { auto it = std::upper_bound(map.begin(), map.end(), std::make_pair(e.end - 1, ~(size_t)0)); --it; e.end = it->second + (e.end - it->first); } w += "0\r\n\r\n"; if (a.fate == WHOLE && choose(WORK, 2)) sim::probe("stream kept open after its last chunk"); }
        else { w += "\r\n"; a.head = w.size(); for (auto& e : a.ev) e.end += w.size(); w += body; }
        if (a.fate == FIN_AT || a.fate == RST_AT || a.fate == STALL_AT) w.resize(choose(FAULT, 3) ? a.head + choose(FAULT, (u32)(w.size() - a.head)) : choose(FAULT, (u32)w.size()));
        a.total = w.size(); Attempt* ap = &a; u32 pieces = W->pieces; u64 pause = W->pause; auto cut = std::make_shared<std::vector<size_t>>(); for (u32 i = 1; i < pieces && w.size() > 1; ++i) cut->push_back(1 + choose(NET, (u32)w.size() - 1)); for (auto& e : a.ev) if (choose(NET, 3) == 1 && e.end < w.size()) cut->push_back(e.end); std::sort(cut->begin(), cut->end()); cut->push_back(w.size());
        auto ww = std::make_shared<std::string>(w); auto step = std::make_shared<std::function<void(size_t)>>(); bool keepOpen = chunked && choose(WORK, 2);
        *step = [p, ww, cut, step, ap, pause, keepOpen](size_t i) { if (!W || W->off || p->closed || p->rst) { return; } size_t to = (*cut)[i]; if (to > ap->sent) { size_t f = ap->sent; ap->sent = to; p->send(std::string_view(*ww).substr(f, to - f)); }
            if (i + 1 < cut->size()) { auto st = *step; sim::after(choose(NET, 100) * (pause / 100), [st, i] { st(i + 1); }); return; }
            ap->over = true; switch (ap->fate) { case WHOLE: if (!keepOpen) p->fin(); break; case FIN_AT: p->fin(); break; case RST_AT: p->reset(); break; default: break; } };
        auto st = *step; st(0); };
    p->on_eof = [](sim::Peer& q) { if (!q.closed) q.close(); };
}
}
SIM_SCENARIO("C20", event_streams) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); cfg.recv_err = cfg.send_err = cfg.close_err = cfg.connect_err = 0;
    World w; W = &w; bool tiny = cfg.seg_mode >= 2 || cfg.pipe_cap < 3000; big = tiny ? 200 : 40000; u32 flt = choose(FAULT, 3); w.conn = flt == 2; if (w.conn) cfg.recv_err = pick<u32>(FAULT, {20, 60}); w.pieces = pick<u32>(NET, {1, 3, 20}); w.pause = pick<u64>(NET, {0, 20 * MS, SEC}); if (tiny) w.pieces = std::min(w.pieces, 3u);
    u32 n = range(WORK, 1, 5); w.st.reserve(n); for (u32 i = 0; i < n; ++i) { w.st.emplace_back(); auto& s = w.st.back(); s.sse = choose(WORK, 4) != 1; s.n = choose(WORK, tiny ? 5 : 12); for (int a = 0; a < 2; ++a) s.plan.push_back(s.sse && flt && choose(FAULT, 2) ? (Fate)range(FAULT, 1, NF - 1) : WHOLE); if (choose(WORK, 6) == 1) s.throwAt = choose(WORK, 4); if (choose(WORK, 5) == 1) s.slow = range(WORK, 1, 3); }
    sim::sample("%u streams, faults %u, %u pieces, segmentation %u, window %u", n, flt, w.pieces, cfg.seg_mode, cfg.pipe_cap);
    w.ls.push_back(sim::Listener::listen(8080, serve)); sim::deadline(9000 * SEC, "sse.hang", "the streams end"); using TO = Sec<30>; std::string url = "http://127.0.0.1:8080";
    {
        auto loop = std::make_shared<EventLoop>();
        auto t = [&]() -> Task<> {
            HttpClient c{HttpClientOptions{}, loop};
            for (u32 i = 0; i < n; ++i) { auto& s = w.st[i]; HeaderHashMap h; h["x-id"] = std::to_string(i);
                if (!s.sse) { auto r = co_await c.coGet<TO>(url + "/p", h); s.done = true; EXPECT(r || w.conn, "http.lost", "the request after a stream failed: %s", r ? "" : r.what().c_str()); if (r) EXPECT(r.get().body == "plain" && r.get().headers["x-id"] == std::to_string(i), "http.foreign", "request %u yielded '%s'", i, escaped(r.get().body).c_str()); continue; }
                u64 t0 = sim::now(); bool thrown = false;
                auto r = co_await c.coSseLoop<GET, TO>(url + "/e", [&](SseEvent e) -> Task<> {
                    EXPECT(!thrown && !s.att.empty(), "sse.after", "an event was delivered after the consumer failed"); Ev g = from(e); if (!s.cur || !w.conn) s.cur = s.att.back().get(); if (w.conn && !s.got) for (auto& x : s.att) if (!x->ev.empty() && same(x->ev[0], g)) s.cur = x.get(); auto& a = *s.cur;
                    EXPECT(a.fate != REFUSED && a.fate != HANGUP, "sse.refused", "event %s came from an answer that is no event stream", show(g).c_str());
                    EXPECT(s.got < a.ev.size(), "sse.extra", "event %s delivered after all %zu events", show(g).c_str(), a.ev.size()); auto& x = a.ev[s.got];
                    EXPECT(same(x, g), "sse.event", "event %u of %zu is %s instead of %s", s.got, a.ev.size(), show(g).c_str(), show(x).c_str()); EXPECT(a.sent >= x.end, "sse.early", "event %u was delivered although only %zu of its %zu bytes were sent", s.got, a.sent, x.end);
                    u32 k = s.got++; if (s.slow) co_await static_cast<EventLoop&>(*loop).makeTimer().sleepFor(std::chrono::milliseconds{100 * s.slow}); if (k == s.throwAt) { thrown = true; throw std::runtime_error{"stop here"}; } co_return; }, h);
                s.done = true; (void)t0; EXPECT(!r, "sse.end", "the stream loop returned without an error");
                if (thrown) EXPECT(r.what() == "stop here", "sse.end", "the consumer threw 'stop here' but the loop reports '%s'", r.what().c_str());
                else if (!w.conn) { EXPECT(!s.att.empty(), "sse.lost", "stream %u was never requested: %s", i, r.what().c_str()); auto& a = *s.att.back(); u32 full = 0; for (auto& e : a.ev) full += e.end <= a.sent;
                    EXPECT(a.fate == RST_AT || s.got == full, "sse.lost", "stream %u (%s): %u of the %u events sent completely were delivered; the client reports '%s'", i, FN[a.fate], s.got, full, r.what().c_str());
                    EXPECT(a.over || a.fate == REFUSED || a.fate == HANGUP, "sse.early-end", "stream %u ended with '%s' while the server was still sending", i, r.what().c_str()); }
                note("stream %u: %u events, '%s'", i, s.got, r.what().c_str()); }
            co_await c.coClose(); };
        auto e = loop->trySync(t()); EXPECT((bool)e, "http.client", "the client coroutine threw '%s'", e.what().c_str());
    }
    sim::clear_deadline(); check_fds("after the client ended"); w.off = true; for (auto& p : w.peers) { p->on_data = p->on_eof = nullptr; if (!p->closed && !p->rst) p->close(); } for (auto& l : w.ls) { l->on_accept = nullptr; l->close(); } nap(4 * SEC); W = nullptr;
}
// ---- the server's side
namespace {
struct Out { std::vector<Ev> ev; u32 pushed = 0; bool ended = false, broke = false; u32 how = 0; bool ping = false; };
struct Srv { Serve* s; std::vector<Out> o; u32 clients = 0, ended = 0; bool faults = false, fail = false; std::vector<std::shared_ptr<sim::Peer>> peers; bool over = false; } *S;
struct Reader : std::enable_shared_from_this<Reader> {
    u32 id; std::shared_ptr<sim::Peer> p; bool head = false, over = false, extra = false, leave = false; size_t leaveAt = ~0ull; Ref ref; u32 seen = 0; std::string raw; u64 rest = 0;
    void start() { auto self = shared_from_this(); p = sim::Peer::connect(8080); S->peers.push_back(p);
        p->on_open = [self](sim::Peer& q) { q.send("GET /e/" + std::to_string(self->id) + " HTTP/1.1\r\nHost: x\r\n\r\n"); if (self->extra) q.send("GET /plain HTTP/1.1\r\nHost: x\r\n\r\n"); };
        p->on_fail = [self](sim::Peer&) { sim::fail("http.lost", "could not connect"); }; p->on_data = [self](sim::Peer&) { self->data(); };
        p->on_eof = [self](sim::Peer&) { self->end(true); }; p->on_rst = [self](sim::Peer&) { self->end(false); };
        if (rest) sim::after(choose(NET, 3000) * MS, [self] { if (!S || self->over) return; self->p->set_reading(false); sim::after(self->rest, [self] { if (S && !self->over && !self->p->closed) { self->p->set_reading(true); } }); }); }
    void data() { if (!S || over) return;
        if (!head) { size_t e = p->rx.find("\r\n\r\n"); if (e == p->rx.npos) return; std::string hd = p->rx.substr(0, e + 4); p->rx.erase(0, e + 4); Msg m; size_t used; std::string why; EXPECT(parse(hd, used, m, true, true, false, why) == DONE && m.start[1] == "200", "sse.head", "head '%s'", escaped(hd, 200).c_str()); auto* ct = m.get("content-type"); EXPECT(ct && ct->find("text/event-stream") == 0, "sse.head", "no event stream: '%s'", escaped(hd, 200).c_str()); EXPECT(!m.get("content-length") && !m.get("transfer-encoding"), "sse.head", "an endless stream announces a length: '%s'", escaped(hd, 200).c_str()); head = true; }
        raw += p->rx; ref.feed(p->rx); p->rx.clear(); auto& o = S->o[id];
        for (; seen < ref.out.size(); ++seen) { EXPECT(seen < o.ev.size(), "sse.extra", "stream %u: event %s after the last one", id, show(ref.out[seen]).c_str()); EXPECT(same(ref.out[seen], o.ev[seen]), "sse.event", "stream %u: event %u is %s instead of %s", id, seen, show(ref.out[seen]).c_str(), show(o.ev[seen]).c_str()); }
        if (leave && raw.size() >= leaveAt) { sim::fault("reader_leaves"); over = true; choose(FAULT, 2) ? p->reset() : p->close(); done(); } }
    void end(bool eof) { if (!S || over) return; over = true; auto& o = S->o[id]; EXPECT(eof || S->faults || extra || o.how == 2, "sse.reset", "stream %u was reset though nothing failed", id);
        if (!S->faults) { EXPECT(o.ended || (o.how == 1 && o.pushed == o.ev.size()), "sse.early-end", "stream %u ended before its endpoint returned", id); if (eof) EXPECT(head && seen == o.pushed, "sse.lost", "stream %u ended after %u of %u events", id, seen, o.pushed); } if (eof && !S->faults && o.how != 2) EXPECT(ref.buf.empty() && !ref.any, "sse.lost", "stream %u ended within an event", id); if (!p->closed) p->close(); done(); }
    void done() { p->on_open = p->on_fail = p->on_data = p->on_eof = p->on_rst = nullptr; if (++S->ended == S->clients) { S->over = true; S->s->stop(); } }
};
}
SIM_SCENARIO("C20", pushed_streams) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); cfg.recv_err = cfg.send_err = cfg.close_err = 0;
    Srv w; S = &w; bool tiny = cfg.seg_mode >= 2 || cfg.pipe_cap < 3000; big = tiny ? 300 : 30000; w.faults = choose(FAULT, 2); if (w.faults && choose(FAULT, 3) == 1) cfg.send_err = 10; w.clients = range(WORK, 1, 3);
    for (u32 i = 0; i < w.clients; ++i) { Out o; u32 n = choose(WORK, tiny ? 6 : 14); for (u32 k = 0; k < n; ++k) o.ev.push_back(draw(i * 100 + k)); o.how = choose(WORK, 3); o.ping = choose(WORK, 3) == 1; w.o.push_back(o); }
    u64 gap = pick<u64>(WORK, {0, 10, 1500}); sim::sample("%u streams, faults %d, gap %llu ms, segmentation %u, window %u", w.clients, w.faults, (unsigned long long)gap, cfg.seg_mode, cfg.pipe_cap); sim::deadline(9000 * SEC, "sse.hang", "the streams end");
    {
        Serve s(8080); w.s = &s;
        s.on<GET>("/plain", [&w](Req&, Res& res) -> Task<> { sim::fail("sse.reused", "a request that followed an event stream on its connection was served"); co_await res.setStatusAndContent(Status::CODE_200, "plain").sendRes<Sec<2>>(); });
        s.on<GET>("/e/{id}", [&w, &s, gap](Req& req, Res& res) -> Task<> { u32 id = req.getPathParam(0).to<u32>(); auto& o = w.o[id]; struct G { Out& o; ~G() { o.ended = true; } } g{o};
            auto st = co_await res.makeSseStream();
            for (auto& e : o.ev) { if (o.ping && choose(WORK, 2)) co_await st.ping(); if (gap && choose(WORK, 2)) co_await static_cast<EventLoop&>(res.getIO()).makeTimer().sleepFor(std::chrono::milliseconds{gap});
                SseEvent x; x.data = e.data; x.event = e.event; if (e.hasId) x.id = e.id; if (e.hasRetry) x.retry = std::chrono::milliseconds{e.retry}; co_await st.push(x); ++o.pushed;
                u32 k = o.pushed; (void)k; }
            if (o.how == 1) co_await res.getIO().close(); if (o.how == 2) throw std::runtime_error{"endpoint failed"}; });
        when_listening(8080, [&] { for (u32 i = 0; i < w.clients; ++i) { auto r = std::make_shared<Reader>(); r->id = i; r->extra = choose(WORK, 4) == 1; r->leave = w.faults && choose(FAULT, 2); if (r->leave) r->leaveAt = choose(FAULT, 3000); if (choose(NET, 4) == 1) r->rest = range(NET, 1, 1500) * MS; sim::after(choose(WORK, 3) * MS, [r] { r->start(); }); } });
        s.run<Sec<3>>();
        EXPECT(w.over, "server.ended", "the server ended by itself");
    }
    for (auto& p : w.peers) p->on_open = p->on_fail = p->on_data = p->on_eof = p->on_rst = nullptr; S = nullptr; check_fds("after the server stopped");
}
