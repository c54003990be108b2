// Shared by the client scenarios: a scripted HTTP server made of simulated peers and the record of what it did.
#pragma once
#include "http.hpp"
#include <HXLibs/net/client/HttpClient.hpp>
namespace cl {
using namespace ht; using HX::container::Try;
constexpr const char* TOK = "abcdefghijklmnopqrstuvwxyz0123456789-_.!#$%&'*+^`|~";
constexpr const char* VAL = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~%!$'()*+,;:@=/?[]{}\"<> ";
enum Beh { GOOD, CUT_FIN, CUT_RST, STALL, MALFORMED, SURPLUS, CLOSE_EARLY, RST_EARLY, SILENT, NBEH };
inline const char* BN[] = {"good", "cut-fin", "cut-rst", "stall", "malformed", "surplus", "close-early", "rst-early", "silent"};
struct Answer { int status = 200; Headers headers; std::string body, wire; bool untilEof = false, closeAfter = false; };
struct Attempt { int port; Beh beh; Answer a; bool sent = false; };  // sent: every byte handed over and, where the body ends with the connection, the FIN too
struct Request { std::string method, path, body, host; int port; Headers headers; std::vector<Beh> plan; std::vector<Attempt> att; bool done = false, ok = false; };
struct ConnSt { bool busy = false; u32 seq = 0; };   // seq: requests read on this connection
struct Server {
    std::vector<Request> reqs; u32 bodyCap = 60000; u32 pieces = 1; u64 pause = 0; bool exact = true; std::vector<std::shared_ptr<sim::Listener>> ls; std::vector<std::shared_ptr<sim::Peer>> peers; u32 conns = 0, lastId = 0; bool off = false, lateOk = false, lateDup = false, anyOrder = false; u64 hold = 0; u32 busyNow = 0, busyPeak = 0;
    u64 idleClose = 0;   // closes a connection this long after an answer (0: never)
    u32 size_draw() { u32 n; switch (choose(WORK, 6)) { case 0: n = range(WORK, 0, 40); break; case 1: n = 0; break; case 2: n = range(WORK, 41, 1500); break; case 3: n = 16384 - 400 + choose(WORK, 800); break; case 4: n = 65536 - 200 + choose(WORK, 400); break; default: n = range(WORK, 1500, 150000); } return std::min(n, bodyCap); }
    Answer make(u32 id, u32 att, const std::string& method, bool plain) {
        Answer r; r.status = pick<int>(WORK, {200, 404, 500, 206, 204, 304}); bool none = r.status == 204 || r.status == 304; bool head = method == "HEAD";
        static const char* R[] = {"OK", "", "Not Found At All", "x"}; const char* reason = R[choose(WORK, 4)];
        r.body = none ? "" : payload(7000 + id * 10 + att, size_draw());
        u32 fr = none ? 3 : choose(WORK, 4); if (fr == 3 && !none) fr = 0; if (plain && fr == 2) fr = 0;
        r.headers.push_back({"x-id", std::to_string(id)}); r.headers.push_back({"x-att", std::to_string(att)});
        for (u32 i = 0, n = choose(WORK, 5); i < n; ++i) { std::string v = text(WORK, choose(WORK, choose(WORK, 8) == 1 ? 3000 : 30), VAL); while (!v.empty() && v[0] == ' ') v.erase(0, 1); while (!v.empty() && v.back() == ' ') v.pop_back(); r.headers.push_back({"h" + std::to_string(i) + text(WORK, choose(WORK, 8), TOK), v}); }
        if (fr == 0) r.headers.push_back({"content-length", std::to_string(r.body.size())}); if (fr == 1) r.headers.push_back({"transfer-encoding", "chunked"}); if (none && r.status == 304 && choose(WORK, 2)) r.headers.push_back({"content-length", "77"});
        if (fr == 2) r.untilEof = true;
        if (choose(WORK, 6) == 1) { r.closeAfter = true; r.headers.push_back({"connection", choose(WORK, 2) ? "close" : "Close"}); }
        for (size_t i = r.headers.size(); i > 1; --i) std::swap(r.headers[i - 1], r.headers[choose(WORK, (u32)i)]);
        std::string w; if (!plain && choose(WORK, 6) == 1) for (u32 i = 0, n = range(WORK, 1, 3); i < n; ++i) w += choose(WORK, 2) ? "HTTP/1.1 100 Continue\r\n\r\n" : "HTTP/1.1 103 Early Hints\r\nx-id: early\r\nlink: <a>\r\n\r\n";
        w += "HTTP/1.1 " + std::to_string(r.status); if (*reason || choose(WORK, 4)) w += std::string(" ") + reason; w += "\r\n";
        for (auto& h : r.headers) { std::string k = h.first; if (choose(WORK, 2)) k[0] = (char)toupper((unsigned char)k[0]); w += k + (choose(WORK, 8) == 1 ? ":" : ": ") + h.second + (choose(WORK, 12) == 1 ? " " : "") + "\r\n"; }
        w += "\r\n"; if (!head && !none) w += fr == 1 ? chunk_encode(r.body, WORK, pick<u32>(WORK, {40000, 3000, 100, 16384}), choose(WORK, 4) == 1, choose(WORK, 4) == 1) : r.body;
        if (head) { r.body.clear(); r.untilEof = false; }
        r.wire = std::move(w); return r;
    }
    static std::string malformed(bool head) {
        u32 k = choose(WORK, 8); if (head && (k == 3 || k == 4)) k = 0;
        switch (k) {
        case 0: return "HTP/1.1 200 OK\r\ncontent-length: 1\r\n\r\nx"; case 1: return "HTTP/1.1\r\ncontent-length: 1\r\n\r\nx"; case 2: return "HTTP/1.1 2x0 OK\r\ncontent-length: 1\r\n\r\nx";
        case 3: return "HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n" + std::string(choose(WORK, 2) ? "zz\r\nabc\r\n0\r\n\r\n" : "3\r\nabcd\r\n0\r\n\r\n"); case 4: return "HTTP/1.1 200 OK\r\ncontent-length: " + std::string(pick<const char*>(WORK, {"-1", "1x", "", "99999999999999999999999"})) + "\r\n\r\nx";
        case 5: return "HTTP/1.1 200 OK\r\nno colon here\r\ncontent-length: 1\r\n\r\nx"; case 6: return "\r\n\r\n\r\n"; default: return payload(5, range(WORK, 1, 300)); }
    }
    void on_request(std::shared_ptr<sim::Peer> p, int port, Msg m);
    void serve(std::shared_ptr<sim::Peer> p, int port) {
        ++conns; peers.push_back(p); auto st = std::make_shared<ConnSt>(); p->user = st.get(); keep.push_back(st);
        p->on_data = [this, port, st](sim::Peer& q) { if (off) return;
            for (;;) { Msg m; size_t used; std::string why; auto r = parse(q.rx, used, m, false, false, false, why);
                EXPECT(r != BAD, "http.request", "the server received a malformed request on port %d: %s; '%s'", port, why.c_str(), escaped(q.rx, 200).c_str()); if (r == NEED) return;
                EXPECT(!st->busy, "http.overlap", "request %s arrived before the previous answer on its connection was complete", m.start[1].c_str());
                q.rx.erase(0, used); st->busy = true; ++st->seq; on_request(q.shared_from_this(), port, std::move(m)); } };
        p->on_eof = [](sim::Peer& q) { if (!q.closed) q.close(); };
    }
    std::vector<std::shared_ptr<ConnSt>> keep;
    std::shared_ptr<sim::Listener> listen(int port) { auto l = sim::Listener::listen(port, [this, port](std::shared_ptr<sim::Peer> p) { serve(p, port); }); ls.push_back(l); return l; }
    void shut() { off = true; for (auto& p : peers) { p->on_data = p->on_eof = p->on_rst = p->on_open = nullptr; if (!p->closed && !p->rst) p->close(); } for (auto& l : ls) { l->on_accept = nullptr; if (l->open) l->close(); } }
};
inline Server* SV;
inline void Server::on_request(std::shared_ptr<sim::Peer> p, int port, Msg m) {
    auto* h = m.get("x-id"); u32 id = h ? (u32)atoi(h->c_str()) : ~0u; EXPECT(h && id < reqs.size(), "http.request", "request %s %s without its id", m.start[0].c_str(), m.start[1].c_str());
    Request& q = reqs[id];
    EXPECT(anyOrder || id >= lastId || (q.done && lateOk), "http.order", "request %u arrived after request %u", id, lastId); lastId = std::max(lastId, id);
    EXPECT(lateDup || (!q.ok && (!q.done || lateOk)), "http.resent", "request %u reached the server again although the client had already returned its outcome", id);
    EXPECT(m.start[0] == q.method && m.start[1] == q.path && port == q.port, "http.request", "request %u arrived on port %d as %s %s instead of %d %s %s", id, port, m.start[0].c_str(), escaped(m.start[1]).c_str(), q.port, q.method.c_str(), escaped(q.path).c_str());
    EXPECT(m.body == q.body, "http.request", "body of request %u: %s", id, diff(q.body, m.body).c_str());
    for (auto& kv : q.headers) { auto* v = m.get(lower(kv.first)); EXPECT(v && *v == kv.second, "http.request", "header %s of request %u is '%s' instead of '%s'", kv.first.c_str(), id, v ? escaped(*v).c_str() : "missing", escaped(kv.second).c_str()); }
    if (!q.host.empty()) { u32 n = 0; for (auto& kv : m.headers) n += kv.first == "host"; auto* v = m.get("host"); EXPECT(n == 1 && *v == q.host, "http.request", "request %u for %s carried %u Host headers: '%s'", id, q.host.c_str(), n, v ? escaped(*v).c_str() : ""); }
    u32 a = (u32)q.att.size(); EXPECT(a < 2, "http.resent", "request %u was transmitted %u times", id, a + 1);
    for (auto& x : q.att) EXPECT(!(x.sent && (x.beh == GOOD || x.beh == SURPLUS) && exact), "http.resent", "request %u was transmitted again although its answer had been sent completely and in time", id);
    Beh b = a < q.plan.size() ? q.plan[a] : GOOD; q.att.push_back({port, b, {}, false}); auto& t = q.att.back(); note("request %u attempt %u: %s", id, a, BN[b]);
    ConnSt* st = (ConnSt*)p->user; u32 seq = st->seq;
    auto sent = [this, id, a, st, seq, p] { if (off) return; auto& q = reqs[id]; auto& t = q.att[a]; t.sent = true; st->busy = false; --busyNow; if (t.a.untilEof || t.a.closeAfter || t.beh == SURPLUS) { if (t.a.untilEof || choose(NET, 2)) { if (!p->closed) p->fin(); } }
        else if (idleClose && choose(NET, 2)) sim::after(choose(NET, 100) * (idleClose / 100), [p, st, seq, this] { if (!off && !p->closed && st->seq == seq) !p->unsent() && choose(NET, 3) == 1 ? p->reset() : p->close(); }); };
    busyPeak = std::max(busyPeak, ++busyNow);
    switch (b) {
    case GOOD: t.a = make(id, a, q.method, false); if (hold) { sim::after(hold, [p, w = t.a.wire, sent, this] { if (!off) send_paced(p, w, pieces, pause, sent); }); break; } send_paced(p, t.a.wire, pieces, pause, sent); break;
    case SURPLUS: { t.a = make(id, a, q.method, true); t.a.untilEof = false; std::string x = choose(WORK, 2) ? "HTTP/1.1 200 OK\r\nx-id: 99999\r\ncontent-length: 7\r\n\r\nforeign" : payload(3, range(WORK, 1, 200)); send_paced(p, t.a.wire + x, 1, 0, sent); break; }
    case CUT_FIN: case CUT_RST: case STALL: { t.a = make(id, a, q.method, false); if (t.a.untilEof && b == CUT_FIN) b = t.beh = CUT_RST; size_t n = t.a.wire.size(), cut = choose(WORK, 2) ? choose(WORK, (u32)n) : n - 1 - choose(WORK, (u32)std::min<size_t>(n, 60)); std::string rest = t.a.wire.substr(cut);
        send_paced(p, t.a.wire.substr(0, cut), pieces, pause, [this, p, b, rest, st] { if (off || p->closed || p->rst) return; if (b == CUT_FIN) p->fin(); else if (b == CUT_RST) p->reset(); else if (choose(WORK, 2)) sim::after(10 * SEC, [p, rest, st, this] { if (!off && !p->closed && !p->rst) { st->busy = false; p->send(rest); } }); });
        break; }
    case MALFORMED: p->send(malformed(m.start[0] == "HEAD")); if (choose(WORK, 2)) { p->fin(); } break;
    case CLOSE_EARLY: p->close(); break; case RST_EARLY: p->reset(); break; default: break; }
}
// what the client returned for request id against what the server did
template <typename T> void judge(u32 id, T& r, bool faultsOn) {
    Request& q = SV->reqs[id]; q.done = true; q.ok = (bool)r; std::string hist; for (auto& t : q.att) hist += std::string(" ") + BN[t.beh] + (t.sent ? "(sent)" : "");
    if (!r) { note("request %u: error %s", id, r.what().c_str());
        bool bad = faultsOn || q.att.size() >= 2 || (SV->idleClose && q.att.size() == 1); if (bad && !faultsOn) for (auto& t : q.att) if (t.beh == GOOD || t.beh == SURPLUS) bad = false;
        EXPECT(bad, "http.lost", "request %u (%s %s) was answered but the client reports '%s'; attempts:%s", id, q.method.c_str(), q.path.c_str(), r.what().c_str(), hist.c_str()); return; }
    auto& d = r.get(); note("request %u: status %d body %zu", id, d.status, d.body.size());
    const Answer* a = nullptr; auto x = d.headers.find("x-att"); auto xi = d.headers.find("x-id");
    EXPECT(xi != d.headers.end() && xi->second == std::to_string(id), "http.foreign", "request %u (%s %s) yielded a response with status %d and id %s; attempts:%s", id, q.method.c_str(), q.path.c_str(), d.status, xi == d.headers.end() ? "none" : escaped(xi->second).c_str(), hist.c_str());
    EXPECT(x != d.headers.end(), "http.foreign", "request %u yielded a response without its attempt number", id);
    u32 k = (u32)atoi(x->second.c_str()); EXPECT(k < q.att.size(), "http.foreign", "request %u yielded attempt %u of %zu", id, k, q.att.size()); a = &q.att[k].a;
    bool whole = q.att[k].sent || q.att[k].beh == GOOD || q.att[k].beh == SURPLUS || q.att[k].beh == STALL; // a late remainder may still have arrived in time for nobody: checked by content below
    EXPECT(whole, "http.truncated", "request %u yielded attempt %u, which the server broke off (%s)", id, k, BN[q.att[k].beh]);
    EXPECT(d.status == a->status, "http.response", "request %u: status %d instead of %d", id, d.status, a->status);
    EXPECT(d.body == a->body, "http.response", "body of the response to request %u (%s, attempt %u %s): %s", id, q.method.c_str(), k, BN[q.att[k].beh], diff(a->body, d.body).c_str());
    EXPECT(d.headers.size() == a->headers.size(), "http.response", "response to request %u has %zu headers instead of %zu", id, d.headers.size(), a->headers.size());
    for (auto& h : a->headers) { auto f = d.headers.find(h.first); EXPECT(f != d.headers.end() && f->second == h.second, "http.response", "response header '%s' of request %u: %s", escaped(h.first).c_str(), id, f == d.headers.end() ? "missing" : diff(h.second, f->second).c_str()); }
}
} // namespace cl
