// Shared by the HTTP scenarios: an independent message model and an in-simulation server fixture.
#pragma once
#include "common.hpp"
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/net/server/HttpServer.hpp>
#include <map>
namespace ht {
using namespace HX::net;
using HX::coroutine::EventLoop; using HX::coroutine::Task;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>;
using Headers = std::vector<std::pair<std::string, std::string>>;

inline std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }
inline std::string hex(u64 v, bool up = false) { char b[20]; snprintf(b, sizeof b, up ? "%llX" : "%llx", (unsigned long long)v); return b; }
inline std::string text(sim::Stream s, u32 n, const char* alphabet) { u32 k = (u32)strlen(alphabet); std::string r; for (u32 i = 0; i < n; ++i) r += alphabet[choose(s, k)]; return r; }
inline std::string escaped(std::string_view s, size_t max = 60) { std::string r; for (unsigned char c : s.substr(0, max)) { if (c >= 32 && c < 127) r += (char)c; else { char b[6]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } } if (s.size() > max) r += "..."; return r; }
inline std::string diff(std::string_view a, std::string_view b) { // a: wanted, b: got
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    return "length " + std::to_string(b.size()) + " instead of " + std::to_string(a.size()) + ", first difference at " + std::to_string(i) + ": '" + escaped(b.substr(std::min(i, b.size())), 24) + "' instead of '" + escaped(a.substr(std::min(i, a.size())), 24) + "'";
}
// ---- messages as they appear on the wire (written from RFC 9112, not from the code under test)
struct Msg {
    std::string start[3]; Headers headers; std::string body; bool chunked = false, untilEof = false;
    const std::string* get(const std::string& k) const { for (auto& h : headers) if (h.first == k) return &h.second; return nullptr; }
};
enum PR { NEED, DONE, BAD };
// parses one message at the front of s; names are lowered, values trimmed; eof: nothing follows
inline PR parse(std::string_view s, size_t& used, Msg& m, bool response, bool noBody, bool eof, std::string& why) {
    m = Msg{}; size_t p = 0; int line = 0;
    for (;; ++line) {
        size_t e = s.find("\r\n", p); if (e == s.npos) { why = "incomplete head"; return NEED; }
        auto l = s.substr(p, e - p); p = e + 2;
        if (line == 0) {
            size_t a = l.find(' '), b = a == l.npos ? a : l.find(' ', a + 1);
            if (b == l.npos) { why = "start line '" + escaped(l) + "'"; return BAD; }
            m.start[0] = l.substr(0, a); m.start[1] = l.substr(a + 1, b - a - 1); m.start[2] = l.substr(b + 1);
            if ((response ? m.start[0] : m.start[2]) != "HTTP/1.1") { why = "start line '" + escaped(l) + "'"; return BAD; }
            continue;
        }
        if (l.empty()) break;
        size_t c = l.find(':'); if (c == l.npos || c == 0) { why = "header line '" + escaped(l) + "'"; return BAD; }
        auto v = l.substr(c + 1); while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.remove_prefix(1); while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.remove_suffix(1);
        m.headers.push_back({lower(std::string(l.substr(0, c))), std::string(v)});
    }
    auto* te = m.get("transfer-encoding"); auto* cl = m.get("content-length");
    if (te && cl) { why = "both Transfer-Encoding and Content-Length"; return BAD; }
    if (noBody) { used = p; return DONE; }
    if (te) {
        if (lower(*te) != "chunked") { why = "transfer-encoding " + *te; return BAD; }
        m.chunked = true;
        for (;;) {
            size_t e = s.find("\r\n", p); if (e == s.npos) { why = "incomplete chunk size"; return NEED; }
            auto l = s.substr(p, e - p); size_t k = 0; u64 n = 0;
            while (k < l.size() && isxdigit((unsigned char)l[k])) { n = n * 16 + (u64)(isdigit((unsigned char)l[k]) ? l[k] - '0' : (l[k] | 32) - 'a' + 10); ++k; }
            if (!k || k > 15 || (k < l.size() && l[k] != ';')) { why = "chunk size line '" + escaped(l) + "'"; return BAD; }
            p = e + 2;
            if (!n) { for (;;) { e = s.find("\r\n", p); if (e == s.npos) { why = "incomplete trailer"; return NEED; } bool end = e == p; p = e + 2; if (end) break; } used = p; return DONE; }
            if (s.size() < p + n + 2) { why = "incomplete chunk"; return NEED; }
            m.body.append(s.substr(p, n)); p += n;
            if (s.substr(p, 2) != "\r\n") { why = "no CRLF after chunk"; return BAD; }
            p += 2;
        }
    }
    if (cl) {
        u64 n = 0; if (cl->empty() || cl->size() > 15) { why = "content-length " + *cl; return BAD; }
        for (char c : *cl) { if (c < '0' || c > '9') { why = "content-length " + *cl; return BAD; } n = n * 10 + (u64)(c - '0'); }
        if (s.size() < p + n) { why = "incomplete body"; return NEED; }
        m.body = s.substr(p, n); used = p + n; return DONE;
    }
    if (!response) { used = p; return DONE; }
    m.untilEof = true; if (!eof) { why = "body until end of connection"; return NEED; }
    m.body = s.substr(p); used = s.size(); return DONE;
}
inline std::string chunk_encode(const std::string& body, sim::Stream st, u32 maxc, bool ext, bool trailer) {
    std::string w; size_t i = 0;
    while (i < body.size()) {
        size_t n = std::min<size_t>(body.size() - i, 1 + choose(st, maxc));
        w += hex(n, choose(st, 2)); if (ext && choose(st, 3) == 1) w += ";n=v"; w += "\r\n"; w.append(body, i, n); w += "\r\n"; i += n;
    }
    w += "0\r\n"; if (trailer) w += "X-Trailer: t\r\n"; w += "\r\n"; return w;
}
// sends `wire` in pieces with pauses; on_sent runs after the last piece was handed over
inline void send_paced(std::shared_ptr<sim::Peer> p, std::string wire, u32 pieces, u64 maxPause, std::function<void()> on_sent = {}) {
    auto cut = std::make_shared<std::vector<size_t>>();
    for (u32 i = 1; i < pieces && wire.size() > 1; ++i) cut->push_back(1 + choose(sim::NET, (u32)wire.size() - 1));
    std::sort(cut->begin(), cut->end()); cut->push_back(wire.size());
    auto w = std::make_shared<std::string>(std::move(wire)); auto step = std::make_shared<std::function<void(size_t, size_t)>>();
    *step = [p, w, cut, step, maxPause, on_sent](size_t i, size_t from) {
        if (p->closed || p->rst) { *step = {}; return; }
        size_t to = (*cut)[i]; if (to > from) p->send(std::string_view(*w).substr(from, to - from));
        if (i + 1 == cut->size()) { if (on_sent) on_sent(); auto keep = step; *keep = {}; return; }
        sim::after(choose(sim::NET, 100) * (maxPause / 100), [step, i, to] { if (*step) { auto f = *step; f(i + 1, to); } });
    };
    auto f = *step; f(0, 0);
}
// ---- server fixture: the real acceptor, router, connection handler on one loop in the calling thread
struct Serve {
    std::atomic_bool isRun{true}; EventLoop loop; Router<HttpIO> router; AddressResolver res; AddressResolver::AddressInfo entry; int port; bool stopped = false;
    explicit Serve(int p) : port(p) { auto keep = std::to_string(p); entry = res.resolve("0.0.0.0", keep); }
    template <HttpMethod... M, typename F> void on(std::string_view path, F f) { router.template addEndpoint<M...>(path, std::move(f)); }
    void stop() { // the way HttpServer stops: flag, then one connection per acceptor
        if (stopped) return; stopped = true; isRun.store(false); knock(0); }
    void knock(int n) { // the connection that wakes the acceptor may itself meet an injected fault: try again
        if (!sim::listening(port) || n > 400) return;
        auto p = sim::Peer::connect(port); p->on_open = [](sim::Peer& q) { q.close(); };
        sim::after(500 * MS, [this, n] { knock(n + 1); }); }
    template <typename Timeout> void run() {
        Acceptor<HttpIO> acc{router, loop, entry}; auto t = acc.template start<Timeout>(isRun); loop.start(t); loop.run();
        EXPECT(t.getPromise().done(), "server.acceptor", "the event loop returned while the acceptor was suspended");
    }
};
inline void when_listening(int port, std::function<void()> f) { if (sim::listening(port)) f(); else sim::after(MS, [port, f] { when_listening(port, f); }); }
template <int N> using Sec = HX::utils::TimeNTTP<std::chrono::seconds, N>;
inline void check_fds(const char* who) {
    auto v = sim::open_fds(); std::string s; for (auto& f : v) if (s.size() < 300) s += std::string(" ") + f.kind + ":" + f.origin;
    EXPECT(v.empty(), "fd.leak", "%s: %zu descriptors still open:%s", who, v.size(), s.c_str());
    EXPECT(sim::bad_closes() == 0, "fd.double-close", "%s: %d closes of descriptors that were not open", who, sim::bad_closes());
}
} // namespace ht
