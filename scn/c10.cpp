// C10: the HTTP server sees each request exactly as sent, however it arrives.
#include "http.hpp"
#include <set>
using namespace ht;
namespace {
struct Sent { // one request and what has to come back
    std::string method, path, tag, wildcard, wire, body, respBody; std::vector<std::string> params; Headers query, headers; int status = 200; bool found = true, read = true, hasClose = false; u32 delayMs = 0;
};
struct Client { std::vector<Sent> reqs; size_t served = 0, answered = 0, queued = 0; bool pipelined = false, sending = false, done = false; std::shared_ptr<sim::Peer> p; u32 pieces = 1; u64 pause = 0; };
struct World { std::vector<Client> cl; Serve* s = nullptr; size_t live = 0; };
World* W;
constexpr const char* SEG = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~%!$'()+,;:@";
constexpr const char* VAL = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~%!$'()*+,;:@=/?[]{}\"<> ";
constexpr const char* TOK = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~";
u32 size_draw(u32 cap) { // around the 16 KiB receive buffer and small sizes
    u32 n; switch (choose(WORK, 6)) { case 0: n = 0; break; case 1: n = range(WORK, 1, 20); break; case 2: n = range(WORK, 21, 1500); break; case 3: n = 16384 - 300 + choose(WORK, 600); break; case 4: n = 16384 + choose(WORK, 3) - 1; break; default: n = range(WORK, 1500, 60000); }
    return std::min(n, cap); }
Sent make(u32 c, u32 s, bool last, u32 bodyCap) {
    Sent r; static const char* M[] = {"GET", "POST", "PUT", "DELETE"};
    r.method = M[choose(WORK, 4)];
    auto seg = [&]() -> std::string { if (choose(WORK, 4) == 1) return pick<const char*>(WORK, {"self", "post", "a", "b", "user", "files", "mix", "*", "id"}); u32 n = range(WORK, 1, 12); return text(WORK, n, SEG); };
    auto other = [&](const char* no) { std::string x; do x = seg(); while (x == no); return x; };
    switch (choose(WORK, 10)) {
    case 0: r.path = "/"; r.tag = "root"; break;
    case 1: r.path = "/a"; r.tag = r.method == "POST" ? "a-post" : "a"; break;
    case 2: r.path = "/a/b"; r.tag = "ab"; break;
    case 3: r.params = {other("self")}; r.path = "/user/" + r.params[0]; r.tag = "user"; break;
    case 4: r.path = "/user/self"; r.tag = "self"; break;
    case 5: r.params = {seg(), seg()}; r.path = "/user/" + r.params[0] + "/post/" + r.params[1]; r.tag = "post"; break;
    case 6: { std::string w; for (u32 i = 0, n = range(WORK, 1, 4); i < n; ++i) w += "/" + seg(); r.wildcard = w; r.path = "/files" + w; r.tag = "files"; break; }
    case 7: { std::string w; r.params = {seg()}; for (u32 i = 0, n = range(WORK, 1, 3); i < n; ++i) w += (i ? "/" : "") + seg(); r.wildcard = w; r.path = "/mix/" + r.params[0] + "/" + w; r.tag = "mix"; break; }
    case 8: r.path = "/only-post"; r.tag = "op"; r.found = r.method == "POST"; break;
    default: r.path = "/nothing/" + seg(); r.found = false; }
    if (!r.found) { r.tag = "404"; r.status = 404; r.read = false; }
    if (choose(WORK, 6) == 1) { // repeated slashes count as one; the wildcard keeps those inside it
        auto more = [&](std::string_view x) { std::string y; for (char ch : x) { y += ch; if (ch == '/') y.append(choose(WORK, 3), '/'); } return y; };
        std::string_view head(r.path); if (!r.wildcard.empty()) head.remove_suffix(r.wildcard.size()); std::string h = more(head); if (!r.wildcard.empty()) r.wildcard = (r.tag == "mix" ? r.wildcard.substr(0, 1) : "") + more(r.tag == "mix" ? std::string_view(r.wildcard).substr(1) : r.wildcard); else if (choose(WORK, 2)) h += '/';
        r.path = h + r.wildcard; }
    std::string full = r.path;
    if (choose(WORK, 3) == 1) { full += "?"; for (u32 i = 0, n = range(WORK, 1, 4); i < n; ++i) { std::string k = "k" + std::to_string(i) + text(WORK, choose(WORK, 4), "abcXYZ-._"), v = text(WORK, choose(WORK, 10), "abcdefXYZ0123456789-._~%+/=:@?"); if (i) full += "&"; if (choose(WORK, 5) == 1) { full += k; v.clear(); } else full += k + "=" + v; r.query.push_back({k, v}); } }
    r.headers.push_back({"x-id", std::to_string(c) + "-" + std::to_string(s)});
    r.headers.push_back({"Host", "sim"});
    for (u32 i = 0, n = choose(WORK, 6); i < n; ++i) {
        std::string v = text(WORK, choose(WORK, choose(WORK, 8) == 1 ? 3000 : 30), VAL); while (!v.empty() && v[0] == ' ') v.erase(0, 1); while (!v.empty() && v.back() == ' ') v.pop_back();
        r.headers.push_back({"h" + std::to_string(i) + text(WORK, choose(WORK, 9), TOK), v}); }
    if (last && choose(WORK, 2)) { r.hasClose = true; r.headers.push_back({choose(WORK, 2) ? "Connection" : "connection", "close"}); }
    u32 kind = choose(WORK, 4); if (kind == 3) kind = 1;
    if (kind) r.body = payload(c * 1000 + s, size_draw(bodyCap));
    if (kind == 1) r.headers.push_back({choose(WORK, 2) ? "Content-Length" : "content-length", std::to_string(r.body.size())});
    if (kind == 2) r.headers.push_back({"Transfer-Encoding", "chunked"});
    if (r.hasClose && !r.found) kind = 0, r.body.clear(); // closing with unread input may cost the response (RFC 9112, 9.6)
    if (kind && r.found && !r.hasClose && choose(WORK, 4) == 1) r.read = false;
    if (r.found) { r.status = pick<int>(WORK, {200, 201, 404, 500}); r.respBody = payload(500000 + c * 1000 + s, size_draw(bodyCap)); if (choose(WORK, 6) == 1) r.delayMs = range(WORK, 1, 300); }
    std::string w = r.method + " " + full + " HTTP/1.1\r\n"; r.path = full;
    for (size_t i = r.headers.size(); i > 1; --i) std::swap(r.headers[i - 1], r.headers[choose(WORK, (u32)i)]);
    for (auto& h : r.headers) w += h.first + (choose(WORK, 8) == 1 ? ":" : ": ") + h.second + "\r\n";
    w += "\r\n";
    if (kind == 1) w += r.body;
    if (kind == 2) { bool ext = choose(WORK, 4) == 1, tr = choose(WORK, 4) == 1; w += chunk_encode(r.body, WORK, pick<u32>(WORK, {40000, 3000, 100, 16384}), ext, tr); }
    r.wire = std::move(w); return r;
}
Task<> handle(const char* tag, int np, bool wild, Req& req, Res& res) {
    auto it = req.getHeaders().find("x-id"); EXPECT(it != req.getHeaders().end(), "http.request", "endpoint %s ran for a request without the header every request carried; path '%s'", tag, escaped(req.getReqPath()).c_str());
    u32 c = ~0u, s = ~0u; sscanf(it->second.c_str(), "%u-%u", &c, &s);
    EXPECT(c < W->cl.size() && s < W->cl[c].reqs.size(), "http.request", "endpoint %s saw id '%s'", tag, escaped(it->second).c_str());
    auto& C = W->cl[c]; Sent& q = C.reqs[s];
    while (C.served < s && !C.reqs[C.served].found) ++C.served;
    EXPECT(C.served == s, "http.order", "request %u of connection %u reached an endpoint when request %zu was next", s, c, C.served);
    C.served = s + 1;
    EXPECT(q.tag == tag, "http.route", "%s %s went to endpoint '%s' instead of '%s'", q.method.c_str(), escaped(q.path).c_str(), tag, q.tag.c_str());
    EXPECT(req.getReqType() == q.method, "http.request", "method %s instead of %s", std::string(req.getReqType()).c_str(), q.method.c_str());
    EXPECT(req.getReqPath() == q.path, "http.request", "path: %s", diff(q.path, req.getReqPath()).c_str());
    EXPECT(req.getPureReqPath() == q.path.substr(0, q.path.find('?')), "http.request", "pure path '%s'", req.getPureReqPath().c_str());
    for (int i = 0; i < np; ++i) { auto v = req.getPathParam((size_t)i).template to<std::string>(); EXPECT(v == q.params[(size_t)i], "http.request", "path parameter %d of %s: %s", i, escaped(q.path).c_str(), diff(q.params[(size_t)i], v).c_str()); }
    if (wild) { std::string v{req.getUniversalWildcardPath()}; EXPECT(v == q.wildcard, "http.request", "wildcard of %s: %s", escaped(q.path).c_str(), diff(q.wildcard, v).c_str()); }
    { bool threw = false; try { (void)req.getPathParam((size_t)np); } catch (std::exception&) { threw = true; } EXPECT(threw, "http.request", "endpoint %s was given path parameter %d, which %s does not have", tag, np, escaped(q.path).c_str()); }
    if (!wild) { bool threw = false; try { (void)req.getUniversalWildcardPath(); } catch (std::exception&) { threw = true; } EXPECT(threw, "http.request", "endpoint %s was given a wildcard part although its path has none", tag); }
    auto query = req.getParseQueryParameters(); EXPECT(query.size() == q.query.size(), "http.request", "%zu query parameters instead of %zu in %s", query.size(), q.query.size(), escaped(q.path).c_str());
    for (auto& kv : q.query) { auto f = query.find(kv.first); EXPECT(f != query.end() && f->second == kv.second, "http.request", "query parameter '%s' of %s is %s instead of '%s'", escaped(kv.first).c_str(), escaped(q.path).c_str(), f == query.end() ? "missing" : escaped(f->second).c_str(), escaped(kv.second).c_str()); }
    auto& H = req.getHeaders(); EXPECT(H.size() == q.headers.size(), "http.request", "request %u-%u arrived with %zu headers instead of %zu", c, s, H.size(), q.headers.size());
    for (auto& h : q.headers) { auto f = H.find(h.first); EXPECT(f != H.end(), "http.request", "header '%s' is missing", escaped(h.first).c_str()); EXPECT(f->second == h.second, "http.request", "header '%s': %s", escaped(h.first).c_str(), diff(h.second, f->second).c_str()); }
    if (q.delayMs) co_await W->s->loop.makeTimer().sleepFor(std::chrono::milliseconds(q.delayMs));
    if (q.read) { auto b = co_await req.parseBody(); EXPECT(b == q.body, "http.body", "body of request %u-%u: %s", c, s, diff(q.body, b).c_str()); }
    co_await res.setResLine(Status(q.status)).addHeader("X-Id", it->second).addHeader("X-Tag", std::string(tag)).setBody(q.respBody).sendRes();
}
void pump_client(u32 c);
void send_req(u32 c, std::string wire) { auto& C = W->cl[c]; C.sending = true; send_paced(C.p, std::move(wire), C.pieces, C.pause, [c] { if (!W) return; W->cl[c].sending = false; pump_client(c); }); }
void next_req(u32 c) { auto& C = W->cl[c]; if (C.pipelined || C.sending || C.queued > C.answered || C.answered >= C.reqs.size()) return;
    C.queued = C.answered + 1; auto p = C.p; size_t k = C.answered; sim::after(choose(NET, 4) == 3 ? choose(NET, 50) * MS : 0, [p, k, c] { if (W && !p->closed) send_req(c, W->cl[c].reqs[k].wire); }); }
void pump_client(u32 c) {
    auto& C = W->cl[c]; if (C.done) return;
    for (;;) {
        if (C.answered == C.reqs.size()) break;
        size_t used = 0; Msg m; std::string why; auto r = parse(C.p->rx, used, m, true, false, C.p->eof, why);
        EXPECT(r != BAD, "http.response", "connection %u, response %zu is malformed: %s", c, C.answered, why.c_str());
        if (r == NEED) { EXPECT(!C.p->eof && !C.p->rst, "http.closed", "connection %u was %s after %zu of %zu responses (%zu bytes of an incomplete one: %s)", c, C.p->rst ? "reset" : "closed", C.answered, C.reqs.size(), C.p->rx.size(), why.c_str()); break; }
        Sent& q = C.reqs[C.answered];
        EXPECT(!m.untilEof, "http.response", "response %zu has no framing", C.answered);
        EXPECT(m.start[1] == std::to_string(q.status), "http.response", "connection %u, response %zu: status %s instead of %d for %s", c, C.answered, m.start[1].c_str(), q.status, escaped(q.path).c_str());
        if (q.found) { auto* id = m.get("x-id"); EXPECT(id && *id == std::to_string(c) + "-" + std::to_string(C.answered), "http.response", "connection %u, response %zu carries id %s", c, C.answered, id ? id->c_str() : "(none)"); auto* tg = m.get("x-tag"); EXPECT(tg && *tg == q.tag, "http.response", "X-Tag is wrong");
            EXPECT(m.body == q.respBody, "http.response", "connection %u, response %zu: body: %s", c, C.answered, diff(q.respBody, m.body).c_str()); }
        EXPECT(C.answered < C.queued, "http.response", "a response to a request not yet sent");
        C.p->rx.erase(0, used); ++C.answered; sim::note("answered %u %zu", c, C.answered);
    }
    next_req(c);
    if (C.answered == C.reqs.size() && !C.sending) {
        EXPECT(C.p->rx.empty(), "http.response", "connection %u: %zu bytes follow the last response: '%s'", c, C.p->rx.size(), escaped(C.p->rx).c_str());
        if (C.reqs.back().hasClose && !C.p->eof && !C.p->rst) return; // the server has to close
        C.done = true; auto p = C.p;
        auto fin = [p] { EXPECT(p->rx.empty(), "http.response", "%zu bytes follow the last response", p->rx.size()); p->close(); if (--W->live == 0) W->s->stop(); };
        if (C.p->eof || C.p->rst) { EXPECT(C.reqs.back().hasClose, "http.closed", "connection %u was closed although it was to be kept alive", c); fin(); } else sim::after(20 * MS, fin);
    }
}
}
SIM_SCENARIO("C10", requests) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = 60 * MS;
    World w; W = &w; u32 n = range(WORK, 1, 3); u32 cap = cfg.pipe_cap <= 3000 ? (cfg.delay_max > MS ? 9000u : 40000u) : 200000u; u64 total = 0; int pipe = 0, unread = 0;
    w.cl.resize(n);
    for (u32 c = 0; c < n; ++c) { auto& C = w.cl[c]; u32 k = range(WORK, 1, 5); C.pipelined = choose(WORK, 3) == 1; pipe += C.pipelined; C.pieces = pick<u32>(NET, {1, 2, 5, 20}); C.pause = pick<u64>(NET, {0, 100 * MS, 5 * MS});
        for (u32 s = 0; s < k; ++s) { C.reqs.push_back(make(c, s, s + 1 == k, cap)); total += C.reqs.back().wire.size(); if (!C.reqs.back().read && !C.reqs.back().body.empty()) { ++unread; C.pause = std::min<u64>(C.pause, 5 * MS); } } /* the server gives an unread body 250 ms to arrive */ }
    sim::sample("%u connections (%d pipelined), %llu request bytes, %d bodies left unread, segmentation %u, window %u", n, pipe, (unsigned long long)total, unread, cfg.seg_mode, cfg.pipe_cap);
    sim::deadline(900 * SEC, "http.hang", "finite well-formed requests");
    {
        Serve s(8080); w.s = &s; w.live = n;
        auto ep = [](const char* tag, int np, bool wild) { return [=](Req& req, Res& res) -> Task<> { co_await handle(tag, np, wild, req, res); }; };
        auto all = [&](const char* path, const char* tag, int np, bool wild) { s.on<GET, POST, PUT, DEL>(path, ep(tag, np, wild)); };
        all("/", "root", 0, false); s.on<GET, PUT, DEL>("/a", ep("a", 0, false)); s.on<POST>("/a", ep("a-post", 0, false)); all("/a/b", "ab", 0, false); all("/user/{id}", "user", 1, false); all("/user/self", "self", 0, false);
        all("/user/{id}/post/{pid}", "post", 2, false); all("/files/**", "files", 0, true); all("/mix/{id}/**", "mix", 1, true); s.on<POST>("/only-post", ep("op", 0, false));
        when_listening(8080, [&w, n] { for (u32 c = 0; c < n; ++c) {
            auto& C = w.cl[c]; C.p = sim::Peer::connect(8080); auto p = C.p;
            p->on_fail = [](sim::Peer&) { sim::fail("http.closed", "the server refused a connection"); };
            p->on_open = [c, p, &w](sim::Peer&) { auto& C = w.cl[c]; std::string x; if (C.pipelined) for (auto& r : C.reqs) x += r.wire; else x = C.reqs[0].wire; C.queued = C.pipelined ? C.reqs.size() : 1; send_req(c, x); };
            p->on_data = [c](sim::Peer&) { pump_client(c); }; p->on_eof = p->on_rst = [c](sim::Peer&) { pump_client(c); };
        } });
        s.run<Sec<5>>();
        for (u32 c = 0; c < n; ++c) { auto& C = w.cl[c]; while (C.served < C.reqs.size() && !C.reqs[C.served].found) ++C.served; EXPECT(C.done && C.answered == C.reqs.size() && C.served == C.reqs.size(), "http.lost", "connection %u: %zu of %zu requests answered, %zu reached their endpoint", c, C.answered, C.reqs.size(), C.served); }
    }
    check_fds("after the server stopped"); W = nullptr; for (auto& C : w.cl) { if (C.p) C.p->on_open = C.p->on_data = C.p->on_eof = C.p->on_rst = C.p->on_fail = nullptr; }
}
// ---- any table of routes: literals before {x} before **, with interceptors around the endpoint
namespace {
struct Route { std::string method; std::vector<std::string> seg; int icp = 0, params = 0; bool wild = false; std::string path; };
struct Hit { int route = -1; std::vector<std::string> params; std::string wildcard; };
struct Call { std::string wire, method, path; Hit hit; int veto = 0, cut = 0; u32 delay = 0; std::string want, got; size_t conn = 0; };
struct Tree { std::vector<Route> routes; std::vector<Call> calls; Serve* s = nullptr; size_t live = 0; struct C { std::vector<size_t> mine; size_t next = 0; std::shared_ptr<sim::Peer> p; bool done = false; }; std::vector<C> conns; };
Tree* T;
bool find_route(const std::string& method, const std::vector<std::pair<size_t, std::string>>& at, const std::string& path, Hit& h) {
    std::vector<size_t> cand; for (size_t i = 0; i < T->routes.size(); ++i) if (T->routes[i].method == method) cand.push_back(i);
    std::function<bool(std::vector<size_t>, size_t)> go = [&](std::vector<size_t> c, size_t d) -> bool {
        if (d == at.size()) { for (auto i : c) if (!T->routes[i].wild && T->routes[i].seg.size() == d) { h.route = int(i); return true; } return false; }
        for (int kind = 0; kind < 2; ++kind) { std::vector<size_t> n; for (auto i : c) { auto& r = T->routes[i]; if (d < r.seg.size() && r.seg[d] != "**" && (kind ? r.seg[d][0] == '{' : r.seg[d] == at[d].second)) n.push_back(i); } if (!n.empty() && go(n, d + 1)) return true; }
        for (auto i : c) if (T->routes[i].wild && T->routes[i].seg.size() == d + 1) { h.route = int(i); return true; }
        return false; };
    if (!go(cand, 0)) return false;
    auto& r = T->routes[size_t(h.route)]; for (size_t d = 0; d < r.seg.size(); ++d) if (r.seg[d][0] == '{') h.params.push_back(at[d].second);
    if (r.wild) { size_t d = r.seg.size() - 1; h.wildcard = r.params ? path.substr(at[d].first) : path.substr(d ? at[d - 1].first + at[d - 1].second.size() : 0); }
    return true; }
Call* call_of(Req& req) { auto it = req.getHeaders().find("x-id"); EXPECT(it != req.getHeaders().end(), "http.request", "a request without the header every request carried"); size_t k = strtoul(it->second.c_str(), nullptr, 10); EXPECT(k < T->calls.size(), "http.request", "a request with id '%s'", escaped(it->second).c_str()); return &T->calls[k]; }
template <int N> struct Plain { bool before(Req& q, Res&) { auto c = call_of(q); c->got += "b" + std::to_string(N); return c->veto != N; } bool after(Req& q, Res&) { auto c = call_of(q); c->got += "a" + std::to_string(N); return c->cut != N; } };
template <int N> struct Slow {
    Task<bool> before(Req& q, Res& res) { auto c = call_of(q); if (c->delay) co_await T->s->loop.makeTimer().sleepFor(std::chrono::milliseconds(c->delay)); c->got += "b" + std::to_string(N); if (c->veto == N) { co_await res.setResLine(Status::CODE_403).addHeader("X-Tag", "veto").setBody("no").sendRes(); co_return false; } co_return true; }
    Task<int> after(Req& q, Res&) { auto c = call_of(q); if (c->delay) co_await T->s->loop.makeTimer().sleepFor(std::chrono::milliseconds(c->delay)); c->got += "a" + std::to_string(N); co_return c->cut != N ? 7 : 0; } };
template <int N> struct OnlyBefore { int before(Req& q, Res&) { call_of(q)->got += "b" + std::to_string(N); return 3; } };
template <int N> struct OnlyAfter { Task<bool> after(Req& q, Res&) { auto c = call_of(q); c->got += "a" + std::to_string(N); co_return c->cut != N; } };
Task<> routed(int ri, Req& req, Res& res) {
    auto* c = call_of(req); auto& r = T->routes[size_t(ri)];
    EXPECT(c->hit.route == ri, "http.route", "%s %s went to the endpoint of %s instead of %s", c->method.c_str(), escaped(c->path).c_str(), r.path.c_str(), c->hit.route < 0 ? "none" : T->routes[size_t(c->hit.route)].path.c_str());
    for (size_t i = 0; i < c->hit.params.size(); ++i) { auto v = req.getPathParam(i).template to<std::string>(); EXPECT(v == c->hit.params[i], "http.request", "path parameter %zu of %s for %s is '%s' instead of '%s'", i, r.path.c_str(), escaped(c->path).c_str(), escaped(v).c_str(), escaped(c->hit.params[i]).c_str()); }
    if (r.wild) { std::string v{req.getUniversalWildcardPath()}; EXPECT(v == c->hit.wildcard, "http.request", "wildcard part of %s for %s is '%s' instead of '%s'", r.path.c_str(), escaped(c->path).c_str(), escaped(v).c_str(), escaped(c->hit.wildcard).c_str()); }
    c->got += "E"; if (c->delay) co_await T->s->loop.makeTimer().sleepFor(std::chrono::milliseconds(c->delay));
    co_await res.setResLine(Status::CODE_200).addHeader("X-Tag", std::to_string(ri)).setBody(c->path).sendRes();
}
template <HttpMethod M> void add_route(int ri) {
    auto& r = T->routes[size_t(ri)]; auto f = [ri](Req& q, Res& s) -> Task<> { co_await routed(ri, q, s); }; auto& R = T->s->router;
    switch (r.icp) { case 0: R.addEndpoint<M>(r.path, f); break; case 1: R.addEndpoint<M>(r.path, f, Slow<1>{}); break; case 2: R.addEndpoint<M>(r.path, f, Slow<1>{}, Slow<2>{}); break;
    case 3: R.addEndpoint<M>(r.path, f, Plain<1>{}, Slow<2>{}, Plain<3>{}); break; default: R.addEndpoint<M>(r.path, f, OnlyBefore<1>{}, Slow<2>{}, OnlyAfter<3>{}); } }
constexpr const char* ICP[] = {"", "s", "ss", "psp", "osq"};
void next_call(size_t ci) { auto& C = T->conns[ci]; auto p = C.p;
    if (C.next == C.mine.size()) { C.done = true; sim::after(100 * MS, [p] { if (!T) return; EXPECT(p->rx.empty() && !p->eof && !p->rst, "http.closed", "the connection ended, or carried %zu more bytes, after the last response", p->rx.size()); p->close(); if (--T->live == 0) T->s->stop(); }); return; }
    p->send(T->calls[C.mine[C.next]].wire); }
void got_reply(size_t ci) { auto& C = T->conns[ci]; if (C.done) return; size_t used = 0; Msg m; std::string why; auto r = parse(C.p->rx, used, m, true, false, C.p->eof, why);
    EXPECT(r != BAD, "http.response", "malformed response: %s", why.c_str());
    if (r == NEED) { EXPECT(!C.p->eof && !C.p->rst, "http.closed", "connection %zu was closed after %zu of %zu responses", ci, C.next, C.mine.size()); return; }
    C.p->rx.erase(0, used); auto& c = T->calls[C.mine[C.next]]; auto* tag = m.get("x-tag"); int want = c.hit.route < 0 ? 404 : c.veto ? 403 : 200;
    EXPECT(m.start[1] == std::to_string(want), "http.response", "status %s instead of %d for %s %s", m.start[1].c_str(), want, c.method.c_str(), escaped(c.path).c_str());
    if (c.hit.route >= 0) { std::string t = c.veto ? "veto" : std::to_string(c.hit.route); EXPECT(tag && *tag == t, "http.response", "%s was answered by '%s' instead of '%s'", escaped(c.path).c_str(), tag ? tag->c_str() : "(none)", t.c_str()); EXPECT(m.body == (c.veto ? std::string("no") : c.path), "http.response", "body '%s' for %s", escaped(m.body).c_str(), escaped(c.path).c_str()); }
    ++C.next; next_call(ci); }
}
SIM_SCENARIO("C10", routes) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = 30 * MS;
    Tree w; T = &w; static const char* M[] = {"GET", "POST"};
    std::set<std::string> shapes; u32 nr = range(WORK, 1, 12);
    for (u32 i = 0; i < nr; ++i) { Route r; r.method = M[choose(WORK, 3) == 2]; std::string shape = r.method; u32 d = choose(WORK, 5);
        for (u32 k = 0; k < d; ++k) { if (choose(WORK, 3) == 1) { r.seg.push_back("{" + std::string(1, char('p' + r.params)) + "}"); ++r.params; shape += "/*"; } else { r.seg.push_back(pick<const char*>(WORK, {"a", "b", "ab"})); shape += "/" + r.seg.back(); } }
        if (choose(WORK, 4) == 1) { r.wild = true; r.seg.push_back("**"); shape += "/**"; }
        if (!shapes.insert(shape).second) continue;
        for (auto& x : r.seg) r.path += "/" + x; if (r.path.empty()) r.path = "/"; r.icp = int(choose(WORK, 5)); w.routes.push_back(r); }
    u32 nc = range(WORK, 1, 3), total = 0, found = 0, vetoed = 0; w.conns.resize(nc);
    for (u32 ci = 0; ci < nc; ++ci) for (u32 k = 0, n = range(WORK, 1, 8); k < n; ++k) {
        Call c; c.conn = ci; c.method = M[choose(WORK, 3) == 2]; std::vector<std::pair<size_t, std::string>> at; std::string p; u32 d = choose(WORK, 6);
        if (w.routes.size() && choose(WORK, 2)) { auto& r = w.routes[choose(WORK, (u32)w.routes.size())]; if (choose(WORK, 5)) c.method = r.method; d = (u32)r.seg.size() - (r.wild ? 1 : 0); d += r.wild ? range(WORK, 1, 2) : 0; for (u32 x = 0; x < d; ++x) { std::string sg = x < r.seg.size() && r.seg[x][0] != '{' && r.seg[x] != "**" ? r.seg[x] : std::string(pick<const char*>(WORK, {"a", "b", "c", "*", "{p}"})); p += "/"; if (choose(WORK, 12) == 1) p += "/"; at.push_back({p.size(), sg}); p += sg; } }
        else for (u32 x = 0; x < d; ++x) { p += "/"; if (choose(WORK, 12) == 1) p += "/"; std::string sg = pick<const char*>(WORK, {"a", "b", "ab", "c", "*", "abc"}); at.push_back({p.size(), sg}); p += sg; }
        if (p.empty()) p = "/"; c.path = p; find_route(c.method, at, p, c.hit);
        if (c.hit.route >= 0) { std::string k = ICP[w.routes[size_t(c.hit.route)].icp]; bool may = k == "s" || k == "ss"; if (may && choose(WORK, 4) == 1) c.veto = int(range(WORK, 1, (u32)k.size())); if ((k == "psp" || k == "osq") && choose(WORK, 4) == 1) c.veto = 2; if (!k.empty() && choose(WORK, 4) == 1) c.cut = int(range(WORK, 1, (u32)k.size())); if (k == "osq" && c.cut == 1) c.cut = 0;
            bool run = true; for (size_t i = 1; i <= k.size() && run; ++i) if (k[i - 1] != 'q') { c.want += "b" + std::to_string(i); if (c.veto == int(i)) run = false; } if (run) c.want += "E";
            for (size_t i = 1; i <= k.size(); ++i) if (k[i - 1] != 'o') { c.want += "a" + std::to_string(i); if (c.cut == int(i)) break; }
            ++found; vetoed += c.veto != 0; if (choose(WORK, 3) == 1) c.delay = range(WORK, 1, 50); }
        c.wire = c.method + " " + p + (choose(WORK, 4) == 1 ? "?q=/a/b" : "") + " HTTP/1.1\r\nHost: sim\r\nx-id: " + std::to_string(w.calls.size()) + "\r\n" + (c.method == "POST" ? "Content-Length: 0\r\n" : "") + "\r\n";
        w.conns[ci].mine.push_back(w.calls.size()); w.calls.push_back(c); ++total; }
    sim::sample("%zu routes, %u requests (%u matched, %u stopped by an interceptor), %u connections", w.routes.size(), total, found, vetoed, nc);
    sim::deadline(600 * SEC, "http.hang", "finite well-formed requests");
    {
        Serve s(8080); w.s = &s; w.live = nc; for (size_t i = 0; i < w.routes.size(); ++i) if (w.routes[i].method == "GET") add_route<GET>(int(i)); else add_route<POST>(int(i));
        when_listening(8080, [&w, nc] { for (u32 ci = 0; ci < nc; ++ci) { auto p = w.conns[ci].p = sim::Peer::connect(8080); p->on_fail = [](sim::Peer&) { sim::fail("http.closed", "the server refused a connection"); }; p->on_open = [ci](sim::Peer&) { next_call(ci); }; p->on_data = p->on_eof = p->on_rst = [ci](sim::Peer&) { if (T) got_reply(ci); }; } });
        s.run<Sec<5>>();
        for (auto& c : w.calls) EXPECT(c.got == c.want, "http.interceptors", "%s %s on %s ran '%s' instead of '%s' (b: before, a: after, E: endpoint)", c.method.c_str(), escaped(c.path).c_str(), c.hit.route < 0 ? "no route" : w.routes[size_t(c.hit.route)].path.c_str(), c.got.c_str(), c.want.c_str());
    }
    check_fds("after the server stopped"); T = nullptr; for (auto& C : w.conns) if (C.p) C.p->on_open = C.p->on_data = C.p->on_eof = C.p->on_rst = C.p->on_fail = nullptr;
}
// the server class itself: worker threads, endpoints without a method list, controllers with injected objects
#include <HXLibs/net/ApiMacro.hpp>
namespace {
struct Dep { std::string name; std::atomic<int>& used; Dep(std::string n, std::atomic<int>& u) : name(std::move(n)), used(u) {} ~Dep() { name = "destroyed"; } };
Task<> tell(const char* tag, Req& req, Res& res, int np) {
    std::string s = tag; s += "|" + std::string(req.getReqType()) + "|"; for (int i = 0; i < np; ++i) s += req.getPathParam((size_t)i).template to<std::string>() + ","; s += "|" + co_await req.template parseBody<>(); auto it = req.getHeaders().find("x-delay");
    if (it != req.getHeaders().end()) co_await static_cast<EventLoop&>(req.getIO()).makeTimer().sleepFor(std::chrono::milliseconds(std::stoul(it->second)));
    co_await res.setResLine(Status::CODE_200).setBody(std::move(s)).sendRes(); }
HX_CONTROLLER(Ctl) { HX_ENDPOINT_MAIN(std::shared_ptr<Dep> dep, int k) {
    addEndpoint<GET, POST>("/ctl/{id}", [=](Req& req, Res& res) -> Task<> { ++dep->used; std::string t = "ctl " + dep->name + std::to_string(k); co_await tell(t.c_str(), req, res, 1); });
    addEndpoint("/ctl/any/x", [=](Req& req, Res& res) -> Task<> { ++dep->used; std::string t = "ctlany " + dep->name; co_await tell(t.c_str(), req, res, 0); }); } };
HX_CONTROLLER(Ctl2) { HX_ENDPOINT_TEMPLATE_HEAD
    template <typename D> HX_ENDPOINT_TEMPLATE_MAIN(std::shared_ptr<D> dep) { addEndpoint<PUT>("/ctl2", [=](Req& req, Res& res) -> Task<> { ++dep->used; std::string t = "ctl2 " + dep->name; co_await tell(t.c_str(), req, res, 0); }); } };
#include <HXLibs/net/UnApiMacro.hpp>
struct Gate { std::atomic<int>*n; bool before(Req&, Res&) { ++*n; return true; } bool after(Req&, Res&) { ++*n; return true; } };
}
SIM_SCENARIO("C10", server_class) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = 30 * MS; cfg.stall_pm = 0; if (cfg.pipe_cap < 1000) cfg.pipe_cap = 1000;
    u32 threads = range(WORK, 1, 3), nc = range(WORK, 1, 4), inits = 0; std::atomic<int> gated{0}, used1{0}, used2{0}; int wantGated = 0, wantUsed = 0; struct Q { std::string wire, method, want; int status; }; struct C { std::vector<Q> q; size_t next = 0; std::shared_ptr<sim::Peer> p; }; std::vector<C> cs(nc); static const char* M[] = {"GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "CONNECT", "HEAD"};
    u32 total = 0; for (auto& c : cs) for (u32 k = range(WORK, 1, 6); k--; ++total) { Q q; q.method = M[choose(WORK, 9)]; std::string id = pick<const char*>(WORK, {"7", "abc", "x.y"}), path, body; if (q.method == "POST" || q.method == "PUT" || q.method == "PATCH") body = payload(total, choose(WORK, 300));
        auto is = [&](std::initializer_list<const char*> l) { for (auto m : l) if (q.method == m) return true; return false; }; bool found = false; std::string tag, params;
        switch (choose(WORK, 6)) { case 0: path = "/any/" + id; tag = "any"; params = id + ","; found = true; ++wantGated, ++wantGated; break; case 1: path = "/ctl/" + id; found = is({"GET", "POST"}); tag = "ctl depot5"; params = id + ","; wantUsed += found; break; case 2: path = "/ctl/any/x"; found = true; tag = "ctlany depot"; ++wantUsed; break; case 3: path = "/ctl2"; found = is({"PUT"}); tag = "ctl2 second"; break; case 4: path = "/plain"; found = is({"GET", "DELETE", "OPTIONS"}); tag = "plain"; break; default: path = "/nothing/here"; }
        q.status = found ? 200 : 404; q.want = tag + "|" + q.method + "|" + params + "|" + body; q.wire = q.method + " " + path + " HTTP/1.1\r\nHost: x\r\n" + (choose(WORK, 3) == 1 ? "x-delay: " + std::to_string(choose(WORK, 60)) + "\r\n" : "") + (body.empty() && !is({"POST", "PUT", "PATCH"}) ? "" : "Content-Length: " + std::to_string(body.size()) + "\r\n") + "\r\n" + body; c.q.push_back(q); }
    sim::sample("%u worker threads, %u connections, %u requests", threads, nc, total); sim::deadline(300 * SEC, "http.hang", "finite well-formed requests"); auto dep = std::make_shared<Dep>("depot", used1); std::weak_ptr<Dep> weak = dep; std::atomic<u32> live{nc};
    std::function<void(size_t)> go = [&](size_t i) { auto& c = cs[i]; if (c.next == c.q.size()) { c.p->close(); --live; return; } c.p->send(c.q[c.next].wire); };
    std::function<void(size_t)> got = [&](size_t i) { auto& c = cs[i]; if (c.next == c.q.size()) return; auto& q = c.q[c.next]; size_t used = 0; Msg m; std::string why; auto r = parse(c.p->rx, used, m, true, q.method == "HEAD", c.p->eof, why); EXPECT(r != BAD, "http.response", "malformed response to %s: %s", escaped(q.wire).c_str(), why.c_str());
        if (r == NEED) { EXPECT(!c.p->eof && !c.p->rst, "http.closed", "connection %zu was closed after %zu of %zu responses", i, c.next, c.q.size()); return; } c.p->rx.erase(0, used);
        EXPECT(m.start[1] == std::to_string(q.status), "http.response", "status %s instead of %d for %s", m.start[1].c_str(), q.status, escaped(q.wire).c_str()); if (q.status == 200 && q.method != "HEAD") EXPECT(m.body == q.want, "http.request", "'%s' instead of '%s'", escaped(m.body).c_str(), escaped(q.want).c_str()); ++c.next; go(i); };
    {
        HttpServer s(8080); s.addEndpoint("/any/{x}", [](Req& req, Res& res) -> Task<> { co_await tell("any", req, res, 1); }, Gate{&gated}); s.addController<Ctl>(dep, 5).addController<Ctl2>(std::make_shared<Dep>("second", used2)); s.addEndpoint<GET, DEL, HttpMethod::OPTIONS>("/plain", [](Req& req, Res& res) -> Task<> { co_await tell("plain", req, res, 0); }); dep.reset();
        s.asyncRun<Sec<5>>(threads, [&] { ++inits; EXPECT(!sim::listening(8080), "server.init", "listening before init ran"); }); EXPECT(inits == 1, "server.init", "init ran %u times", inits);
        bool refused = false; try { s.asyncRun<Sec<5>>(1, [] {}); } catch (std::exception&) { refused = true; } EXPECT(refused, "server.twice", "a running server was started again");
        sim::wait_until([&] { return sim::listening(8080) == (int)threads; }, 20 * SEC, "http.hang", "the listeners");
        for (size_t i = 0; i < nc; ++i) { auto p = cs[i].p = sim::Peer::connect(8080); p->on_fail = [](sim::Peer&) { sim::fail("http.closed", "the server refused a connection"); }; p->on_open = [&, i](sim::Peer&) { go(i); }; p->on_data = p->on_eof = p->on_rst = [&, i](sim::Peer&) { got(i); }; }
        sim::wait_until([&] { return live.load() == 0; }, 200 * SEC, "http.hang", "the responses");
        for (auto& c : cs) c.p->on_open = c.p->on_data = c.p->on_eof = c.p->on_rst = c.p->on_fail = nullptr;
    }
    EXPECT(used1 == wantUsed, "http.request", "the controller's object was used %d times instead of %d", (int)used1, wantUsed); EXPECT(gated == wantGated, "http.interceptors", "the interceptor ran %d times instead of %d", (int)gated, wantGated);
    EXPECT(weak.expired(), "server.leak", "the controller's object outlived the server"); check_fds("after the server stopped");
}
