// C22: a proxied connection is used only after the proxy accepted it.
#include "client.hpp"
#include <HXLibs/net/protocol/proxy/Socks5Proxy.hpp>
#include <HXLibs/net/protocol/proxy/HttpProxy.hpp>
using namespace cl;
namespace {
struct Target { std::string host; int port; bool shown; std::string origin() const { return "http://" + host + (shown ? ":" + std::to_string(port) : ""); } };
enum Bad { OK, REFUSE, VERSION, CUT, MUTE, GARBAGE };
const char* BADN[] = {"accepts", "refuses", "wrong version", "breaks off its reply", "never replies", "garbage"};
std::string b64(std::string_view s) { // RFC 4648, written independently
    static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; u32 acc = 0; int bits = 0;
    for (unsigned char c : s) { acc = acc << 8 | c; bits += 8; while (bits >= 6) { bits -= 6; r += A[acc >> bits & 63]; } } if (bits) r += A[acc << (6 - bits) & 63]; while (r.size() % 4) r += '='; return r; }
// the scripted proxy: SOCKS5 as in RFC 1928 / RFC 1929, or HTTP CONNECT
struct Proxy {
    bool http = false; std::string user, pass; bool auth = false; std::vector<Target> targets; u32 badPm = 0, pieces = 1; u64 pause = 0; std::shared_ptr<sim::Listener> l; std::vector<std::shared_ptr<sim::Peer>> peers;
    bool off = false; int target = -1; u32 conns = 0, badConns = 0, accepted = 0;   // target: what the client is being asked for now; counters of the current request
    struct St { int target, stage = 0, bad = OK, badStage = -1; bool replying = false, dead = false, through = false; };
    static std::string s(std::initializer_list<int> v) { std::string r; for (int c : v) r += (char)c; return r; }
    void listen(int port) { l = sim::Listener::listen(port, [this](std::shared_ptr<sim::Peer> p) { accept(p); }); }
    void accept(std::shared_ptr<sim::Peer> p) {
        peers.push_back(p); auto st = std::make_shared<St>(); EXPECT(target >= 0, "proxy.connect", "a connection to the proxy was made while nothing was requested"); st->target = target; ++conns; EXPECT(conns <= 2, "proxy.retries", "%u connections to the proxy for one request", conns);
        if (sim::chance(FAULT, badPm)) { st->bad = (int)range(FAULT, REFUSE, GARBAGE); st->badStage = http ? 0 : (int)choose(FAULT, auth ? 3 : 2); ++badConns; sim::fault(BADN[st->bad]); }
        note("proxy connection %u for target %d: %s at stage %d", conns, st->target, BADN[st->bad], st->badStage);
        p->on_data = [this, st](sim::Peer& q) { data(q, *st, st); }; p->on_eof = [](sim::Peer& q) { if (!q.closed) q.close(); };
    }
    void data(sim::Peer& q, St& st, std::shared_ptr<St> sp) {
        if (off) return; const Target& t = targets[(size_t)st.target];
        EXPECT(!st.dead, "proxy.refused", "the client sent '%s' after the proxy had refused or broken off the handshake (%s at stage %d)", escaped(q.rx).c_str(), BADN[st.bad], st.badStage);
        EXPECT(!st.replying, "proxy.early", "the client sent '%s' before the proxy's reply was complete (stage %d)", escaped(q.rx).c_str(), st.stage);
        std::string good; auto& b = q.rx; auto at = [&](size_t i) { return (int)(unsigned char)b[i]; }; size_t need = 0;
        if (http) {
            Msg m; std::string why; auto r = parse(b, need, m, false, true, false, why); EXPECT(r != BAD, "proxy.request", "malformed request to the proxy: %s", why.c_str()); if (r == NEED) return;
            std::string hp = t.host + ":" + std::to_string(t.port); EXPECT(m.start[0] == "CONNECT" && m.start[1] == hp, "proxy.target", "the proxy was asked to '%s %s' instead of 'CONNECT %s'", m.start[0].c_str(), escaped(m.start[1]).c_str(), hp.c_str());
            auto* h = m.get("host"); EXPECT(h && (*h == hp || *h == t.host), "proxy.target", "the Host of the CONNECT request is '%s' instead of '%s'", h ? escaped(*h).c_str() : "missing", hp.c_str());
            auto* pa = m.get("proxy-authorization"); std::string want = "Basic " + b64(user + ":" + pass); EXPECT(auth ? pa && *pa == want : !pa, "proxy.credentials", "Proxy-Authorization is '%s' instead of '%s'", pa ? escaped(*pa, 200).c_str() : "missing", auth ? want.c_str() : "missing");
            good = pick<const char*>(WORK, {"HTTP/1.1 200 Connection established\r\n\r\n", "HTTP/1.1 200 OK\r\nProxy-Agent: sim\r\nDate: x\r\n\r\n", "HTTP/1.0 200 OK\r\nVia: 1.1 a, 1.1 b\r\n\r\n", "HTTP/1.1 200 \r\nx: y\r\n\r\n"});
        } else if (st.stage == 0) {
            if (b.size() < 2 || b.size() < 2u + (u32)at(1)) return; need = 2u + (u32)at(1); int m = auth ? 2 : 0; bool has = false; for (size_t i = 2; i < need; ++i) has |= at(i) == m;
            EXPECT(at(0) == 5 && has, "proxy.greeting", "the greeting '%s' does not offer method %d", escaped(b).c_str(), m); good = s({5, m});
        } else if (auth && st.stage == 1) {
            if (b.size() < 2) return; size_t u = (size_t)at(1); if (b.size() < 3 + u) return; size_t p = (size_t)at(2 + u); need = 3 + u + p; if (b.size() < need) return;
            EXPECT(at(0) == 1 && b.substr(2, u) == user && b.substr(3 + u, p) == pass, "proxy.credentials", "the credentials are '%s' instead of user '%s' password '%s'", escaped(b).c_str(), escaped(user).c_str(), escaped(pass).c_str()); good = s({1, 0});
        } else {
            if (b.size() < 5) return; int ty = at(3); EXPECT(at(0) == 5 && at(1) == 1 && at(2) == 0 && (ty == 3 || ty == 1), "proxy.request", "the connect request is '%s'", escaped(b).c_str());
            need = ty == 3 ? 7u + (u32)at(4) : 10; if (b.size() < need) return; std::string h; if (ty == 3) h = b.substr(5, need - 7); else for (int i = 0; i < 4; ++i) h += (i ? "." : "") + std::to_string(at(4 + (size_t)i)); int port = at(need - 2) << 8 | at(need - 1);
            EXPECT(h == t.host && port == t.port, "proxy.target", "the proxy was asked for '%s' port %d instead of '%s' port %d", escaped(h, 300).c_str(), port, t.host.c_str(), t.port);
            good = s({5, 0, 0}); switch (choose(WORK, 3)) { case 0: good += s({1}) + payload(1, 4); break; case 1: { u32 n = choose(WORK, 256); good += s({3, (int)n}) + payload(2, n); break; } default: good += s({4}) + payload(3, 16); } good += payload(4, 2);
        }
        EXPECT(b.size() == need, "proxy.early", "the client sent '%s' together with its handshake message of stage %d, before the proxy replied", escaped(std::string_view(b).substr(need)).c_str(), st.stage);
        b.clear(); bool bad = st.badStage == st.stage; auto p = q.shared_from_this(); int last = http ? 0 : auth ? 2 : 1; bool final = st.stage == last;
        if (bad) { std::string r; bool end = choose(WORK, 2); st.dead = true;
            switch (st.bad) {
            case REFUSE: if (http) { r = "HTTP/1.1 " + std::string(pick<const char*>(WORK, {"403 Forbidden", "407 Proxy Authentication Required", "502 Bad Gateway", "302 Found", "500 x"})) + "\r\ncontent-length: 5\r\n\r\nnever"; }
                else if (final) { r = good; r[1] = (char)pick<int>(WORK, {1, 5, 2, 8, 255, 128}); if (choose(WORK, 2)) r.resize(pick<size_t>(WORK, {4, 2})); } else if (st.stage == 0) r = s({5, pick<int>(WORK, {255, auth ? 0 : 2, 1, 128})}); else r = s({1, pick<int>(WORK, {1, 255, 2})}); break;
            case VERSION: r = good; if (http) r = "HTP" + r.substr(4); else r[0] = (char)pick<int>(WORK, {4, 0, 133}); break;
            case CUT: r = good.substr(0, choose(WORK, (u32)good.size())); break;
            case GARBAGE: if (http) r = pick<const char*>(WORK, {"\r\n\r\n", "200\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 2000 OK\r\n\r\n", "HTTP/1.1 x00 OK\r\n\r\n"}); else if (final) { r = good; r[3] = (char)pick<int>(WORK, {0, 2, 5, 255}); } else r = s({72, 84}); break;
            default: end = false; }
            if (r.empty() && st.bad != MUTE) end = true;
            auto tail = [p, end] { if (!end || p->closed || p->rst) return; if (choose(NET, 2)) p->fin(); else p->reset(); }; if (r.empty()) tail(); else send_paced(p, r, pieces, pause, tail); return; }
        st.replying = true; send_paced(p, good, pieces, pause, [this, p, sp, final] { if (off || p->closed || p->rst) return; sp->replying = false; ++sp->stage; if (final) { sp->through = true; ++accepted; SV->serve(p, sp->target); } });
    }
    void shut() { off = true; for (auto& p : peers) { p->on_data = p->on_eof = p->on_rst = p->on_open = nullptr; if (!p->closed && !p->rst) p->close(); } if (l) { l->on_accept = nullptr; l->close(); } }
};
std::string word(u32 n, const char* extra) { static const std::string base = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;="; return text(WORK, n, (base + extra).c_str()); }
template <typename PX> void drive(bool http, bool netFaults) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS);
    Server sv; SV = &sv; sv.bodyCap = cfg.seg_mode == 3 ? 300 : cfg.seg_mode == 2 || cfg.pipe_cap < 3000 ? 2000 : 30000; sv.pieces = pick<u32>(NET, {1, 3}); sv.pause = pick<u64>(NET, {0, 2 * MS}); sv.idleClose = pick<u64>(NET, {0, 3 * MS, 300 * MS});
    if (netFaults) { cfg.recv_err = pick<u32>(FAULT, {20, 5}); cfg.send_err = pick<u32>(FAULT, {20, 0, 5}); sv.exact = false; sv.lateOk = sv.lateDup = true; }
    Proxy px; px.http = http; px.auth = choose(WORK, 2); px.badPm = pick<u32>(FAULT, {0, 300, 600}); px.pieces = pick<u32>(NET, {1, 3, 8}); px.pause = pick<u64>(NET, {0, 2 * MS, SEC}); if (px.pause == SEC) px.pieces = std::min(px.pieces, 3u);
    if (px.auth) { px.user = word(pick<u32>(WORK, {5, 1, 30, 255}), ""); px.pass = choose(WORK, 8) == 1 ? "" : word(pick<u32>(WORK, {6, 1, 40, 255}), ":@"); }
    std::string purl = std::string(http ? "http" : "socks5") + "://" + (px.auth ? px.user + (px.pass.empty() && choose(WORK, 2) ? "" : ":" + px.pass) + "@" : "") + "127.0.0.1:1080" + (choose(WORK, 3) == 1 ? "/" : choose(WORK, 6) == 1 ? "/a@b:c" : "");
    bool direct = choose(WORK, 8) == 1, shared = choose(WORK, 2);
    px.targets = {{"origin.test", 80, false}, {"origin.test", (int)range(WORK, 1, 65535), true}, {"192.168.7.254", (int)range(WORK, 1, 65535), true}, {"a-b." + word(0, "") + std::string(range(WORK, 1, 60), 'x') + "." + std::string(range(WORK, 1, 60), 'y') + "." + std::string(range(WORK, 1, 60), 'z') + ".example", 80, true}};
    if (direct) { px.targets = {{"127.0.0.1", 8080, true}, {"127.0.0.1", 8081, true}}; purl = ""; sv.listen(8080); sv.listen(8081); } else px.listen(1080);
    u32 n = range(WORK, 1, 5), moves = pick<u32>(WORK, {300, 0, 1000}), okSeen = 0, errSeen = 0, badPm = pick<u32>(FAULT, {0, 0, 250}); int cur = 0;
    sim::sample("%u requests through %s, %s, %u permille bad handshakes, %u permille bad answers, %u pieces, %s loop", n, direct ? "no proxy" : purl.substr(0, 60).c_str(), px.auth ? "credentials" : "no credentials", px.badPm, badPm, px.pieces, shared ? "shared" : "own");
    for (u32 i = 0; i < n; ++i) { Request q; if (sim::chance(WORK, moves)) cur = (int)choose(WORK, (u32)px.targets.size()); q.port = direct ? 8080 + cur : cur; q.method = choose(WORK, 3) == 1 ? "POST" : "GET"; q.path = "/r/" + std::to_string(i); if (q.method == "POST") q.body = payload(300 + i, std::max(1u, sv.size_draw())); q.headers = {{"x-id", std::to_string(i)}};
        for (int a = 0; a < 2; ++a) { Beh b = sim::chance(FAULT, badPm) ? (Beh)range(FAULT, 1, NBEH - 1) : GOOD; if (b == SURPLUS) b = CUT_FIN; q.plan.push_back(b); } sv.reqs.push_back(q); }
    sim::deadline((netFaults ? 3000 : 1500) * SEC, "proxy.hang", "the requests");
    using TO = Sec<4>; u64 t0 = 0;
    auto before = [&](u32 i) { px.target = direct ? -1 : sv.reqs[i].port; px.conns = px.badConns = px.accepted = 0; t0 = sim::now(); auto& q = sv.reqs[i]; auto o = px.targets[(size_t)(direct ? q.port - 8080 : q.port)].origin(); q.host = o.substr(7); return o + q.path; };
    auto hdr = [&](Request& q) { HeaderHashMap h; for (auto& kv : q.headers) h[kv.first] = kv.second; return h; };
    auto after = [&](u32 i, auto& r) { judge(i, r, netFaults || px.badConns); r ? ++okSeen : ++errSeen; u64 took = sim::now() - t0; if (r && px.badConns) sim::probe("answered although one handshake failed");
        if (!cfg.stall_pm && !netFaults) { EXPECT(took < 150 * SEC, "proxy.slow", "request %u took %.3f s", i, (double)took / 1e9); if (sv.reqs[i].att.empty()) EXPECT(took < 60 * SEC, "proxy.slow", "request %u failed in the handshake after %.3f s", i, (double)took / 1e9); }
        if (px.badConns && !r) sim::probe("failed handshake reported"); };
    auto rest = [&] { return choose(WORK, 3) == 1 ? choose(WORK, 500) * MS : 0; };
    if (shared) {
        auto loop = std::make_shared<EventLoop>();
        auto t = [&]() -> Task<> { HttpClient c{HttpClientOptions<PX>{ProxyType<PX>{purl}}, loop};
            for (u32 i = 0; i < n; ++i) { auto u = before(i); auto& q = sv.reqs[i]; Try<ResponseData> r = q.method == "GET" ? co_await c.template coGet<TO>(u, hdr(q)) : co_await c.template coPost<TO>(u, q.body, HttpContentType::Text, hdr(q)); after(i, r); if (u64 p = rest()) co_await loop->makeTimer().sleepFor(std::chrono::nanoseconds(p)); }
            px.target = -1; co_await c.coClose(); };
        auto e = loop->trySync(t()); EXPECT((bool)e, "http.client", "the client coroutine threw '%s'", e.what().c_str());
    } else {
        HttpClient c{HttpClientOptions<PX>{ProxyType<PX>{purl}}};
        for (u32 i = 0; i < n; ++i) { auto u = before(i); auto& q = sv.reqs[i]; Try<ResponseData> r = (q.method == "GET" ? c.template get<TO>(u, hdr(q)) : c.template post<TO>(u, q.body, HttpContentType::Text, hdr(q))).get(); after(i, r); if (u64 p = rest()) nap(p); }
        px.target = -1;
    }
    sim::clear_deadline(); if (okSeen == n) sim::probe("every request answered"); if (errSeen) sim::probe("some request failed"); if (direct) EXPECT(okSeen + errSeen == n, "proxy.lost", "outcomes"); check_fds("after the client was destroyed");
    px.shut(); sv.shut(); SV = nullptr;
}
}
SIM_SCENARIO("C22", socks5) { drive<Socks5Proxy>(false, false); }
SIM_SCENARIO("C22", http_connect) { drive<HttpProxy>(true, false); }
SIM_SCENARIO("C22", socks5_neterr) { drive<Socks5Proxy>(false, true); }
SIM_SCENARIO("C22", http_connect_neterr) { drive<HttpProxy>(true, true); }
