// Shared by the WebSocket scenarios: frames written from RFC 6455, a scripted peer for either role, and a program that drives the library's end.
#pragma once
#include "http.hpp"
#include <HXLibs/net/client/HttpClient.hpp>
#include <HXLibs/net/protocol/websocket/WebSocket.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <deque>
namespace wst {
using namespace ht; using HX::container::Try;
inline std::string sha1(std::string s) {
    u32 h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; u64 bits = s.size() * 8; s += char(0x80); while (s.size() % 64 != 56) s += char(0); for (int i = 7; i >= 0; --i) s += char(bits >> (8 * i));
    auto rol = [](u32 x, int n) { return (x << n) | (x >> (32 - n)); };
    for (size_t o = 0; o < s.size(); o += 64) { u32 w[80]; for (int i = 0; i < 16; ++i) w[i] = (u32)(unsigned char)s[o + 4 * i] << 24 | (u32)(unsigned char)s[o + 4 * i + 1] << 16 | (u32)(unsigned char)s[o + 4 * i + 2] << 8 | (unsigned char)s[o + 4 * i + 3]; for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for (int i = 0; i < 80; ++i) { u32 f, k; if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999; else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1; else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC; else f = b ^ c ^ d, k = 0xCA62C1D6; u32 t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
    std::string r; for (u32 x : h) for (int i = 3; i >= 0; --i) r += char(x >> (8 * i)); return r; }
inline std::string b64(const std::string& s) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; for (size_t i = 0; i < s.size(); i += 3) { u32 v = (unsigned char)s[i] << 16 | (i + 1 < s.size() ? (unsigned char)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (unsigned char)s[i + 2] : 0); r += A[v >> 18]; r += A[v >> 12 & 63]; r += i + 1 < s.size() ? A[v >> 6 & 63] : '='; r += i + 2 < s.size() ? A[v & 63] : '='; } return r; }
inline std::string accept_of(const std::string& key) { return b64(sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }
enum Op { CONT = 0, TEXT = 1, BIN = 2, CLOSE = 8, PING = 9, PONG = 10 };
struct WsMsg { int op; std::string data; };
inline std::string frame(int op, const std::string& d, bool fin, bool mask, int form = 0, int rsv = 0) { // form: 0 shortest length, else 2 or 8 bytes
    std::string w; w += char((fin ? 0x80 : 0) | rsv << 4 | op); size_t n = d.size(); if (!form) form = n < 126 ? 1 : n <= 0xffff ? 2 : 8; int m = mask ? 0x80 : 0;
    if (form == 1) w += char(m | (int)n); else if (form == 2) { w += char(m | 126); w += char(n >> 8); w += char(n); } else { w += char(m | 127); for (int i = 7; i >= 0; --i) w += char((u64)n >> (8 * i)); }
    if (mask) { u32 k = (u32)choose(sim::WORK, 0x10000) << 16 | choose(sim::WORK, 0x10000); char kb[4] = {char(k >> 24), char(k >> 16), char(k >> 8), char(k)}; w.append(kb, 4); std::string x = d; for (size_t i = 0; i < n; ++i) x[i] ^= kb[i & 3]; w += x; } else w += d;
    return w; }
struct Frame { int op; bool fin, masked; int rsv; std::string data; };
// 1: one frame taken, 0: more needed
inline int take(std::string_view s, size_t& used, Frame& f) {
    if (s.size() < 2) return 0; auto u = [&](size_t i) { return (u64)(unsigned char)s[i]; };
    f.fin = u(0) & 0x80; f.rsv = (int)(u(0) >> 4 & 7); f.op = (int)(u(0) & 15); f.masked = u(1) & 0x80; u64 n = u(1) & 127; size_t p = 2;
    if (n == 126) { if (s.size() < 4) return 0; n = u(2) << 8 | u(3); p = 4; } else if (n == 127) { if (s.size() < 10) return 0; n = 0; for (int i = 0; i < 8; ++i) n = n << 8 | u(2 + (size_t)i); p = 10; }
    size_t k = p; if (f.masked) p += 4; if (s.size() < p || s.size() - p < n) return 0;
    f.data.assign(s.substr(p, n)); if (f.masked) for (size_t i = 0; i < n; ++i) f.data[i] ^= s[k + (i & 3)];
    used = p + n; return 1; }
inline u32 size_draw(u32 cap) { u32 n; switch (choose(WORK, 9)) { case 0: n = range(WORK, 0, 40); break; case 1: n = 0; break; case 2: n = 123 + choose(WORK, 6); break; case 3: n = range(WORK, 126, 1500); break; case 4: n = 16384 - 20 + choose(WORK, 40); break; case 5: n = 65536 - 4 + choose(WORK, 8); break; case 6: n = range(WORK, 1500, 70000); break; case 7: n = range(WORK, 65537, 200000); break; default: n = range(WORK, 1, 9); } return std::min(n, cap); }
inline WsMsg draw_msg(u32 tag, u32 cap) { WsMsg m; m.op = choose(WORK, 2) ? BIN : TEXT; m.data = payload(40000 + tag, size_draw(cap)); return m; }

// ---- the library's end
struct Plan {                                   // what the library's end does
    std::vector<WsMsg> tx[2]; std::vector<WsMsg> rx; bool duplex = true, view = false, finalPing = false; int recvKind = 0; int closeBy = 0; /*0 library, 1 peer*/ u64 pause = 0; bool swallow = true; u64 bound = 0;
    size_t got = 0, sent[2] = {0, 0}; bool started = false, ended = false, closeSeen = false; std::string err[4]; u64 endAt = 0, errAt = 0; bool failed() const { return !err[0].empty() || !err[1].empty() || !err[2].empty() || !err[3].empty(); }
};
inline void timed(Plan& pl, u64 t0, const char* what) { EXPECT(!pl.bound || sim::now() - t0 <= pl.bound, "ws.slow", "%s took %.3f s", what, (double)(sim::now() - t0) / 1e9); }
template <class Ws> Task<> send_all(Ws& ws, EventLoop& loop, Plan& pl, int k) {
    for (auto& m : pl.tx[k]) {
        if (pl.pause && choose(WORK, 3) == 1) co_await loop.makeTimer().sleepFor(std::chrono::nanoseconds(choose(WORK, 100) * (pl.pause / 100)));
        u64 t0 = sim::now(); bool dead = false;
        try {
            if (pl.view && k == 1) { if constexpr (std::is_same_v<Ws, WebSocketServer<HttpIO>>) { auto v = makePacketView((OpCode)m.op, m.data); co_await ws.sendPacketView(v); } }
            else if (m.op == TEXT) co_await ws.sendText(m.data); else co_await ws.sendBytes(m.data);
        } catch (std::exception& e) { pl.err[k] = e.what(); dead = true; if (!pl.errAt) pl.errAt = sim::now(); }
        timed(pl, t0, "a send"); if (dead) co_return; ++pl.sent[k]; } }
template <class Ws> Task<WebSocketPacket> recv_one(Ws& ws, Plan& pl, int want) {
    using enum OpCode; auto w = (OpCode)want;
    switch (pl.recvKind) {
    case 0: if (want == TEXT) co_return WebSocketPacket{Text, co_await ws.recvText()}; co_return WebSocketPacket{Binary, co_await ws.recvBytes()};
    case 1: co_return co_await ws.template recv<false, Sec<3>>(w);
    case 2: co_return co_await ws.template recv<false, Sec<60>>(Text, Binary);
    default: co_return co_await ws.template recv<true, Sec<90>>(w == Text ? Binary : Text, w); } }
template <class Ws> Task<> recv_all(Ws& ws, EventLoop& loop, Plan& pl) {
    for (;;) { bool last = pl.got == pl.rx.size(); if (last && pl.closeBy != 1) co_return;
        if (pl.pause && choose(WORK, 3) == 1) co_await loop.makeTimer().sleepFor(std::chrono::nanoseconds(choose(WORK, 100) * (pl.pause / 100)));
        u64 t0 = sim::now(); bool dead = false; int want = last ? TEXT : pl.rx[pl.got].op;
        try { auto m = co_await recv_one(ws, pl, want); EXPECT(!last, "ws.invented", "a message of %zu bytes was received although the peer sent only %zu", m.content.size(), pl.rx.size());
            auto& x = pl.rx[pl.got]; EXPECT((int)m.opCode == x.op && m.content == x.data, "ws.content", "message %zu (type %d) was received as type %d: %s", pl.got, x.op, (int)m.opCode, diff(x.data, m.content).c_str()); ++pl.got; note("received message %zu", pl.got);
        } catch (std::exception& e) { pl.err[2] = e.what(); dead = true; if (!pl.errAt) pl.errAt = sim::now(); pl.closeSeen = pl.err[2].find("1000") != std::string::npos; note("receive ended: %s", e.what()); }
        timed(pl, t0, "a receive"); if (dead) co_return; } }
template <class Ws> Task<> drive(Ws& ws, EventLoop& loop, Plan& pl) {
    pl.started = true;
    if (pl.duplex) { co_await HX::coroutine::whenAll(send_all(ws, loop, pl, 0), send_all(ws, loop, pl, 1), recv_all(ws, loop, pl)); }
    else { co_await send_all(ws, loop, pl, 0); co_await send_all(ws, loop, pl, 1); if (!pl.failed()) co_await recv_all(ws, loop, pl); }
    u64 t0 = sim::now();
    if (!pl.failed() && pl.finalPing) { try { co_await ws.ping("are you there"); for (int i = 0;; ++i) { auto r = co_await ws.template recv<true, Sec<30>>(OpCode::Pong); if (r.content == "are you there") break; EXPECT(i < 20, "ws.pong", "the pong carries '%s'", escaped(r.content).c_str()); } } catch (std::exception& e) { pl.err[3] = e.what(); } timed(pl, t0, "ping and pong"); }
    t0 = sim::now(); if (!pl.failed() && pl.closeBy == 0) { try { co_await ws.close(); } catch (std::exception& e) { pl.err[3] = e.what(); } timed(pl, t0, "close"); }
    pl.ended = true; pl.endAt = sim::now(); if (!pl.swallow && pl.failed()) throw std::runtime_error{"websocket ended: " + pl.err[0] + pl.err[1] + pl.err[2] + pl.err[3]};
}

// ---- the scripted peer
enum Fault { F_NONE, F_FIN, F_RST, F_STALL, F_BAD, F_CLOSEFRAME, NFAULT };
inline const char* FN[] = {"none", "fin", "rst", "stall", "bad-frame", "close-frame"};
struct Item { std::string bytes; u64 pause = 0; bool ctl = false, fault = false; };
struct End {                                   // one connection, seen from the peer
    std::shared_ptr<sim::Peer> p; bool client = false; /*peer plays the client*/ Plan* pl = nullptr; std::deque<Item> out; bool mid = false, upgraded = false, off = false, dead = false, closeSent = false, closeGot = false, stalled = false, strictEnd = true; std::string key, late, closeEcho; u64 gap = 0; u32 pieces = 1;
    Fault fault = F_NONE; std::string badFrame; u64 faultAt = 0; std::vector<std::string> pings; size_t pongs = 0; u32 libPings = 0; size_t msgs = 0; std::vector<std::pair<size_t, size_t>> states{{0, 0}}; WsMsg part; bool open = false; std::string hs; bool pumping = false; std::vector<std::pair<u32, std::string>> extra;
    void script(u32 fragPm, u32 pingPm, u64 pauseMax, bool oddLengths) {
        for (auto& m : pl->rx) { std::vector<std::string> fr; size_t i = 0; if (chance(WORK, fragPm)) { u32 k = range(WORK, 2, 5); for (u32 j = 0; j + 1 < k; ++j) { size_t n = choose(WORK, 4) == 1 ? 0 : choose(WORK, (u32)(m.data.size() - i) + 1); fr.push_back(m.data.substr(i, n)); i += n; } } fr.push_back(m.data.substr(i));
            for (size_t j = 0; j < fr.size(); ++j) { if (chance(WORK, pingPm)) ctl(); u64 pause = pauseMax && choose(NET, 3) == 1 ? choose(NET, 100) * (pauseMax / 100) : 0; int form = oddLengths && choose(WORK, 6) == 1 ? 8 : 0; out.push_back({frame(j ? CONT : m.op, fr[j], j + 1 == fr.size(), client, form), pause}); } }
        pingsBefore = pings.size(); if (chance(WORK, pingPm)) ctl(); }
    size_t pingsBefore = 0;
    void ctl() { if (choose(WORK, 4) == 1) { out.push_back({frame(PONG, payload(9, choose(WORK, 126)), true, client), 0, true}); sim::probe("unsolicited pong"); return; } std::string d = payload(60000 + pings.size(), choose(WORK, 3) == 1 ? 125 : choose(WORK, 126)); pings.push_back(d); out.push_back({frame(PING, d, true, client), 0, true}); }
    bool got_all() { for (auto [a, b] : states) if (a == pl->tx[0].size() && b == pl->tx[1].size()) return true; return false; }
    bool alive() { return !off && !dead && p && !p->closed && !p->rst; }
    void pump() { if (pumping || mid || !alive()) return;
        if (!late.empty()) { p->send(late); late.clear(); }
        if (out.empty()) { if (pl->closeBy == 1 && !closeSent && fault != F_STALL && got_all()) { closeSent = true; closeEcho = std::string("\x03\xe8", 2) + payload(3, choose(WORK, 60)); p->send(frame(CLOSE, closeEcho, true, client)); } return; }
        pumping = true; u64 d = out.front().pause; auto go = [this] { pumping = false; if (!alive()) return; step(); }; if (d) sim::after(d, go); else go(); }
    void step() { if (mid) return; Item it = std::move(out.front()); out.pop_front();
        if (it.fault) { apply(); return; }
        mid = true; send_paced(p, std::move(it.bytes), pieces, gap, [this] { mid = false; if (!off) { if (out.empty() || !out.front().pause) sim::after(choose(NET, 2) ? 0 : choose(NET, 50) * 10 * US, [this] { pump(); }); else pump(); } }); }
    void apply() { sim::fault(FN[fault]); faultAt = sim::now(); note("peer: %s", FN[fault]); if (!badFrame.empty()) p->send(badFrame);
        switch (fault) { case F_FIN: p->fin(); dead = true; break; case F_RST: p->reset(); dead = true; break; case F_STALL: stalled = true; dead = true; if (choose(FAULT, 2)) p->set_reading(false); break; case F_BAD: dead = true; break; case F_CLOSEFRAME: closeSent = true; closeEcho = std::string("\x03\xe9", 2) + payload(4, choose(WORK, 60)); p->send(frame(CLOSE, closeEcho, true, client)); dead = true; break; default: break; } }
    void reply(const std::string& w) { if (!alive()) return; if (mid) late += w; else p->send(w); }
    void on_frame(Frame& f) {
        const char* who = client ? "server" : "client"; EXPECT(f.rsv == 0, "ws.frame", "the %s sent a frame with RSV bits %d, opcode %d", who, f.rsv, f.op); EXPECT(f.masked == !client, "ws.frame", "the %s sent %s frame", who, f.masked ? "a masked" : "an unmasked"); EXPECT(!closeGot || f.op == CLOSE || fault != F_NONE, "ws.frame", "the %s sent a frame with opcode %d after its close frame", who, f.op);
        if (f.op >= 8) { EXPECT(f.fin && f.data.size() <= 125, "ws.frame", "the %s sent a fragmented or oversized control frame", who); }
        switch (f.op) {
        case PING: ++libPings; reply(frame(PONG, f.data, true, client)); return;
        case PONG: EXPECT(pongs < pings.size() && f.data == pings[pongs], "ws.pong", "pong %zu of the %s carries '%s' instead of '%s'", pongs, who, escaped(f.data).c_str(), pongs < pings.size() ? escaped(pings[pongs]).c_str() : "(no ping was sent)"); ++pongs; return;
        case CLOSE: if (closeSent && !closeGot && strictEnd && pl->closeBy == 1) EXPECT(f.data == closeEcho, "ws.close", "the close frame was answered with '%s' instead of '%s'", escaped(f.data).c_str(), escaped(closeEcho).c_str()); closeGot = true; if (!closeSent && alive()) { closeSent = true; closeEcho = f.data; reply(frame(CLOSE, f.data, true, client)); strictEnd = false; } return;
        case CONT: EXPECT(open, "ws.frame", "the %s sent a continuation without a start", who); part.data += f.data; break;
        case TEXT: case BIN: EXPECT(!open, "ws.frame", "the %s started a message inside another", who); part = {f.op, f.data}; open = true; break;
        default: EXPECT(false, "ws.frame", "the %s sent opcode %d", who, f.op); }
        if (!f.fin) return; open = false; ++msgs;
        std::vector<std::pair<size_t, size_t>> nx; for (auto [a, b] : states) { if (a < pl->tx[0].size() && pl->tx[0][a].op == part.op && pl->tx[0][a].data == part.data) nx.push_back({a + 1, b}); if (b < pl->tx[1].size() && pl->tx[1][b].op == part.op && pl->tx[1][b].data == part.data) nx.push_back({a, b + 1}); }
        std::sort(nx.begin(), nx.end()); nx.erase(std::unique(nx.begin(), nx.end()), nx.end());
        if (nx.empty()) { auto [a, b] = states[0]; sim::fail("ws.content", "message %zu of the %s (type %d, %zu bytes) is not one of those it sent next: %s", msgs, who, part.op, part.data.size(), a < pl->tx[0].size() ? diff(pl->tx[0][a].data, part.data).c_str() : b < pl->tx[1].size() ? diff(pl->tx[1][b].data, part.data).c_str() : "none left"); }
        states = std::move(nx); pump(); }
    void on_bytes() { if (off) return; auto& rx = p->rx;
        while (upgraded) { if (rx.size() && ((unsigned char)rx[0] >> 4 & 7) && pl->ended) { rx.clear(); return; } Frame f; size_t used; if (!take(rx, used, f)) break; rx.erase(0, used); on_frame(f); }
        if (!upgraded) handshake(); }
    void on_bytes2() { if (p && upgraded && !off) on_bytes(); }
    bool refuse = false; std::function<void()> on_upgrade;
    void handshake() { Msg m; size_t used; std::string why; auto r = parse(p->rx, used, m, client, client && p->rx.compare(0, 12, "HTTP/1.1 101") == 0, false, why); EXPECT(r != BAD, "ws.handshake", "malformed handshake: %s; '%s'", why.c_str(), escaped(p->rx, 200).c_str()); if (r == NEED) return; p->rx.erase(0, used);
        auto is = [&](const char* k, const char* v) { auto* h = m.get(k); EXPECT(h && lower(*h).find(v) != std::string::npos, "ws.handshake", "handshake header %s is '%s'", k, h ? escaped(*h).c_str() : "missing"); }; is("connection", "upgrade"); is("upgrade", "websocket");
        if (client) { EXPECT(m.start[1] == "101", "ws.handshake", "the server answered the handshake with %s", m.start[1].c_str()); auto* a = m.get("sec-websocket-accept"); EXPECT(a && *a == accept_of(key), "ws.handshake", "wrong accept hash"); upgraded = true; note("upgraded"); if (on_upgrade) on_upgrade(); if (!early) pump(); on_bytes(); return; }
        EXPECT(m.start[0] == "GET", "ws.handshake", "handshake method %s", m.start[0].c_str()); is("sec-websocket-version", "13"); auto* k = m.get("sec-websocket-key"); EXPECT(k && k->size() == 24, "ws.handshake", "key '%s'", k ? escaped(*k).c_str() : "missing"); EXPECT(m.get("origin"), "ws.handshake", "no origin"); { auto* h = m.get("host"); EXPECT(h && *h == "127.0.0.1:8080", "ws.handshake", "handshake for 127.0.0.1:8080 with Host '%s'", h ? escaped(*h).c_str() : "missing"); }
        std::string w = "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: " + accept_of(*k) + "\r\n\r\n"; upgraded = true; note("upgraded"); if (on_upgrade) on_upgrade(); with_first(w); on_bytes(); }
    bool early = false;      // the first frames travel together with the handshake
    void with_first(std::string w) { u32 k = early ? range(NET, 1, 3) : 0; for (u32 i = 0; i < k && !out.empty() && !out.front().fault; ++i) { w += out.front().bytes; out.pop_front(); sim::probe("frame with handshake"); } mid = true; send_paced(p, w, pieces, gap, [this] { mid = false; if (!off) pump(); }); }
    void start_client(int port, const std::string& path) { client = true; key = b64(payload(77, 16)); p = sim::Peer::connect(port); hook();
        p->on_open = [this, path](sim::Peer&) { std::string w = "GET " + path + " HTTP/1.1\r\nHost: h.x\r\nOrigin: http://h.x\r\nConnection: keep-alive, Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: " + key + "\r\nSec-WebSocket-Version: 13\r\n\r\n"; with_first(w); }; }
    void hook() { p->on_data = [this](sim::Peer&) { on_bytes(); }; p->on_eof = [this](sim::Peer& q) { if (!off && !q.closed && !stalled) q.close(); }; }
    void finish() { // after the run: nothing of what the library sent is missing
        bool all = got_all(); const char* who = client ? "server" : "client";
        if (fault == F_NONE && !dead) { EXPECT(all, "ws.lost", "the %s sent %zu messages, %zu arrived", who, pl->tx[0].size() + pl->tx[1].size(), msgs); EXPECT(!open, "ws.lost", "the last message of the %s is incomplete", who); size_t must = pl->closeBy == 1 ? pings.size() : pingsBefore; EXPECT(pongs >= must, "ws.pong", "the %s answered %zu of %zu pings", who, pongs, must); } }
    void shut() { off = true; if (p) { p->on_data = p->on_eof = p->on_open = p->on_rst = p->on_fail = nullptr; if (!p->closed && !p->rst) p->close(); } }
};
// puts one fault into the peer's script: at a frame boundary or inside a frame
inline void plant(End& e, u32 kinds) {
    e.fault = (Fault)range(FAULT, 1, kinds); size_t at = choose(FAULT, (u32)e.out.size() + 1); bool inside = at < e.out.size() && e.fault != F_CLOSEFRAME && e.fault != F_BAD && choose(FAULT, 3) != 0; Item f; f.fault = true;
    if (inside) { auto& b = e.out[at].bytes; size_t n = b.size(), cut = choose(FAULT, 2) ? std::min<size_t>(n - 1, choose(FAULT, 16)) : choose(FAULT, (u32)n); e.badFrame.clear(); Item h; h.bytes = b.substr(0, cut); h.pause = e.out[at].pause; e.out.erase(e.out.begin() + (long)at, e.out.end()); if (cut) e.out.push_back(h); }
    else e.out.erase(e.out.begin() + (long)at, e.out.end());
    e.out.push_back(f);
    if (e.fault == F_BAD) { bool m = e.client; std::string d = payload(5, choose(WORK, 100));
        switch (choose(FAULT, 8)) { case 0: e.badFrame = frame(TEXT, d, true, !m); break; case 1: e.badFrame = frame(3 + (int)choose(FAULT, 5), d, true, m); break; case 2: e.badFrame = frame(11 + (int)choose(FAULT, 5), d, true, m); break; case 3: e.badFrame = frame(TEXT, d, true, m, 0, 1 << choose(FAULT, 3)); break; case 4: e.badFrame = frame(PING, payload(5, 130), true, m); break; case 5: e.badFrame = frame(PING, d, false, m); break;
        case 6: e.badFrame = frame(TEXT, d, false, m) + frame(choose(FAULT, 2) ? TEXT : BIN, d, true, m); break; default: { bool open = false; for (size_t i = 0; i < at && i < e.out.size(); ++i) { Frame fr; size_t used; if (!e.out[i].fault && take(e.out[i].bytes, used, fr) && fr.op <= 2) open = !fr.fin; } e.badFrame = frame(open ? TEXT : CONT, d, true, m); break; } } } }
} // namespace wst
