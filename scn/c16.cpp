// C16: downloads deliver exactly the requested bytes of a file.
#include "http.hpp"
using namespace ht;
namespace {
constexpr u32 BUF = (u32)HX::utils::FileUtils::kBufMaxSize;
// A file's byte i is FULL[i] for ever; only its length changes (at most once), so every byte a client gets can be judged.
struct FileM { std::string path, full; u64 lo, hi; bool missing = false, removed = false, gone = false; };     // its length is always lo or hi
struct World {
    Serve* s = nullptr; std::vector<FileM> f; u32 clients = 0, ended = 0, done = 0, broken = 0; bool disk = false, conn = false, mutate = false; std::vector<std::shared_ptr<sim::Peer>> peers;
    void stop_if() { if (ended == clients) s->stop(); }
} *W;
struct Span { u64 a, b; };
struct Ask { std::string method, file, target, range; u32 fi; bool chunked, hasRange = false, valid = true; std::vector<std::pair<std::string, std::string>> spec; };
u64 num(const std::string& s) { return std::stoull(s); }
// the ranges of `q` a file of n bytes can satisfy, written from RFC 9110 section 14.1
std::vector<Span> resolve(const Ask& q, u64 n) { std::vector<Span> v; for (auto& [a, b] : q.spec) { u64 x, y;
    if (a.empty()) { u64 k = std::min<u64>(num(b), n); if (!k) continue; x = n - k; y = n - 1; } else { x = num(a); if (x >= n) continue; y = b.empty() ? n - 1 : std::min<u64>(num(b), n - 1); }
    v.push_back({x, y}); } return v; }
u64 pos_draw(u64 n) { switch (choose(WORK, 6)) { case 0: return choose(WORK, (u32)n + 1); case 1: return 0; case 2: return n ? n - 1 : 0; case 3: return n; case 4: return n + range(WORK, 1, 1000); default: return std::min<u64>(n, BUF + choose(WORK, 5) - 2); } }
Ask make_ask() {
    Ask q; q.fi = choose(WORK, (u32)W->f.size()); auto& f = W->f[q.fi]; q.chunked = choose(WORK, 4) == 1; q.method = choose(WORK, 6) == 1 ? "HEAD" : "GET"; q.target = std::string(q.chunked ? "/c/" : "/r/") + std::to_string(q.fi);
    u64 n = choose(WORK, 4) ? f.lo : f.hi;
    if (!q.chunked && choose(WORK, 4)) { q.hasRange = true;
        if (choose(WORK, 7) == 1) { q.valid = false; static const char* L[] = {"bytes", "bytes=", "octets=0-1", "bytes=-", "bytes=a-b", "bytes=5", "bytes=3-1", "", "bytes=0-1,x", "bytes 0-1", "bytes=1-2-3", "bytes=99999999999999999999999-", "bytes=--5", "bytes=0x1-5", "bytes=+1-5", "b"}; q.range = L[choose(WORK, 16)]; }
        else { u32 k = choose(WORK, 3) ? 1 : range(WORK, 2, 5); q.range = "bytes=";
            for (u32 i = 0; i < k; ++i) { std::string a, b; switch (choose(WORK, 4)) { case 0: { u64 x = pos_draw(n), y = pos_draw(n); if (x > y) std::swap(x, y); a = std::to_string(x); b = std::to_string(y); break; } case 1: a = std::to_string(pos_draw(n)); break; case 2: b = std::to_string(pos_draw(n)); break; default: { u64 x = pos_draw(n); a = std::to_string(x); b = std::to_string(x + choose(WORK, 3)); } }
                q.spec.push_back({a, b}); if (i) q.range += choose(WORK, 2) ? ", " : ","; q.range += a + "-" + b; } } }
    return q; }
bool len_ok(const FileM& f, u64 n) { return n == f.lo || n == f.hi; }
// whether a complete-looking answer is one the file could give; exact: nothing happened to the file
void judge(const Ask& q, const Msg& m) {
    auto& f = W->f[q.fi]; const char* t = q.target.c_str(); std::string what = q.method + " " + t + (q.hasRange ? " range '" + q.range + "'" : "") + " of a file of " + std::to_string(f.lo) + (f.hi != f.lo ? "/" + std::to_string(f.hi) : "") + " bytes"; const char* w = what.c_str(); int st = atoi(m.start[1].c_str());
    if (f.missing) { EXPECT(st >= 400 && st < 600, "file.ghost", "%s that does not exist was answered %d with %zu bytes", w, st, m.body.size()); return; }
    if (st >= 500 && W->disk) return; if (f.removed && st >= 400 && st != 416) return;
    auto* cl = m.get("content-length"); auto* cr = m.get("content-range"); auto* ct = m.get("content-type");
    auto whole = [&] { EXPECT(len_ok(f, m.body.size()) && m.body == std::string_view(f.full).substr(0, m.body.size()), "file.content", "%s: %s", w, diff(f.full.substr(0, f.lo), m.body).c_str()); };
    if (q.chunked && q.method == "HEAD") { EXPECT(st == 200 && m.body.empty(), "file.head", "%s was answered %d with %zu bytes", w, st, m.body.size()); return; }
    if (q.chunked) { EXPECT(st == 200, "file.status", "%s was answered %d", w, st); EXPECT(m.chunked, "file.framing", "%s: not chunked", w); EXPECT(m.body.size() >= f.lo && m.body.size() <= f.hi && m.body == std::string_view(f.full).substr(0, m.body.size()), "file.content", "%s, chunked: %s", w, diff(f.full.substr(0, f.lo), m.body).c_str()); return; }
    if (q.method == "HEAD") { EXPECT(st == 200 && cl && len_ok(f, num(*cl)), "file.head", "%s was answered %d, Content-Length %s", w, st, cl ? cl->c_str() : "(none)"); return; }
    if (!q.hasRange || (!q.valid && st != 416 && st != 400)) { EXPECT(st == 200, "file.status", "%s was answered %d", w, st); EXPECT(cl, "file.framing", "%s: no Content-Length", w); whole(); return; }
    if (!q.valid) return;
    if (st == 200 && q.spec.size() > 1) { whole(); return; }            // a server may ignore a list
    bool okLo = !resolve(q, f.lo).empty(), okHi = !resolve(q, f.hi).empty();
    if (st == 416) { EXPECT(!okLo || !okHi, "file.refused", "%s was refused though it can be satisfied", w); EXPECT(!cr || *cr == "bytes */" + std::to_string(f.lo) || *cr == "bytes */" + std::to_string(f.hi), "file.framing", "%s: refused with Content-Range '%s'", w, cr->c_str()); sim::probe("refused"); return; }
    EXPECT(st == 206, "file.status", "%s was answered %d", w, st); EXPECT(okLo || okHi, "file.range", "%s cannot be satisfied but was answered 206 with %zu bytes", w, m.body.size());
    auto part = [&](const std::string& cr, std::string_view body, u64 size) { unsigned long long a, b, n; int used = 0; EXPECT(sscanf(cr.c_str(), "bytes %llu-%llu/%llu%n", &a, &b, &n, &used) == 3 && (size_t)used == cr.size(), "file.framing", "%s: Content-Range '%s'", w, cr.c_str());
        EXPECT(len_ok(f, n) && n == size && a <= b && b < n, "file.framing", "%s: Content-Range '%s'", w, cr.c_str()); EXPECT(body.size() == b - a + 1, "file.framing", "%s: Content-Range '%s' with %zu bytes", w, cr.c_str(), body.size());
        EXPECT(body == std::string_view(f.full).substr(a, b - a + 1), "file.content", "%s, part '%s': %s", w, cr.c_str(), diff(f.full.substr(a, b - a + 1), body).c_str()); return Span{a, b}; };
    auto total = [&](const std::string& cr) { auto p = cr.rfind('/'); return p == cr.npos || cr.find_first_not_of("0123456789", p + 1) != cr.npos || p + 1 == cr.size() ? ~0ull : num(cr.substr(p + 1)); };
    std::vector<Span> got; u64 size;
    if (cr) { EXPECT(cl, "file.framing", "%s: no Content-Length", w); size = total(*cr); got.push_back(part(*cr, m.body, size)); }
    else {
        EXPECT(ct && ct->starts_with("multipart/byteranges; boundary="), "file.framing", "%s: a partial answer without Content-Range, type '%s'", w, ct ? ct->c_str() : "(none)"); std::string bd = "--" + ct->substr(31); std::string_view b = m.body; size = ~0ull;
        for (bool first = true;; first = false) { if (!first) { EXPECT(b.starts_with("\r\n"), "file.framing", "%s: no line break before boundary at %zu of %zu: '%s'", w, m.body.size() - b.size(), m.body.size(), escaped(b).c_str()); b.remove_prefix(2); }
            EXPECT(b.starts_with(bd), "file.framing", "%s: no boundary at %zu of %zu: '%s'", w, m.body.size() - b.size(), m.body.size(), escaped(b).c_str()); b.remove_prefix(bd.size()); if (b.starts_with("--")) break;
            EXPECT(b.starts_with("\r\n"), "file.framing", "%s: after boundary '%s'", w, escaped(b).c_str()); b.remove_prefix(2); std::string pcr; bool end = false; u64 pcl = ~0ull;
            for (;;) { auto e = b.find("\r\n"); EXPECT(e != b.npos, "file.framing", "%s: part header '%s'", w, escaped(b).c_str()); auto l = b.substr(0, e); b.remove_prefix(e + 2); if (l.empty()) { end = true; break; } auto k = lower(std::string(l.substr(0, l.find(':')))); auto v = std::string(l.substr(std::min(l.size(), l.find(':') + 2))); if (k == "content-range") pcr = v; if (k == "content-length") pcl = num(v); }
            unsigned long long x = 0, y = 0, n = 0; EXPECT(end && sscanf(pcr.c_str(), "bytes %llu-%llu/%llu", &x, &y, &n) == 3 && x <= y && b.size() >= y - x + 1, "file.framing", "%s: part with Content-Range '%s' and %zu bytes left", w, pcr.c_str(), b.size());
            EXPECT(pcl == ~0ull || pcl == y - x + 1, "file.framing", "%s: part '%s' with Content-Length %llu", w, pcr.c_str(), (unsigned long long)pcl); if (size == ~0ull) size = n;
            got.push_back(part(pcr, b.substr(0, y - x + 1), size)); b.remove_prefix(y - x + 1); }
        sim::probe("multipart"); }
    EXPECT(len_ok(f, size), "file.framing", "%s: total size %llu", w, (unsigned long long)size); auto want = resolve(q, size);
    for (auto& x : want) { u64 at = x.a; for (bool more = true; more && at <= x.b;) { more = false; for (auto& g : got) if (g.a <= at && g.b >= at) { at = g.b + 1; more = true; } } EXPECT(at > x.b, "file.range", "%s: bytes %llu-%llu were not delivered", w, (unsigned long long)at, (unsigned long long)x.b); }
    for (auto& g : got) for (u64 at = g.a; at <= g.b;) { bool in = false; for (auto& x : want) if (x.a <= at && x.b >= at) { at = x.b + 1; in = true; break; } EXPECT(in, "file.range", "%s: byte %llu was delivered though nobody asked for it", w, (unsigned long long)at); } }
struct Client : std::enable_shared_from_this<Client> {
    u32 id, left; std::shared_ptr<sim::Peer> p; Ask q; bool busy = false, over = false, slow = false; u32 vanish = 0; u64 t0 = 0; u32 serial = 0;
    void start() { auto self = shared_from_this(); p = sim::Peer::connect(8080); W->peers.push_back(p); p->on_open = [self](sim::Peer&) { self->ask(); }; p->on_fail = [self](sim::Peer&) { EXPECT(W->conn, "http.lost", "could not connect"); self->again(); }; p->on_data = [self](sim::Peer&) { self->data(); }; p->on_eof = [self](sim::Peer&) { self->data(); self->gone(); }; p->on_rst = [self](sim::Peer&) { self->gone(); }; }
    void again() { p->on_open = p->on_fail = p->on_data = p->on_eof = p->on_rst = nullptr; if (!p->closed) p->close(); busy = false; if (!left) { finish(); return; } auto self = shared_from_this(); sim::after(5 * MS, [self] { if (W) self->start(); }); }
    void finish() { if (over) return; over = true; ++W->ended; W->stop_if(); }
    void gone() { if (!W || over) return; if (busy) { auto& f = W->f[q.fi]; ++W->broken; sim::probe("transfer broken off");
            EXPECT(W->disk || W->conn || f.missing || (W->mutate && f.lo != f.hi) || f.removed || slow, "file.broken-off", "%s %s was broken off after %zu bytes though nothing failed", q.method.c_str(), q.target.c_str(), p->rx.size()); }
        again(); }
    void ask() { if (!W) return; if (!left) { p->close(); finish(); return; } --left; ++serial; q = make_ask(); busy = true; t0 = sim::now(); p->rx.clear();
        u32 v = choose(FAULT, 12); vanish = W->conn && v == 1 ? 1 + choose(FAULT, 60000) : 0; slow = W->conn && v == 2;
        std::string w = q.method + " " + q.target + " HTTP/1.1\r\nHost: x\r\n" + (q.hasRange ? std::string(choose(WORK, 2) ? "Range: " : "range: ") + q.range + "\r\n" : "") + "\r\n"; note("client %u: %s %s %s", id, q.method.c_str(), q.target.c_str(), q.range.c_str()); p->send(w);
        if (slow) { sim::fault("client_stops_reading"); p->set_reading(false); auto self = shared_from_this(); auto qq = p; sim::after(choose(FAULT, 2) ? 20 * SEC : choose(FAULT, 1500) * MS, [qq] { if (!qq->closed) qq->set_reading(true); }); }
        auto self = shared_from_this(); u32 mine = serial; sim::after(900 * SEC, [self, mine] { if (W && self->busy && self->serial == mine) sim::fail("file.hang", "%s %s: neither complete nor broken off after 900 s (%zu bytes received)", self->q.method.c_str(), self->q.target.c_str(), self->p->rx.size()); }); }
    void data() { if (!W || !busy) { if (W && p) EXPECT(p->rx.empty(), "file.framing", "bytes after the answer: '%s'", escaped(p->rx).c_str()); return; }
        if (vanish && p->rx.size() >= vanish) { sim::fault("client_vanishes"); if (choose(FAULT, 2)) p->reset(); else p->close(); busy = false; again(); return; }
        if (p->rx.size() < 16) return; if (p->rx.find("\r\n\r\n") == std::string::npos) return;
        // the whole parse is only worth its cost when the announced length is there
        if (auto c = p->rx.find("Content-Length: "); c != std::string::npos && c < p->rx.find("\r\n\r\n") && q.method != "HEAD") { u64 n = strtoull(p->rx.c_str() + c + 16, nullptr, 10); if (p->rx.size() < p->rx.find("\r\n\r\n") + 4 + n) return; } else if (q.chunked && q.method != "HEAD" && !p->rx.ends_with("0\r\n\r\n") && p->rx.size() < 3000) return;
        if (q.chunked && p->rx.size() > 5 && !p->rx.ends_with("\r\n\r\n")) return;
        size_t used; Msg m; std::string why; auto r = parse(p->rx, used, m, true, q.method == "HEAD", false, why); EXPECT(r != BAD, "file.framing", "%s %s range '%s': malformed answer: %s", q.method.c_str(), q.target.c_str(), q.range.c_str(), why.c_str()); if (r == NEED) { EXPECT(m.chunked || !why.starts_with("body until"), "file.framing", "%s %s range '%s': status %s without any length on a connection that stays open", q.method.c_str(), q.target.c_str(), q.range.c_str(), m.start[1].c_str()); return; }
        EXPECT(used == p->rx.size(), "file.framing", "%s %s range '%s': %zu bytes follow the answer: '%s'", q.method.c_str(), q.target.c_str(), q.range.c_str(), p->rx.size() - used, escaped(std::string_view(p->rx).substr(used)).c_str());
        judge(q, m); busy = false; ++W->done; p->rx.clear(); auto self = shared_from_this(); if (choose(WORK, 8) == 1) { again(); return; } sim::after(choose(WORK, 3) * MS, [self, qq = p] { if (W && !self->over && self->p == qq && !self->busy && !qq->closed) { if (qq->eof || qq->rst) self->again(); else self->ask(); } }); }
};
void world(bool mutate) {
    sim::swarm_net(); sim::swarm_sched(); sim::swarm_disk(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); bool tiny = cfg.seg_mode >= 2 || cfg.pipe_cap < 3000; if (cfg.pipe_cap < 512) cfg.pipe_cap = 512; cfg.disk_delay_max = std::min<u64>(cfg.disk_delay_max, MS);
    World w; W = &w; w.mutate = mutate; u32 flt = choose(FAULT, mutate ? 4 : 3);
    w.disk = flt == 1 || flt == 3; w.conn = flt == 2;
    if (w.disk) { cfg.open_err = pick<u32>(FAULT, {0, 100, 300}); cfg.read_err = pick<u32>(FAULT, {50, 0, 200}); if (choose(FAULT, 3) == 1) cfg.close_err = 200; }
    else cfg.open_err = cfg.read_err = cfg.close_err = 0;
    if (w.conn) { cfg.send_err = pick<u32>(FAULT, {0, 30}); cfg.recv_err = pick<u32>(FAULT, {0, 30}); }
    if (cfg.short_read && !tiny) cfg.short_read = std::min(cfg.short_read, 300u);
    u32 cap = tiny ? 3000 : 2 * BUF + 3000, nf = range(WORK, 1, 4);
    for (u32 i = 0; i < nf; ++i) { FileM f; f.path = "/simfs/f" + std::to_string(i) + pick<const char*>(WORK, {".bin", ".html", "", ".tar.gz"}); u64 n; switch (choose(WORK, 7)) { case 0: n = range(WORK, 1, 3000); break; case 1: n = 0; break; case 2: n = 1; break; case 3: n = BUF - 2 + choose(WORK, 5); break; case 4: n = 2 * BUF - 2 + choose(WORK, 5); break; case 5: n = range(WORK, 3000, 2 * BUF); break; default: n = range(WORK, 2, 40); } n = std::min<u64>(n, cap); f.lo = f.hi = n; f.full = payload(160 + i, n);
        if (!mutate && choose(WORK, 8) == 1) { f.missing = true; f.full.clear(); f.lo = f.hi = 0; } else sim::fs_put(f.path, f.full); w.f.push_back(f); }
    if (mutate) { u32 i = choose(FAULT, nf); auto& f = w.f[i]; bool grow = choose(FAULT, 2); u64 n = f.lo, m = grow ? n + range(FAULT, 1, 3000) : n ? choose(FAULT, (u32)n) : 0; f.lo = std::min(n, m); f.hi = std::max(n, m); f.full = payload(160 + i, f.hi); sim::fs_put(f.path, f.full.substr(0, n)); u64 t = choose(FAULT, 60) * (choose(FAULT, 2) ? MS : 100 * US); if (n != m) { sim::fault(grow ? "file_grows" : "file_shrinks"); sim::after(t, [path = f.path, m, grow, n, add = grow ? f.full.substr(n) : std::string()] { if (grow) sim::fs_append(path, add); else sim::fs_truncate(path, m); }); } }
    if (mutate && choose(FAULT, 3) == 1) { auto& f = w.f[choose(FAULT, nf)]; f.removed = true; u64 t = choose(FAULT, 60) * (choose(FAULT, 2) ? MS : 100 * US); sim::fault("file_removed"); sim::after(t, [&f] { if (W) { f.gone = true; sim::fs_remove(f.path); } }); }
    w.clients = range(WORK, 1, 3); u32 each = range(WORK, 1, 6);
    std::string fs; for (auto& f : w.f) fs += " " + std::to_string(f.lo) + (f.hi != f.lo ? ".." + std::to_string(f.hi) : f.missing ? "(missing)" : ""); sim::sample("%u clients x %u requests, files%s; disk faults %d, connection faults %d, segmentation %u, window %u", w.clients, each, fs.c_str(), w.disk, w.conn, cfg.seg_mode, cfg.pipe_cap);
    sim::deadline(30000 * SEC, "file.hang", "the server ends");
    {
        Serve s(8080); w.s = &s;
        s.on<GET, HEAD>("/r/{id}", [&w](Req& req, Res& res) -> Task<> { auto& f = w.f[req.getPathParam(0).to<u32>()]; co_await res.useRangeTransferFile<Sec<2>>(req.getRangeRequestView(), f.path); });
        s.on<GET, HEAD>("/c/{id}", [&w](Req& req, Res& res) -> Task<> { auto& f = w.f[req.getPathParam(0).to<u32>()]; co_await res.useChunkedEncodingTransferFile<Sec<2>>(f.path); });
        when_listening(8080, [&] { for (u32 i = 0; i < w.clients; ++i) { auto c = std::make_shared<Client>(); c->id = i; c->left = each; sim::after(choose(WORK, 3) * MS, [c] { c->start(); }); } });
        s.run<Sec<3>>();
        EXPECT(w.ended == w.clients, "server.ended", "the server ended by itself (%u of %u clients done)", w.ended, w.clients);
        for (auto& f : w.f) EXPECT((!f.missing && !f.gone) || !sim::fs_exists(f.path), "file.created", "downloading a file that does not exist created it");
    }
    W = nullptr; for (auto& p : w.peers) p->on_open = p->on_fail = p->on_data = p->on_eof = p->on_rst = nullptr;
    check_fds("after the server stopped");
}
}
SIM_SCENARIO("C16", downloads) { world(false); }
SIM_SCENARIO("C16", changing_files) { world(true); }
// files larger than 32-bit counters can hold: lengths and offsets of headers and contents
namespace {
struct Huge { u64 n, hole; std::string tail; std::string at(u64 a, u64 k) const { std::string r; for (u64 i = a; i < a + k; ++i) r += i < hole ? sim::fs_hole_byte(i) : tail[i - hole]; return r; } };
}
SIM_SCENARIO("C16", huge_files) {
    sim::swarm_net(); sim::swarm_sched(); sim::swarm_disk(); cfg.link_race_pm = 0; cfg.burst_pm = 0; cfg.pipe_cap = std::max<u32>(cfg.pipe_cap, 1000); cfg.open_err = cfg.read_err = cfg.close_err = 0; if (cfg.seg_mode >= 2) cfg.seg_mode = 1; cfg.disk_delay_max = std::min<u64>(cfg.disk_delay_max, MS);
    Huge h; h.n = pick<u64>(WORK, {1ull << 32, 1ull << 31, 3ull << 31, 1ull << 36, 1ull << 40}) + choose(WORK, 5) - 2 + (choose(WORK, 2) ? choose(WORK, 100000) : 0); h.tail = payload(77, 1 + choose(WORK, 5000)); h.hole = h.n - h.tail.size(); sim::fs_put("/simfs/huge.bin", h.tail, h.hole);
    u32 left = range(WORK, 1, 5); sim::sample("a file of %llu bytes, %u requests", (unsigned long long)h.n, left); sim::deadline(2000 * SEC, "file.hang", "requests for parts of a huge file");
    struct Req1 { std::string method, range; std::vector<Span> want; bool whole = false, refused = false, endless = false; u64 stop = 0; } q; bool busy = false, ended = false;
    auto spot = [&]() -> u64 { u64 b = pick<u64>(WORK, {1ull << 32, 1ull << 31, 0, h.hole, h.n, h.n / 2}); u64 v = b + choose(WORK, 40) - 20; return v > (1ull << 62) ? 0 : v; };
    std::shared_ptr<sim::Peer> p;
    {
        Serve s(8080);
        s.on<GET, HEAD>("/h", [](Req& req, Res& res) -> Task<> { co_await res.useRangeTransferFile<Sec<20>>(req.getRangeRequestView(), "/simfs/huge.bin"); });
        std::function<void()> ask, dialp; std::function<void(bool)> data;
        ask = [&] {
            if (!left) { ended = true; p->close(); s.stop(); return; } --left; q = {}; q.method = choose(WORK, 6) == 1 ? "HEAD" : "GET"; u32 k = choose(WORK, 4) ? 1 : 2;
            if (q.method == "GET" && choose(WORK, 7)) { q.range = "bytes="; for (u32 i = 0; i < k; ++i) { if (i) q.range += ","; u64 a = spot(), len = 1 + choose(WORK, 2000); 
                    if (choose(WORK, 4) == 1) { len = std::min<u64>(h.n, 1 + choose(WORK, 3000)); q.range += "-" + std::to_string(len); q.want.push_back({h.n - len, h.n - 1}); }
                    else if (k == 1 && choose(WORK, 3) == 1) { u64 b = choose(WORK, 2) ? a + pick<u64>(WORK, {1ull << 32, 1ull << 31, (1ull << 32) + 5}) + choose(WORK, 3) : std::max(h.n, a) + 10; q.range += std::to_string(a) + (b >= h.n && choose(WORK, 2) ? "-" : "-" + std::to_string(b)); b = std::min(b, h.n - 1); if (a < h.n) q.want.push_back({a, b}); }
                    else { u64 b = a + len - 1; q.range += std::to_string(a) + "-" + std::to_string(b); b = std::min(b, h.n - 1); if (a < h.n) q.want.push_back({a, b}); } }
                q.refused = q.want.empty(); }
            else { q.whole = true; q.want.push_back({0, h.n - 1}); }
            u64 total = 0; for (auto& x : q.want) total += x.b - x.a + 1; q.endless = q.method == "GET" && total > 20000; q.stop = q.endless ? 1 + choose(WORK, 12000) : 0; busy = true; p->rx.clear();
            note("%s %s", q.method.c_str(), q.range.c_str()); p->send(q.method + " /h HTTP/1.1\r\nHost: x\r\n" + (q.range.empty() ? "" : "Range: " + q.range + "\r\n") + "\r\n"); };
        data = [&](bool over) {
            if (!busy) { EXPECT(p->rx.empty(), "file.framing", "bytes after the answer"); return; } auto e = p->rx.find("\r\n\r\n"); const char* r = q.range.c_str(); auto N = (unsigned long long)h.n;
            EXPECT(!over, "file.broken-off", "%s '%s' of %llu bytes was broken off after %zu bytes though nothing failed", q.method.c_str(), r, N, p->rx.size()); if (e == std::string::npos) return;
            std::string head = lower(p->rx.substr(0, e + 2)); std::string_view body = std::string_view(p->rx).substr(e + 4); int st = atoi(head.c_str() + 9);
            auto field = [&](const char* k) -> std::string { auto i = head.find(std::string("\r\n") + k + ": "); if (i == head.npos) return ""; i += strlen(k) + 4; return head.substr(i, head.find('\r', i) - i); };
            std::string cl = field("content-length"), cr = field("content-range"); EXPECT(!cl.empty(), "file.framing", "'%s' of %llu bytes: no Content-Length", r, N); u64 n = num(cl);
            auto done = [&] { EXPECT(body.size() == n, "file.framing", "'%s': %zu bytes follow", r, body.size() - n); busy = false; sim::probe("answered"); sim::after(choose(WORK, 2) * MS, [&] { ask(); }); };
            if (q.refused) { EXPECT(st == 416 && (cr.empty() || cr == "bytes */" + std::to_string(h.n)), "file.status", "'%s' of %llu bytes cannot be satisfied but was answered %d, '%s'", r, N, st, cr.c_str()); if (body.size() >= n) done(); return; }
            if (q.whole) EXPECT(st == 200 && n == h.n, "file.framing", "the whole file of %llu bytes was answered %d, Content-Length %s", N, st, cl.c_str()); else EXPECT(st == 206, "file.status", "'%s' of %llu bytes was answered %d", r, N, st);
            if (q.method == "HEAD") { EXPECT(body.empty(), "file.head", "HEAD was answered with %zu bytes", body.size()); n = 0; done(); return; }
            if (q.whole || q.range.find(',') == std::string::npos) { auto& x = q.want[0]; EXPECT(body.size() <= n, "file.framing", "'%s' of %llu bytes: %zu bytes after Content-Length %s", r, N, body.size(), cl.c_str()); EXPECT(n == x.b - x.a + 1, "file.framing", "'%s' of %llu bytes: Content-Length %s", r, N, cl.c_str()); if (!q.whole) EXPECT(cr == "bytes " + std::to_string(x.a) + "-" + std::to_string(x.b) + "/" + std::to_string(h.n), "file.framing", "'%s' of %llu bytes: Content-Range '%s'", r, N, cr.c_str());
                if (q.endless ? body.size() >= q.stop : body.size() >= n) { std::string want = h.at(x.a, std::min<u64>(body.size(), n)); EXPECT(body == want, "file.content", "'%s' of %llu bytes: %s", r, N, diff(want, body).c_str()); } }
            else if (!q.endless && body.size() >= n) { std::string rest(body.substr(0, n)); auto parts = q.want; for (auto& x : parts) { std::string want = h.at(x.a, x.b - x.a + 1), cr1 = "content-range: bytes " + std::to_string(x.a) + "-" + std::to_string(x.b) + "/" + std::to_string(h.n) + "\r\n"; auto i = lower(rest).find(cr1); EXPECT(i != rest.npos, "file.range", "'%s' of %llu bytes: no part '%s'", r, N, escaped(cr1).c_str()); auto j = rest.find("\r\n\r\n", i); EXPECT(j != rest.npos && rest.compare(j + 4, want.size(), want) == 0 && rest.compare(j + 4 + want.size(), 4, "\r\n--") == 0, "file.content", "'%s' of %llu bytes: part '%s' has other content", r, N, escaped(cr1).c_str()); sim::probe("huge part"); } }
            if (q.endless) { if (body.size() >= q.stop) { sim::probe("huge transfer abandoned"); busy = false; auto old = p; old->on_data = old->on_eof = old->on_rst = nullptr; old->reset(); sim::after(MS, [&] { dialp(); }); } return; }
            if (body.size() >= n) done(); };
        dialp = [&] { p = sim::Peer::connect(8080); p->on_open = [&](sim::Peer&) { ask(); }; p->on_data = [&](sim::Peer&) { data(false); }; p->on_eof = p->on_rst = [&](sim::Peer&) { if (!ended) data(true); }; };
        when_listening(8080, [&] { dialp(); });
        s.run<Sec<20>>(); EXPECT(ended, "server.ended", "the server ended by itself");
    }
    p->on_open = p->on_data = p->on_eof = p->on_rst = nullptr; check_fds("after the server stopped");
}
