// C09: stream and file primitives move exactly the bytes asked for.
#include "common.hpp"
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/net/socket/IO.hpp>
#include <HXLibs/utils/FileUtils.hpp>
#include <arpa/inet.h>
#include <netinet/in.h>
using namespace HX; using namespace HX::coroutine;
template <typename T, size_t N> using TO = utils::TimeNTTP<T, N>;
using T20 = TO<std::chrono::milliseconds, 20>; using T300 = TO<std::chrono::milliseconds, 300>; using T5s = TO<std::chrono::seconds, 5>;

namespace {
Task<int> dial(EventLoop& loop, int port) {
    int fd = co_await loop.makeAioTask().prepSocket(AF_INET, SOCK_STREAM, IPPROTO_TCP, 0); EXPECT(fd >= 0, "harness.io", "socket");
    auto a = std::make_unique<sockaddr_in>(); a->sin_family = AF_INET; a->sin_port = htons((uint16_t)port); a->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int r = co_await loop.makeAioTask().prepConnect(fd, (sockaddr*)a.get(), sizeof *a); EXPECT(r == 0, "harness.io", "connect %d", r);
    co_return fd;
}
template <typename T> Task<> sendT(net::HttpIO& io, std::span<char const> b) { co_await io.sendLinkTimeout<T>(b); }
u64 timeoutOf(u32 k) { return k == 0 ? 20 * MS : k == 1 ? 300 * MS : 5 * SEC; }
struct RecvRes { int n; bool timedout; };
template <typename T> Task<RecvRes> recvT(net::HttpIO& io, std::span<char> b) { auto r = co_await io.recvLinkTimeout<T>(b); if (r.index() == 1) co_return RecvRes{0, true}; co_return RecvRes{r.template get<0>(), false}; }
Task<RecvRes> recvK(net::HttpIO& io, std::span<char> b, u32 k) { return k == 0 ? recvT<T20>(io, b) : k == 1 ? recvT<T300>(io, b) : recvT<T5s>(io, b); }
Task<> sendK(net::HttpIO& io, std::span<char const> b, u32 k) { return k == 0 ? sendT<T20>(io, b) : k == 1 ? sendT<T300>(io, b) : sendT<T5s>(io, b); }
}
SIM_SCENARIO("C09", streams) {
    sim::swarm_net(); cfg.burst_pm = 0;
    u32 tx = pick<u32>(WORK, {300, 1, 5000, 70000}) + choose(WORK, 300), rx = pick<u32>(WORK, {300, 1, 5000, 40000}) + choose(WORK, 300);
    if (cfg.seg_mode == 3) { tx = std::min(tx, 1500u); rx = std::min(rx, 1500u); }
    u32 cut = choose(FAULT, 4);                     // 0,1 none, 2 the peer ends early, 3 the peer resets
    u64 rxcut = cut >= 2 ? choose(FAULT, rx) : rx, txcut = cut == 3 ? choose(FAULT, tx) : ~0ull;
    bool slow = choose(FAULT, 4) == 3;              // the peer stops reading for a while
    sim::sample("send %u bytes, receive %u bytes, seg mode %u, cut %u at %llu, slow reader %d", tx, rx, cfg.seg_mode, cut, (unsigned long long)rxcut, slow);
    std::string out = payload(1, tx), in = payload(2, rx); std::shared_ptr<sim::Peer> peer;
    auto L = sim::Listener::listen(9000, [&](std::shared_ptr<sim::Peer> p) {
        peer = p; sim::Peer* q = p.get();
        q->on_data = [&, q](sim::Peer&) { EXPECT(q->rx.size() <= out.size() && !memcmp(q->rx.data(), out.data(), q->rx.size()), "io.sent", "the connection carries bytes that were not sent, at %zu", q->rx.size()); if (q->rx.size() >= txcut) q->reset(); };
        for (u64 o = 0; o < rxcut;) { u64 n = std::min<u64>(rxcut - o, 1 + choose(NET, 1 + (u32)rx / 3)); u64 at = (u64)choose(NET, 40) * MS; std::string s = in.substr(o, n); o += n; bool last = o >= rxcut; (void)at;
            sim::after((o * 40 / (rx + 1)) * MS, [&, q, s, last] { if (q->closed) return; q->send(s); if (last && cut == 2) q->fin(); }); }
        if (rxcut == 0 && cut == 2) sim::after(MS, [q] { q->fin(); });
        if (cut == 3) sim::after(60 * MS, [q] { if (!q->closed) q->reset(); });
        if (slow) { q->set_reading(false); sim::fault("slow_reader"); sim::after(choose(FAULT, 20) * 50 * MS, [q] { q->set_reading(true); }); }
    });
    EventLoop loop; sim::deadline(200 * SEC, "io.hang", "send and receive on one connection");
    bool sdone = false, rdone = false, sok = false, rok = false; std::string got;
    loop.sync([&]() -> Task<> {
        int fd = co_await dial(loop, 9000); net::HttpIO io{fd, loop};
        auto sender = [&]() -> Task<> {
            try { for (size_t o = 0; o < out.size();) { size_t n = std::min<size_t>(out.size() - o, pick<u32>(WORK, {4000, 1, 100, 70000})); std::vector<char> b(out.begin() + (long)o, out.begin() + (long)(o + n));
                if (choose(WORK, 3)) co_await io.fullySend(b); else co_await sendK(io, b, 2); o += n; } sok = true; } catch (std::exception&) { }
            sdone = true; };
        auto receiver = [&]() -> Task<> {
            try { while (got.size() < in.size()) {
                u32 left = (u32)(in.size() - got.size()), n = 1 + choose(WORK, std::min(left, pick<u32>(WORK, {20, 1, 700, 40000}))); n = std::min(n, left); std::vector<char> b(n, '?');
                switch (choose(WORK, 4)) {
                case 0: case 1: co_await io.fullyRecv(b); got.append(b.data(), n); break;
                case 2: { int r = co_await io.recv(b); if (r <= 0) throw std::runtime_error("end"); got.append(b.data(), (size_t)r); break; }
                default: { auto r = co_await recvK(io, b, choose(WORK, 3)); if (r.timedout) break; if (r.n <= 0) throw std::runtime_error("end"); got.append(b.data(), (size_t)r.n); }
                }
                EXPECT(got.size() <= rxcut, "io.invented", "received %zu bytes though only %llu were sent", got.size(), (unsigned long long)rxcut);
                EXPECT(!memcmp(got.data(), in.data(), got.size()), "io.received", "received bytes differ from the stream before %zu", got.size());
            } rok = true; } catch (std::exception&) { }
            rdone = true; };
        auto s = sender(); auto r = receiver(); loop.start(s); loop.start(r);
        u64 t0 = sim::now();
        while (!sdone || !rdone) { co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(5)); EXPECT(sim::now() - t0 < 100 * SEC, "io.hang", "%s does not end (cut %u at %llu of %u)", !rdone ? "receiving" : "sending", cut, (unsigned long long)rxcut, rx); }
        u64 w0 = sim::now(); while (sok && cut < 2 && peer->rx.size() < out.size() && sim::now() - w0 < 30 * SEC) co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(5));
        (void)co_await io.close();
    }());
    if (cut < 2) { EXPECT(sok && rok, "io.spurious", "an undisturbed transfer failed (send %d receive %d)", sok, rok); EXPECT(peer->rx == out, "io.sent", "peer got %zu of %zu bytes", peer->rx.size(), out.size()); }
    else EXPECT(!rok, "io.invented", "receiving succeeded although the stream ended early");
    EXPECT(sim::open_fds().size() <= 1 && !sim::bad_closes(), "io.fd", "descriptors left open or closed twice");
}
// deadlines: data or a timeout report, close to the deadline; the abandoned operation touches nothing
SIM_SCENARIO("C09", timeouts) {
    sim::swarm_net(); cfg.burst_pm = 0; if (cfg.delay_max > 2 * MS) cfg.delay_max = 2 * MS; cfg.pipe_cap = 1 << 14; if (choose(CFG, 2)) cfg.link_race_pm = 500; if (choose(CFG, 3) == 1) cfg.cqe_delay_pm = 400;
    u32 n = range(WORK, 1, 14); u64 skew = pick<u64>(WORK, {0, 50 * US, 100 * US, 3 * MS});
    sim::sample("%u timed receives, arrivals around the deadline (spread %llu us)", n, (unsigned long long)(skew / 1000));
    std::string in = payload(3, 100000); u64 sent = 0; std::shared_ptr<sim::Peer> peer;
    auto L = sim::Listener::listen(9000, [&](std::shared_ptr<sim::Peer> p) { peer = p; });
    EventLoop loop; sim::deadline(120 * SEC, "io.hang", "timed receives");
    loop.sync([&]() -> Task<> {
        int fd = co_await dial(loop, 9000); net::HttpIO io{fd, loop}; std::string got; u32 tos = 0;
        for (u32 i = 0; i < n; ++i) {
            u32 k = choose(WORK, 2); u64 to = timeoutOf(k), t0 = sim::now(); bool late = choose(WORK, 3) == 2;
            u64 lat = cfg.delay_min; if (!late) { u64 at = choose(WORK, 3) == 0 ? 0 : (to > lat + skew ? to - lat - skew : 0) + (skew ? (u64)choose(WORK, 33) * (skew / 16) : choose(WORK, 33) * 10 * US);
                u32 m = 1 + choose(WORK, 900); sim::after(at, [&, m] { if (peer && !peer->closed) { peer->send(in.substr(sent, m)); sent += m; } }); }
            u32 len = pick<u32>(WORK, {100, 1, 5000}); RecvRes r;
            { auto b = std::make_unique<char[]>(len); memset(b.get(), '?', len); r = co_await recvK(io, {b.get(), len}, k);
              if (!r.timedout && r.n > 0) got.append(b.get(), (size_t)r.n); else for (u32 q = 0; q < len; ++q) EXPECT(b[q] == '?', "io.invented", "a timed-out receive changed the buffer"); }
            u64 took = sim::now() - t0;
            if (r.timedout) { ++tos; EXPECT(took + 1 >= to, "io.early-timeout", "timeout reported after %.3f of %.3f ms", took / 1e6, to / 1e6); }
            else EXPECT(r.n > 0, "io.spurious", "receive on an open connection gave %d", r.n);
            EXPECT(took < to + 60 * MS, "io.late-timeout", "a receive with a timeout of %.0f ms took %.3f ms", to / 1e6, took / 1e6);
            EXPECT(got.size() <= sent && !memcmp(got.data(), in.data(), got.size()), "io.received", "bytes lost or damaged around a timeout before %zu", got.size());
            if (choose(WORK, 3) == 0) co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(choose(WORK, 10)));
        }
        // nothing was swallowed by the abandoned receives
        u64 t1 = sim::now(); co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(700));
        while (got.size() < sent) { std::vector<char> b(4000); auto r = co_await recvK(io, b, 1); EXPECT(!r.timedout && r.n > 0, "io.lost", "%llu bytes sent, only %zu arrived: an abandoned receive swallowed data", (unsigned long long)sent, got.size()); got.append(b.data(), (size_t)r.n); EXPECT(sim::now() - t1 < 30 * SEC, "io.hang", "drain"); }
        EXPECT(got == in.substr(0, sent), "io.received", "stream damaged");
        // a send that cannot proceed reports its timeout
        if (choose(WORK, 2)) {
            peer->set_reading(false); std::string big = payload(4, 200000); bool threw = false; u64 t2 = sim::now();
            try { co_await sendK(io, big, 1); } catch (std::exception&) { threw = true; }
            EXPECT(threw, "io.sent", "sending 200000 bytes to a peer that reads nothing succeeded"); EXPECT(sim::now() - t2 < 30 * SEC, "io.late-timeout", "send timeout after %.3f s", (sim::now() - t2) / 1e9);
        }
        note("timeouts %u", tos); if (tos) sim::probe("recv_timed_out");
        (void)co_await io.close();
    }());
    EXPECT(sim::open_fds().size() <= 1 && !sim::bad_closes(), "io.fd", "descriptors left open or closed twice");
}
SIM_SCENARIO("C09", files) {
    sim::swarm_disk(); bool faults = choose(CFG, 2);
    if (faults) { cfg.read_err = choose(FAULT, 3) == 1 ? 40 : 0; cfg.write_err = choose(FAULT, 3) == 1 ? 40 : 0; cfg.open_err = choose(FAULT, 4) == 1 ? 100 : 0; if (choose(FAULT, 3) == 1) cfg.disk_cap = choose(FAULT, 60) * 500; }
    if (choose(CFG, 4) == 1) cfg.eintr_pm = 100;
    u32 nf = range(WORK, 1, 3), ops = range(WORK, 2, 14);
    sim::sample("%u files x %u operations, faults %d", nf, ops, faults);
    EventLoop loop; sim::deadline(120 * SEC, "io.hang", "file operations"); u32 ended = 0;
    auto worker = [&](u32 id) -> Task<> {
        // the path is a view into a longer buffer: only its own characters name the file
        std::string name = "/simfs/f" + std::to_string(id); std::string longer = name + "_tail"; std::string_view path = choose(WORK, 3) == 2 ? std::string_view(longer).substr(0, name.size()) : std::string_view(name);
        std::string model; bool exists = choose(WORK, 2); if (exists) { model = payload(50 + id, pick<u32>(WORK, {1000, 0, 1, 140000})); sim::fs_put(name, model); }
        for (u32 i = 0; i < ops; ++i) {
            u32 mode = choose(WORK, 4); utils::AsyncFile f{loop}; bool open = false;
            try { co_await f.open(path, mode == 0 ? utils::OpenMode::Read : mode == 1 ? utils::OpenMode::Write : mode == 2 ? utils::OpenMode::ReadWrite : utils::OpenMode::Append); open = true; }
            catch (std::exception&) { EXPECT((mode == 0 && !exists) || cfg.open_err, "file.open", "opening %s in mode %u failed (exists %d)", name.c_str(), mode, exists); }
            if (!open) continue;
            EXPECT(exists || mode != 0, "file.open", "a missing file was opened for reading"); EXPECT(sim::fs_exists(name) && !sim::fs_exists(longer), "file.open", "another file than the named one was opened");
            exists = true; if (mode == 1) model.clear();
            bool broken = false;
            if (mode == 0 || mode == 2) {
                u32 kind = choose(WORK, 3); u64 off = 0;
                try {
                    if (kind == 0) { std::string all = co_await f.readAll(); EXPECT(all == model, "file.read", "readAll gave %zu bytes of a file of %zu, or other bytes", all.size(), model.size()); }
                    else { if (kind == 2) { off = choose(WORK, (u32)model.size() + 5); f.setOffset(off); }
                        for (u32 k = 0; k < 200; ++k) { std::vector<char> b(1 + choose(WORK, pick<u32>(WORK, {400, 10, 60000})), '?'); int r = co_await f.read(b); u64 left = off < model.size() ? model.size() - off : 0;
                            EXPECT(r >= 0 && (u64)r <= left && (u64)r <= b.size(), "file.read", "read gave %d with %llu bytes left", r, (unsigned long long)left); EXPECT(!memcmp(b.data(), model.data() + std::min<u64>(off, model.size()), (size_t)r), "file.read", "read bytes differ at %llu", (unsigned long long)off);
                            if (!r) { EXPECT(!left, "file.read", "end of file reported %llu bytes early", (unsigned long long)left); break; } off += (u64)r; } }
                } catch (std::exception&) { EXPECT(cfg.read_err, "file.read", "reading failed without a fault"); }
            }
            if (mode != 0 && !broken) {
                u64 pos = mode == 3 ? model.size() : 0;
                for (u32 k = 0, kn = range(WORK, 1, 4); k < kn; ++k) {
                    std::string d = payload(id * 1000 + i * 10 + k, choose(WORK, pick<u32>(WORK, {300, 5, 9000, 150000})));
                    bool ok = true; { std::vector<char> b(d.begin(), d.end()); try { co_await f.write(b); } catch (std::exception&) { ok = false; } }
                    std::string now_ = sim::fs_get(name);
                    if (!ok) { EXPECT(cfg.write_err || cfg.disk_cap != ~0ull, "file.write", "writing failed without a fault"); model = now_; break; }
                    if (model.size() < pos + d.size()) model.resize(pos + d.size()); memcpy(model.data() + pos, d.data(), d.size()); pos += d.size();
                    EXPECT(now_ == model, "file.write", "write of %zu bytes reported success, the file holds %zu bytes instead of %zu, or other bytes", d.size(), now_.size(), model.size());
                }
            }
            try { co_await f.close(); } catch (std::exception&) { EXPECT(cfg.close_err, "file.close", "close failed"); }
        }
        ++ended;
    };
    { std::vector<Task<>> v; for (u32 i = 0; i < nf; ++i) { v.push_back(worker(i)); loop.start(v.back()); } loop.run(); }
    EXPECT(ended == nf, "io.hang", "the loop returned early");
    EXPECT(sim::open_fds().size() <= 1 && !sim::bad_closes(), "io.fd", "%zu descriptors left open", sim::open_fds().size() - 1);
}
// offsets and lengths beyond 32 bits
SIM_SCENARIO("C09", huge_offsets) {
    sim::swarm_disk(); cfg.open_err = cfg.write_err = cfg.close_err = 0; cfg.read_err = choose(FAULT, 4) == 1 ? 20 : 0; u64 size = pick<u64>(WORK, {1ull << 32, 1ull << 31, 1ull << 33, 1ull << 42}) + choose(WORK, 9000) - 100; std::string tail = payload(9, 1 + choose(WORK, 9000)); u64 hole = size - tail.size(); sim::fs_put("/simfs/big", tail, hole);
    sim::sample("a file of %llu bytes", (unsigned long long)size); EventLoop loop; sim::deadline(120 * SEC, "io.hang", "file operations"); EXPECT(utils::FileUtils::getFileSize("/simfs/big") == size, "file.size", "getFileSize");
    loop.sync([&]() -> Task<> {
        utils::AsyncFile f{loop}; co_await f.open("/simfs/big", choose(WORK, 2) ? utils::OpenMode::Read : utils::OpenMode::ReadWrite);
        for (u32 i = range(WORK, 1, 6); i--;) {
            u64 off = pick<u64>(WORK, {hole, 1ull << 32, 1ull << 31, size, size - 1, 0, 3ull << 31}) + choose(WORK, 3000); off = off > 1500 ? off - 1500 : off; f.setOffset(off);
            try { for (u32 k = range(WORK, 1, 6); k--;) {
                std::vector<char> b(1 + choose(WORK, 3000), '?'); u32 n = choose(WORK, 2) ? (u32)b.size() : 1 + choose(WORK, (u32)b.size()); int r = n == b.size() ? co_await f.read(b) : co_await f.read(b, n); u64 left = off < size ? size - off : 0;
                EXPECT(r >= 0 && (u64)r <= std::min<u64>(left, n) && (r || !left), "file.read", "read of %u bytes at %llu of %llu gave %d", n, (unsigned long long)off, (unsigned long long)size, r);
                for (int j = 0; j < r; ++j) { u64 p = off + (u64)j; EXPECT(b[(size_t)j] == (p < hole ? sim::fs_hole_byte(p) : tail[p - hole]), "file.read", "byte %llu of %llu read wrong", (unsigned long long)p, (unsigned long long)size); }
                for (size_t j = (size_t)r; j < b.size(); ++j) EXPECT(b[j] == '?', "file.read", "read wrote past what it reported");
                if (!r) break; off += (u64)r; } }
            catch (std::exception&) { EXPECT(cfg.read_err, "file.read", "reading failed without a fault"); }
        }
        co_await f.close(); }());
    EXPECT(sim::open_fds().size() <= 1 && !sim::bad_closes(), "io.fd", "descriptors left open");
}
