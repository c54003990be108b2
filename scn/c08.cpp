// C08: the event loop runs all work to completion and returns the outcome.
#include "common.hpp"
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
using namespace HX::coroutine;

namespace {
sockaddr_in addr_of(int port) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return a; }
struct Ring { ~Ring() { EXPECT(sim::rings_open() == 0, "loop.leak", "%d rings open after the loop was destroyed", sim::rings_open()); } };
struct Count { u64 ops = 0; int ended = 0; };
// one coroutine = one chain of operations, each with a result only that very operation can have
Task<int> chain(EventLoop& loop, Count& c, u32 id, int fd, const std::string& file, int len, bool share) {
    for (int i = 0; i < len; ++i) {
        switch (choose(WORK, 5)) {
        case 0: { int r = co_await loop.makeAioTask().prepClose(50000 + (int)id); EXPECT(r == -EBADF, "loop.result", "close of a descriptor that is not open gave %d", r); break; }
        case 1: {
            u64 off = choose(WORK, (u32)file.size()); u32 n = 1 + choose(WORK, 64); std::vector<char> b(n, '?');
            int r = co_await loop.makeAioTask().prepRead(fd, b, (unsigned)n, off);
            u64 want = std::min<u64>(n, file.size() - off);
            if (r == -EIO && cfg.read_err) break;
            EXPECT(r > 0 && (u64)r <= want && (cfg.short_read || (u64)r == want), "loop.result", "read of %u bytes at %llu gave %d", n, (unsigned long long)off, r);
            EXPECT(!memcmp(b.data(), file.data() + off, (size_t)r), "loop.result", "chain %u read foreign bytes at %llu", id, (unsigned long long)off);
            for (size_t k = (size_t)r; k < n; ++k) EXPECT(b[k] == '?', "loop.result", "read wrote past its result");
            break; }
        case 2: { int r = co_await loop.makeAioTask().prepOpenat(AT_FDCWD, "/simfs/none", O_RDONLY, 0); EXPECT(r == -ENOENT || cfg.open_err, "loop.result", "open of a missing file gave %d", r); break; }
        case 3: { if (share) co_await loop.makeTimer().sleepFor(std::chrono::microseconds(choose(WORK, 20) * 100)); else { int r = co_await loop.makeAioTask().prepRecv(fd, {}, 0); EXPECT(r == -ENOTSOCK, "loop.result", "recv on a file gave %d", r); } break; }
        case 4: { int r = co_await loop.makeAioTask().prepPollAdd(51000 + (int)id, 1); EXPECT(r == -EBADF, "loop.result", "poll of a bad descriptor gave %d", r); break; }
        }
        ++c.ops;
    }
    ++c.ended;
    co_return (int)id * 7;
}
Task<int> opener(EventLoop& loop, const char* p) { co_return co_await loop.makeAioTask().prepOpenat(AT_FDCWD, p, O_RDONLY, 0); }
Task<int> closer(EventLoop& loop, int fd) { co_return co_await loop.makeAioTask().prepClose(fd); }
}
// many operations at once, more than the submission and the completion queue hold
SIM_SCENARIO("C08", many_operations) {
    u32 n = pick<u32>(WORK, {3, 40, 1023, 1024, 1025, 1500, 2500}); if (n < 1000) n += choose(WORK, 20);
    int len = n > 500 ? (int)range(WORK, 1, 2) : (int)range(WORK, 1, 8);
    if (choose(CFG, 3) == 1) cfg.eintr_pm = 150;
    if (choose(CFG, 3) == 1) { cfg.cqe_delay_pm = 300; }
    if (choose(CFG, 3) == 1) cfg.short_read = 300;
    if (choose(CFG, 4) == 1) cfg.read_err = 30;
    static const u64 dm[] = {16, 50 * US, 5 * MS}; cfg.disk_delay_max = dm[choose(CFG, 3)];
    bool share = choose(WORK, 2), viaSync = choose(WORK, 2);
    sim::sample("%u coroutines x %d operations, timers too: %d, through %s", n, len, share, viaSync ? "sync" : "start+run");
    std::string file = payload(77, 3000); sim::fs_put("/simfs/data", file);
    Ring ring; EventLoop loop; sim::deadline(300 * SEC, "loop.hang", "event loop with finite work");
    int fd = loop.sync(opener(loop, "/simfs/data")); EXPECT(fd >= 0, "loop.result", "open gave %d", fd);
    for (u32 round = 0, rounds = range(WORK, 1, 2); round < rounds; ++round) {
        Count c; std::vector<Task<int>> v; v.reserve(n);
        auto launch = [&] { for (u32 i = 0; i < n; ++i) { v.push_back(chain(loop, c, i, fd, file, len, share)); loop.start(v.back()); } };
        if (viaSync) {
            u32 seen = 0;
            int r = loop.sync([&]() -> Task<int> { launch(); for (auto& t : v) { while (!t.getPromise().done()) co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(1)); ++seen; } co_return (int)seen; }());
            EXPECT(r == (int)n, "loop.outcome", "sync returned %d instead of %u", r, n);
        } else { launch(); loop.run(); }
        EXPECT(c.ended == (int)n && c.ops == (u64)n * (u64)len, "loop.early-return", "the loop returned with %d of %u coroutines ended, %llu of %llu operations complete", c.ended, n, (unsigned long long)c.ops, (unsigned long long)n * len);
        EXPECT(sim::ops_pending() == 0, "loop.early-return", "%llu operations pending after the loop returned", (unsigned long long)sim::ops_pending());
        for (u32 i = 0; i < n; ++i) { EXPECT(v[i].getPromise().done(), "loop.early-return", "coroutine %u unfinished", i); int r = v[i].getPromise().promise().result(); EXPECT(r == (int)i * 7, "loop.outcome", "coroutine %u returned %d", i, r); }
        u64 t0 = sim::now(); loop.run(); EXPECT(sim::now() - t0 < 10 * MS, "loop.hang", "an idle loop did not return at once");
    }
    EXPECT(loop.sync(closer(loop, fd)) == 0, "loop.result", "close failed");
}
// idle operations fill the queue: the loop must neither stall nor lose the ones that can proceed
SIM_SCENARIO("C08", idle_receivers) {
    u32 n = pick<u32>(WORK, {2, 30, 600, 1023, 1024, 1100, 2100}); u32 active = range(WORK, 1, 8);
    sim::swarm_net(); cfg.recv_err = cfg.send_err = 0; cfg.link_race_pm = 0; if (cfg.pipe_cap < 3000) cfg.pipe_cap = 3000; cfg.burst_pm = 0; if (cfg.delay_max > 2 * MS) cfg.delay_max = 2 * MS;
    sim::sample("%u idle receives, %u connections taking turns", n, active);
    std::vector<std::shared_ptr<sim::Peer>> peers; std::vector<std::string> sent;
    auto L = sim::Listener::listen(9000, [&](std::shared_ptr<sim::Peer> p) { sim::Peer* q = p.get(); peers.push_back(p); p->on_data = [q](sim::Peer&) { std::string d = q->rx; q->rx.clear(); q->send(d); }; });
    Ring ring; EventLoop loop; sim::deadline(300 * SEC, "loop.hang", "event loop with idle receives and active connections");
    u32 idleEnded = 0, got = 0; bool finishing = false;
    loop.sync([&]() -> Task<> {
        auto conn = [&](int* fd) -> Task<> { *fd = co_await loop.makeAioTask().prepSocket(AF_INET, SOCK_STREAM, IPPROTO_TCP, 0); auto a = addr_of(9000); int r = co_await loop.makeAioTask().prepConnect(*fd, (sockaddr*)&a, sizeof a); EXPECT(r == 0, "loop.result", "connect gave %d", r); };
        std::vector<int> afd(active); int ifd;
        for (auto& f : afd) co_await conn(&f);
        co_await conn(&ifd);
        char ib[1]; std::vector<Task<>> idle, act; idle.reserve(n);
        auto idler = [&](u32 k) -> Task<> { char b = 0; int r = co_await loop.makeAioTask().prepRecv(ifd, {&b, 1}, 0); EXPECT(finishing, "loop.result", "idle receive %u completed with %d though nothing was sent", k, r); EXPECT(r == 0, "loop.result", "idle receive got %d at end of stream", r); ++idleEnded; };
        for (u32 k = 0; k < n; ++k) { idle.push_back(idler(k)); loop.start(idle.back()); }
        (void)ib;
        auto actor = [&](u32 k) -> Task<> {
            for (u32 i = 0; i < 5; ++i) {
                std::string m = payload(k * 100 + i, 1 + choose(WORK, 60)), back;
                for (size_t o = 0; o < m.size();) { int r = co_await loop.makeAioTask().prepSend(afd[k], std::span<char const>(m).subspan(o), 0); EXPECT(r > 0, "loop.result", "send gave %d", r); o += (size_t)r; }
                while (back.size() < m.size()) { char b[32]; int r = co_await loop.makeAioTask().prepRecv(afd[k], b, 0); EXPECT(r > 0, "loop.result", "recv gave %d", r); back.append(b, (size_t)r); }
                EXPECT(back == m, "loop.result", "connection %u received another operation's bytes", k);
            }
            ++got;
        };
        for (u32 k = 0; k < active; ++k) { act.push_back(actor(k)); loop.start(act.back()); }
        u64 t0 = sim::now();
        while (got < active) { co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(1)); EXPECT(sim::now() - t0 < 30 * SEC, "loop.hang", "only %u of %u active connections progressed beside %u idle receives", got, active, n); }
        finishing = true; peers[active]->fin();
        while (idleEnded < n) { co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(1)); EXPECT(sim::now() - t0 < 60 * SEC, "loop.lost", "only %u of %u idle receives completed at end of stream", idleEnded, n); }
        for (int f : afd) (void)co_await loop.makeAioTask().prepClose(f);
        (void)co_await loop.makeAioTask().prepClose(ifd);
    }());
    EXPECT(idleEnded == n && got == active, "loop.early-return", "loop ended early");
    EXPECT(sim::ops_pending() == 0, "loop.early-return", "%llu operations pending", (unsigned long long)sim::ops_pending());
}
// values and exceptions come out as they were produced, and the loop stays usable
SIM_SCENARIO("C08", outcomes) {
    if (choose(CFG, 3) == 1) cfg.eintr_pm = 200;
    if (choose(CFG, 3) == 1) cfg.cqe_delay_pm = 300;
    u32 n = range(WORK, 1, 12); sim::sample("%u syncs on one loop", n);
    Ring ring; EventLoop loop; sim::deadline(120 * SEC, "loop.hang", "sequence of sync calls");
    for (u32 i = 0; i < n; ++i) {
        u32 kind = choose(WORK, 6), depth = range(WORK, 0, 6), mode = choose(WORK, 5);
        int live = 0;
        struct G { int& l; G(int& x) : l(x) { ++l; } ~G() { --l; } };
        std::function<Task<std::string>(u32)> f = [&](u32 d) -> Task<std::string> {
            G g(live);
            if (d) { auto s = co_await f(d - 1); co_return s + "."; }
            if (kind == 1 || kind == 4) (void)co_await loop.makeAioTask().prepClose(60000);
            if (kind == 2 || kind == 5) co_await loop.makeTimer().sleepFor(std::chrono::microseconds(1 + choose(WORK, 3000)));
            if (kind >= 3) throw std::runtime_error("boom" + std::to_string(i));
            co_return "v" + std::to_string(i);
        };
        std::string want = "v" + std::to_string(i) + std::string(depth, '.'), boom = "boom" + std::to_string(i);
        if (mode == 0) {
            bool threw = false; std::string r;
            try { r = loop.sync(f(depth)); } catch (std::runtime_error& e) { threw = true; EXPECT(kind >= 3 && boom == e.what(), "loop.outcome", "sync threw '%s'", e.what()); }
            EXPECT(threw == (kind >= 3) && (threw || r == want), "loop.outcome", "sync gave '%s' instead of '%s' (threw %d)", r.c_str(), want.c_str(), threw);
        } else if (mode == 1) {
            auto r = loop.trySync(f(depth));
            EXPECT((bool)r == (kind < 3), "loop.outcome", "trySync reports success %d for kind %u", (bool)r, kind);
            if (r) EXPECT(r.move() == want, "loop.outcome", "trySync value differs");
            else { bool ok = false; try { r.rethrow(); } catch (std::runtime_error& e) { ok = boom == e.what(); } EXPECT(ok, "loop.outcome", "trySync exception differs"); }
        } else if (mode == 3) { // caught inside the loop: the outcome of one coroutine as a value of another
            std::string got, err; bool isVoid = choose(WORK, 2), ok = false;
            loop.sync([&]() -> Task<> {
                if (isVoid) { bool ran = false; auto t = co_await loop.tryAsync([&]() -> Task<> { (void)co_await f(depth); ran = true; }()); ok = (bool)t; EXPECT(ran == ok, "loop.outcome", "void tryAsync reports %d, ran %d", ok, ran); if (!ok) try { t.rethrow(); } catch (std::runtime_error& e) { err = e.what(); } }
                else { auto t = co_await loop.tryAsync(f(depth)); ok = (bool)t; if (ok) got = t.move(); else try { t.rethrow(); } catch (std::runtime_error& e) { err = e.what(); } }
                co_await loop.makeTimer().sleepFor(std::chrono::microseconds(100)); }());
            EXPECT(ok == (kind < 3) && (ok ? isVoid || got == want : err == boom), "loop.outcome", "tryAsync: success %d, '%s', '%s' for kind %u", ok, got.c_str(), err.c_str(), kind);
        } else if (mode == 4) { // a value that can only be moved, and a refused nested call that must leave the loop usable
            int refused = -1, bg = 0; bool threw = false; std::unique_ptr<std::string> r;
            auto g = [&]() -> Task<std::unique_ptr<std::string>> { auto side = [&]() -> Task<> { bg = co_await loop.makeAioTask().prepClose(60001); }; auto t = side(); loop.start(t); try { loop.trySync(f(0)); refused = 0; } catch (std::runtime_error&) { refused = 1; } while (!t.getPromise().done()) co_await loop.makeTimer().sleepFor(std::chrono::microseconds(200)); co_return std::make_unique<std::string>(co_await f(depth)); };
            try { r = loop.sync(g()); } catch (std::runtime_error& e) { threw = boom == e.what(); }
            EXPECT(refused == 1, "loop.outcome", "a nested synchronous call inside the loop was not refused"); EXPECT(bg == -EBADF, "loop.result", "background close gave %d", bg); EXPECT(threw == (kind >= 3) && (bool)r == (kind < 3) && (!r || *r == want), "loop.outcome", "moved value: %d, threw %d", (bool)r, threw);
        } else {
            bool threw = false, ran = false;
            try { loop.sync([&]() -> Task<> { (void)co_await f(depth); ran = true; }()); } catch (std::runtime_error& e) { threw = boom == e.what(); }
            EXPECT(threw == (kind >= 3) && ran == (kind < 3), "loop.outcome", "void sync: threw %d ran %d", threw, ran);
        }
        EXPECT(live == 0, "loop.leak", "%d coroutine frames alive after sync returned", live);
        EXPECT(sim::ops_pending() == 0, "loop.early-return", "operations pending after sync");
    }
}
