// Simulated kernel: io_uring, TCP sockets, files, and the synchronous libc calls the library makes.
// The real liburing code runs on top of it (its `syscall` instructions are redirected to sim_kernel).
#include "internal.hpp"
#include <liburing.h>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {

constexpr int FD_BASE = 100;
constexpr int EOLD = 125;      // ECANCELED
struct Ring; struct Sock; struct VFile;
struct File { virtual ~File() {} virtual const char* kind() const = 0; virtual void released() {} };
using FileP = std::shared_ptr<File>;
struct FdEnt { FileP f; const char* origin; };
static std::map<int, FdEnt>* g_fds;
static int g_bad_close, g_bad_ops, g_syn, g_ephemeral;
static u64 g_pending;
static std::list<std::shared_ptr<Ring>>* g_rings;

struct Op {
    std::shared_ptr<Ring> ring; u64 ud = 0; int code = 0; int fd = -1; void* buf = nullptr; u32 len = 0; u64 off = 0;
    u32 flags = 0; FileP file; bool done = false, posted = false, uncancellable = false; std::shared_ptr<Op> timeout, target;
    std::string path; u64 id = 0; u64 addr2 = 0, due = 0;
};
using OpP = std::shared_ptr<Op>;

struct Ring : File, std::enable_shared_from_this<Ring> {
    int id = 0; char* base = nullptr; u32 sqn = 0, cqn = 0; io_uring_sqe* sqes = nullptr; bool dead = false;
    std::deque<std::pair<u64, int>> overflow; std::set<OpP> ops;
    const char* kind() const override { return "ring"; }
    u32& w(u32 off) { return *(u32*)(base + off); }
    u32 ld(u32 off) { return __atomic_load_n((u32*)(base + off), __ATOMIC_ACQUIRE); }
    void st(u32 off, u32 v) { __atomic_store_n((u32*)(base + off), v, __ATOMIC_RELEASE); }
    u32 ready() { return ld(36) - ld(32); }
    void put(u64 ud, int res) {
        u32 t = ld(36);
        auto* c = (io_uring_cqe*)(base + 64) + (t & (cqn - 1));
        c->user_data = ud; c->res = res; c->flags = 0; st(36, t + 1);
    }
    void flush() { while (!overflow.empty() && ready() < cqn) { put(overflow.front().first, overflow.front().second); overflow.pop_front(); }
        if (overflow.empty()) st(16, ld(16) & ~IORING_SQ_CQ_OVERFLOW); }
    void post(u64 ud, int res) {
        if (dead) return;
        if (!overflow.empty() || ready() >= cqn) { overflow.push_back({ud, res}); st(16, ld(16) | IORING_SQ_CQ_OVERFLOW); probe("cq_overflow"); }
        else put(ud, res);
        for (Thr* t : threads()) if (t->st == T_BLOCKED && t->waddr == this && ready() >= t->wparam) make_runnable(t, false);
    }
    u32 cq_off() const { return 64; }
};

// ---------------------------------------------------------------- TCP model
struct Conn : std::enable_shared_from_this<Conn> {
    struct Dir { std::string rbuf; u64 off = 0, inflight = 0, last = 0; bool fin_sent = false, fin = false; };
    Dir d[2];                       // d[i]: data sent BY side i, waiting for side 1-i
    bool released[2] = {false, false}, rst_sent[2] = {false, false}, rst_in[2] = {false, false};
    int  err[2] = {0, 0};           // pending socket error of side i
    bool done_err[2] = {false, false};
    std::weak_ptr<Sock> sock[2]; std::weak_ptr<Peer> peer[2]; bool is_peer[2] = {false, false};
    u64 id = 0;
    u64 avail(int side) const { return d[1 - side].rbuf.size() - d[1 - side].off; }
    u64 used(int side) const { return d[side].rbuf.size() - d[side].off + d[side].inflight; }
    void notify(int side);
    u64 arrive(int side, u64 extra = 0) {
        u64 dl = cfg.delay_min; if (cfg.delay_max > cfg.delay_min) dl += choose(NET, 17) * ((cfg.delay_max - cfg.delay_min) / 16);
        if (cfg.burst_pm && chance(FAULT, cfg.burst_pm)) { dl += (u64)(1 + choose(FAULT, 8)) * (cfg.burst_max / 8); fault("delay_burst"); }
        u64 t = now() + dl + extra; if (t < d[side].last) t = d[side].last; d[side].last = t; return t;
    }
    void push(int side, std::string_view s) {
        while (!s.empty()) {
            u64 n = s.size();
            if (cfg.seg_mode == 1) n = choose(NET, 4) ? 1 + choose(NET, (u32)n) : n;
            else if (cfg.seg_mode == 2) n = 1 + choose(NET, 24);
            else if (cfg.seg_mode == 3) n = 1;
            else if (n > 65536) n = 65536;
            if (n > s.size()) n = s.size();
            d[side].inflight += n;
            auto self = shared_from_this(); std::string seg(s.substr(0, n)); s.remove_prefix(n);
            at(arrive(side), [self, side, seg = std::move(seg)] {
                self->d[side].inflight -= seg.size();
                int o = 1 - side;
                if (self->rst_in[o]) return;
                if (self->released[o]) { self->send_rst(o); return; }
                auto& D = self->d[side];
                if (D.off) { D.rbuf.erase(0, D.off); D.off = 0; }
                D.rbuf += seg; self->notify(o);
            });
        }
    }
    void send_fin(int side) {
        if (d[side].fin_sent || rst_sent[side]) return;
        d[side].fin_sent = true; auto self = shared_from_this();
        at(arrive(side), [self, side] { int o = 1 - side; if (self->rst_in[o]) return; self->d[side].fin = true; if (!self->released[o]) self->notify(o); });
    }
    void send_rst(int side) {
        if (rst_sent[side]) return;
        rst_sent[side] = true; auto self = shared_from_this();
        at(arrive(side), [self, side] { int o = 1 - side; if (self->rst_in[o]) return; self->rst_in[o] = true; self->err[o] = self->d[side].fin ? EPIPE : ECONNRESET; if (!self->released[o]) self->notify(o); });
    }
    void release(int side) {        // the endpoint went away (descriptor closed)
        if (released[side]) return;
        bool unread = avail(side) > 0;
        released[side] = true;
        if (rst_in[side]) return;
        if (unread) send_rst(side); else send_fin(side);
    }
    // returns >0 bytes, 0 EOF, -errno, or -EAGAIN
    long recv(int side, char* out, u64 n) {
        u64 a = avail(side);
        if (a) { auto& D = d[1 - side]; u64 k = n < a ? n : a; memcpy(out, D.rbuf.data() + D.off, k); D.off += k; if (D.off == D.rbuf.size()) { D.rbuf.clear(); D.off = 0; } return (long)k; }
        if (err[side]) { int e = err[side]; err[side] = 0; return -e; }
        if (rst_in[side] || d[1 - side].fin) return 0;
        return -EAGAIN;
    }
    long send(int side, const char* p, u64 n) {
        if (err[side]) { int e = err[side]; err[side] = 0; return -e; }
        if (rst_in[side] || d[side].fin_sent) return -EPIPE;
        u64 u = used(side); u64 room = cfg.pipe_cap > u ? cfg.pipe_cap - u : 0;
        if (!room && n) return -EAGAIN;
        if (n > room) n = room;
        push(side, {p, n}); return (long)n;
    }
    void drained(int side) { notify(1 - side); }   // reader consumed: the writer may continue
};
static u64 g_connid, g_opid;

struct Sock : File, std::enable_shared_from_this<Sock> {
    enum S { NEW, BOUND, LISTEN, CONNECTING, CONNECTED, DEAD } st = NEW;
    int port = 0; bool reuseport = false; std::shared_ptr<Conn> c; int side = 0; int cerr = 0;
    std::deque<std::shared_ptr<Conn>> backlog; std::list<OpP> rops, wops, aops, cops;
    const char* kind() const override { return st == LISTEN ? "listener" : "socket"; }
    ~Sock() override;
    void pump();
};
static std::vector<std::weak_ptr<Sock>>* g_listen;        // library listeners
static std::map<int, std::weak_ptr<Listener>>* g_peerlisten;

void Conn::notify(int side) {
    if (is_peer[side]) { if (auto p = peer[side].lock()) { InSim _; p->pump(); } }
    else if (auto s = sock[side].lock()) s->pump();
}

static void complete(const OpP& op, int res);
static void finish(const OpP& op, int res);

Sock::~Sock() {
    if (c) c->release(side);
    for (auto& b : backlog) { b->released[1] = true; b->send_rst(1); }
    if (g_listen) for (auto it = g_listen->begin(); it != g_listen->end();) { if (it->expired()) it = g_listen->erase(it); else ++it; }
}
static const char* g_origin = "sync";
static int new_fd(FileP f, const char* origin) {
    int fd = FD_BASE; for (auto& [k, v] : *g_fds) { if (k != fd) break; ++fd; }
    (*g_fds)[fd] = {std::move(f), origin}; return fd;
}
static bool fd_limit() { if (g_fds->size() >= cfg.conn_limit) { fault("EMFILE"); return true; } return false; }
static FileP get_fd(int fd) { auto it = g_fds->find(fd); return it == g_fds->end() ? nullptr : it->second.f; }
static int do_close(int fd) {
    auto it = g_fds->find(fd);
    if (it == g_fds->end()) { g_bad_close += fd != -1; tr("bad-close", fd); return -EBADF; }
    tr("close", fd);
    FileP f = it->second.f; g_fds->erase(it);
    if (f) f->released();
    f.reset();
    if (chance(FAULT, cfg.close_err)) { fault("close_error"); return -EIO; }
    return 0;
}

void Sock::pump() {
    auto keep = shared_from_this();
    while (!rops.empty() && c && st == CONNECTED) {
        OpP op = rops.front();
        u64 n = op->len;
        if (n > 1 && c->avail(side) > 1 && chance(NET, cfg.short_recv)) { u64 m = n < c->avail(side) ? n : c->avail(side); n = 1 + choose(NET, (u32)m); }
        if (c->avail(side) && range_dead(op->buf, n < c->avail(side) ? n : c->avail(side)))
            fail("kernel.write-to-freed", "recv completes into memory that was already freed (fd %d, user_data %llx)", op->fd, (unsigned long long)op->ud);
        long r = op->len == 0 ? 0 : c->recv(side, (char*)op->buf, n);
        if (r == -EAGAIN) break;
        rops.pop_front(); finish(op, (int)r);
        if (r > 0) c->drained(side);
    }
    while (!wops.empty() && c && st == CONNECTED) {
        OpP op = wops.front();
        u64 n = op->len; if (n > 1 && chance(NET, cfg.short_send)) n = 1 + choose(NET, (u32)(n < 65536 ? n : 65536));
        if (range_dead(op->buf, n)) fail("kernel.read-from-freed", "send reads memory that was already freed (fd %d)", op->fd);
        long r = c->send(side, (const char*)op->buf, n);
        if (r == -EAGAIN) break;
        wops.pop_front(); finish(op, (int)r);
    }
    while (!aops.empty() && st == LISTEN && (!backlog.empty())) {
        OpP op = aops.front(); aops.pop_front();
        if (chance(FAULT, cfg.accept_err)) {
            u32 k = choose(FAULT, 3); fault(k == 0 ? "accept_ECONNABORTED" : k == 1 ? "accept_EMFILE" : "accept_ENFILE");
            if (k == 0) { auto b = backlog.front(); backlog.pop_front(); b->released[1] = true; b->send_rst(1); }
            finish(op, k == 0 ? -ECONNABORTED : k == 1 ? -EMFILE : -ENFILE); continue;
        }
        if (fd_limit()) { finish(op, -EMFILE); continue; }
        auto b = backlog.front(); backlog.pop_front();
        auto s = std::make_shared<Sock>(); s->st = CONNECTED; s->c = b; s->side = 1; b->sock[1] = s;
        int fd = new_fd(s, "accept"); tr("accept", fd, b->id);
        finish(op, fd);
    }
    while (!cops.empty() && (st == CONNECTED || cerr)) { OpP op = cops.front(); cops.pop_front(); int e = cerr; cerr = 0; finish(op, e ? -e : 0); }
}
static u64 net_delay() { return cfg.delay_min + (cfg.delay_max > cfg.delay_min ? choose(NET, 17) * ((cfg.delay_max - cfg.delay_min) / 16) : 0); }

// connection attempt towards a port; cb(conn or null, error)
static void dial(int port, std::function<void(std::shared_ptr<Conn>, int)> cb, std::function<void(std::shared_ptr<Conn>)> prepare) {
    after(net_delay(), [=] {
        std::vector<std::shared_ptr<Sock>> l;
        for (auto& w : *g_listen) if (auto s = w.lock()) if (s->st == Sock::LISTEN && s->port == port) l.push_back(s);
        if (!l.empty()) {
            auto s = l[l.size() > 1 ? choose(NET, (u32)l.size()) : 0];
            auto c = std::make_shared<Conn>(); c->id = ++g_connid; prepare(c);
            s->backlog.push_back(c);
            u64 t = now() + net_delay(); c->d[1].last = t;
            at(t, [=] { cb(c, 0); });
            s->pump(); return;
        }
        auto it = g_peerlisten->find(port);
        std::shared_ptr<Listener> pl = it == g_peerlisten->end() ? nullptr : it->second.lock();
        if (!pl || !pl->open || pl->accept_mode == 1) { after(net_delay(), [=] { cb(nullptr, ECONNREFUSED); }); return; }
        if (pl->accept_mode == 2) { after(127 * SEC, [=] { cb(nullptr, ETIMEDOUT); }); return; }
        auto c = std::make_shared<Conn>(); c->id = ++g_connid; prepare(c);
        auto p = std::make_shared<Peer>(); p->c = c; p->side = 1; p->open = true; c->peer[1] = p; c->is_peer[1] = true; p->srv_id = (int)pl->peers.size();
        pl->peers.push_back(p);
        u64 t = now() + net_delay(); c->d[1].last = t;
        at(t, [=] { cb(c, 0); });
        InSim _; pl->on_accept(p); p->pump();
    });
}

// ---------------------------------------------------------------- files
struct Inode { std::string data; u64 hole = 0; u64 size() const { return hole + data.size(); } };   // a file may begin with a hole of any length
char fs_hole_byte(u64 i) { return (char)((i ^ i >> 8 ^ i >> 16 ^ i >> 24 ^ i >> 32) * 131); }
static std::map<std::string, std::shared_ptr<Inode>>* g_fs;
struct VFile : File { std::shared_ptr<Inode> ino; u64 pos = 0; int flags = 0; std::string path; const char* kind() const override { return "file"; } };
static u64 disk_used() { u64 n = 0; for (auto& [k, v] : *g_fs) n += v->data.size(); return n; }
void fs_put(const std::string& p, std::string d, u64 hole) { InSim _; auto& i = (*g_fs)[p]; if (!i) i = std::make_shared<Inode>(); i->data = std::move(d); i->hole = hole; }
u64 fs_hole(const std::string& p) { auto it = g_fs->find(p); return it == g_fs->end() ? 0 : it->second->hole; }
bool fs_exists(const std::string& p) { return g_fs->count(p); }
std::string fs_get(const std::string& p) { auto it = g_fs->find(p); return it == g_fs->end() ? std::string() : std::string(it->second->data); }
void fs_truncate(const std::string& p, u64 n) { InSim _; auto it = g_fs->find(p); if (it != g_fs->end()) it->second->data.resize(n); }
void fs_append(const std::string& p, std::string_view d) { InSim _; auto it = g_fs->find(p); if (it != g_fs->end()) it->second->data.append(d); }
void fs_remove(const std::string& p) { InSim _; g_fs->erase(p); }
static bool vpath(const char* p) { return p && !strncmp(p, "/simfs/", 7); }
static int v_open(const std::string& path, int flags) {
    if (fd_limit()) return -EMFILE;
    if (chance(FAULT, cfg.open_err)) { static const int e[] = {EACCES, EMFILE, EIO}; u32 k = choose(FAULT, 3); fault("open_error"); return -e[k]; }
    auto it = g_fs->find(path);
    if (path.back() == '/' || path.compare(0, 11, "/simfs/dir/") == 0) return -EISDIR;
    if (path.compare(0, 13, "/simfs/nodir/") == 0) return -ENOENT;
    if (it == g_fs->end()) { if (!(flags & O_CREAT)) return -ENOENT; it = g_fs->emplace(path, std::make_shared<Inode>()).first; }
    auto f = std::make_shared<VFile>(); f->ino = it->second; f->flags = flags; f->path = path;
    if (flags & O_TRUNC) { f->ino->data.clear(); f->ino->hole = 0; }
    int fd = new_fd(f, "openat"); tr("open", fd, fnv(path)); return fd;
}
static int v_read(VFile* f, char* b, u32 n, u64 off) {
    if ((f->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
    if (chance(FAULT, cfg.read_err)) { fault("disk_read_EIO"); return -EIO; }
    bool cur = off == ~0ull; u64 p = cur ? f->pos : off; u64 sz = f->ino->size(), hole = f->ino->hole;
    u64 k = p >= sz ? 0 : sz - p < n ? sz - p : n;
    if (k > 1 && chance(DISK, cfg.short_read)) { k = 1 + choose(DISK, (u32)k); fault("disk_short_read"); }
    if (range_dead(b, k)) fail("kernel.write-to-freed", "file read completes into memory that was already freed");
    u64 h = p < hole ? std::min(k, hole - p) : 0; for (u64 i = 0; i < h; ++i) b[i] = fs_hole_byte(p + i);
    if (k > h) memcpy(b + h, f->ino->data.data() + (p + h - hole), k - h); if (cur) f->pos += k; return (int)k;
}
static int v_write(VFile* f, const char* b, u32 n, u64 off) {
    if ((f->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
    if (chance(FAULT, cfg.write_err)) { fault("disk_write_EIO"); return -EIO; }
    if (range_dead(b, n)) fail("kernel.read-from-freed", "file write reads memory that was already freed");
    bool cur = off == ~0ull; u64 p = (f->flags & O_APPEND) ? f->ino->size() : cur ? f->pos : off;
    u64 k = n;
    if (cfg.disk_cap != ~0ull) { u64 u = disk_used(); u64 grow = p + k > f->ino->size() ? p + k - f->ino->size() : 0; if (u + grow > cfg.disk_cap) { fault("disk_full"); u64 room = cfg.disk_cap > u ? cfg.disk_cap - u : 0; u64 over = grow - room; if (over >= k) return -ENOSPC; k -= over; } }
    if (k > 1 && chance(DISK, cfg.short_write)) { k = 1 + choose(DISK, (u32)k); fault("disk_short_write"); }
    auto& d = f->ino->data; auto& hole = f->ino->hole; if (p > f->ino->size() + (64u << 20)) { if (f->ino->size() || p >> 62) return -EFBIG; hole = p; } if (p < hole) return -EFBIG;
    u64 q = p - hole; if (d.size() < q + k) d.resize(q + k); memcpy(&d[q], b, k); if (cur || (f->flags & O_APPEND)) f->pos = p + k; return (int)k;
}

// ---------------------------------------------------------------- io_uring
static void post_op(const OpP& op, int res) {
    if (op->posted) return;
    op->posted = true; --g_pending;
    if (op->ring) { op->ring->ops.erase(op); op->ring->post(op->ud, res); }
    op->file.reset();
}
static void finish(const OpP& op, int res) {
    if (op->done) return;
    op->done = true;
    tr("op-done", op->id, (u64)(std::int64_t)res, op->code);
    auto deliver = [op, res] {
        post_op(op, res);
        if (op->timeout && !op->timeout->done) { op->timeout->done = true; post_op(op->timeout, -ECANCELED); }
    };
    // the linked timeout is cancelled now, whenever the completion becomes visible
    if (op->timeout && !op->timeout->done) {
        auto t = op->timeout;
        // the timer is already running when the operation completes: both post their own result
        if (cfg.link_race_pm && t->due <= now() + MS && chance(NET, cfg.link_race_pm)) {
            t->done = true; probe("link_timeout_race");
            int tr_ = choose(NET, 3); int r2 = tr_ == 0 ? -ENOENT : tr_ == 1 ? -EALREADY : -ETIME;
            auto deliver1 = [op, res] { post_op(op, res); };
            u64 gap = choose(NET, 4) * 50 * US;
            if (chance(NET, 400)) { post_op(t, r2); if (gap) after(gap, deliver1); else deliver1(); }
            else { deliver1(); if (gap) after(gap, [t, r2] { post_op(t, r2); }); else post_op(t, r2); }
            return;
        }
        t->done = true;
        bool first = cfg.cqe_delay_pm && chance(NET, 300);
        if (first) { post_op(t, -ECANCELED); }
        else {
            auto d2 = deliver;
            auto both = [d2, t] { d2(); post_op(t, -ECANCELED); };
            if (chance(NET, cfg.cqe_delay_pm)) { after(1 + choose(NET, 16) * (cfg.cqe_delay_max / 16), both); return; }
            both(); return;
        }
    }
    if (chance(NET, cfg.cqe_delay_pm)) after(1 + choose(NET, 16) * (cfg.cqe_delay_max / 16), deliver);
    else deliver();
}
static void complete(const OpP& op, int res) { finish(op, res); }
static void drop_waiter(const OpP& op) {
    if (auto s = std::dynamic_pointer_cast<Sock>(op->file)) for (auto* l : {&s->rops, &s->wops, &s->aops, &s->cops}) l->remove(op);
}
static void timeout_fires(const OpP& t) {
    if (t->done) return;
    OpP op = t->target;
    if (!op || op->done || op->uncancellable) { t->done = true; post_op(t, op && !op->done ? -EALREADY : -ENOENT); return; }
    probe("link_timeout_fired");
    t->done = true; op->done = true; drop_waiter(op);
    tr("op-timeout", op->id);
    u64 gap = chance(NET, cfg.cqe_delay_pm) ? (1 + choose(NET, 16)) * (cfg.cqe_delay_max / 16) : 0;
    if (chance(NET, 300)) { post_op(t, -ETIME); if (gap) after(gap, [op] { post_op(op, -ECANCELED); }); else post_op(op, -ECANCELED); }
    else { post_op(op, -ECANCELED); if (gap) after(gap, [t] { post_op(t, -ETIME); }); else post_op(t, -ETIME); }
}
static void run_op(const OpP& op) {
    switch (op->code) {
    case IORING_OP_NOP: finish(op, 0); return;
    case IORING_OP_SOCKET: {
        if (chance(FAULT, cfg.socket_err)) { u32 k = choose(FAULT, 2); fault(k ? "socket_ENFILE" : "socket_EMFILE"); finish(op, k ? -ENFILE : -EMFILE); return; }
        if (fd_limit()) { finish(op, -EMFILE); return; }
        int fd = new_fd(std::make_shared<Sock>(), "socket"); tr("socket", fd); finish(op, fd); return;
    }
    case IORING_OP_CLOSE: finish(op, do_close(op->fd)); return;
    case IORING_OP_OPENAT: {
        op->uncancellable = true;
        if (!vpath(op->path.c_str())) { finish(op, -ENOENT); return; }
        after(choose(DISK, 17) * (cfg.disk_delay_max / 16), [op] { if (!op->ring || op->ring->dead) return; int r = v_open(op->path, (int)op->len); finish(op, r); });
        return;
    }
    default: break;
    }
    op->file = get_fd(op->fd);
    if (!op->file) { if (op->fd != -1) { ++g_bad_ops; tr("bad-fd", op->fd, op->code); } else tr("fd-minus-1", op->code); finish(op, -EBADF); return; }
    if (op->code == IORING_OP_READ || op->code == IORING_OP_WRITE) {
        auto f = std::dynamic_pointer_cast<VFile>(op->file);
        if (!f) { ++g_bad_ops; finish(op, -EINVAL); return; }
        op->uncancellable = true;
        after(choose(DISK, 17) * (cfg.disk_delay_max / 16), [op, f] {
            if (!op->ring || op->ring->dead) return;
            finish(op, op->code == IORING_OP_READ ? v_read(f.get(), (char*)op->buf, op->len, op->off) : v_write(f.get(), (const char*)op->buf, op->len, op->off));
        });
        return;
    }
    auto s = std::dynamic_pointer_cast<Sock>(op->file);
    if (!s) { ++g_bad_ops; finish(op, -ENOTSOCK); return; }
    switch (op->code) {
    case IORING_OP_RECV:
        if (s->st != Sock::CONNECTED) { finish(op, -ENOTCONN); return; }
        if (s->c && chance(FAULT, cfg.recv_err)) { fault("connection_reset"); s->c->err[s->side] = ECONNRESET; s->c->rst_in[s->side] = true; s->c->d[1 - s->side].rbuf.clear(); s->c->d[1 - s->side].off = 0; s->c->send_rst(s->side); }
        s->rops.push_back(op); s->pump(); return;
    case IORING_OP_SEND:
        if (s->st != Sock::CONNECTED) { finish(op, s->st == Sock::NEW ? -EPIPE : -ENOTCONN); return; }
        if (s->c && chance(FAULT, cfg.send_err)) { fault("connection_reset"); s->c->err[s->side] = ECONNRESET; s->c->rst_in[s->side] = true; s->c->send_rst(s->side); }
        s->wops.push_back(op); s->pump(); return;
    case IORING_OP_ACCEPT:
        if (s->st != Sock::LISTEN) { finish(op, -EINVAL); return; }
        s->aops.push_back(op); s->pump(); return;
    case IORING_OP_CONNECT: {
        if (s->st == Sock::CONNECTED) { finish(op, -EISCONN); return; }
        if (s->st == Sock::CONNECTING) { finish(op, -EALREADY); return; }
        ++g_syn;
        if (chance(FAULT, cfg.connect_err)) { static const int e[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH}; fault("connect_error"); int x = e[choose(FAULT, 4)]; s->st = Sock::CONNECTING; s->cops.push_back(op);
            std::weak_ptr<Sock> w = s; after(net_delay() + (x == ETIMEDOUT ? 20 * SEC : 0), [w, x] { if (auto k = w.lock()) { k->st = Sock::NEW; k->cerr = x; k->pump(); k->cerr = 0; } }); return; }
        s->st = Sock::CONNECTING; s->cops.push_back(op);
        int port = (int)op->addr2; std::weak_ptr<Sock> w = s;
        dial(port, [w](std::shared_ptr<Conn> c, int e) {
            auto k = w.lock();
            if (!k) { if (c) c->release(0); return; }
            if (e) { k->st = Sock::NEW; k->cerr = e; k->pump(); k->cerr = 0; return; }
            if (c->rst_in[0] && false) return;
            k->st = Sock::CONNECTED; k->c = c; k->side = 0; k->pump();
        }, [w](std::shared_ptr<Conn> c) { if (auto k = w.lock()) c->sock[0] = k; else { c->released[0] = true; } });
        return;
    }
    case IORING_OP_SHUTDOWN: if (s->c) s->c->send_fin(s->side); finish(op, 0); return;
    default: tr("unsupported-op", op->code); finish(op, -EINVAL); return;
    }
}
static long ring_enter(Ring* ring, u32 to_submit, u32 min, u32 flags, void* arg, u64 argsz) {
    auto keep = ring->shared_from_this();
    u32 done = 0; bool chained = false; OpP prev; std::vector<OpP> torun;
    while (done < to_submit) {
        u32 h = ring->ld(0), t = ring->ld(4);
        if (h == t) break;
        u32* arr = (u32*)(ring->base + 64 + ring->cqn * 16);
        u32 idx = arr[h & (ring->sqn - 1)];
        ring->st(0, h + 1); ++done;
        if (idx >= ring->sqn) { ring->st(20, ring->ld(20) + 1); continue; }
        io_uring_sqe q = ring->sqes[idx];
        auto op = std::make_shared<Op>(); op->ring = keep; op->ud = q.user_data; op->code = q.opcode; op->fd = q.fd; op->buf = (void*)q.addr; op->len = q.len; op->off = q.off; op->flags = q.flags; op->id = ++g_opid;
        ++g_pending; ++R->nops; ring->ops.insert(op);
        tr("submit", op->id, op->code, (u64)(std::int64_t)op->fd);
        if (q.opcode == IORING_OP_OPENAT) { if (range_dead((void*)q.addr, 1)) fail("kernel.read-from-freed", "openat path was already freed at submission"); op->path = (const char*)q.addr; op->len = q.open_flags; }
        if (q.opcode == IORING_OP_CONNECT) { auto* sa = (sockaddr_in*)q.addr; if (range_dead(sa, 16)) fail("kernel.read-from-freed", "connect address was already freed at submission"); op->addr2 = sa->sin_family == AF_INET6 ? ntohs(((sockaddr_in6*)sa)->sin6_port) : ntohs(sa->sin_port); }
        if (q.opcode == IORING_OP_LINK_TIMEOUT) {
            auto* ts = (__kernel_timespec*)q.addr;
            if (range_dead(ts, sizeof *ts)) fail("kernel.read-from-freed", "link_timeout timespec was already freed at submission");
            if (!chained || !prev) { tr("link-timeout-unchained"); torun.push_back(nullptr); op->done = true; post_op(op, -EINVAL); chained = false; prev = nullptr; continue; }
            u64 d = (u64)ts->tv_sec * SEC + (u64)ts->tv_nsec;
            op->target = prev; prev->timeout = op; op->due = now() + d;
            at(now() + d, [op] { if (op->ring && !op->ring->dead) timeout_fires(op); });
            chained = (q.flags & IOSQE_IO_LINK); prev = op; continue;
        }
        chained = (q.flags & IOSQE_IO_LINK); prev = op;
        torun.push_back(op);
    }
    for (auto& op : torun) if (op) run_op(op);
    if (!(flags & IORING_ENTER_GETEVENTS)) return done;
    ring->flush();
    u64 dl = ~0ull;
    if ((flags & IORING_ENTER_EXT_ARG) && arg) { auto* g = (io_uring_getevents_arg*)arg; if (g->ts) { auto* ts = (__kernel_timespec*)g->ts; if (ts->tv_sec < 0 || ts->tv_nsec < 0) return done ? (long)done : -EINVAL; dl = now() + (u64)ts->tv_sec * SEC + (u64)ts->tv_nsec; } }
    long r2 = 0;
    if (min > ring->cqn) min = ring->cqn;
    while (ring->ready() < min) {
        if (ring->dead) { r2 = -EBADF; break; }
        if (dl != ~0ull && now() >= dl) { r2 = -ETIME; break; }
        if (chance(FAULT, cfg.eintr_pm)) { fault("EINTR"); tick(US); r2 = -EINTR; break; }
        cur()->wparam = min;
        --g_in_sim; bool ok = block_on("io_uring", ring, dl); ++g_in_sim;
        ring->flush();
        if (!ok && ring->ready() < min) { r2 = -ETIME; break; }
    }
    return done ? (long)done : r2;
}

static long ring_setup(u32 entries, io_uring_params* p) {
    if (!entries || entries > 32768) return -EINVAL;
    if (p->flags & ~(u32)(IORING_SETUP_CLAMP)) return -EINVAL;
    auto r = std::make_shared<Ring>(); g_rings->push_back(r);
    static int slot; r->id = slot++;
    u32 n = 1; while (n < entries) n <<= 1; r->sqn = n; r->cqn = n * 2;
    r->base = (char*)RING_BASE + (u64)r->id * RING_SLOT;
    if (mmap(r->base, RING_SLOT - 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != r->base) fail("sim.limit", "ring mmap");
    r->sqes = (io_uring_sqe*)(r->base + (RING_SLOT / 2));
    p->sq_entries = r->sqn; p->cq_entries = r->cqn;
    p->features = IORING_FEAT_SINGLE_MMAP | IORING_FEAT_NODROP | IORING_FEAT_SUBMIT_STABLE | IORING_FEAT_RW_CUR_POS | IORING_FEAT_EXT_ARG;
    auto& s = p->sq_off; memset(&s, 0, sizeof s); s.head = 0; s.tail = 4; s.ring_mask = 8; s.ring_entries = 12; s.flags = 16; s.dropped = 20; s.array = 64 + r->cqn * 16;
    auto& c = p->cq_off; memset(&c, 0, sizeof c); c.head = 32; c.tail = 36; c.ring_mask = 40; c.ring_entries = 44; c.overflow = 48; c.flags = 52; c.cqes = 64;
    r->w(8) = r->sqn - 1; r->w(12) = r->sqn; r->w(40) = r->cqn - 1; r->w(44) = r->cqn;
    int fd = new_fd(r, "ring"); tr("ring", fd, n); return fd;
}
static void ring_close(Ring* r) {
    auto keep = r->shared_from_this();
    r->dead = true; tr("ring-close", r->id, r->ops.size());
    auto ops = r->ops;
    for (auto& op : ops) { op->done = true; drop_waiter(op); if (!op->posted) { op->posted = true; --g_pending; } op->file.reset(); op->timeout.reset(); op->target.reset(); }
    r->ops.clear(); g_rings->remove(keep);
}

} // namespace sim
using namespace sim;
extern "C" long sim_kernel(long n, long a, long b, long c, long d, long e, long f) {
    if (!g_active) return raw_syscall(n, a, b, c, d, e, f);
    switch (n) {
    case SYS_io_uring_setup: { sync_point(); InSim _; tick(20 * US); return ring_setup((u32)a, (io_uring_params*)b); }
    case SYS_io_uring_enter: {
        sync_point(); InSim _; tick(US);
        auto r = std::dynamic_pointer_cast<Ring>(get_fd((int)a));
        if (!r) { ++g_bad_ops; return -EBADF; }
        return ring_enter(r.get(), (u32)b, (u32)c, (u32)d, (void*)e, (u64)f);
    }
    case SYS_io_uring_register: return -EINVAL;
    case SYS_mmap: {
        InSim _; auto r = std::dynamic_pointer_cast<Ring>(get_fd((int)e));
        if (!r) return raw_syscall(n, a, b, c, d, e, f);
        return f == 0x10000000 ? (long)r->sqes : (long)r->base;
    }
    case SYS_munmap: {
        std::uintptr_t p = (std::uintptr_t)a;
        if (p >= RING_BASE && p < RING_BASE + 4096 * RING_SLOT) { mprotect((void*)(p & ~4095ull), (((u64)b + 4095) & ~4095ull), PROT_NONE); return 0; }
        return raw_syscall(n, a, b, c, d, e, f);
    }
    case SYS_madvise: { std::uintptr_t p = (std::uintptr_t)a; if (p >= RING_BASE && p < RING_BASE + 4096 * RING_SLOT) return 0; return raw_syscall(n, a, b, c, d, e, f); }
    case SYS_close: {
        InSim _; auto r = std::dynamic_pointer_cast<Ring>(get_fd((int)a));
        if (!r) return raw_syscall(n, a, b, c, d, e, f);
        ring_close(r.get()); g_fds->erase((int)a); return 0;
    }
    default: return raw_syscall(n, a, b, c, d, e, f);
    }
}
asm(R"(
.text
.globl sim_syscall_thunk
.type sim_syscall_thunk,@function
sim_syscall_thunk:
  pushq %rbp
  movq %rsp,%rbp
  pushq %rdi
  pushq %rsi
  pushq %rdx
  pushq %r8
  pushq %r9
  pushq %r10
  subq $544,%rsp
  andq $-16,%rsp
  fxsave 16(%rsp)
  movq %r9,(%rsp)
  movq %r8,%r9
  movq %r10,%r8
  movq %rdx,%rcx
  movq %rsi,%rdx
  movq %rdi,%rsi
  movq %rax,%rdi
  call sim_kernel
  fxrstor 16(%rsp)
  leaq -48(%rbp),%rsp
  popq %r10
  popq %r9
  popq %r8
  popq %rdx
  popq %rsi
  popq %rdi
  popq %rbp
  ret
.size sim_syscall_thunk,.-sim_syscall_thunk
)");

namespace sim {
void kernel_reset() {
    InSim _;
    g_fds = new std::map<int, FdEnt>; g_rings = new std::list<std::shared_ptr<Ring>>; g_listen = new std::vector<std::weak_ptr<Sock>>;
    g_peerlisten = new std::map<int, std::weak_ptr<Listener>>; g_fs = new std::map<std::string, std::shared_ptr<Inode>>;
}
std::vector<FdInfo> open_fds() { std::vector<FdInfo> v; for (auto& [k, e] : *g_fds) v.push_back({k, e.f ? e.f->kind() : "?", e.origin}); return v; }
int bad_closes() { return g_bad_close; }
int bad_fd_ops() { return g_bad_ops; }
int syn_count() { return g_syn; }
u64 ops_pending() { return g_pending; }
int rings_open() { return (int)g_rings->size(); }
int listening(int port) { int n = 0; for (auto& w : *g_listen) if (auto s = w.lock()) n += s->st == Sock::LISTEN && s->port == port; return n; }

void swarm_net() {
    static const u64 dmax[] = {20 * US, 200 * US, 2 * MS, 30 * MS};
    cfg.seg_mode = choose(CFG, 4); cfg.delay_max = dmax[choose(CFG, 4)]; if (cfg.delay_max < cfg.delay_min) cfg.delay_min = cfg.delay_max;
    cfg.short_recv = choose(CFG, 3) == 2 ? 300 : 0; cfg.short_send = choose(CFG, 3) == 2 ? 300 : 0;
    static const u32 caps[] = {1 << 17, 1 << 14, 3000, 512}; cfg.pipe_cap = caps[choose(CFG, 4)];
    if (choose(CFG, 3) == 1) { cfg.cqe_delay_pm = 200; }
    if (choose(CFG, 4) == 3) cfg.eintr_pm = 30;
    if (choose(CFG, 3) == 2) cfg.link_race_pm = 500;
    if (choose(CFG, 4) == 2) { cfg.burst_pm = 30; cfg.burst_max = 400 * MS; }
}
void swarm_disk() {
    if (choose(CFG, 2) == 1) cfg.short_read = 300;
    if (choose(CFG, 2) == 1) cfg.short_write = 300;
    static const u64 dm[] = {16, 50 * US, 5 * MS}; cfg.disk_delay_max = dm[choose(CFG, 3)];
}

// ---------------------------------------------------------------- peers
std::shared_ptr<Peer> Peer::connect(int port) {
    InSim _;
    auto p = std::make_shared<Peer>(); p->side = 0;
    std::weak_ptr<Peer> w = p;
    std::shared_ptr<Peer> hold = p;
    dial(port, [hold](std::shared_ptr<Conn> c, int e) {
        auto& p = hold;
        if (e) { p->failed = true; if (p->on_fail) p->on_fail(*p); return; }
        if (p->closed) { c->release(0); return; }
        p->c = c; p->open = true; if (p->on_open) p->on_open(*p); p->pump();
    }, [p](std::shared_ptr<Conn> c) { c->peer[0] = p; c->is_peer[0] = true; });
    return p;
}
void Peer::send(std::string_view s) { InSim _; pend.append(s); pump(); }
void Peer::fin() { InSim _; pend_fin = true; pump(); }
void Peer::reset() { InSim _; if (!c || closed) { closed = true; return; } closed = true; pend.clear(); c->released[side] = true; c->send_rst(side); fault("peer_reset"); }
void Peer::close() { InSim _; if (closed) return; if (!c) { closed = true; return; }
    if (!pend.empty()) { c->push(side, pend); pend.clear(); }
    closed = true; c->release(side); }
void Peer::set_reading(bool on) { InSim _; reading = on; if (on) pump(); }
u64 Peer::unsent() const { return pend.size() + (c ? c->used(side) : 0); }
void Peer::pump() {
    if (!c || closed || !open) return;
    InSim _; auto keep = shared_from_this();
    while (!pend.empty()) {
        if (c->rst_in[side]) { pend.clear(); break; }
        u64 u = c->used(side); u64 room = cfg.pipe_cap > u ? cfg.pipe_cap - u : 0;
        if (!room) break;
        u64 k = room < pend.size() ? room : pend.size();
        c->push(side, std::string_view(pend).substr(0, k)); pend.erase(0, k);
    }
    if (pend_fin && pend.empty()) { pend_fin = false; c->send_fin(side); }
    if (!reading) return;
    u64 a = c->avail(side);
    if (a) {
        auto& D = c->d[1 - side]; rx.append(D.rbuf, D.off, a); rx_total += a; D.rbuf.clear(); D.off = 0;
        c->drained(side);
        if (on_data) on_data(*this);
        if (closed) return;
    }
    if (c->avail(side) == 0 && c->rst_in[side] && !rst) { rst = true; if (on_rst) on_rst(*this); return; }
    if (c->avail(side) == 0 && c->d[1 - side].fin && !eof) { eof = true; if (on_eof) on_eof(*this); }
}
std::shared_ptr<Listener> Listener::listen(int port, std::function<void(std::shared_ptr<Peer>)> f) {
    InSim _; auto l = std::make_shared<Listener>(); l->port = port; l->on_accept = std::move(f); (*g_peerlisten)[port] = l; return l;
}
void Listener::close() { InSim _; open = false; g_peerlisten->erase(port); }
} // namespace sim

// ---------------------------------------------------------------- synchronous libc calls
#define SIMFN extern "C" __attribute__((visibility("default")))
static int ret(long r) { if (r < 0) { errno = (int)-r; return -1; } return (int)r; }
SIMFN int socket(int d, int t, int p) {
    if (!g_active) return ret(raw_syscall(SYS_socket, d, t, p));
    sync_point(); InSim _;
    if (chance(FAULT, cfg.socket_err)) { fault("socket_EMFILE"); errno = EMFILE; return -1; }
    if (fd_limit()) { errno = EMFILE; return -1; }
    return new_fd(std::make_shared<Sock>(), "socket");
}
static std::shared_ptr<Sock> as_sock(int fd) { return std::dynamic_pointer_cast<Sock>(get_fd(fd)); }
SIMFN int bind(int fd, const sockaddr* a, socklen_t l) noexcept {
    if (!g_active) return ret(raw_syscall(SYS_bind, fd, (long)a, l));
    InSim _; auto s = as_sock(fd); if (!s) { ++g_bad_ops; errno = EBADF; return -1; }
    int port = ntohs(((const sockaddr_in*)a)->sin_port);
    for (auto& w : *g_listen) if (auto o = w.lock()) if (o->port == port && o != s && !(o->reuseport && s->reuseport)) { errno = EADDRINUSE; return -1; }
    s->port = port; s->st = Sock::BOUND; return 0;
}
SIMFN int listen(int fd, int) noexcept {
    if (!g_active) { errno = ENOSYS; return -1; }
    InSim _; auto s = as_sock(fd); if (!s) { ++g_bad_ops; errno = EBADF; return -1; }
    for (auto& w : *g_listen) if (auto o = w.lock()) if (o->port == s->port && o != s && !(o->reuseport && s->reuseport)) { errno = EADDRINUSE; return -1; }
    s->st = Sock::LISTEN; g_listen->push_back(s); tr("listen", fd, s->port); return 0;
}
SIMFN int setsockopt(int fd, int lv, int o, const void*, socklen_t) noexcept {
    if (!g_active) return 0;
    InSim _; auto s = as_sock(fd); if (!s) { ++g_bad_ops; errno = EBADF; return -1; }
    if (lv == SOL_SOCKET && o == SO_REUSEPORT) s->reuseport = true;
    return 0;
}
SIMFN int getsockname(int fd, sockaddr* a, socklen_t* l) noexcept { if (!g_active) { errno = ENOSYS; return -1; } auto s = as_sock(fd); if (!s) { errno = EBADF; return -1; } sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons((uint16_t)s->port); memcpy(a, &x, *l < sizeof x ? *l : sizeof x); *l = sizeof x; return 0; }
SIMFN int shutdown(int fd, int how) noexcept { if (!g_active) { errno = ENOSYS; return -1; } InSim _; auto s = as_sock(fd); if (!s) { ++g_bad_ops; errno = EBADF; return -1; } if (!s->c) { errno = ENOTCONN; return -1; } if (how) s->c->send_fin(s->side); return 0; }
SIMFN ssize_t recv(int fd, void* b, size_t n, int fl) { // non-blocking only: used to look whether an idle connection is still usable
    if (!g_active || fd < FD_BASE) { long r = raw_syscall(SYS_recvfrom, fd, (long)b, (long)n, fl, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return r; }
    sync_point(); InSim _; auto s = as_sock(fd); if (!s) { ++g_bad_ops; errno = EBADF; return -1; }
    if (!s->c || s->st != Sock::CONNECTED) { errno = ENOTCONN; return -1; }
    if (!(fl & MSG_DONTWAIT)) fail("sim.blocking-recv", "the library blocks an event-loop thread in recv(%d)", fd);
    auto& c = *s->c; u64 a = c.avail(s->side);
    if (a && (fl & MSG_PEEK)) { auto& D = c.d[1 - s->side]; size_t k = n < a ? n : (size_t)a; memcpy(b, D.rbuf.data() + D.off, k); return (ssize_t)k; }
    long r = c.recv(s->side, (char*)b, n); if (r < 0) { errno = (int)-r; return -1; }
    if (r > 0) c.drained(s->side);
    return r;
}
SIMFN int close(int fd) {
    if (g_active && (fd >= FD_BASE || fd < 0)) { sync_point(); InSim _; return ret(do_close(fd)); }
    return ret(raw_syscall(SYS_close, fd));
}
SIMFN int getaddrinfo(const char* host, const char* serv, const addrinfo*, addrinfo** out) {
    if (!g_active) return EAI_FAIL;
    sync_point(); InSim _; tick(50 * US);
    if (chance(FAULT, cfg.gai_err)) { fault("getaddrinfo_EAI_AGAIN"); return EAI_AGAIN; }
    int port = 0;
    if (serv) { if (!strcmp(serv, "http")) port = 80; else if (!strcmp(serv, "https")) port = 443; else { char* e; long v = strtol(serv, &e, 10); if (*e || e == serv || v < 0 || v > 65535) return EAI_SERVICE; port = (int)v; } }
    if (!host || !*host || strstr(host, "nxdomain")) return EAI_NONAME;
    addrinfo* head = nullptr;
    for (int ty : {SOCK_RAW, SOCK_DGRAM, SOCK_STREAM}) {     // like glibc: STREAM first
        auto* a = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in)); auto* sa = (sockaddr_in*)(a + 1);
        sa->sin_family = AF_INET; sa->sin_port = htons((uint16_t)port); sa->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        a->ai_family = AF_INET; a->ai_socktype = ty; a->ai_protocol = ty == SOCK_STREAM ? IPPROTO_TCP : ty == SOCK_DGRAM ? IPPROTO_UDP : 0; a->ai_addr = (sockaddr*)sa; a->ai_addrlen = sizeof *sa; a->ai_next = head; head = a;
    }
    *out = head; return 0;
}
SIMFN void freeaddrinfo(addrinfo* a) noexcept { while (a) { auto* n = a->ai_next; memset(a, 0xDD, sizeof(addrinfo)); free(a); a = n; } }
static int vstat(const char* p, struct stat* st) {
    InSim _; auto it = g_fs->find(p); if (it == g_fs->end()) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = (off_t)it->second->size(); st->st_nlink = 1; return 0;
}
SIMFN int stat(const char* p, struct stat* st) noexcept { if (g_active && vpath(p)) return vstat(p, st); return ret(raw_syscall(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0)); }
SIMFN int lstat(const char* p, struct stat* st) noexcept { if (g_active && vpath(p)) return vstat(p, st); return ret(raw_syscall(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, AT_SYMLINK_NOFOLLOW)); }
SIMFN int stat64(const char* p, struct stat64* st) noexcept { return stat(p, (struct stat*)st); }
SIMFN int lstat64(const char* p, struct stat64* st) noexcept { return lstat(p, (struct stat*)st); }
