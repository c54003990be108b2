// Deterministic simulator: public interface used by the scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

using u64 = std::uint64_t;
using u32 = std::uint32_t;

// Every random decision is one draw from one of these streams. Value 0 is always the benign choice.
enum Stream : int { CFG = 0, SCHED, NET, FAULT, WORK, DISK, NS };

u32  choose(Stream s, u32 n);                 // [0,n)
bool chance(Stream s, u32 permille);          // true with permille/1000; 0 = false
inline u32 range(Stream s, u32 lo, u32 hi) { return lo + choose(s, hi - lo + 1); }
u64  rnd64();                                 // seed-derived, never recorded (payload bytes, random_device)

// ---- outcome ----
[[noreturn]] void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_EXPECT(cond, sig, ...) do { if (!(cond)) ::sim::fail(sig, __VA_ARGS__); } while (0)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // goes into the trace hash
void probe(const char* name);                 // "this rare condition was hit"
void fault(const char* name);                 // an injected fault really fired
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // one line describing this run

// ---- time ----
constexpr u64 US = 1000, MS = 1000000, SEC = 1000000000ull;
u64  now();                                   // simulated monotonic ns
u64  wall();                                  // simulated wall clock ns
void jump_wall(std::int64_t delta);           // clock jump fault
void after(u64 delay, std::function<void()> f);
void deadline(u64 delay, const char* sig, const char* what); // bounded liveness: fail(sig) if still running
void clear_deadline();
void sleep(u64 ns);                           // block the calling simulated thread

// ---- threads ----
int  thread_count_live();                     // simulated threads not yet ended (including the caller)
int  thread_self();
void yield_point();                           // explicit scheduling point
int  threads_created();
void wait_until(std::function<bool()> pred, u64 max_ns, const char* sig, const char* what);
std::string thread_dump();

// ---- configuration of the simulated world (legal behaviours and faults) ----
struct Cfg {
    u32 cpus = 4;             // what std::thread::hardware_concurrency() reports
    u32 sched_gap = 0;        // 0: switch only when blocked; else mean-ish distance between preemptions
    bool fine = false;        // preempt at plain memory accesses too
    u32 stall_pm = 0;         // thread descheduled for a while at a preemption
    u32 spurious_pm = 0;      // spurious condition-variable wake-ups
    u32 seg_mode = 0;         // 0 whole, 1 random cuts, 2 tiny, 3 byte by byte
    u64 delay_min = 10 * US, delay_max = 100 * US;
    u32 burst_pm = 0;         // a segment is delayed by up to burst_max
    u64 burst_max = 0;
    u32 short_recv = 0, short_send = 0;
    u32 pipe_cap = 1 << 17;
    u32 cqe_delay_pm = 0; u64 cqe_delay_max = 200 * US;
    u32 eintr_pm = 0;
    u32 accept_err = 0, socket_err = 0, recv_err = 0, send_err = 0, close_err = 0, connect_err = 0;
    u32 gai_err = 0;
    u32 open_err = 0, read_err = 0, write_err = 0, short_read = 0, short_write = 0;
    u64 disk_cap = ~0ull;
    u64 disk_delay_max = 50 * US;
    u32 conn_limit = ~0u;     // EMFILE beyond this many descriptors
    u32 link_race_pm = 0;     // linked timeout fires although the operation completes too
};
extern Cfg cfg;
void swarm_sched();           // draw scheduler configuration (sched_gap, fine, stalls)
void swarm_net();             // draw legal network behaviours
void swarm_disk();            // draw legal disk behaviours
extern bool g_verbose;

// ---- network peers driven by events (they never block) ----
struct Conn;
struct Peer : std::enable_shared_from_this<Peer> {
    std::shared_ptr<Conn> c; int side = 0;
    std::string rx;                       // everything received and not taken
    u64 rx_total = 0;
    bool open = false, eof = false, rst = false, failed = false, closed = false, reading = true;
    int  srv_id = 0;
    std::function<void(Peer&)> on_open, on_fail, on_data, on_eof, on_rst;
    void* user = nullptr;
    static std::shared_ptr<Peer> connect(int port);
    void send(std::string_view s);        // queued on the wire (unbounded sender buffer)
    void fin();                           // half close after what was sent
    void reset();                         // RST now
    void close();                         // full close (RST if unread data arrives later)
    void set_reading(bool on);
    u64  unsent() const;                  // bytes accepted by send() the other side has not received yet
    std::string pend; bool pend_fin = false;
    void pump();
};
struct Listener {
    int port; bool open = true;
    u32 accept_mode = 0;                  // 0 accept, 1 refuse, 2 blackhole
    std::function<void(std::shared_ptr<Peer>)> on_accept;
    std::vector<std::shared_ptr<Peer>> peers;
    static std::shared_ptr<Listener> listen(int port, std::function<void(std::shared_ptr<Peer>)> f);
    void close();
};

// ---- kernel tables ----
struct FdInfo { int fd; const char* kind; const char* origin; };
std::vector<FdInfo> open_fds();           // simulated descriptors the library holds open
int  bad_closes();                        // close() of a descriptor that was not open
int  bad_fd_ops();                        // other operations on a descriptor that is not open
int  listening(int port);                 // number of open listening sockets on a port
u64  ops_pending();                       // io_uring operations not completed
int  rings_open();
int  syn_count();                         // connection attempts made by library sockets

// ---- simulated disk: every path below /simfs/ ----
void        fs_put(const std::string& path, std::string data, u64 hole = 0);   // the file begins with `hole` bytes fs_hole_byte(offset)
char        fs_hole_byte(u64 offset);
u64         fs_hole(const std::string& path);
bool        fs_exists(const std::string& path);
std::string fs_get(const std::string& path);
void        fs_truncate(const std::string& path, u64 n);
void        fs_append(const std::string& path, std::string_view d);
void        fs_remove(const std::string& path);

// ---- heap ----
u64 heap_live_blocks();                   // live operator-new blocks made by instrumented/library code
u64 heap_live_bytes();
bool heap_dead(const void* p);            // points into freed memory

// ---- scenarios ----
struct Scenario { const char* name; const char* prop; void (*fn)(); };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* n, const char* p, void (*f)()) { scenarios().push_back({n, p, f}); } };
#define SIM_SCENARIO(prop, name) \
    static void scn_##name(); static ::sim::Reg reg_##name{#name, prop, &scn_##name}; static void scn_##name()

std::string payload(u64 tag, u64 n);      // deterministic bytes, a pure function of (tag, n)
u64 fnv(std::string_view s);

} // namespace sim
