// Arena heap with shadow memory, and the runtime behind -fsanitize=thread instrumentation:
// every plain access is checked against the shadow, every atomic is a scheduling point.
#include "internal.hpp"
#include <new>
#include <cstdlib>
#include <sys/mman.h>
namespace sim {

static char*  g_brk = nullptr;
static unsigned char* g_sh = nullptr;
static u64 g_live_n = 0, g_live_b = 0;
constexpr unsigned char FREED = 0xFD;
struct Hdr { u64 size, magic; };
constexpr u64 MAGIC = 0x51A7ED0C0FFEE123ull;

static inline bool in_arena(const void* p) { return (std::uintptr_t)p - ARENA_BASE < ARENA_SIZE; }
static inline unsigned char& sh(std::uintptr_t a) { return g_sh[(a - ARENA_BASE) >> 3]; }

void heap_init() {
    void* a = mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    void* b = mmap((void*)SHADOW_BASE, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (a != (void*)ARENA_BASE || b != (void*)SHADOW_BASE) abort();
    g_brk = (char*)a + 64; g_sh = (unsigned char*)b;
}
static void* alloc(std::size_t n, std::size_t al) {
    if (al < 16) al = 16;
    auto p = (std::uintptr_t)g_brk + sizeof(Hdr) + 16;
    p = (p + al - 1) & ~(al - 1);
    std::size_t r = (n + 7) & ~7ull;
    if (p + r + 64 > ARENA_BASE + ARENA_SIZE) fail("sim.limit", "simulated heap exhausted (%llu live bytes)", (unsigned long long)g_live_b);
    if (n > (512u << 20)) throw std::bad_alloc();
    auto* h = (Hdr*)(p - sizeof(Hdr)); h->size = n; h->magic = MAGIC;
    g_brk = (char*)((p + r + 16 + 15) & ~15ull);
    memset((void*)p, 0xBE, r < 65536 ? r : 65536);
    memset(&sh(p), 8, n / 8); if (n & 7) sh(p + (n & ~7ull)) = (unsigned char)(n & 7);
    ++g_live_n; g_live_b += n;
    return (void*)p;
}
static void dealloc(void* p) {
    auto* h = (Hdr*)((char*)p - sizeof(Hdr));
    if (h->magic != MAGIC) fail("heap.bad-free", "delete of a pointer that was not allocated: %s", backtrace_str((void**)__builtin_frame_address(0), nullptr, 12).c_str());
    u64 r = (h->size + 7) & ~7ull;
    if (sh((std::uintptr_t)p) == FREED || (r == 0 && h->size == ~0ull)) fail("heap.double-free", "double delete: %s", backtrace_str((void**)__builtin_frame_address(0), nullptr, 12).c_str());
    memset(&sh((std::uintptr_t)p), FREED, r / 8);
    memset(p, 0xDD, r < 4096 ? r : 4096);
    --g_live_n; g_live_b -= h->size;
    if (r > 65536) {   // give the pages back; the shadow still says "freed"
        std::uintptr_t a = ((std::uintptr_t)p + 4095) & ~4095ull, e = ((std::uintptr_t)p + r) & ~4095ull;
        if (e > a) madvise((void*)a, e - a, MADV_DONTNEED);
    }
}
u64 heap_live_blocks() { return g_live_n; }
u64 heap_live_bytes() { return g_live_b; }
bool heap_dead(const void* p) { return in_arena(p) && sh((std::uintptr_t)p) == FREED; }
bool range_dead(const void* p, std::size_t n) {
    if (!in_arena(p) || !n) return false;
    auto a = (std::uintptr_t)p;
    for (std::uintptr_t g = a & ~7ull; g < a + n; g += 8) {
        unsigned char s = sh(g);
        if (s == 8) continue;
        std::uintptr_t end = a + n < g + 8 ? a + n : g + 8;
        if (s > 8 || end - g > s) return true;
    }
    return false;
}
static void __attribute__((noinline)) bad_access(const void* p, std::size_t n, bool w, void* pc, void* fp) {
    ++g_in_sim;
    unsigned char s = 0; auto a = (std::uintptr_t)p;
    for (std::uintptr_t g = a & ~7ull; g < a + n; g += 8) { s = sh(g); if (s != 8) break; }
    fail(s == FREED ? "heap.use-after-free" : "heap.out-of-bounds", "%s of %zu bytes at %p (%s): %s", w ? "write" : "read", n, p,
         s == FREED ? "freed block" : "outside any live block", backtrace_str((void**)fp, pc, 12).c_str());
}
void chk_access(const void* p, std::size_t n, bool w, void* pc) {
    if (!in_arena(p) || !g_active || g_in_sim) return;
    if (range_dead(p, n)) bad_access(p, n, w, pc, __builtin_frame_address(0));
}
static inline __attribute__((always_inline)) void acc(const void* p, std::size_t n, bool w) {
    if (!g_active || g_in_sim) return;
    if (in_arena(p) && range_dead(p, n)) bad_access(p, n, w, __builtin_return_address(0), __builtin_frame_address(0));
    mem_point();
}
} // namespace sim
using namespace sim;

void* operator new(std::size_t n) { if (g_active && !g_in_sim) return alloc(n, 16); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { if (g_active && !g_in_sim) return alloc(n, 16); return malloc(n ? n : 1); }
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void* operator new(std::size_t n, std::align_val_t a) { if (g_active && !g_in_sim) return alloc(n, (std::size_t)a); return aligned_alloc((std::size_t)a, (n + (std::size_t)a - 1) & ~((std::size_t)a - 1)); }
void* operator new[](std::size_t n, std::align_val_t a) { return operator new(n, a); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return operator new(n, a); }
static void del(void* p) noexcept { if (!p) return; if (in_arena(p)) dealloc(p); else free(p); }
void operator delete(void* p) noexcept { del(p); }
void operator delete[](void* p) noexcept { del(p); }
void operator delete(void* p, std::size_t) noexcept { del(p); }
void operator delete[](void* p, std::size_t) noexcept { del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del(p); }
void operator delete(void* p, std::align_val_t) noexcept { del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { del(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { del(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { del(p); }

// ---------------------------------------------------------------- __tsan_* runtime
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void* p) { acc(p, N, false); } \
    void __tsan_write##N(void* p) { acc(p, N, true); } \
    void __tsan_read_write##N(void* p) { acc(p, N, true); } \
    void __tsan_unaligned_read##N(void* p) { acc(p, N, false); } \
    void __tsan_unaligned_write##N(void* p) { acc(p, N, true); } \
    void __tsan_unaligned_read_write##N(void* p) { acc(p, N, true); } \
    void __tsan_volatile_read##N(void* p) { acc(p, N, false); } \
    void __tsan_volatile_write##N(void* p) { acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { acc(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { acc(p, n, true); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { if (n) { acc(s, n, false); acc(d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { if (n) { acc(s, n, false); acc(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { if (n) acc(d, n, true); return memset(d, c, n); }

#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int) { sync_point(); acc((const void*)p, sizeof(T), false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) { sync_point(); acc((const void*)p, sizeof(T), true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); sync_point(); } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { sync_point(); acc((const void*)p, sizeof(T), true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { sync_point(); acc((const void*)p, sizeof(T), true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { sync_point(); acc((const void*)p, sizeof(T), true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { sync_point(); acc((const void*)p, sizeof(T), true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { sync_point(); acc((const void*)p, sizeof(T), true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { sync_point(); acc((const void*)p, sizeof(T), true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { sync_point(); acc((const void*)p, sizeof(T), true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { sync_point(); acc((const void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { sync_point(); acc((const void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { sync_point(); acc((const void*)p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { sync_point(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
