// A simulated disk below the real SQLite: an sqlite3_vfs with volatile and durable contents, POSIX-like advisory locks shared by
// the connections of one process, injected I/O errors, a full disk, failing allocations and crashes that keep an arbitrary
// subset of the unsynchronised writes (each whole, torn or lost).
#pragma once
#include "common.hpp"
#include <sqlite3.h>
#include <cstring>
#include <map>
#include <optional>
namespace sq {
struct Change { u64 off; std::string data; bool trunc = false; };
struct Node { std::string name, cur, dur; bool exists = true, durable = false; std::vector<Change> pend; int shared = 0; struct File* reserved = nullptr; struct File* pending = nullptr; struct File* exclusive = nullptr; };
struct File { sqlite3_file base; std::shared_ptr<Node>* node; int gen, lock; bool del; };
struct Disk { std::recursive_mutex mu;
    std::map<std::string, std::shared_ptr<Node>> files; int gen = 0, dead = -1, handles = 0; bool faults = false, inSync = false;
    u32 readPm = 0, writePm = 0, fullPm = 0, syncPm = 0, truncPm = 0, delPm = 0, openPm = 0, lockPm = 0, memPm = 0, delayPm = 0; u64 cap = ~0ull; long crashIn = -1; u64 writes = 0, errors = 0; std::map<std::string, std::string> image;
};
inline Disk* D = nullptr; // everything below runs on the simulated machine; every entry point is a scheduling point
inline sqlite3_mem_methods realMem;
inline void* memMalloc(int n) { if (D && D->faults && D->memPm && chance(FAULT, D->memPm)) { sim::fault("sqlite_nomem"); ++D->errors; return nullptr; } return realMem.xMalloc(n); }
inline void* memRealloc(void* p, int n) { if (D && D->faults && D->memPm && chance(FAULT, D->memPm)) { sim::fault("sqlite_nomem"); ++D->errors; return nullptr; } return realMem.xRealloc(p, n); }
#define SQ_LOCKED std::lock_guard<std::recursive_mutex> lk_(D->mu)
inline bool hit(u32 pm, const char* what) { if (!D->faults || !pm || !chance(FAULT, pm)) return false; sim::fault(what); ++D->errors; return true; }
inline void pause() { sim::yield_point(); if (D->delayPm && chance(DISK, D->delayPm)) sim::sleep(range(DISK, 1, 2000) * US); }
inline u64 used() { u64 n = 0; for (auto& [k, f] : D->files) n += f->cur.size(); return n; }
inline void redo(std::string& s, const Change& c) { if (c.trunc) { s.resize(c.off); return; } if (s.size() < c.off + c.data.size()) s.resize(c.off + c.data.size()); memcpy(s.data() + c.off, c.data.data(), c.data.size()); }
// power fails now: what each file contains afterwards is decided here
inline void crash() {
    D->image.clear(); D->dead = D->gen; D->crashIn = -1; u32 mode = choose(DISK, 4); sim::fault("power_failure"); note("crash mode %u", mode);
    for (auto& [k, f] : D->files) { if (!f->durable && (f->dur.empty() && mode != 1) && choose(DISK, 2)) continue; std::string s = f->dur;
        for (auto& c : f->pend) { u32 k2 = mode == 1 ? 0 : mode == 2 ? 1 : choose(DISK, 3); if (k2 == 0) redo(s, c); else if (k2 == 2 && !c.trunc && c.data.size() > 512) { Change t = c; t.data.resize(512 * range(DISK, 1, (u32)(c.data.size() - 1) / 512)); redo(s, t); sim::fault("torn_write"); } else sim::fault("lost_write"); }
        D->image[k] = std::move(s); }
}
inline bool mutating(int gen) { if (gen <= D->dead) return false; if (D->crashIn > 0 && --D->crashIn == 0) { crash(); return false; } return true; }
inline void restart() { SQ_LOCKED; D->files.clear(); for (auto& [k, s] : D->image) { auto n = std::make_shared<Node>(); n->name = k; n->cur = n->dur = s; n->durable = true; D->files[k] = n; } ++D->gen; }
inline File* F(sqlite3_file* f) { return reinterpret_cast<File*>(f); }
inline Node& N(sqlite3_file* f) { return **F(f)->node; }
inline int fUnlock(sqlite3_file* f, int l) { pause(); SQ_LOCKED; auto* x = F(f); auto& n = N(f); if (x->lock <= l) return SQLITE_OK; if (n.exclusive == x) n.exclusive = nullptr; if (n.pending == x) n.pending = nullptr; if (l < SQLITE_LOCK_RESERVED && n.reserved == x) n.reserved = nullptr; if (l == SQLITE_LOCK_NONE && x->lock >= SQLITE_LOCK_SHARED) --n.shared; x->lock = l; return SQLITE_OK; }
inline int fClose(sqlite3_file* f) { fUnlock(f, SQLITE_LOCK_NONE); SQ_LOCKED; auto* x = F(f); if (x->del && x->gen == D->gen) D->files.erase(N(f).name); delete x->node; --D->handles; return SQLITE_OK; }
inline int fRead(sqlite3_file* f, void* b, int n, sqlite3_int64 o) { pause(); SQ_LOCKED; if (F(f)->gen <= D->dead || hit(D->readPm, "db_read_error")) return SQLITE_IOERR_READ; auto& s = N(f).cur; size_t have = (u64)o < s.size() ? std::min<size_t>(n, s.size() - o) : 0; memcpy(b, s.data() + (have ? o : 0), have); if (have < (size_t)n) { memset((char*)b + have, 0, n - have); return SQLITE_IOERR_SHORT_READ; } return SQLITE_OK; }
inline int fWrite(sqlite3_file* f, const void* b, int n, sqlite3_int64 o) { pause(); SQ_LOCKED; if (!mutating(F(f)->gen)) return SQLITE_IOERR_WRITE; ++D->writes; Change c{(u64)o, std::string((const char*)b, n)};
    if (hit(D->writePm, "db_write_error")) { if (choose(DISK, 2)) { c.data.resize(choose(DISK, n)); if (c.data.size()) { redo(N(f).cur, c); N(f).pend.push_back(c); } } return SQLITE_IOERR_WRITE; }
    if (hit(D->fullPm, "db_disk_full")) return SQLITE_FULL; if (D->faults && o + n > (sqlite3_int64)N(f).cur.size() && used() + (o + n - N(f).cur.size()) > D->cap) { sim::fault("db_disk_full"); ++D->errors; return SQLITE_FULL; }
    redo(N(f).cur, c); N(f).pend.push_back(std::move(c)); return SQLITE_OK; }
inline int fTruncate(sqlite3_file* f, sqlite3_int64 n) { pause(); SQ_LOCKED; if (!mutating(F(f)->gen) || hit(D->truncPm, "db_truncate_error")) return SQLITE_IOERR_TRUNCATE; Change c{(u64)n, {}, true}; redo(N(f).cur, c); N(f).pend.push_back(c); return SQLITE_OK; }
inline int fSync(sqlite3_file* f, int) { pause(); SQ_LOCKED; if (!mutating(F(f)->gen) || hit(D->syncPm, "db_sync_error")) return SQLITE_IOERR_FSYNC; auto& n = N(f); n.dur = n.cur; n.pend.clear(); n.durable = true; return SQLITE_OK; }
inline int fSize(sqlite3_file* f, sqlite3_int64* n) { SQ_LOCKED; if (F(f)->gen <= D->dead) return SQLITE_IOERR_FSTAT; *n = N(f).cur.size(); return SQLITE_OK; }
inline int fLock(sqlite3_file* f, int l) { pause(); SQ_LOCKED; auto* x = F(f); auto& n = N(f); if (x->gen <= D->dead) return SQLITE_IOERR_LOCK; if (x->lock >= l) return SQLITE_OK; if (hit(D->lockPm, "db_busy")) return SQLITE_BUSY;
    if (l == SQLITE_LOCK_SHARED) { if (n.pending || n.exclusive) { sim::probe("lock contention"); return SQLITE_BUSY; } ++n.shared; x->lock = l; return SQLITE_OK; }
    if (l == SQLITE_LOCK_RESERVED) { if (n.reserved || n.pending || n.exclusive) { sim::probe("lock contention"); return SQLITE_BUSY; } n.reserved = x; x->lock = l; return SQLITE_OK; }
    if ((n.pending && n.pending != x) || (n.exclusive && n.exclusive != x) || (n.reserved && n.reserved != x)) { sim::probe("lock contention"); return SQLITE_BUSY; } if (x->lock >= SQLITE_LOCK_RESERVED) { n.pending = x; x->lock = SQLITE_LOCK_PENDING; } /* a reader that wants to roll a journal back must not look like a writer */ if (n.shared > 1) { sim::probe("lock contention"); return SQLITE_BUSY; } n.exclusive = x; n.pending = nullptr; x->lock = SQLITE_LOCK_EXCLUSIVE; return SQLITE_OK; }
inline int fReserved(sqlite3_file* f, int* r) { auto& n = N(f); *r = n.reserved || n.pending || n.exclusive; return SQLITE_OK; }
inline int fControl(sqlite3_file*, int, void*) { return SQLITE_NOTFOUND; }
inline int fSector(sqlite3_file*) { return 512; }
inline int fChar(sqlite3_file*) { return 0; }
inline const sqlite3_io_methods IO_ = {1, fClose, fRead, fWrite, fTruncate, fSync, fSize, fLock, fUnlock, fReserved, fControl, fSector, fChar, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
inline int vOpen(sqlite3_vfs*, const char* name, sqlite3_file* f, int flags, int* out) { f->pMethods = nullptr; pause(); SQ_LOCKED; if (hit(D->openPm, "db_open_error")) return SQLITE_CANTOPEN; static u64 tmp = 0; std::string k = name ? name : "tmp" + std::to_string(++tmp); auto it = D->files.find(k);
    EXPECT(!name || std::string_view(name).starts_with("/simdb/"), "db.path", "SQLite was asked to open '%s'", name); std::shared_ptr<Node> n; if (it == D->files.end()) { if (!(flags & SQLITE_OPEN_CREATE)) return SQLITE_CANTOPEN; if (!mutating(D->gen)) return SQLITE_CANTOPEN; n = std::make_shared<Node>(); n->name = k; D->files[k] = n; } else n = it->second;
    auto* x = F(f); x->node = new std::shared_ptr<Node>(n); x->gen = D->gen; x->lock = 0; x->del = flags & SQLITE_OPEN_DELETEONCLOSE; f->pMethods = &IO_; ++D->handles; if (out) *out = flags; return SQLITE_OK; }
inline int vDelete(sqlite3_vfs*, const char* name, int) { pause(); SQ_LOCKED; if (!mutating(D->gen) || hit(D->delPm, "db_delete_error")) return SQLITE_IOERR_DELETE; if (!D->files.erase(name)) return SQLITE_IOERR_DELETE_NOENT; return SQLITE_OK; }
inline int vAccess(sqlite3_vfs*, const char* name, int, int* r) { SQ_LOCKED; auto it = D->files.find(name); *r = it != D->files.end() && it->second->cur.size(); if (it != D->files.end() && D->gen > D->dead) *r = 1; return SQLITE_OK; }
inline int vFull(sqlite3_vfs*, const char* name, int n, char* out) { std::string s = name; if (s.empty() || s[0] != '/') s = "/simdb/" + s; snprintf(out, n, "%s", s.c_str()); return SQLITE_OK; }
inline int vRand(sqlite3_vfs*, int n, char* o) { for (int i = 0; i < n; ++i) o[i] = (char)sim::rnd64(); return n; }
inline int vSleep(sqlite3_vfs*, int us) { sim::sleep(us * US); return us; }
inline int vTime64(sqlite3_vfs*, sqlite3_int64* t) { *t = 210866760000000ll + (sqlite3_int64)(sim::wall() / MS); return SQLITE_OK; }
inline int vTime(sqlite3_vfs* v, double* t) { sqlite3_int64 x; vTime64(v, &x); *t = x / 86400000.0; return SQLITE_OK; }
inline int vErr(sqlite3_vfs*, int, char*) { return 0; }
inline sqlite3_vfs VFS = {2, sizeof(File), 512, nullptr, "sim", nullptr, vOpen, vDelete, vAccess, vFull, nullptr, nullptr, nullptr, nullptr, vRand, vSleep, vTime, vErr, vTime64};
inline void onLog(void*, int code, const char* msg) { EXPECT(code != SQLITE_MISUSE || strncmp(msg, "API call", 8) || strstr(msg, "NULL"), "db.misuse", "SQLite was used in a way it does not allow: %s", msg); }
struct World : Disk { World() { D = this; sqlite3_config(SQLITE_CONFIG_LOG, onLog, nullptr); sqlite3_config(SQLITE_CONFIG_GETMALLOC, &realMem); auto m = realMem; m.xMalloc = memMalloc; m.xRealloc = memRealloc; sqlite3_config(SQLITE_CONFIG_MALLOC, &m); sqlite3_initialize(); sqlite3_vfs_register(&VFS, 1); } ~World() { D = nullptr; } };
inline void draw(Disk& d) { auto r = [](std::initializer_list<u32> l) { return pick<u32>(FAULT, l); }; d.readPm = r({0, 0, 3, 20}); d.writePm = r({0, 0, 5, 40}); d.fullPm = r({0, 0, 5, 40}); d.syncPm = r({0, 0, 5, 60}); d.truncPm = r({0, 0, 50}); d.delPm = r({0, 0, 10, 80}); d.openPm = r({0, 0, 10, 60}); d.lockPm = r({0, 0, 10, 60}); d.memPm = r({0, 0, 0, 2, 8}); d.delayPm = r({0, 50}); d.cap = choose(FAULT, 6) == 1 ? range(FAULT, 12, 60) * 1024 : ~0ull; }
}
