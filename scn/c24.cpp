// C24: what a database operation reports is what the store contains - over statement reuse, I/O errors, full disks, contention,
// reopening and power failures. Real SqliteDB, statement builders and SQLite; the disk below is simulated.
#include "simsqlite.hpp"
#include <HXLibs/db/sqlite3/SqliteDB.hpp>
namespace tag { struct Code { int v; bool operator==(Code const&) const = default; }; }
template <> struct HX::db::CustomType<tag::Code> { using Type = tag::Code; static std::string toSql(tag::Code const& c) { return "code-" + std::string(40, 'x') + std::to_string(c.v); } static tag::Code fromSql(std::string_view s) { return {std::atoi(s.substr(45).data())}; } };
using namespace HX; using namespace db; using namespace meta::fixed_string_literals;
namespace {
struct Row { AutoIncrementPrimaryKey<int64_t> id; std::string name; int32_t cnt; int64_t big; double d; inline static constexpr std::string_view TableName = "Rows"; };
struct Uni { PrimaryKey<int64_t> key; std::string val; inline static constexpr std::string_view TableName = "Uniq"; };
struct Idx { Constraint<int64_t, attr::PrimaryKey<>> key; Constraint<int64_t, attr::DescIndex> a; Constraint<std::string, attr::Index<>, attr::NotNull> b; struct UnionAttr { attr::Index<attr::IndexOrder<&Idx::a, attr::Order::Desc>, attr::IndexOrder<&Idx::b>> both; }; inline static constexpr std::string_view TableName = "Indexed"; };
struct V { std::string name; int32_t cnt; int64_t big; double d; bool operator==(V const&) const = default; };
struct State { std::map<int64_t, V> rows; std::map<int64_t, std::string> uniq; int64_t next = 1; bool operator==(State const&) const = default; };
std::string text() { u32 n = pick<u32>(WORK, {8, 1, 0, 100, 3000, 9000}); std::string s = payload(choose(WORK, 1000), n); if (choose(WORK, 2)) for (auto& c : s) c = 'a' + (unsigned char)c % 26; else for (auto& c : s) c &= 0x7f; return s; }
V value(int32_t cnt) { V v; v.name = text(); v.cnt = cnt; v.big = choose(WORK, 5) ? (int64_t)payload(choose(WORK, 99), 1)[0] << choose(WORK, 50) : pick<int64_t>(WORK, {INT64_MAX, INT64_MIN, -1}); v.d = (int)choose(WORK, 2000) / 8.0 - 100; return v; }
using DB = DataBase<DbType::Sqlite3>;
struct Failed { std::string why; };
// a library call either returns or throws something derived from std::exception
template <typename F> auto attempt(F&& f, std::string& err) -> std::optional<decltype(f())> { try { return f(); } catch (std::exception& e) { err = e.what(); } catch (...) { sim::fail("db.exception", "an operation threw something that is not a std::exception"); } return std::nullopt; }
V conv(auto& r) { return {r.template get<1>(), r.template get<2>(), r.template get<3>(), r.template get<4>()}; }
struct Client {
    DB db; std::string path; State st; bool strict = true, inTx = false; State txStart; int failures = 0;
    std::map<int64_t, V> readRows(std::string& err, bool& ok) { auto r = attempt([&] { return db.sqlTemplate<"all"_fs>().select<Col(&Row::id), Col(&Row::name), Col(&Row::cnt), Col(&Row::big), Col(&Row::d)>().from<Row>().orderBy<Col(&Row::id).asc()>().exec(); }, err); std::map<int64_t, V> m; ok = (bool)r; int64_t last = INT64_MIN; if (r) for (auto& x : *r) { EXPECT(x.get<0>() > last, "db.order", "rows are not in ascending order of id: %ld after %ld", (long)x.get<0>(), (long)last); last = x.get<0>(); m[x.get<0>()] = conv(x); } return m; }
    std::map<int64_t, std::string> readUniq(std::string& err, bool& ok) { auto r = attempt([&] { return db.sqlTemplate<"allu"_fs>().select<Col(&Uni::key), Col(&Uni::val)>().from<Uni>().exec(); }, err); std::map<int64_t, std::string> m; ok = (bool)r; if (r) for (auto& x : *r) m[x.get<0>()] = x.get<1>(); return m; }
};
std::vector<int64_t> limited(DB& db, int32_t const off) { std::vector<int64_t> v; for (auto& r : db.sqlTemplate<"lim"_fs>().select<Col(&Row::id), Col(&Row::cnt)>().from<Row>().orderBy<Col(&Row::id).desc()>().limit<param<int32_t>, 3>(off).exec()) v.push_back(r.get<0>()); return v; }
std::string show(std::map<int64_t, V> const& m) { std::string s; for (auto& [k, v] : m) { s += std::to_string(k) + ":" + std::to_string(v.cnt) + "/" + std::to_string(v.name.size()) + "/" + std::to_string(sim::fnv(v.name) % 1000) + " "; if (s.size() > 200) break; } return s; }
}
int objects(std::string const& path, const char* type) { sqlite3* d = nullptr; sqlite3_stmt* st = nullptr; int n = -1; if (sqlite3_open(path.c_str(), &d) == SQLITE_OK && sqlite3_prepare_v2(d, "SELECT count(*) FROM sqlite_master WHERE type = ? AND sql IS NOT NULL AND name NOT LIKE 'sqlite_%'", -1, &st, nullptr) == SQLITE_OK) { sqlite3_bind_text(st, 1, type, -1, nullptr); if (sqlite3_step(st) == SQLITE_ROW) n = sqlite3_column_int(st, 0); } sqlite3_finalize(st); sqlite3_close(d); return n; }
// one client, one operation after the other; every template is used again and again
SIM_SCENARIO("C24", store) {
    sim::deadline(20000 * SEC, "db.hang", "the history"); sq::World w; sqlite3_int64 mem0 = sqlite3_memory_used(); sq::draw(w); sim::swarm_sched(); auto c = std::make_unique<Client>(); std::map<std::string, State> disk; std::string err;
    u32 ops = range(WORK, 4, 60); u32 crashes = choose(FAULT, 3); sim::sample("%u operations, up to %u power failures, read/write/full/sync/trunc/delete/open/busy/nomem %u/%u/%u/%u/%u/%u/%u/%u/%u permille", ops, crashes, w.readPm, w.writePm, w.fullPm, w.syncPm, w.truncPm, w.delPm, w.openPm, w.lockPm, w.memPm);
    auto openDb = [&](std::string const& p) { std::string e; auto r = attempt([&] { c->db.open(std::string_view(p)); return true; }, e); return (bool)r; };
    // creating tables that exist already, or were created in part, completes them
    auto create = [&](bool faults) { bool f = w.faults; for (int tries = 0;; ++tries) { w.faults = faults && tries < 6; u64 e0 = w.errors; auto x = c->db.createDatabase<Row>(); auto y = c->db.createDatabase<Uni>(); auto z = c->db.createDatabase<Idx>(); bool all = (bool)x && (bool)y && (bool)z; if (all) break; std::string why = !x ? x.what() : !y ? y.what() : z.what(); EXPECT(w.errors > e0, "db.create", "creating the tables failed although nothing was wrong: %s", why.c_str()); EXPECT(why.size(), "db.exception", "a failure without a description"); sim::probe("creating tables failed"); }
        w.faults = false; EXPECT(objects(c->path, "table") == 3, "db.create", "creating the tables reported success but not all exist"); EXPECT(objects(c->path, "index") == 3, "db.create", "creating the tables reported success but not all indexes exist"); w.faults = f; };
    auto verify = [&](const char* when) { bool f = w.faults; w.faults = false; long ci = w.crashIn; w.crashIn = -1; bool ok, ok2; auto m = c->readRows(err, ok); EXPECT(ok, "db.unusable", "%s: reading fails although no fault is active: %s", when, err.c_str()); auto u = c->readUniq(err, ok2); EXPECT(ok2, "db.unusable", "%s: reading fails although no fault is active: %s", when, err.c_str());
        EXPECT(m == c->st.rows, "db.state", "%s: the table contains [%s] but should contain [%s]", when, show(m).c_str(), show(c->st.rows).c_str()); EXPECT(u == c->st.uniq, "db.state", "%s: the table of unique keys has %zu rows instead of %zu or other contents", when, u.size(), c->st.uniq.size()); w.faults = f; w.crashIn = ci; };
    c->path = "/simdb/a"; EXPECT(openDb(c->path), "db.create", "open failed without a fault"); create(choose(FAULT, 2)); verify("new database"); w.faults = true;
    if (crashes) w.crashIn = range(FAULT, 1, 120);
    u32 checkEvery = pick<u32>(WORK, {1, 1, 5, 1000});
    for (u32 i = 0; i < ops; ++i) {
        State pre = c->st, post = pre; err.clear(); bool ok = false; u64 e0 = w.errors; u32 kind = choose(WORK, 18); bool read = false, mustFail = false, txctl = false; int dead0 = w.dead; bool wasTx = c->inTx;
        auto some = [&]() -> int64_t { if (pre.rows.empty() || choose(WORK, 8) == 7) return choose(WORK, 50); auto it = pre.rows.begin(); std::advance(it, choose(WORK, (u32)pre.rows.size())); return it->first; };
        note("op %u kind %u rows %zu", i, kind, pre.rows.size());
        switch (kind) {
        case 0: case 1: { V v = value((int32_t)choose(WORK, 10)); post.rows[post.next++] = v; ok = (bool)attempt([&] { c->db.sqlTemplate<"ins"_fs>().insert<&Row::name, &Row::cnt, &Row::big, &Row::d>(v.name, v.cnt, v.big, v.d).exec(); return true; }, err); break; }
        case 2: { V v = value((int32_t)choose(WORK, 10)); int64_t id = post.next; post.rows[post.next++] = v; Row r{{}, v.name, v.cnt, v.big, v.d}; auto x = attempt([&] { return c->db.sqlTemplate<"insr"_fs>().insert(r).returning<&Row::id, &Row::name, &Row::cnt, &Row::big, &Row::d>().exec(); }, err); ok = (bool)x; if (x) { EXPECT(x->get<0>() == id, "db.returned", "the insert returned id %ld instead of %ld", (long)x->get<0>(), (long)id); EXPECT(conv(*x) == v, "db.returned", "the insert returned other values than inserted"); } break; }
        case 3: { V v = value((int32_t)choose(WORK, 10)); post.rows[post.next++] = v; Row r{{}, v.name, v.cnt, v.big, v.d}; auto t = c->db.sqlTemplate<"insn"_fs>().insert(r).returning<&Row::name>().execNoThrow(); ok = (bool)t; if (t) EXPECT(t.get().get<0>() == v.name, "db.returned", "the insert returned another name"); if (!t) err = t.what(); break; }
        case 4: { int64_t const id = some(); int32_t const n = (int32_t)choose(WORK, 10); std::string nm = text(); u64 want = pre.rows.count(id); if (want) { post.rows[id].name = nm; post.rows[id].cnt = n; } auto x = attempt([&] { return c->db.sqlTemplate<"upd"_fs>().update<&Row::name, &Row::cnt>(nm, n).where<Col(&Row::id) == param<int64_t>>(id).execGetChanges(); }, err); ok = (bool)x; if (x) EXPECT(*x == want, "db.changes", "an update of %lu rows reported %lu", (unsigned long)want, (unsigned long)*x); break; }
        case 5: { int32_t const n = (int32_t)choose(WORK, 10); int64_t big = choose(WORK, 100000); std::map<int64_t, V> hitRows; for (auto& [k, v] : post.rows) if (v.cnt == n) { v.big = big; hitRows[k] = v; } auto x = attempt([&] { return c->db.sqlTemplate<"updr"_fs>().update<&Row::big>(big).where<Col(&Row::cnt) == param<int32_t>>(n).returning<&Row::id, &Row::name, &Row::cnt, &Row::big, &Row::d>().execGetChanges(); }, err); ok = (bool)x;
            if (x) { std::map<int64_t, V> got; for (auto& r : x->columnRes) got[r.get<0>()] = conv(r); EXPECT(got == hitRows, "db.returned", "the update returned [%s] instead of [%s]", show(got).c_str(), show(hitRows).c_str()); EXPECT(x->changes == hitRows.size(), "db.changes", "an update of %zu rows reported %lu", hitRows.size(), (unsigned long)x->changes); } break; }
        case 6: { int64_t const id = some(); bool had = post.rows.erase(id); auto x = attempt([&] { return c->db.sqlTemplate<"del"_fs>().deleteForm<Row>().where<Col(&Row::id) == param<int64_t>>(id).execGetChanges(); }, err); ok = (bool)x; if (x) EXPECT(*x == (u64)had, "db.changes", "a delete of %d rows reported %lu", had, (unsigned long)*x); break; }
        case 7: { int32_t const n = (int32_t)choose(WORK, 10); std::map<int64_t, V> gone; for (auto it = post.rows.begin(); it != post.rows.end();) if (it->second.cnt == n) { gone.insert(*it); it = post.rows.erase(it); } else ++it; auto x = attempt([&] { return c->db.sqlTemplate<"delr"_fs>().deleteForm<Row>().where<Col(&Row::cnt) == param<int32_t>>(n).returning<&Row::id, &Row::name, &Row::cnt, &Row::big, &Row::d>().execGetChanges(); }, err); ok = (bool)x; if (x) { EXPECT(x->changes == gone.size(), "db.changes", "a delete of %zu rows reported %lu", gone.size(), (unsigned long)x->changes); std::map<int64_t, V> got; for (auto& r : x->columnRes) got[r.get<0>()] = conv(r); EXPECT(got == gone, "db.returned", "the delete returned [%s] instead of [%s]", show(got).c_str(), show(gone).c_str()); } break; }
        case 17: { read = true; int32_t const off = (int32_t)choose(WORK, 4); auto x = attempt([&] { return limited(c->db, off); }, err); ok = (bool)x; if (x) { std::vector<int64_t> want; for (auto it = pre.rows.rbegin(); it != pre.rows.rend(); ++it) want.push_back(it->first); want.erase(want.begin(), want.begin() + std::min<size_t>(off, want.size())); if (want.size() > 3) want.resize(3); EXPECT(*x == want, "db.read", "a query with a limit returned %zu rows instead of %zu, or others", x->size(), want.size()); } break; }
        case 8: { read = true; auto m = c->readRows(err, ok); if (ok) EXPECT(m == pre.rows, "db.read", "a query returned [%s], the table contains [%s]", show(m).c_str(), show(pre.rows).c_str()); break; }
        case 9: case 10: { read = true; int64_t id = some(); int32_t lim = (int32_t)choose(WORK, 12); auto x = attempt([&] { return c->db.sqlTemplate<"sel"_fs>().select<Col(&Row::id), Col(&Row::name), Col(&Row::cnt), Col(&Row::big), Col(&Row::d)>().from<Row>().where<Col(&Row::cnt) < param<int32_t>.bind<"?lim">() && Col(&Row::id) == param<int64_t>.bind<"?id">()>(bind<"?id">.link(id), bind<"?lim">.link(lim)).exec(); }, err); ok = (bool)x;
            if (x) { auto it = pre.rows.find(id); bool want = it != pre.rows.end() && it->second.cnt < lim; EXPECT(x->size() == want, "db.read", "a query for id %ld returned %zu rows instead of %d", (long)id, x->size(), want); if (want) EXPECT(x->at(0).get<0>() == id && conv(x->at(0)) == it->second, "db.read", "a query for id %ld returned another row", (long)id); } break; }
        case 11: { int64_t key = choose(WORK, 12); std::string val = text(); mustFail = pre.uniq.count(key); if (!mustFail) post.uniq[key] = val; Uni u{{key}, val}; ok = (bool)attempt([&] { c->db.sqlTemplate<"uni"_fs>().insert<Uni, true>(u).exec(); return true; }, err); EXPECT(!mustFail || !ok, "db.unique", "inserting the existing key %ld reported success", (long)key); break; }
        case 12: { int64_t key = 100 + choose(WORK, 12); tag::Code code{(int)choose(WORK, 100)}; mustFail = pre.uniq.count(key); if (!mustFail) post.uniq[key] = CustomType<tag::Code>::toSql(code); ok = (bool)attempt([&] { c->db.sqlTemplate<"cust"_fs>().insert<&Uni::key, &Uni::val>(key, code).exec(); return true; }, err); EXPECT(!mustFail || !ok, "db.unique", "inserting the existing key %ld reported success", (long)key); break; }
        case 13: { if (!c->inTx) { ok = (bool)attempt([&] { c->db.exec("BEGIN"); return true; }, err); txctl = true; if (ok) { c->inTx = true; c->txStart = pre; } } else { ok = (bool)attempt([&] { c->db.exec("COMMIT"); return true; }, err); if (ok) { c->inTx = false; sim::probe("transaction committed"); } } read = !c->inTx && txctl; break; }
        case 14: { if (!c->inTx) { ok = true; break; } ok = (bool)attempt([&] { c->db.exec("ROLLBACK"); return true; }, err); if (ok) { post = c->txStart; c->inTx = false; } break; }
        case 15: { // reopen, or use another file
            std::string p = choose(WORK, 2) ? c->path : choose(WORK, 2) ? "/simdb/a" : "/simdb/b"; disk[c->path] = c->inTx ? c->txStart : c->st; c->inTx = false; if (choose(WORK, 2)) { c->db.close(); if (choose(WORK, 4) == 1) c->db.close(); }
            std::string big = p + "-tail"; std::string_view sv(big.data(), p.size()); // an argument that is not NUL-terminated
            auto r = attempt([&] { c->db.open(sv); return true; }, err); if (!r) { sim::probe("open failed"); bool ok2; if (choose(WORK, 2)) { std::string e2; c->readRows(e2, ok2); EXPECT(!ok2, "db.closed", "reading succeeded although opening the database failed"); } if (w.gen <= w.dead) break; bool f = w.faults; w.faults = false; bool o = openDb(p); EXPECT(o || w.gen <= w.dead, "db.unusable", "opening fails although no fault is active"); w.faults = f; if (!o) break; }
            if (w.gen <= w.dead) break; c->path = p; bool f = w.faults; w.faults = false; long ci = w.crashIn; w.crashIn = -1; if (w.gen > w.dead) create(choose(FAULT, 2)); w.crashIn = ci; w.faults = f; c->st = pre = post = disk[p]; ok = true; if (w.gen > w.dead) verify("after opening"); break; }
        case 16: { ok = (bool)attempt([&] { c->db.exec("UPDATE Rows SET cnt = cnt + 1 WHERE cnt < 5"); return true; }, err); for (auto& [k, v] : post.rows) if (v.cnt < 5) ++v.cnt; if (ok) { u64 n = 0; for (auto& [k, v] : pre.rows) n += v.cnt < 5; (void)n; } break; }
        default: ok = true;
        }
        bool crashed = w.gen <= w.dead;
        if (!ok) { ++c->failures; EXPECT(crashed || mustFail || w.errors > e0 || (wasTx && !c->inTx), "db.refused", "operation %u (kind %u) failed although nothing was wrong: %s", i, kind, err.c_str()); EXPECT(err.size(), "db.exception", "a failure without a description"); }
        if (crashed) { // everything acknowledged before must be there; the operation under way may be
            std::vector<State> may; State base = wasTx ? c->txStart : pre; if (kind == 15) may = {disk[c->path]}; else if (wasTx) { may = {base}; if (kind == 13) { may.push_back(pre); if (ok) may = {pre}; } } else { may = {pre}; if (!read) { if (ok) may = {post}; else may.push_back(post); } }
            disk[c->path] = c->st; std::string p = c->path; w.faults = false; c = std::make_unique<Client>(); EXPECT(w.handles == 0, "db.leak", "%d files are still open after the connection was destroyed", w.handles); sq::restart(); w.faults = false; c->path = p; if (--crashes && choose(FAULT, 2)) w.crashIn = range(FAULT, 1, 60); else w.crashIn = -1;
            for (;;) { EXPECT(openDb(p), "db.unusable", "opening fails after a restart"); bool a, b; c->st.rows = c->readRows(err, a); c->st.uniq = c->readUniq(err, b); if (w.gen <= w.dead) { sim::probe("power failure during recovery"); c = std::make_unique<Client>(); c->path = p; sq::restart(); w.crashIn = -1; continue; } EXPECT(a && b, "db.unusable", "reading fails after a restart: %s", err.c_str()); break; }
            w.crashIn = crashes ? (long)range(FAULT, 1, 120) : -1; bool match = false; for (auto& m : may) if (m.rows == c->st.rows && m.uniq == c->st.uniq) { c->st.next = m.next; match = true; break; } EXPECT(match, "db.durability", "after a power failure in operation %u (kind %u) the database contains [%s]; acknowledged were [%s]", i, kind, show(c->st.rows).c_str(), show(may[0].rows).c_str());
            for (auto& m : may) if (m.rows == c->st.rows && m.uniq == c->st.uniq) c->st.next = std::max(c->st.next, m.next); 
            if (may.size() > 1 && may[0].rows == may[1].rows && may[0].next != may[1].next) { w.faults = false; break; } // the id of the next row is open: end here
            sim::probe("recovered after a power failure"); w.faults = true; continue; }
        if (ok) c->st = post;
        else if (wasTx) { // SQLite may have rolled the transaction back by itself; make that so
            bool f = w.faults; w.faults = false; std::string e2; (void)attempt([&] { c->db.exec("ROLLBACK"); return true; }, e2); c->inTx = false; c->st = c->txStart; w.faults = f; sim::probe("transaction given up"); }
        if (!ok) sim::probe("operation failed"); else if (w.errors > e0) sim::probe("operation succeeded in spite of a fault");
        if (i % checkEvery == 0 && w.gen > w.dead) verify(ok ? "after an operation that succeeded" : "after an operation that failed");
    }
    w.faults = false; w.crashIn = -1; if (w.gen > w.dead) { if (c->inTx) { c->db.exec("COMMIT"); c->inTx = false; } verify("at the end"); }
    if (w.gen > w.dead) { auto use = [&] { std::string e; bool ok; c->readRows(e, ok); limited(c->db, 1); int64_t const id = 1 << 30; c->db.sqlTemplate<"del"_fs>().deleteForm<Row>().where<Col(&Row::id) == param<int64_t>>(id).exec(); }; for (int i = 0; i < 3; ++i) use(); u64 before = sim::heap_live_bytes(); for (int i = 0; i < 40; ++i) use(); EXPECT(sim::heap_live_bytes() <= before + 256, "db.growth", "using the same statements again and again keeps %lu more bytes", (unsigned long)(sim::heap_live_bytes() - before)); }
    std::string p = c->path; State last = c->st; c = std::make_unique<Client>(); EXPECT(w.handles == 0, "db.leak", "%d files are still open after the connection was destroyed", w.handles); if (w.gen > w.dead) { EXPECT(openDb(p), "db.unusable", "opening fails"); c->st = last; verify("reopened"); } c.reset(); EXPECT(w.handles == 0, "db.leak", "%d files are still open after the connection was destroyed", w.handles); EXPECT(sqlite3_memory_used() == mem0, "db.leak", "SQLite still holds %lld bytes after everything was closed", (long long)(sqlite3_memory_used() - mem0));
    sim::clear_deadline();
}
// several connections to one file on several threads
SIM_SCENARIO("C24", contention) {
    sim::deadline(100000 * SEC, "db.hang", "the clients"); sq::World w; sq::draw(w); w.memPm = 0; sim::swarm_sched(); u32 n = range(WORK, 2, 4), ops = range(WORK, 2, 20); sim::sample("%u connections with %u operations each", n, ops); std::string err;
    { DB db; db.open("/simdb/a"); auto r = db.createDatabase<Row>(); EXPECT((bool)r, "db.create", "creating the table failed: %s", r.what().c_str()); }
    std::atomic<int> done{0}; std::vector<std::map<std::string, V>> fin(n); std::vector<std::thread> ts; w.faults = choose(FAULT, 2);
    for (u32 t = 0; t < n; ++t) ts.emplace_back([&, t] { DB db; std::string err; std::map<std::string, V> mine; u32 seq = 0; u32 napMax = 5 + 20 * t; for (;;) { if (attempt([&] { db.open("/simdb/a"); return true; }, err)) break; nap(range(WORK, 1, napMax) * MS); }
        for (u32 i = 0; i < ops; ++i) { u32 kind = choose(WORK, 5); std::string key; bool isNew = kind <= 1 || mine.empty(); if (isNew) { key = "t" + std::to_string(t) + "-" + std::to_string(seq++) + "_" + text().substr(0, 50); for (auto& ch : key) ch = ch < 32 || ch == 127 ? '.' : ch; } else { auto it = mine.begin(); std::advance(it, choose(WORK, (u32)mine.size())); key = it->first; } V v = value((int32_t)t); v.name = key;
            for (u32 tries = 0;; ++tries) { if (tries > 60) w.faults = false; EXPECT(tries < 600, "db.locked_out", "client %u: operation %u (kind %u) still fails after %u attempts: %s", t, i, kind, tries, err.c_str()); if (tries) nap(range(WORK, 1, tries > 60 ? 300 : napMax) * MS); bool ok = false; auto post = mine; int32_t const ct = (int32_t)t;
                if (isNew) { post[key] = v; if (kind) ok = (bool)attempt([&] { db.sqlTemplate<"ins"_fs>().insert<&Row::name, &Row::cnt, &Row::big, &Row::d>(v.name, v.cnt, v.big, v.d).exec(); return true; }, err); else { auto x = attempt([&] { return db.sqlTemplate<"insr"_fs>().insert(Row{{}, v.name, v.cnt, v.big, v.d}).returning<&Row::id, &Row::name>().exec(); }, err); ok = (bool)x; if (x) EXPECT(x->get<1>() == key, "db.returned", "the insert returned the row of another client"); } }
                else if (kind == 2) { post[key] = v; auto x = attempt([&] { return db.sqlTemplate<"upd"_fs>().update<&Row::big, &Row::d>(v.big, v.d).where<Col(&Row::name) == param<std::string>>(std::as_const(key)).execGetChanges(); }, err); ok = (bool)x; if (x) EXPECT(*x == 1, "db.changes", "an update of one row reported %lu", (unsigned long)*x); }
                else if (kind == 3) { post.erase(key); auto x = attempt([&] { return db.sqlTemplate<"del"_fs>().deleteForm<Row>().where<Col(&Row::name) == param<std::string>>(std::as_const(key)).returning<&Row::name>().execGetChanges(); }, err); ok = (bool)x; if (x) EXPECT(x->changes == 1 && x->columnRes.size() == 1 && x->columnRes[0].get<0>() == key, "db.changes", "a delete of one row reported %lu with %zu rows", (unsigned long)x->changes, x->columnRes.size()); }
                else { auto c2 = ct; auto x = attempt([&] { return db.sqlTemplate<"mine"_fs>().select<Col(&Row::id), Col(&Row::name), Col(&Row::cnt), Col(&Row::big), Col(&Row::d)>().from<Row>().where<Col(&Row::cnt) == param<int32_t>.bind<"?t">()>(bind<"?t">.link(c2)).exec(); }, err); ok = (bool)x; if (x) { std::map<std::string, V> got; for (auto& r : *x) got[r.get<1>()] = conv(r); EXPECT(got == mine && x->size() == mine.size(), "db.read", "client %u reads %zu rows of its own, %zu were stored", t, x->size(), mine.size()); } }
                if (ok) { mine = post; break; } sim::probe("retried"); } nap(choose(WORK, 3) * MS); }
        fin[t] = mine; ++done; });
    for (auto& t : ts) t.join(); w.faults = false; EXPECT(w.handles == 0, "db.leak", "%d files are still open", w.handles);
    { Client c; c.db.open("/simdb/a"); bool ok; auto m = c.readRows(err, ok); EXPECT(ok, "db.unusable", "reading fails at the end: %s", err.c_str()); size_t total = 0; for (auto& f : fin) total += f.size(); EXPECT(m.size() == total, "db.state", "%zu rows are stored instead of %zu", m.size(), total); for (auto& [id, v] : m) { auto& f = fin.at(v.cnt); auto it = f.find(v.name); EXPECT(it != f.end() && it->second == v, "db.state", "row %ld is not what client %d stored", (long)id, v.cnt); } }
    sim::clear_deadline();
}
