// C25: a token is accepted exactly when it was issued under the key - with several threads, failing randomness and failing allocations.
// Real TokenApi, AES-GCM, JSON and OpenSSL; the source of randomness and the allocator below OpenSSL are simulated.
#include "common.hpp"
#include <HXLibs/net/token/Token.hpp>
#include <openssl/crypto.h>
#include <openssl/rand.h>
#include <set>
using namespace HX::net;
namespace {
struct Item { uint64_t n; std::string s; bool operator==(Item const&) const = default; };
struct Claims { uint64_t id; std::string name; std::vector<Item> items; bool operator==(Claims const&) const = default; };
struct KeyA { static std::string getKey() { return "0123456789abcdef0123456789ABCDEF"; } };
struct KeyB { static std::string getKey() { return "0123456789abcdef0123456789ABCDEG"; } };
struct Issued { std::string tok, raw; Claims c; int key; u32 by; };
struct World { std::mutex mu; std::set<std::string> random; std::vector<Issued> all; std::atomic<u64> faults{0}; std::atomic<bool> on{false}; u32 rngPm = 0, memPm = 0; bool rngDead = false; };
World* W = nullptr;
int rngBytes(unsigned char* b, int n) { sim::yield_point(); if (W->on && chance(FAULT, W->rngPm)) { ++W->faults; u32 k = choose(FAULT, 4); sim::fault(k & 1 ? "rng_fails_0" : "rng_fails_minus_1"); if (k & 2) for (int i = 0; i < n / 2; ++i) b[i] = 0x55; return k & 1 ? 0 : -1; }
    for (int i = 0; i < n; ++i) b[i] = (unsigned char)sim::rnd64(); std::lock_guard lk(W->mu); W->random.insert(std::string((char*)b, n)); return 1; }
int rngStatus() { return 1; }
bool memFails() { if (!W || !W->on || !W->memPm || !chance(FAULT, W->memPm)) return false; sim::fault("openssl_nomem"); ++W->faults; return true; }
void* cMalloc(size_t n, const char*, int) { return memFails() ? nullptr : malloc(n); }
void* cRealloc(void* p, size_t n, const char*, int) { return memFails() ? nullptr : realloc(p, n); }
void cFree(void* p, const char*, int) { free(p); }
const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
std::string enc(std::string const& s) { std::string o; u32 v = 0; int bits = 0; for (unsigned char c : s) { v = v << 8 | c; bits += 8; while (bits >= 6) { bits -= 6; o += A64[v >> bits & 63]; } } if (bits) o += A64[v << (6 - bits) & 63]; return o; }
std::string dec(std::string const& s) { std::string o; u32 v = 0; int bits = 0; for (char c : s) { const char* p = c ? strchr(A64, c) : nullptr; EXPECT(p, "token.text", "an issued token contains the character %d", c); v = v << 6 | (u32)(p - A64); bits += 6; if (bits >= 8) { bits -= 8; o += (char)(v >> bits & 255); } } return o; }
std::string words() { u32 n = pick<u32>(WORK, {5, 0, 1, 16, 100, 2000}); static const char* A[] = {"a", "b ", "Q", "7", "\"", "\\", "/", "\n", "\x01", "\x1f", "{", "}", "[", "]", ":", ",", "null", "=", "-_", "\xc3\xa9", "\xe4\xbd\xa0", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf", "\xe2\x80\xa8", "\x7f", "z"}; std::string r, p = payload(choose(WORK, 1000), n); for (unsigned char c : p) { if (r.size() >= n) break; r += A[c % 26]; } return r; }
Claims claims() { Claims c{sim::rnd64() >> choose(WORK, 60), words(), {}}; for (u32 k = choose(WORK, 4); k--;) c.items.push_back({choose(WORK, 1000), words()}); return c; }
template <typename K> std::string seal(Claims const& c) { return token::TokenApi::get<K>().toToken(c); }
template <typename K> void open(Claims& c, std::string_view t) { token::TokenApi::get<K>().fromToken(c, t); }
// true: accepted; false: refused with a std::exception
bool accepts(int key, Claims& c, std::string const& t) { try { std::string tail = t + "AAAA"; key ? open<KeyB>(c, std::string_view(tail.data(), t.size())) : open<KeyA>(c, std::string_view(tail.data(), t.size())); return true; } catch (std::exception& e) { return false; } catch (...) { sim::fail("token.exception", "something that is not a std::exception was thrown"); } }
void work(World& w, u32 me, u32 ops) {
    for (u32 i = 0; i < ops; ++i) { u32 kind = choose(WORK, 6); int key = choose(WORK, 4) == 1; u64 f0 = w.faults;
        Issued is; if (kind >= 2) { std::lock_guard lk(w.mu); if (w.all.empty()) kind = 0; else is = w.all[choose(WORK, (u32)w.all.size())]; }
        if (kind <= 1) { Claims c = claims(); std::string t; bool ok = false; try { t = key ? seal<KeyB>(c) : seal<KeyA>(c); ok = true; } catch (std::exception& e) { EXPECT(w.faults > f0, "token.refused", "issuing failed although nothing was wrong: %s", e.what()); sim::probe("issuing failed"); } catch (...) { sim::fail("token.exception", "something that is not a std::exception was thrown"); }
            if (ok) { std::string raw = dec(t); EXPECT(raw.size() > 28, "token.text", "a token of %zu bytes", raw.size()); std::lock_guard lk(w.mu); EXPECT(w.random.count(raw.substr(0, 12)), "token.nonce", "a token was issued with a nonce that did not come from the random generator"); for (auto& o : w.all) EXPECT(o.raw.compare(0, 12, raw, 0, 12), "token.nonce", "two tokens share a nonce"); w.all.push_back({t, raw, c, key, me}); } }
        else if (kind <= 3) { Claims c{}; if (choose(WORK, 2)) c = claims(); bool ok = accepts(is.key, c, is.tok); EXPECT(ok || w.faults > f0, "token.refused", "a token issued under the key is refused"); if (ok) { EXPECT(c == is.c, "token.value", "a token yields other claims than it was issued for"); if (is.by != me) sim::probe("accepted a token of another thread"); } }
        else { std::string raw = is.raw, t; u32 how = choose(WORK, 9); bool mayBeSame = false; int k = is.key;
            switch (how) { case 0: raw[choose(WORK, (u32)raw.size())] ^= 1 << choose(WORK, 8); break; case 1: raw.resize(choose(WORK, (u32)raw.size())); break; case 2: raw += payload(i, range(WORK, 1, 20)); break; case 3: raw.erase(0, range(WORK, 1, 13)); break; case 4: { std::lock_guard lk(w.mu); auto& o = w.all[choose(WORK, (u32)w.all.size())]; if (o.raw == raw) { raw[0] ^= 1; break; } raw = choose(WORK, 2) ? raw.substr(0, 12) + o.raw.substr(12) : raw.substr(0, raw.size() - 16) + o.raw.substr(o.raw.size() - 16); break; } case 5: k = !k; break; case 6: raw = payload(i, choose(WORK, 60)); break;
                case 7: case 8: t = is.tok; mayBeSame = true; if (how == 7) t[choose(WORK, (u32)t.size())] = (char)choose(WORK, 256); else if (choose(WORK, 2)) t.resize(choose(WORK, (u32)t.size())); else t.insert(choose(WORK, (u32)t.size()), 1, (char)choose(WORK, 256)); break; }
            if (!mayBeSame) t = enc(raw); Claims c{77, "untouched", {}}, before = c; bool ok = accepts(k, c, t); sim::probe(ok ? "altered text with the same meaning" : "altered token refused");
            if (ok) EXPECT(mayBeSame && c == is.c, "token.forged", "a token that was altered (way %u) is accepted: id %lu instead of %lu, name '%s' instead of '%s', %zu items instead of %zu", how, c.id, is.c.id, c.name.substr(0, 40).c_str(), is.c.name.substr(0, 40).c_str(), c.items.size(), is.c.items.size()); else EXPECT(c == before, "token.leak", "a refused token changed the claims"); }
        if (choose(WORK, 4) == 1) nap(choose(WORK, 100) * US); }
}
}
SIM_SCENARIO("C25", tokens) {
    World w; W = &w; EXPECT(CRYPTO_set_mem_functions(cMalloc, cRealloc, cFree) == 1, "sim.setup", "OpenSSL allocates already"); RAND_METHOD m{nullptr, rngBytes, nullptr, nullptr, rngBytes, rngStatus}; RAND_set_rand_method(&m); sim::swarm_sched(); sim::deadline(3000 * SEC, "token.hang", "the threads");
    u32 n = range(WORK, 1, 4), ops = range(WORK, 2, 30); w.rngPm = pick<u32>(FAULT, {0, 50, 300}); w.memPm = pick<u32>(FAULT, {0, 0, 5, 50}); sim::sample("%u threads with %u operations, random generator fails %u, allocation %u permille", n, ops, w.rngPm, w.memPm);
    { Claims c = claims(); auto t = seal<KeyA>(c); seal<KeyB>(c); Claims d; open<KeyA>(d, t); } w.on = true;
    std::vector<std::thread> ts; for (u32 i = 0; i < n; ++i) ts.emplace_back([&, i] { for (;;) { try { token::TokenApi::get<KeyA>(); token::TokenApi::get<KeyB>(); break; } catch (std::exception&) { EXPECT(w.faults, "token.refused", "the API could not be set up although nothing was wrong"); nap(MS); } } work(w, i, ops); });
    for (auto& t : ts) t.join(); w.on = false; u64 f0 = w.faults; for (auto& is : w.all) { Claims c; EXPECT(accepts(is.key, c, is.tok), "token.refused", "a token issued under the key is refused at the end"); EXPECT(c == is.c, "token.value", "a token yields other claims than it was issued for"); } (void)f0;
    std::thread([&] { for (int i = 0; i < 3; ++i) { Claims c = claims(), d; auto t = seal<KeyA>(c); EXPECT(accepts(0, d, t) && d == c, "token.refused", "tokens do not work any more after the faults"); } }).join();
    sim::clear_deadline(); RAND_set_rand_method(nullptr); W = nullptr;
}
