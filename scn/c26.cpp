// C26: the chat client sends exactly the conversation it was given and hands over every chunk of the answer once, in order.
#include "client.hpp"
#include <HXLibs/ai/openai.hpp>
#include <map>
using namespace cl; namespace oa = HX::ai::openai;
namespace {
// ---- JSON, written from RFC 8259
struct J; struct Mem;
struct J { enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL; bool b = false; std::string s; std::vector<J> a; std::vector<Mem> o; J(); J(const J&); J(J&&); J& operator=(const J&); J& operator=(J&&); ~J(); static J str(std::string v); static J num(std::string v); static J boolean(bool v); static J obj(); static J arr(); J& put(std::string n, J v); const J* get(std::string_view n) const; };
struct Mem { std::string first; J second; };
J::J() = default; J::J(const J&) = default; J::J(J&&) = default; J& J::operator=(const J&) = default; J& J::operator=(J&&) = default; J::~J() = default;
J J::str(std::string v) { J j; j.k = STR; j.s = std::move(v); return j; } J J::num(std::string v) { J j; j.k = NUM; j.s = std::move(v); return j; } J J::boolean(bool v) { J j; j.k = BOOL; j.b = v; return j; } J J::obj() { J j; j.k = OBJ; return j; } J J::arr() { J j; j.k = ARR; return j; }
J& J::put(std::string n, J v) { o.push_back({std::move(n), std::move(v)}); return *this; } const J* J::get(std::string_view n) const { for (auto& p : o) if (p.first == n) return &p.second; return nullptr; }
struct Parse { std::string_view s; size_t i = 0; bool ok = true;
    void ws() { while (i < s.size() && strchr(" \t\r\n", s[i]) && s[i]) ++i; } bool eat(std::string_view w) { if (s.compare(i, w.size(), w)) return false; i += w.size(); return true; }
    static void utf8(std::string& r, u32 c) { if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } }
    u32 hex4() { u32 v = 0; for (int k = 0; k < 4; ++k, ++i) { if (i >= s.size() || !isxdigit((unsigned char)s[i])) { ok = false; return 0; } v = v * 16 + (u32)(isdigit((unsigned char)s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10); } return v; }
    std::string text() { std::string r; if (!eat("\"")) { ok = false; return r; } for (;;) { if (i >= s.size() || (unsigned char)s[i] < 32) { ok = false; return r; } char c = s[i++]; if (c == '"') return r; if (c != '\\') { r += c; continue; } if (i >= s.size()) { ok = false; return r; } c = s[i++];
            switch (c) { case '"': case '\\': case '/': r += c; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
                case 'u': { u32 v = hex4(); if (v >= 0xd800 && v < 0xdc00) { if (!eat("\\u")) { ok = false; return r; } u32 l = hex4(); if (l < 0xdc00 || l > 0xdfff) { ok = false; return r; } v = 0x10000 + ((v - 0xd800) << 10) + (l - 0xdc00); } else if (v >= 0xdc00 && v <= 0xdfff) { ok = false; return r; } utf8(r, v); break; } default: ok = false; return r; } } }
    J value() { ws(); J j; if (!ok || i >= s.size()) { ok = false; return j; } char c = s[i];
        if (c == '{') { ++i; j.k = J::OBJ; ws(); if (eat("}")) return j; for (;;) { ws(); auto n = text(); ws(); if (!ok || !eat(":")) { ok = false; return j; } J v = value(); if (j.get(n)) ok = false; j.put(n, v); ws(); if (!ok) return j; if (eat(",")) continue; if (!eat("}")) ok = false; return j; } }
        if (c == '[') { ++i; j.k = J::ARR; ws(); if (eat("]")) return j; for (;;) { j.a.push_back(value()); ws(); if (!ok) return j; if (eat(",")) continue; if (!eat("]")) ok = false; return j; } }
        if (c == '"') return J::str(text()); if (eat("null")) return j; if (eat("true")) return J::boolean(true); if (eat("false")) return J::boolean(false);
        size_t b = i; while (i < s.size() && strchr("+-.eE0123456789", s[i]) && s[i]) ++i; if (i == b) ok = false; return J::num(std::string(s.substr(b, i - b))); }
    static bool all(std::string_view t, J& j) { Parse p{t}; j = p.value(); p.ws(); return p.ok && p.i == t.size(); } };
// null and absent mean the same for the members that may be left out
bool same(const J& want, const J& got, std::string at, std::string& why) {
    if (want.k != got.k) { why = at + " has another type"; return false; }
    switch (want.k) {
    case J::NUL: return true; case J::BOOL: if (want.b != got.b) { why = at; return false; } return true;
    case J::NUM: if (strtod(want.s.c_str(), nullptr) != strtod(got.s.c_str(), nullptr)) { why = at + " is " + got.s + " instead of " + want.s; return false; } return true;
    case J::STR: if (want.s != got.s) { why = at + ": " + diff(want.s, got.s); return false; } return true;
    case J::ARR: if (want.a.size() != got.a.size()) { why = at + " has " + std::to_string(got.a.size()) + " elements"; return false; } for (size_t i = 0; i < want.a.size(); ++i) if (!same(want.a[i], got.a[i], at + "[" + std::to_string(i) + "]", why)) return false; return true;
    case J::OBJ: for (auto& p : want.o) { auto* g = got.get(p.first); if (!g) { if (p.second.k == J::NUL) continue; why = at + "." + p.first + " is missing"; return false; } if (!same(p.second, *g, at + "." + p.first, why)) return false; }
        for (auto& p : got.o) if (!want.get(p.first) && p.second.k != J::NUL) { why = at + "." + p.first + " was not asked for"; return false; } return true; }
    return false; }
std::string render(const J& j, u32 style) { // style 0: plain; 1: blanks and escapes drawn
    auto sp = [&] { std::string r; if (style) while (choose(WORK, 6) == 1) r += " \t"[choose(WORK, 2)]; return r; };
    switch (j.k) { case J::NUL: return "null"; case J::BOOL: return j.b ? "true" : "false"; case J::NUM: return j.s;
    case J::STR: { std::string r = "\""; for (size_t i = 0; i < j.s.size();) { unsigned char c = (unsigned char)j.s[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; u32 v = n == 1 ? c : c & (0xff >> (n + 1)); for (int k = 1; k < n; ++k) v = v << 6 | ((unsigned char)j.s[i + (size_t)k] & 63); char b[20]; bool up = style && choose(WORK, 2);
                auto u = [&](u32 w) { snprintf(b, sizeof b, up ? "\\u%04X" : "\\u%04x", w); r += b; }; const char* e = "\"\\\b\f\n\r\t"; const char* f = "\"\\bfnrt"; const char* q = c ? strchr(e, c) : nullptr;
                if (q && (!style || choose(WORK, 4))) { r += '\\'; r += f[q - e]; } else if (c < 32 || q || (style == 2 && n > 1) || (style && choose(WORK, 12) == 1)) { if (v < 0x10000) u(v); else { u(0xd800 + ((v - 0x10000) >> 10)); u(0xdc00 + ((v - 0x10000) & 0x3ff)); } } else if (c == '/' && style && choose(WORK, 2)) r += "\\/"; else r.append(j.s, i, (size_t)n); i += (size_t)n; } return r + "\""; }
    case J::ARR: { std::string r = "["; for (size_t i = 0; i < j.a.size(); ++i) r += (i ? "," : "") + sp() + render(j.a[i], style) + sp(); return r + "]"; }
    default: { std::string r = "{"; for (size_t i = 0; i < j.o.size(); ++i) r += (i ? "," : "") + sp() + render(J::str(j.o[i].first), 0) + sp() + ":" + sp() + render(j.o[i].second, style) + sp(); return r + "}"; } } }
void shuffle(J& j) { for (size_t i = j.o.size(); i > 1; --i) std::swap(j.o[i - 1], j.o[choose(WORK, (u32)i)]); }
const char* ATOM[] = {"a", "word ", "{\"k\": [1,2]}", "\"", "\\", "\n", "\t", "\r\n", "data: ", "[DONE]", "\x01", "\x1f", "/", "\xc3\xa9", "\xe4\xbd\xa0\xe5\xa5\xbd", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf", "\xe2\x80\xa8", "<b>&amp;", "null", "\x7f", "0"};
std::string words(u32 cap = 12) { std::string r; for (u32 i = 0, n = choose(WORK, choose(WORK, 10) == 1 ? cap * 20 : cap); i < n; ++i) r += ATOM[choose(WORK, sizeof ATOM / sizeof *ATOM)]; return r; }
std::string number(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
J opt(const std::optional<std::string>& v) { return v ? J::str(*v) : J{}; }
// ---- requests
oa::ChatCompletionRequest draw_request(u32 id, J& want) {
    oa::ChatCompletionRequest r; want = J::obj(); r.model = "m" + std::to_string(id); want.put("model", J::str(r.model)); J ms = J::arr();
    for (u32 i = 0, n = choose(WORK, 6); i < n; ++i) { oa::Message m; J j = J::obj(); m.role = pick<const char*>(WORK, {"user", "system", "assistant", "tool"}); j.put("role", J::str(m.role));
        if (choose(WORK, 3)) { auto t = words(40); m.content = t; j.put("content", J::str(t)); }
        else { std::vector<oa::Message::ContentPart> ps; J pa = J::arr(); for (u32 k = 0, c = choose(WORK, 4); k < c; ++k) { if (choose(WORK, 2)) { auto t = words(); ps.push_back(oa::Message::ContentPartText{t}); pa.a.push_back(J::obj().put("text", J::str(t)).put("type", J::str("text"))); } else { auto u = words(), d = words(3); ps.push_back(oa::Message::ContentPartImage{{u, d}}); pa.a.push_back(J::obj().put("image_url", J::obj().put("url", J::str(u)).put("detail", J::str(d))).put("type", J::str("image_url"))); } } m.content = ps; j.put("content", pa); }
        if (choose(WORK, 4) == 1) m.name = words(3); if (choose(WORK, 4) == 1) m.tool_call_id = words(3); j.put("name", opt(m.name)).put("tool_call_id", opt(m.tool_call_id)); J tc;
        if (choose(WORK, 4) == 1) { tc = J::arr(); m.tool_calls.emplace(); for (u32 k = 0, c = choose(WORK, 3); k < c; ++k) { oa::Message::ToolCall t; t.id = words(3); t.function = {words(3), words()}; m.tool_calls->push_back(t); tc.a.push_back(J::obj().put("id", J::str(t.id)).put("function", J::obj().put("name", J::str(t.function.name)).put("arguments", J::str(t.function.arguments))).put("type", J::str("function"))); } } j.put("tool_calls", tc);
        r.messages.push_back(m); ms.a.push_back(j); }
    want.put("messages", ms); auto dbl = [&](std::optional<double>& d, const char* n) { if (choose(WORK, 3) == 1) { d = pick<double>(WORK, {0.7, 0.0, 1.0, -1.5, 1e-9, 2e10, 0.1}); want.put(n, J::num(number(*d))); } }; dbl(r.temperature, "temperature"); dbl(r.top_p, "top_p"); dbl(r.frequency_penalty, "frequency_penalty"); dbl(r.presence_penalty, "presence_penalty");
    if (choose(WORK, 3) == 1) { r.max_tokens = choose(WORK, 2) ? 12u : ~0ull >> 12; want.put("max_tokens", J::num(std::to_string(*r.max_tokens))); }
    if (choose(WORK, 3) == 1) { r.tools.emplace(); J ta = J::arr(); for (u32 k = 0, c = choose(WORK, 3); k < c; ++k) { oa::Tool t; t.function = {words(3), words(), words()}; r.tools->push_back(t); ta.a.push_back(J::obj().put("function", J::obj().put("name", J::str(t.function.name)).put("description", J::str(t.function.description)).put("parameters", J::str(t.function.parameters))).put("type", J::str("function"))); } want.put("tools", ta); }
    if (choose(WORK, 3) == 1) { if (choose(WORK, 2)) { r.tool_choice = "auto"; want.put("tool_choice", J::str("auto")); } else { auto n = words(3); r.tool_choice = oa::ToolChoiceFunction{n}; want.put("tool_choice", J::obj().put("name", J::str(n))); } }
    if (choose(WORK, 3) == 1) { r.response_format.emplace(); r.response_format->type = "json_object"; want.put("response_format", J::obj().put("type", J::str("json_object"))); }
    return r; }
// ---- answers
enum Junk { FINE, UNKNOWN, BROKEN };   // UNKNOWN: a member the client does not know; BROKEN: no JSON
struct Chunk { J j; Junk junk = FINE; std::string text; size_t end = 0; };
J member(J& o, const char* n, std::optional<std::string> v) { if (v) o.put(n, J::str(*v)); else if (choose(WORK, 2)) o.put(n, J{}); return o; }
std::optional<std::string> maybe() { return choose(WORK, 2) ? std::optional<std::string>(words()) : std::nullopt; }
Chunk draw_chunk(u32 tag, Junk junk) {
    Chunk c; c.junk = junk; c.j = J::obj(); c.j.put("id", J::str(std::to_string(tag) + words(3))).put("object", J::str("chat.completion.chunk")).put("created", J::num(std::to_string(choose(WORK, 2) ? 1700000000u : choose(WORK, 10)))).put("model", J::str(words(3))); J ch = J::arr();
    for (u32 i = 0, n = choose(WORK, 4); i < n; ++i) { J o = J::obj(), d = J::obj(); member(d, "role", maybe()); member(d, "content", maybe());
        if (choose(WORK, 3) == 1) { J tc = J::arr(); for (u32 k = 0, m = choose(WORK, 3); k < m; ++k) { J t = J::obj(); t.put("index", J::num(std::to_string(k))); member(t, "id", maybe()); member(t, "type", maybe()); if (choose(WORK, 2)) { J f = J::obj(); member(f, "name", maybe()); member(f, "arguments", maybe()); shuffle(f); t.put("function", f); } else if (choose(WORK, 2)) t.put("function", J{}); shuffle(t); tc.a.push_back(t); } d.put("tool_calls", tc); } else if (choose(WORK, 2)) d.put("tool_calls", J{});
        shuffle(d); o.put("index", J::num(std::to_string(i))).put("delta", d); member(o, "finish_reason", maybe()); shuffle(o); ch.a.push_back(o); }
    c.j.put("choices", ch); shuffle(c.j); J out = c.j; if (junk == UNKNOWN) { out.put("usage", J::obj().put("total_tokens", J::num("3"))); shuffle(out); }
    c.text = render(out, choose(WORK, 3)); if (junk == BROKEN) c.text.resize(1 + choose(WORK, (u32)c.text.size() - 2)); return c; }
J back(const oa::ChatCompletionChunk& c) { J j = J::obj(), ch = J::arr(); j.put("id", J::str(c.id)).put("object", J::str(c.object)).put("created", J::num(std::to_string(c.created))).put("model", J::str(c.model));
    for (auto& o : c.choices) { J d = J::obj(); d.put("role", opt(o.delta.role)).put("content", opt(o.delta.content)); if (o.delta.tool_calls) { J tc = J::arr(); for (auto& t : *o.delta.tool_calls) { J x = J::obj(); x.put("index", J::num(std::to_string(t.index))).put("id", opt(t.id)).put("type", opt(t.type)); if (t.function) x.put("function", J::obj().put("name", opt(t.function->name)).put("arguments", opt(t.function->arguments))); tc.a.push_back(x); } d.put("tool_calls", tc); }
        ch.a.push_back(J::obj().put("index", J::num(std::to_string(o.index))).put("delta", d).put("finish_reason", opt(o.finish_reason))); } return j.put("choices", ch); }
enum Fate { WHOLE, FIN_AT, RST_AT, STALL_AT, REFUSED, HANGUP, NF }; const char* FN[] = {"whole", "cut_fin", "cut_reset", "stall", "refused", "hangup"};
struct Att { Fate fate; size_t sent = 0; bool over = false; std::string body; };
struct Chat { oa::ChatCompletionRequest req; J want; bool stream = true; std::vector<Fate> plan; std::vector<Chunk> chunks; std::vector<std::unique_ptr<Att>> att; u32 got = 0, throwAt = ~0u, slow = 0; bool done = false, tail = true; };
struct World { std::vector<std::unique_ptr<Chat>> ch; std::vector<std::shared_ptr<sim::Peer>> peers; std::vector<std::shared_ptr<sim::Listener>> ls; std::string key, prefix; bool off = false, conn = false, closing = false; u32 pieces = 1; u64 pause = 0; } *W;
void serve(std::shared_ptr<sim::Peer> p) {
    W->peers.push_back(p); auto busy = std::make_shared<bool>(false), shut = std::make_shared<bool>(false);   // shut: the server has ended the connection and reads no more requests from it
    p->on_data = [busy, shut](sim::Peer& q) { if (!W || W->off || *shut) return; Msg m; size_t used; std::string why; auto r = parse(q.rx, used, m, false, false, false, why); EXPECT(r != BAD, "http.request", "malformed request: %s", why.c_str()); if (r == NEED) return; EXPECT(!*busy, "http.overlap", "a request arrived before the answer of the previous one was complete"); q.rx.erase(0, used);
        EXPECT(m.start[0] == "POST" && m.start[1] == W->prefix + "/chat/completions", "chat.request", "the client sent %s %s", m.start[0].c_str(), m.start[1].c_str()); auto* au = m.get("authorization"); EXPECT(au && *au == "Bearer " + W->key, "chat.request", "authorization header '%s'", au ? au->c_str() : "(none)"); auto* ct = m.get("content-type"); EXPECT(ct && ct->find("application/json") == 0, "chat.request", "content type '%s'", ct ? ct->c_str() : "(none)");
        J j; EXPECT(Parse::all(m.body, j) && j.k == J::OBJ, "chat.request", "the body is no JSON object: '%s'", escaped(m.body, 200).c_str()); auto* mo = j.get("model"); u32 id = mo && mo->s.size() > 1 ? (u32)atoi(mo->s.c_str() + 1) : ~0u; EXPECT(id < W->ch.size(), "chat.request", "unknown model"); auto& c = *W->ch[id];
        EXPECT(same(c.want, j, "request", why), "chat.request", "chat %u: %s", id, why.c_str()); if (W->conn && (c.done || c.got)) return; EXPECT(!c.done, "http.resent", "chat %u was sent again after its outcome had been reported", id); EXPECT(!c.got, "http.resent", "chat %u was sent again after chunks of it had been delivered", id);
        c.att.push_back(std::make_unique<Att>()); auto& a = *c.att.back(); a.fate = c.plan[std::min(c.att.size(), c.plan.size()) - 1]; if (a.fate) sim::fault(FN[a.fate]); note("chat %u attempt %zu: %s", id, c.att.size(), FN[a.fate]); auto sp = q.shared_from_this();
        if (a.fate == HANGUP) { choose(FAULT, 2) ? sp->reset() : sp->close(); return; }
        std::string w; if (a.fate == REFUSED) { a.body = "{\"error\":\"" + std::to_string(id) + "\"}"; w = "HTTP/1.1 " + std::string(choose(WORK, 2) ? "401 Unauthorized" : "500 Internal Server Error") + "\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(a.body.size()) + "\r\n\r\n" + a.body; sp->send(w); a.over = true; a.sent = ~0ull; return; }
        if (!c.stream) { a.body = render(draw_chunk(id, FINE).j, 1); bool chk = choose(WORK, 2); w = "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n" + (chk ? "Transfer-Encoding: chunked\r\n\r\n" + chunk_encode(a.body, WORK, 100, false, false) : "Content-Length: " + std::to_string(a.body.size()) + "\r\n\r\n" + a.body); }
        else { std::string body; const char* nl = choose(WORK, 3) == 1 ? "\r\n" : "\n"; for (auto& k : c.chunks) { if (choose(WORK, 6) == 1) body += std::string(": keep-alive") + nl + nl; body += std::string("data:") + (choose(WORK, 4) ? " " : k.text[0] == ' ' ? " " : "") + k.text + nl + nl; k.end = body.size(); } if (c.tail) body += std::string("data: [DONE]") + nl + nl;
            w = "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream; charset=utf-8\r\nTransfer-Encoding: chunked\r\n\r\n"; std::vector<std::pair<size_t, size_t>> map; size_t i = 0; u32 maxc = pick<u32>(WORK, {4000, 200, 30}); while (i < body.size()) { size_t n = std::min<size_t>(body.size() - i, 1 + choose(WORK, maxc)); w += hex(n) + "\r\n"; map.push_back({i, w.size()}); w.append(body, i, n); w += "\r\n"; i += n; }
            for (auto& k : c.chunks) { auto it = std::upper_bound(map.begin(), map.end(), std::make_pair(k.end - 1, ~(size_t)0)); --it; k.end = it->second + (k.end - it->first); } w += "0\r\n\r\n"; }
        if (a.fate == FIN_AT || a.fate == RST_AT || a.fate == STALL_AT) w.resize(choose(FAULT, (u32)w.size())); Att* ap = &a; auto ww = std::make_shared<std::string>(w); u32 pieces = W->pieces; u64 pause = W->pause; auto cut = std::make_shared<std::vector<size_t>>(); for (u32 k = 1; k < pieces && w.size() > 1; ++k) cut->push_back(1 + choose(NET, (u32)w.size() - 1)); cut->push_back(w.size()); std::sort(cut->begin(), cut->end());
        *busy = a.fate == WHOLE; auto step = std::make_shared<std::function<void(size_t)>>(); *step = [sp, ww, cut, step, ap, pause, busy, shut](size_t k) { if (!W || W->off || sp->closed || sp->rst) { *busy = false; return; } size_t to = (*cut)[k]; if (to > ap->sent) { size_t f = ap->sent; ap->sent = to; if (k + 1 == cut->size()) *busy = false; sp->send(std::string_view(*ww).substr(f, to - f)); }
            if (k + 1 < cut->size()) { auto st = *step; sim::after(choose(NET, 100) * (pause / 100), [st, k] { st(k + 1); }); return; } *busy = false; ap->over = true; if (ap->fate != STALL_AT && (ap->fate != WHOLE || W->closing)) *shut = true; if (ap->fate == FIN_AT) sp->fin(); else if (ap->fate == RST_AT) sp->reset(); else if (ap->fate == WHOLE && W->closing) sp->fin(); };
        auto st = *step; st(0); };
    p->on_eof = [](sim::Peer& q) { if (!q.closed) q.close(); };
}
void begin(World& w, bool conn) {
    sim::swarm_net(); sim::swarm_sched(); cfg.link_race_pm = 0; cfg.burst_max = std::min<u64>(cfg.burst_max, 60 * MS); cfg.recv_err = cfg.send_err = cfg.close_err = cfg.connect_err = 0; cfg.stall_pm = 0; W = &w; w.conn = conn; if (conn) cfg.recv_err = pick<u32>(FAULT, {20, 60});
    w.pieces = pick<u32>(NET, {1, 3, 12}); w.pause = pick<u64>(NET, {0, 50 * MS, 1500 * MS}); w.closing = choose(WORK, 3) == 1; w.key = "s" + text(WORK, choose(WORK, 30), "abcXYZ019-_."); w.prefix = pick<const char*>(WORK, {"/v1", "", "/api/openai/v1"}); w.ls.push_back(sim::Listener::listen(8080, serve)); sim::deadline(9000 * SEC, "chat.hang", "the chats"); }
void finish(World& w) { sim::clear_deadline(); check_fds("after the client ended"); w.off = true; for (auto& p : w.peers) { p->on_data = p->on_eof = nullptr; if (!p->closed && !p->rst) p->close(); } for (auto& l : w.ls) { l->on_accept = nullptr; l->close(); } nap(4 * SEC); W = nullptr; }
Fate fate(u32 flt) { return flt && choose(FAULT, 2) ? (Fate)(1 + choose(FAULT, NF - 1)) : WHOLE; }
}
SIM_SCENARIO("C26", chat_streams) {
    World w; u32 flt = choose(FAULT, 3); begin(w, flt == 2); u32 n = range(WORK, 1, 4); bool tiny = cfg.seg_mode >= 2 || cfg.pipe_cap < 3000;
    for (u32 i = 0; i < n; ++i) { auto c = std::make_unique<Chat>(); c->req = draw_request(i, c->want); c->want.put("stream", J::boolean(true)); c->req.stream = choose(WORK, 2); u32 bad = choose(WORK, 4) == 1 ? choose(WORK, 6) : ~0u; for (u32 k = 0, m = choose(WORK, tiny ? 4 : 10); k < m; ++k) c->chunks.push_back(draw_chunk(i * 100 + k, k == bad ? (Junk)(1 + choose(WORK, 2)) : FINE));
        c->plan = {fate(flt), fate(flt)}; c->tail = choose(WORK, 8) != 1; if (choose(WORK, 5) == 1) c->throwAt = choose(WORK, 5); c->slow = choose(WORK, 5) == 1 ? range(WORK, 1, 30) : 0; w.ch.push_back(std::move(c)); }
    sim::sample("%u chats, faults %u, %u pieces, segmentation %u, window %u", n, flt, w.pieces, cfg.seg_mode, cfg.pipe_cap);
    {
        auto loop = std::make_shared<EventLoop>();
        { oa::OpenAiClient<HttpClient> ai{oa::AiConfig<NoneProxy>{"http://127.0.0.1:8080" + w.prefix, w.key}, loop};
        auto main = [&]() -> Task<> { for (u32 i = 0; i < n; ++i) { auto& c = *w.ch[i]; bool thrown = false;
            auto r = co_await ai.coChat(c.req, [&](oa::ChatCompletionChunk k) -> Task<> {
                EXPECT(!thrown && !c.att.empty() && c.att.back()->fate != REFUSED && c.att.back()->fate != HANGUP, "chat.chunk", "chat %u: a chunk out of nothing", i); EXPECT(c.got < c.chunks.size(), "chat.chunk", "chat %u: a chunk after all %zu", i, c.chunks.size()); auto& x = c.chunks[c.got]; std::string why;
                EXPECT(x.junk != BROKEN, "chat.chunk", "chat %u: chunk %u is no JSON but was delivered: '%s'", i, c.got, escaped(x.text, 100).c_str()); EXPECT(same(x.j, back(k), "chunk", why), "chat.chunk", "chat %u, chunk %u of %zu: %s; sent as '%s'", i, c.got, c.chunks.size(), why.c_str(), escaped(x.text, 300).c_str()); EXPECT(w.conn || c.att.back()->sent >= x.end, "chat.early", "chat %u: chunk %u was delivered before it was sent", i, c.got);
                u32 m = c.got++; if (c.slow) co_await static_cast<EventLoop&>(*loop).makeTimer().sleepFor(std::chrono::milliseconds{100 * c.slow}); if (m == c.throwAt) { thrown = true; throw std::runtime_error{"stop here"}; } co_return; });
            c.done = true; note("chat %u: %u chunks, '%s'", i, c.got, r ? "" : r.what().c_str()); if (thrown) { EXPECT(!r && r.what() == "stop here", "chat.end", "the consumer threw but the chat reports '%s'", r ? "success" : r.what().c_str()); continue; }
            if (w.conn) continue; EXPECT(!c.att.empty(), "chat.lost", "chat %u never reached the server: '%s'", i, r ? "" : r.what().c_str()); auto& a = *c.att.back(); u32 full = 0, bad = 0; for (auto& k : c.chunks) { if (k.end > a.sent || k.end == 0) break; if (k.junk) { bad = 1; if (k.junk == UNKNOWN) bad = 2; break; } ++full; } if (a.fate == REFUSED || a.fate == HANGUP) full = 0;
            EXPECT(a.fate == RST_AT || (bad == 2 ? c.got >= full : c.got == full), "chat.lost", "chat %u (%s): %u chunks were delivered of %u sent: '%s'", i, FN[a.fate], c.got, full, r ? "" : r.what().c_str()); if (a.fate != WHOLE || bad == 1) EXPECT(!r, "chat.end", "chat %u (%s, broken chunk %u) reports success", i, FN[a.fate], bad);
            EXPECT(a.over || bad || a.fate == HANGUP, "chat.early-end", "chat %u ended with '%s' while the server was still sending", i, r ? "" : r.what().c_str()); } };
        auto e = loop->trySync(main()); EXPECT((bool)e, "chat.client", "the client threw '%s'", e.what().c_str()); }
    }
    finish(w);
}
SIM_SCENARIO("C26", chat_answers) {
    World w; u32 flt = choose(FAULT, 3); begin(w, flt == 2); u32 n = range(WORK, 1, 4); bool together = choose(WORK, 2);
    for (u32 i = 0; i < n; ++i) { auto c = std::make_unique<Chat>(); c->stream = false; c->req = draw_request(i, c->want); c->want.put("stream", J::boolean(false)); c->req.stream = choose(WORK, 2); c->plan = {fate(flt), fate(flt)}; w.ch.push_back(std::move(c)); } sim::sample("%u answers, together %d, faults %u", n, together, flt);
    { oa::OpenAiClient<HttpClient> ai{oa::AiConfig<NoneProxy>{"http://127.0.0.1:8080" + w.prefix, w.key}}; std::vector<HX::container::FutureResult<Try<ResponseData>>> f;
      auto take = [&](u32 i) { auto& c = *w.ch[i]; auto r = f[i].get(); c.done = true; if (r) { EXPECT(!c.att.empty() && (w.conn || c.att.back()->over), "chat.early", "chat %u was answered too early", i); Att* ap = c.att.back().get(); if (w.conn) for (auto& x : c.att) if (x->body == r.get().body) ap = x.get(); auto& a = *ap; EXPECT(r.get().body == a.body && (r.get().status == 200) == (a.fate != REFUSED), "chat.answer", "chat %u (%s): %s", i, FN[a.fate], diff(a.body, r.get().body).c_str()); EXPECT(a.fate == WHOLE || a.fate == REFUSED, "chat.answer", "chat %u (%s) reports success", i, FN[a.fate]); }
          else EXPECT(w.conn || c.att.empty() ? w.conn : c.att.back()->fate != WHOLE && c.att.back()->fate != REFUSED, "chat.lost", "chat %u failed although it was answered: '%s'", i, r.what().c_str()); };
      f.reserve(n); for (u32 i = 0; i < n; ++i) { f.push_back(ai.chat(w.ch[i]->req)); if (!together) take(i); } if (together) for (u32 i = 0; i < n; ++i) take(i); }
    finish(w);
}
