// C03, C07, C08, C11, C12 on texts longer than 2^31 and 2^32 bytes (thorough tier).
#include <lexi/lexi.hpp>
#include "mon.hpp"
#include <stdexcept>
using namespace mon;
static const size_t G31 = (size_t) 1 << 31, G32 = (size_t) 1 << 32;
static void say(const char *op, size_t n) { ctxOp(op); ctxNum(n); eval(); distinct(hashBytes(op, strlen(op), n)); cls("giant_call", op); count("giant_bytes") += n; }
// a text of n letters with special bytes at the start, the end and around 2^31 and 2^32
static std::vector<size_t> places(size_t n) { std::vector<size_t> v; for (size_t p : {(size_t) 0, (size_t) 1, G31 - 1, G31, G31 + 1, G32 - 1, G32, G32 + 1, n - 2, n - 1}) if (p < n && (v.empty() || p > v.back())) v.push_back(p); return v; }
static void strings(size_t n, bool json) {
    std::string s(n, 'k'); auto P = places(n); for (size_t p : P) s[p] = '"';
    say(json ? "jsonify" : "escape", n);
    std::string g = json ? lexi::jsonify(s) : lexi::escape(s);
    size_t want = n + P.size() + (json ? 2 : 0), at = json ? 1 : 0, from = 0;
    if (g.size() != want) { fail("giant.size", "%s of %zu bytes with %zu quotes has %zu bytes, expected %zu", json ? "JSON form" : "escaped form", n, P.size(), g.size(), want); return; }
    auto bad = [&](size_t p) { fail("giant.bytes", "%s of %zu bytes is wrong near input byte %zu", json ? "JSON form" : "escaped form", n, p); };
    if (json && (g.front() != '"' || g.back() != '"')) bad(0);
    for (size_t p : P) { if (memcmp(g.data() + at, s.data() + from, p - from) != 0) { bad(p); return; } at += p - from; if (g[at] != '\\' || g[at + 1] != '"') { bad(p); return; } at += 2; from = p + 1; }
    if (memcmp(g.data() + at, s.data() + from, n - from) != 0) bad(n);
}
template <class T> static std::string outcome(const std::string &s) { try { T v = lexi::lexi<T>(s); return v == T() ? "zero" : "value"; } catch (const std::runtime_error &) { return "runtime_error"; } }
static void words(size_t n) {
    for (const char *w : {"true", "false", "null"}) for (char c : {'\0', 'e'}) {
        std::string s(w); s.resize(n + s.size(), c); say("extract a word", s.size());
        for (int k = 0; k < 2; k++) { std::string o = k ? outcome<std::nullptr_t>(s) : outcome<bool>(s); if (o != "runtime_error") fail("giant.word", "extraction of \"%s\" followed by %zu bytes 0x%02x as %s gave a %s", w, n, c, k ? "null" : "bool", o.c_str()); }
        if (lexi::lexi<char>(s) != w[0]) fail("giant.char", "character of a text of %zu bytes", s.size());
    }
}
static void integers(size_t n) {
    auto is = [&](const std::string &s, long long w, const char *what) { say(what, s.size()); long long g = lexi::lexi<long long>(s); int i = lexi::lexi<int>(s); if (g != w || i != (int) w) fail("giant.integer", "%s, %zu bytes, extracted as %lld and %d, expected %lld", what, s.size(), g, i, w); };
    { std::string s(n, '0'); s += "-7"; s[n - 1] = '5'; is(s, 5, "zeros and a digit"); s[0] = '-'; is(s, -5, "minus, zeros and a digit"); }
    { std::string s(n, ' '); s += "-7"; is(s, -7, "blanks and a number"); }
    { std::string s("-12"); s.resize(n, 'x'); is(s, -12, "a number and letters"); }
    { std::string s(n, '3'); say("digits", n); if (lexi::lexi<unsigned long long>(s) != ~0ULL) fail("giant.integer", "%zu digits do not saturate", n); }
}
static void floats(size_t n) {
    auto is = [&](const std::string &s, double w, const char *what) { say(what, s.size()); double g = lexi::lexi<double>(s); if (g != w) fail("giant.float", "%s, %zu bytes, extracted as %g, expected %g", what, s.size(), g, w); };
    { std::string s(n, ' '); s += "-2.5"; is(s, -2.5, "blanks and a number"); }
    { std::string s("2.5"); s.resize(n, 'x'); is(s, 2.5, "a number and letters"); }
    { std::string s("2.5"); s.resize(n, '0'); is(s, 2.5, "a fraction and zeros"); }
}
int main(int argc, char **argv) {
    init(argc, argv);
    for (size_t n : {G31 - 1, G31, G31 + 77, G32, G32 + 77}) {
        if (wants("C11")) strings(n, false);
        if (wants("C12")) strings(n, true);
        if (wants("C08")) words(n);
        if (wants("C03")) integers(n);
        if (wants("C07") && n > G31) floats(n);
        count("giant_lengths")++;
    }
    sample("texts of 2^31-1, 2^31, 2^31+77, 2^32 and 2^32+77 bytes");
    finish();
}
