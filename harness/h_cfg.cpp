// C20: literals configured at build time are honoured everywhere.
// Library and monitor are compiled with the same macro overrides; the words
// are the oracle.
#include <lexi/lexi.hpp>
#include <lexi/detail/define.hpp>
#include "mon.hpp"
#include <stdexcept>
#include <cmath>
using namespace mon;
#ifndef CFG_NAME
#define CFG_NAME "default"
#endif
static const std::string T(CFG_TRUE), F(CFG_FALSE), N(CFG_NULL), NaN(CFG_NAN), PI(CFG_INF), MI(CFG_NINF);
template <class X> static void text(const char *key, const X &f, const std::string &w) {
    eval();
    auto bad = [&](const char *v, const std::string &g) { fail(std::string("config.") + key + "." + v, "configuration %s: %s of %s is %s, expected %s", CFG_NAME, v, key, show(g).c_str(), show(w).c_str()); };
    if (f.size() != w.size() || f.length() != w.size()) { bad("size", std::to_string(f.size())); return; }
    if (memcmp(f.data(), w.c_str(), w.size() + 1)) bad("data", std::string(f.data(), w.size() + 1)); if (memcmp(f.c_str(), w.c_str(), w.size() + 1)) bad("c_str", std::string(f.c_str(), w.size() + 1));
    if (f.string() != w) bad("string", f.string()); if (std::string(f) != w) bad("conversion", std::string(f)); if (f.escape() != w) bad("escape", f.escape()); if (f.jsonify() != w) bad("jsonify", f.jsonify());
}
template <class V> static void generic(const char *key, V v, const std::string &w) {
    ctxStr(key, w); eval(); distinct(hashBytes(w.data(), w.size(), hashBytes(key, strlen(key)))); count("formatted_literals")++;
    if (lexi::lexi(v) != w || lexi::string(v) != w || lexi::escape(v) != w || lexi::jsonify(v) != w) fail(std::string("config.generic.") + key, "configuration %s: %s gives %s / %s / %s / %s, expected %s", CFG_NAME, key, show(lexi::lexi(v)).c_str(), lexi::string(v).c_str(), lexi::escape(v).c_str(), lexi::jsonify(v).c_str(), show(w).c_str());
    auto f = lexi::Format()(v); text(key, f, w); auto g = f; text(key, g, w); f = lexi::Format()(v); text(key, f, w);
    // on the heap too, where a write past the object is visible
    auto *h = new decltype(f)(v); text(key, *h, w); delete h;
}
static void word(const std::string &s) {
    ctxStr("extract configured word", s); distinct(hashBytes(s.data(), s.size()));
    auto out = [&](int kind) { try { if (kind == 0) return lexi::lexi<bool>(s) ? 1 : 2; return lexi::lexi<std::nullptr_t>(s) == nullptr ? 3 : 9; } catch (const std::runtime_error &) { return 0; } catch (...) { return 8; } };
    static const char *nm[] = {"runtime_error", "true", "false", "null", "", "", "", "", "another exception", "?"};
    int b = out(0), n = out(1), wb = s == T ? 1 : s == F ? 2 : 0, wn = s == N ? 3 : 0; eval(2);
    if (b != wb) fail("config.extract.bool", "configuration %s: bool from %s gives %s, expected %s", CFG_NAME, show(s).c_str(), nm[b], nm[wb]);
    if (n != wn) fail("config.extract.null", "configuration %s: null from %s gives %s, expected %s", CFG_NAME, show(s).c_str(), nm[n], nm[wn]);
    count(wb || wn ? "accepted" : "rejected")++;
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(20);
    cls("configuration", CFG_NAME);
    for (int k = 0; k < 4; k++) {
        generic("true", true, T); generic("false", false, F); generic("null", nullptr, N);
        generic("double NaN", (double) NAN, NaN); generic("float NaN", (float) NAN, NaN); generic("long double NaN", (long double) NAN, NaN); generic("negative NaN", -(double) NAN, NaN);
        generic("Infinity", (double) INFINITY, PI); generic("float Infinity", (float) INFINITY, PI); generic("long double Infinity", (long double) INFINITY, PI);
        generic("-Infinity", -(double) INFINITY, MI); generic("float -Infinity", -(float) INFINITY, MI); generic("long double -Infinity", -(long double) INFINITY, MI);
        text("FormatNull()", lexi::FormatNull(), N);
        // neighbours in memory: reusing a formatter for other values and back
        lexi::FormatFloat f((double) NAN); f = lexi::FormatFloat(1.5); text("reused", f, "1.5"); f = lexi::FormatFloat(-(double) INFINITY); text("reused", f, MI); f = lexi::FormatFloat(-1.2345678901234568e-300); text("reused", f, "-1.2345678901234568e-300"); f = lexi::FormatFloat((double) NAN); text("reused", f, NaN);
        struct { char a[8]; lexi::FormatFloat f; char b[8]; } s{{1, 2, 3, 4, 5, 6, 7, 8}, lexi::FormatFloat((double) NAN), {1, 2, 3, 4, 5, 6, 7, 8}}; s.f = lexi::FormatFloat(-(double) INFINITY); text("member", s.f, MI); for (int i = 0; i < 8; i++) if (s.a[i] != i + 1 || s.b[i] != i + 1) fail("config.neighbour", "configuration %s: formatting wrote outside the formatter", CFG_NAME);
    }
    const std::string W[] = {T, F, N, NaN, PI, MI, "true", "false", "null", "True", "None", "TRUE", "NULL", "1", "0", ""};
    for (auto &w : W) {
        word(w); word(w + " "); word(" " + w); word(w + std::string(1, '\0')); word(w + "x"); word(w + w);
        for (size_t i = 0; i <= w.size(); i++) { word(w.substr(0, i)); word(w.substr(i)); for (int c = 0; c < 256; c++) if (mine()) { std::string t = w; t.insert(i, 1, (char) c); word(t); if (i < w.size()) { t = w; t[i] = (char) c; word(t); } } }
        for (size_t i = 0; i < w.size(); i++) { std::string t = w; t[i] ^= 0x20; word(t); }
    }
    uint64_t n = scaled(300000);
    for (uint64_t i = 0; i < n; i++) { std::string s = W[r.below(6)]; for (int k = 0, e = (int) r.below(3); k < e; k++) { size_t p = r.below(s.size() + 1); switch (r.below(3)) { case 0: s.insert(p, 1, (char) r()); break; case 1: if (p < s.size()) s.erase(p, 1); break; default: if (p < s.size()) s[p] = (char) r(); } } word(s); }
    // values that are not configurable keep their text
    if (lexi::lexi(1.5) != "1.5" || lexi::lexi(12) != "12" || lexi::lexi('c') != "c") fail("config.other", "configuration %s changes other values", CFG_NAME);
    // round trip through the words
    eval(3); if (lexi::lexi<bool>(lexi::lexi(true)) != true || lexi::lexi<bool>(lexi::lexi(false)) != false || lexi::lexi<std::nullptr_t>(lexi::lexi(nullptr)) != nullptr) fail("config.roundtrip", "configuration %s: words do not survive", CFG_NAME);
    sample(std::string(CFG_NAME) + ": " + lexi::lexi(true) + " " + lexi::lexi(false) + " " + lexi::lexi(nullptr) + " " + lexi::lexi((double) NAN) + " " + lexi::lexi(-(double) INFINITY));
    finish();
}
