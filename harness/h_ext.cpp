// C23: extractor objects are self-contained values.
// A pool of extractors lives through histories of construction (from a text
// whose storage is then overwritten and freed), copy, assignment, swap,
// container growth and destruction, and is asked for values of all types in
// any order, any number of times. Oracle: the value that a fresh extraction
// gave at birth, itself compared with C's conversions.
#include <lexi/lexi.hpp>
#include "mon.hpp"
#include "harvest.hpp"
#include <cmath>
#include <locale.h>
#include <memory>
#include <new>
#include <deque>
using namespace mon;
static std::string history;
static void note(const std::string &op) { history += op + "; "; if (history.size() > 600) history.erase(0, history.size() - 400); st().ctx->progress.fetch_add(1, std::memory_order_relaxed); }
static bool same(float a, float b) { return (std::isnan(a) && std::isnan(b)) || !memcmp(&a, &b, 4); }
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || !memcmp(&a, &b, 8); }
static bool same(long double a, long double b) { return (std::isnan(a) && std::isnan(b)) || !memcmp(&a, &b, 10); }
enum class E1 : signed char {}; enum E2 : unsigned short {}; enum class E3 : int {}; enum E4 : unsigned long long {}; enum class E5 : long {}; enum class E6 : char {};
struct Text { std::string s; unsigned long long u; float f; double d; long double l; };
static Text text(Rng &r, int kind) {
    Text t = {};
    if (kind == 0) { // integer
        if (r.chance(1, 5)) t.s += r.chance(1, 2) ? " " : "\t"; if (r.chance(1, 2)) t.s += r.chance(1, 4) ? "+" : "-"; if (r.chance(1, 6)) t.s += std::string(r.below(50), '0');
        t.s += r.chance(1, 12) ? "99999999999999999999999" : std::to_string(r() >> r.below(64)); if (r.chance(1, 4)) t.s += r.chance(1, 2) ? "abc" : ".75"; if (r.chance(1, 20)) t.s = "";
        if (r.chance(1, 10)) { uint64_t other = r(); t.s = std::to_string(gen::constant(r, other)); } if (r.chance(1, 20)) { t.s.insert(r.below(t.s.size() + 1), gen::text(r, "")); t.s = t.s.c_str(); }
    } else { int nd = 1 + (int) r.below(22); if (r.chance(1, 3)) t.s = "-"; for (int i = 0; i < nd; i++) { if (i == nd / 2) t.s += "."; t.s += (char) ('0' + r.below(10)); } if (r.chance(1, 2)) t.s += "e" + std::to_string((int) r.below(90) - 45); if (r.chance(1, 12)) t.s += "e" + std::to_string((int) r.below(800) - 400); if (r.chance(1, 15)) t.s = r.chance(1, 3) ? "NaN" : r.chance(1, 2) ? "Infinity" : "-Infinity"; if (r.chance(1, 20)) t.s = "x"; }
    static locale_t C = newlocale(LC_ALL_MASK, "C", (locale_t) 0);
    t.u = strtoull(t.s.c_str(), nullptr, 10); t.f = strtof_l(t.s.c_str(), nullptr, C); t.d = strtod_l(t.s.c_str(), nullptr, C); t.l = strtold_l(t.s.c_str(), nullptr, C);
    return t;
}
// ask for one value of a random type
static void askInt(Rng &r, const lexi::ExtractInt &e, const Text &t) {
    eval(); auto bad = [&](const char *n, long long g) { fail(std::string("extractor.int.") + n, "as %s from %s: %lld; history: %s", n, show(t.s).c_str(), g, history.c_str()); };
#define A(T) { T g = (T) e; cls("asked", #T); if (g != (T) t.u) bad(#T, (long long) g); break; }
    switch (r.below(10)) { case 0: A(signed char) case 1: A(unsigned char) case 2: A(short) case 3: A(unsigned short) case 4: A(int) case 5: A(unsigned int) case 6: A(long) case 7: A(unsigned long) case 8: A(long long) default: A(unsigned long long) }
#undef A
}
static void askEnum(Rng &r, const lexi::ExtractEnum &e, const Text &t) {
    eval(); auto bad = [&](const char *n, long long g) { fail(std::string("extractor.enum.") + n, "as %s from %s: %lld; history: %s", n, show(t.s).c_str(), g, history.c_str()); };
#define A(E, T) { E g = static_cast<E>(e); cls("asked", "enum : " #T); if ((T) g != (T) t.u) bad(#T, (long long) (T) g); break; }
    switch (r.below(6)) { case 0: A(E1, signed char) case 1: A(E2, unsigned short) case 2: A(E3, int) case 3: A(E4, unsigned long long) case 4: A(E5, long) default: A(E6, char) }
#undef A
}
static void askFloat(Rng &r, const lexi::ExtractFloat &e, const Text &t) {
    eval(); auto bad = [&](const char *n, long double g) { fail(std::string("extractor.float.") + n, "as %s from %s: %La; history: %s", n, show(t.s).c_str(), g, history.c_str()); };
#define A(T, m) { T g = (T) e; cls("asked", #T); if (!same(g, t.m)) bad(#T, (long double) g); break; }
    switch (r.below(3)) { case 0: A(float, f) case 1: A(double, d) default: A(long double, l) }
#undef A
}
template <class X> struct K;
template <> struct K<lexi::ExtractInt> { static constexpr const char *name = "ExtractInt"; static Text make(Rng &r) { return text(r, 0); } static void ask(Rng &r, const lexi::ExtractInt &e, const Text &t) { askInt(r, e, t); } };
template <> struct K<lexi::ExtractEnum> { static constexpr const char *name = "ExtractEnum"; static Text make(Rng &r) { return text(r, 0); } static void ask(Rng &r, const lexi::ExtractEnum &e, const Text &t) { askEnum(r, e, t); } };
template <> struct K<lexi::ExtractFloat> { static constexpr const char *name = "ExtractFloat"; static Text make(Rng &r) { return text(r, 1); } static void ask(Rng &r, const lexi::ExtractFloat &e, const Text &t) { askFloat(r, e, t); } };
template <> struct K<lexi::ExtractBool> { static constexpr const char *name = "ExtractBool"; static Text make(Rng &r) { Text t = {}; t.u = r() & 1; t.s = t.u ? "true" : "false"; return t; } static void ask(Rng &, const lexi::ExtractBool &e, const Text &t) { eval(); cls("asked", "bool"); if ((bool) e != (t.u != 0)) fail("extractor.bool", "from %s: %d; history: %s", t.s.c_str(), (int) (bool) e, history.c_str()); } };
template <> struct K<lexi::ExtractNull> { static constexpr const char *name = "ExtractNull"; static Text make(Rng &) { Text t = {}; t.s = "null"; return t; } static void ask(Rng &, const lexi::ExtractNull &e, const Text &) { eval(); cls("asked", "nullptr_t"); if (e.null() != nullptr || static_cast<std::nullptr_t>(e) != nullptr) fail("extractor.null", "null is not null; history: %s", history.c_str()); } };
template <> struct K<lexi::ExtractChar> { static constexpr const char *name = "ExtractChar"; static Text make(Rng &r) { Text t = {}; t.s = std::string(1 + r.below(2) * r.below(40), (char) r()); for (size_t i = 1; i < t.s.size(); i++) t.s[i] = (char) r(); return t; } static void ask(Rng &r, const lexi::ExtractChar &e, const Text &t) { eval(); if (r.chance(1, 2)) { cls("asked", "char"); if ((char) e != t.s[0]) fail("extractor.char", "from %s: %d; history: %s", show(t.s).c_str(), (int) (char) e, history.c_str()); } else { cls("asked", "unsigned char as character"); if ((unsigned char) e != (unsigned char) t.s[0]) fail("extractor.uchar", "from %s: %d; history: %s", show(t.s).c_str(), (int) (unsigned char) e, history.c_str()); } } };

template <class X> static void run(Rng &r, uint64_t steps) {
    struct Cell { alignas(X) unsigned char m[sizeof(X)]; bool live; Text t; X *x() { return (X *) m; } };
    const int N = 6; std::vector<Cell> c(N); for (auto &q : c) q.live = false;
    uint64_t seq = 0; history.clear(); ctxOp(K<X>::name);
    auto put = [&](Cell &q) {
        q.t = K<X>::make(r);
        {   // the text lives elsewhere, must not change, and is gone right afterwards
            std::unique_ptr<std::string> s(new std::string(q.t.s)); if (r.chance(1, 3)) s->reserve(100); std::string before = *s;
            new (q.m) X(*s);
            if (*s != before) fail("extractor.input", "%s changed its text %s", K<X>::name, show(before).c_str());
            for (auto &ch : *s) ch = '3'; s->assign(s->size(), '8');
        }
        q.live = true; note("construct from " + q.t.s);
    };
    auto drop = [&](Cell &q) { q.x()->~X(); memset(q.m, 0xEE, sizeof q.m); q.live = false; };
    for (uint64_t i = 0; i < steps; i++) {
        Cell &a = c[r.below(N)], &b = c[r.below(N)]; int op = (int) r.below(9); seq = mix(seq * 16 + (uint64_t) op);
        switch (op) {
            case 0: if (a.live) drop(a); put(a); break;
            case 1: if (a.live && b.live && &a != &b) { drop(b); new (b.m) X(*a.x()); b.live = true; b.t = a.t; note("copy"); } break;
            case 2: if (a.live && b.live) { *b.x() = *a.x(); b.t = a.t; note("assign"); } break;
            case 3: if (a.live && b.live) { if (r.below(2)) std::swap(*a.x(), *b.x()); else { using std::swap; swap(*a.x(), *b.x()); } std::swap(a.t, b.t); note("swap"); } break;
            case 4: if (a.live && b.live && &a != &b) { drop(b); new (b.m) X(std::move(*a.x())); b.live = true; b.t = a.t; drop(a); note("move"); } break;   // nothing is promised of a moved-from extractor
            case 5: if (a.live) { std::deque<X> v; std::vector<X> w; for (int k = 0; k < 5; k++) { v.push_back(*a.x()); w.push_back(v.front()); } note("container"); K<X>::ask(r, v[r.below(5)], a.t); K<X>::ask(r, w[r.below(5)], a.t); X z(w[2]); w.clear(); w.shrink_to_fit(); K<X>::ask(r, z, a.t); } break;
            case 6: if (a.live && r.chance(1, 3)) { drop(a); note("destroy"); } break;
            case 7: if (a.live) { for (int k = 0; k < 12; k++) K<X>::ask(r, *a.x(), a.t); note("ask many"); } break;
            default: { std::string other = text(r, (int) r.below(2)).s; volatile long long s = lexi::lexi<long long>(other); volatile double q = lexi::lexi<double>(other + "1"); (void) s; (void) q; note("other extraction"); }
        }
        for (auto &q : c) if (q.live) K<X>::ask(r, *q.x(), q.t);
        distinct(seq + (uint64_t) K<X>::name[7] * 1000003);
    }
    for (auto &q : c) if (q.live) drop(q);
    count(K<X>::name) += steps;
}
// a crowd of extractors alive together
template <class X> static void crowd(Rng &r) {
    ctxOp((std::string(K<X>::name) + ", many alive").c_str()); history = "many alive together"; uint64_t n = 1 + scaled(st().shard == 0 ? 200000 : 6000); if (n > 140000) n = 140000; std::deque<X> all; std::vector<Text> want;
    for (uint64_t i = 0; i < n; i++) { Text t = K<X>::make(r); std::string s = t.s; all.emplace_back(s); s.assign(s.size(), '8'); want.push_back(t); }
    for (size_t i = 0; i < all.size(); i++) K<X>::ask(r, all[i], want[i]);
    count("alive_together") += all.size();
}
#ifdef FUZZ
#define FUZZ_RUNS 1e6
#define FUZZ_LEN 200
static void fuzzInit() {}
static std::vector<std::string> fuzzSeeds() { std::vector<std::string> v; Rng r = rng(99); for (int i = 0; i < 12; i++) { std::string s(1, (char) i); for (int k = 0; k < 60; k++) s += (char) r.below(256); v.push_back(s); } return v; }
static void fuzzOne(Feed &f) {
    uint8_t k = f.byte(); Rng r(hashBytes(f.p, f.n)); r.feed = &f; uint64_t L = 4 + f.byte() % 24;
    switch (k % 6) { case 0: run<lexi::ExtractInt>(r, L); break; case 1: run<lexi::ExtractFloat>(r, L); break; case 2: run<lexi::ExtractEnum>(r, L); break; case 3: run<lexi::ExtractBool>(r, L); break; case 4: run<lexi::ExtractNull>(r, L); break; default: run<lexi::ExtractChar>(r, L); }
    count("histories")++;
}
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(23);
    uint64_t n = scaled(200000) / 8 + 1;
    for (uint64_t i = 0; i < n; i++) { uint64_t L = 4 + r.below(40); run<lexi::ExtractInt>(r, L); run<lexi::ExtractFloat>(r, L); run<lexi::ExtractEnum>(r, L); if (i % 2 == 0) { run<lexi::ExtractBool>(r, L / 2); run<lexi::ExtractNull>(r, L / 4); run<lexi::ExtractChar>(r, L / 2); } count("histories")++; }
    crowd<lexi::ExtractInt>(r); crowd<lexi::ExtractFloat>(r); crowd<lexi::ExtractEnum>(r); crowd<lexi::ExtractBool>(r); crowd<lexi::ExtractNull>(r); crowd<lexi::ExtractChar>(r);
    sample("last history: " + history);
    finish();
}
#endif
