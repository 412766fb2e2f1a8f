// A catalogue of conversions, each a pure function of a 64-bit argument to a
// byte string describing its full outcome. Used by the concurrency,
// environment and allocation-failure monitors.
#pragma once
#include <lexi/lexi.hpp>
#ifndef PUBLIC_ONLY
#include <lexi/detail/bigint.hpp>
#include <lexi/detail/ieee754.hpp>
#include <lexi/detail/pow.hpp>
#endif
#ifndef ENC_MASK
#define ENC_MASK ~0ULL
#endif
#include "mon.hpp"
#include "harvest.hpp"
#include <stdexcept>
#include <cmath>
#include <cfenv>
namespace ops {
using mon::Rng;
enum class En : short {};
enum class EnC : char {};
enum class EnU : unsigned long long {};
// inputs derived from the argument
__attribute__((noinline)) inline double dblNearest(uint64_t x) {
    double d; Rng r(x);
    switch (x % 8) {
        case 0: { uint64_t b = r(); if (r.below(3) == 0) b = gen::constant(r, b); memcpy(&d, &b, 8); return std::isnan(d) ? 1.5 : d; }
        case 1: { uint64_t v = r(); v >>= r.below(64); return (double) (int64_t) v / 100; }
        case 2: return (double) (int) r.below(2000000) / 1000;
        case 3: { static const double s[] = {0.0, -0.0, INFINITY, -INFINITY, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 1e21, 1e-7, 1e23, 123456.789, 0.1, 1.0, 9007199254740993.0}; return s[r.below(14)]; }
        case 4: { uint64_t m = r() >> 11; int e = (int) r.below(2000) - 1070; return std::ldexp((double) m, e); }
        case 5: { double e = (double) r.below(300); uint64_t m = 1 + r.below(9); return std::pow(10.0, e) * (double) m; }
        case 6: { uint64_t v = r(); v >>= r.below(64); return -(double) v; }
        default: { uint64_t b = r() & 0x800fffffffffffffULL; b |= r.below(2047) << 52; memcpy(&d, &b, 8); return d; }
    }
}
__attribute__((noinline)) inline float fltNearest(uint64_t v) { return (float) (int) v * 0.03125f; }
// inputs are the same whatever the rounding mode of the caller
inline double dbl(uint64_t x) { int m = fegetround(); if (m != FE_TONEAREST) fesetround(FE_TONEAREST); double d = dblNearest(x); if (m != FE_TONEAREST) fesetround(m); return d; }
inline float flt(uint64_t x) { int m = fegetround(); if (m != FE_TONEAREST) fesetround(FE_TONEAREST); float d = fltNearest(x); if (m != FE_TONEAREST) fesetround(m); return d; }
inline uint64_t num(uint64_t x) { Rng r(x); uint64_t v = r(); v >>= r.below(64); if (r.below(8) == 0) v = gen::constant(r, v); return r() & 1 ? 0 - v : v; }
// a random magnitude; operands are drawn in a fixed order, whatever the compiler
inline std::string any(Rng &r) { uint64_t v = r(); v >>= r.below(64); return std::to_string(v); }
// now and then a long text: the same one repeated, with blanks or zeros in front, or with a long tail
inline void lengthen(std::string &s, Rng &r) {
    if (r.below(64)) return;
    size_t n = r.below(16) ? 25 + r.below(500) : r.below(8) ? 500 + r.below(8000) : 8000 + r.below(40000);
    switch (r.below(4)) { case 0: { std::string t = s + (char) (32 + r.below(95)); while (s.size() < n) s += t; break; } case 1: s.insert(0, n, ' '); break; case 2: s.insert(!s.empty() && (s[0] == '-' || s[0] == '+') ? 1 : 0, n, (char) ('0' + r.below(10))); break; default: s.append(n, (char) (32 + r.below(95))); }
}
inline std::string bytes(uint64_t x) {
    Rng r(x * 3 + 1); std::string s; size_t L = r.below(8) == 0 ? r.below(300) : r.below(24);
    for (size_t i = 0; i < L; i++) s += r.below(2) ? (char) r() : (char) (32 + r.below(95));
    if (r.below(6) == 0) { size_t at = r.below(3) ? 0 : r.below(s.size() + 1); s.insert(at, gen::text(r, "")); if (r.below(2)) s.resize(at + (s.size() - at) / 2); if (r.below(2)) s = gen::text(r, s); }
    lengthen(s, r);
    return s;
}
inline std::string intText(uint64_t x) {
    Rng r(x * 5 + 2); std::string s; if (r.below(5) == 0) s = " \t"; if (r.below(3) == 0) s += "-"; else if (r.below(6) == 0) s += "+";
    if (r.below(10) == 0) s += std::string(r.below(30), '9'); else s += any(r);
    if (r.below(4) == 0) s += r.below(2) ? "abc" : ".5";
    if (r.below(20) == 0) s = "x" + s;
    if (r.below(20) == 0) { size_t at = r.below(s.size() + 1); s.insert(at, gen::text(r, "")); }
    lengthen(s, r);
    return s;
}
inline std::string floatText(uint64_t x) {
    Rng r(x * 7 + 3); std::string s;
    switch (r.below(7)) {
        case 0: s = any(r); s += "."; s += any(r); break;
        case 1: s = std::to_string(r.below(1000)); s += "."; s += std::to_string(r.below(1000)); s += "e"; s += std::to_string((int) r.below(700) - 350); break;
        case 2: { static const char *w[] = {"NaN", "Infinity", "-Infinity", "0.0", "-0.0", "1e400", "-1e400", "1e-400", "0.1", "1.5", "1,5", "1.5,5", "x", "", ".", "12abc", "1e", "2.5e-", "8.3e26", "16777217", "9007199254740993", "4.9e-324", "1.234.567", "1 234,5", "-.5", "+7.25"}; s = w[r.below(26)]; break; }
        case 3: s = "0."; s += std::string(r.below(40), '0'); s += std::to_string(r()); break;
        case 4: for (int i = 0, n = 1 + (int) r.below(60); i < n; i++) s += (char) ('0' + r.below(10)); s += ".5"; break;
        case 5: s = " -"; s += std::to_string(r.below(100000)); s += "."; s += std::to_string(r.below(100000)); break;
        default: s = std::to_string(r.below(100)); s += "."; s += std::to_string(r.below(100)); if (r.below(2)) s += " tail";
    }
    if (r.below(20) == 0) { size_t at = r.below(s.size() + 1); s.insert(at, gen::text(r, "")); }
    lengthen(s, r);
    return s;
}
inline std::string wordText(uint64_t x) { Rng r(x * 11 + 4); static const char *w[] = {"true", "false", "null", "True", "", "tru", "falsee", "nul", "1", "nullx"}; std::string s = w[r.below(10)]; if (r.below(6) == 0) s = gen::text(r, s); lengthen(s, r); return s; }
template <class T> inline std::string raw(const T &v) { std::string s = mon::hex(std::string((const char *) &v, sizeof(T) == 16 ? 10 : sizeof(T))); return s; }
template <class T> inline std::string rawf(const T &v) { return std::isnan(v) ? std::string("nan") : raw(v); }
template <class F> inline std::string caught(F f) {
    try { return f(); } catch (const std::bad_alloc &) { throw; } catch (const std::runtime_error &) { return "!runtime_error"; } catch (const std::exception &) { return "!exception"; }
}
struct Op { const char *name; std::string (*run)(uint64_t); bool roundingFree; };
// roundingFree: the outcome must not depend on the floating-point rounding mode
inline const std::vector<Op> &all() {
    static const std::vector<Op> &v = *new std::vector<Op>{   // never destroyed: used during exit
#define FI(T) {"format " #T, [](uint64_t x) { return lexi::lexi((T) num(x)); }, true}
        FI(signed char), FI(unsigned char), FI(short), FI(unsigned short), FI(int), FI(unsigned int), FI(long), FI(unsigned long), FI(long long), FI(unsigned long long),
#undef FI
        {"format double", [](uint64_t x) { return lexi::lexi(dbl(x)); }, true},
        {"format float", [](uint64_t x) { return lexi::lexi(flt(num(x))); }, true},
        {"format long double", [](uint64_t x) { return lexi::lexi((long double) dbl(x)); }, true},
        {"format NaN", [](uint64_t x) { uint64_t b = 0x7ff0000000000001ULL | (x << 4 & 0x800fffffffffffffULL); double d; memcpy(&d, &b, 8); return lexi::lexi(d); }, true},
        {"format bool", [](uint64_t x) { return lexi::lexi((x & 8) != 0) + lexi::jsonify((x & 16) != 0) + lexi::escape((x & 32) != 0); }, true},
        {"format null", [](uint64_t) { return lexi::lexi(nullptr) + lexi::jsonify(nullptr) + lexi::escape(nullptr); }, true},
        {"format char", [](uint64_t x) { char c = (char) (x >> 3); return lexi::lexi(c) + lexi::escape(c) + lexi::jsonify(c); }, true},
        {"format enum", [](uint64_t x) { return lexi::lexi((En) num(x)) + lexi::jsonify((EnC) (num(x + 1) & ENC_MASK)) + lexi::escape((EnU) num(x + 2)); }, true},
        {"format stream position", [](uint64_t x) { return lexi::lexi(std::streampos((std::streamoff) num(x))); }, true},
        {"escape", [](uint64_t x) { return lexi::escape(bytes(x)); }, true},
        {"jsonify", [](uint64_t x) { return lexi::jsonify(bytes(x)); }, true},
        {"string", [](uint64_t x) { return lexi::string(bytes(x)) + lexi::lexi(bytes(x + 1).c_str()); }, true},
        {"formatter views", [](uint64_t x) { lexi::FormatFloat f(dbl(x)); lexi::FormatFloat g(f); f = lexi::FormatFloat(1.0); lexi::FormatInt i((long long) num(x)); lexi::FormatInt j = i; return g.string() + "|" + std::string(g.c_str()) + "|" + std::string(j.data(), j.size()) + "|" + f.jsonify() + g.escape(); }, true},
#define XI(T) {"extract " #T, [](uint64_t x) { return caught([&] { return raw(lexi::lexi<T>(intText(x))); }); }, true}
        XI(signed char), XI(unsigned char), XI(short), XI(unsigned short), XI(int), XI(unsigned int), XI(long), XI(unsigned long), XI(long long), XI(unsigned long long), XI(En), XI(EnC), XI(EnU),
#undef XI
#define XF(T) {"extract " #T, [](uint64_t x) { return caught([&] { return rawf(lexi::lexi<T>(floatText(x))); }); }, false}
        XF(float), XF(double), XF(long double),
#undef XF
        {"extract float (C string)", [](uint64_t x) { return caught([&] { return rawf(lexi::lexi<double>(floatText(x).c_str())) + rawf(lexi::lexi<float>(floatText(x + 1).c_str())); }); }, false},
        {"extract bool", [](uint64_t x) { return caught([&] { return std::string(lexi::lexi<bool>(wordText(x)) ? "T" : "F"); }); }, true},
        {"extract null", [](uint64_t x) { return caught([&] { return std::string(lexi::lexi<std::nullptr_t>(wordText(x)) == nullptr ? "N" : "?"); }); }, true},
        {"extract char", [](uint64_t x) { return caught([&] { std::string t = bytes(x); return raw(lexi::lexi<char>(x % 5 ? t : std::string())); }); }, true},
        {"extract stream position", [](uint64_t x) { return caught([&] { return std::to_string((long long) std::streamoff(lexi::lexi<std::streampos>(intText(x)))); }); }, true},
        {"round trip double", [](uint64_t x) { return rawf(lexi::lexi<double>(lexi::lexi(dbl(x)))); }, false},
#ifndef PUBLIC_ONLY
        {"big integer", [](uint64_t x) { Rng r(x); std::string t = std::to_string(r()); t += std::to_string(r()); lexi::detail::BigInteger b(t.data(), t.size()), o(1); b *= (uint64_t) (r() | 1); b <<= r.below(200); b.mulPow5((unsigned) r.below(60)); b += r(); lexi::detail::BigInteger c(b); c += 1; c.difference(b, &o); std::string s; for (size_t i = 0; i < b.count(); i++) s += raw(b.digit(i)); return s + std::to_string(o.digit(0)) + std::to_string(b.compare(c) < 0); }, true},
        {"classify and pow10", [](uint64_t x) { double d = dbl(x); namespace L = lexi::detail; std::string s; for (bool q : {L::isNan(d), L::isInf(d), L::isFinite(d), L::isZero(d), L::isPositive(d), L::isInfinity(d), L::isNegativeInfinity(d)}) s += q ? '1' : '0'; return s + raw(L::pow10((int) (x % 309))); }, true},
#endif
    };
    return v;
}
}
