// C04 lossless, C05 notation, C06 shortest/closest formatting of floats.
// Oracles: libstdc++ from_chars and glibc strtod (correct rounding), a
// re-formatter written from the statement of C05, libstdc++ to_chars
// (shortest, closest) and exact rational arithmetic for the exceptions.
#include <lexi/lexi.hpp>
#include "gen_double.hpp"
#include <charconv>
#include <limits>
#include <boost/multiprecision/cpp_int.hpp>
using namespace mon;
using gen::bits; using gen::fromBits;
typedef boost::multiprecision::cpp_int Z;

static bool M4, M5, M6;
static bool expSeen[2048], decSeen[700];
static uint64_t shapeSeen[4][18];
static uint64_t nGuard, nTie, nSlow;

struct Dec { char d[40]; int n; int kk; bool neg; bool ok; };   // value = 0.d1d2.. * 10^kk

// parse a formatted finite non-zero number into digits and exponent
static Dec parse(const char *s, size_t len) {
    Dec r; r.n = 0; r.kk = 0; r.ok = false; r.neg = false;
    size_t i = 0; if (i < len && s[i] == '-') { r.neg = true; i++; }
    int point = -1, seen = 0, exp = 0; bool any = false;
    for (; i < len; i++) {
        char c = s[i];
        if (c >= '0' && c <= '9') {
            any = true;
            if (r.n == 0 && c == '0') { if (point >= 0) seen--; continue; }
            if (r.n >= 39) return r;
            r.d[r.n++] = c; 
            if (point < 0) seen++;
        } else if (c == '.' && point < 0) { point = 1; }
        else break;
    }
    if (!any) return r;
    if (i < len) {
        if (s[i] != 'e') return r;
        i++; bool en = false; if (i < len && s[i] == '-') { en = true; i++; }
        if (i >= len) return r;
        for (; i < len; i++) { if (s[i] < '0' || s[i] > '9' || exp > 100000) return r; exp = exp * 10 + (s[i] - '0'); }
        if (en) exp = -exp;
    }
    r.kk = seen + exp;
    while (r.n > 0 && r.d[r.n - 1] == '0') r.n--;
    r.ok = r.n > 0;
    return r;
}

// canonical notation per C05
static int canonical(const Dec &x, char *o, int *shape) {
    char *p = o; int e10 = x.kk - 1;
    if (x.neg) *p++ = '-';
    if (e10 >= -6 && e10 <= 20) {
        if (x.kk <= 0) { *shape = 0; *p++ = '0'; *p++ = '.'; for (int i = 0; i < -x.kk; i++) *p++ = '0'; for (int i = 0; i < x.n; i++) *p++ = x.d[i]; }
        else {
            *shape = x.n <= x.kk ? 1 : 2;
            for (int i = 0; i < x.kk; i++) *p++ = i < x.n ? x.d[i] : '0';
            *p++ = '.';
            if (x.n <= x.kk) *p++ = '0'; else for (int i = x.kk; i < x.n; i++) *p++ = x.d[i];
        }
    } else {
        *shape = 3;
        *p++ = x.d[0];
        if (x.n > 1) { *p++ = '.'; for (int i = 1; i < x.n; i++) *p++ = x.d[i]; }
        *p++ = 'e'; p += sprintf(p, "%d", e10);
    }
    return (int) (p - o);
}

static Z pow10z(unsigned n) { Z r = 1; for (unsigned i = 0; i < n; i++) r *= 10; return r; }
static Z scaleDec(const Dec &x, int p2, int p10) {
    Z v = 0; for (int i = 0; i < x.n; i++) v = v * 10 + (x.d[i] - '0');
    return (v * pow10z((unsigned) (x.kk - x.n + p10))) << p2;
}
// exact analysis of a text that differs from the shortest-closest one
static void slow(double v, const Dec &out, const Dec &ref, const char *text) {
    nSlow++;
    uint64_t b = bits(std::fabs(v)); int be = (int) (b >> 52); uint64_t f = b & ((1ULL << 52) - 1); int e;
    if (be) { f |= 1ULL << 52; e = be - 1075; } else e = -1074;
    bool low = be > 1 && (b & ((1ULL << 52) - 1)) == 0;
    int p2 = (e - 2 < 0 ? -(e - 2) : 0) + 70;
    int q = std::min(out.kk - out.n, ref.kk - ref.n); int p10 = q < 0 ? -q : 0;
    Z T = pow10z((unsigned) p10);
    auto bin = [&](Z m, int ex) { return (m * T) << (ex + p2); };
    Z V = bin(f, e), Mp = bin(Z(2) * f + 1, e - 1), Mm = low ? bin(Z(4) * f - 1, e - 2) : bin(Z(2) * f - 1, e - 1);
    Z O = scaleDec(out, p2, p10), R = scaleDec(ref, p2, p10);
    auto absz = [](Z x) { return x < 0 ? Z(-x) : x; };
    Z edge = std::min(absz(R - Mp), absz(R - Mm));
    bool guard = (edge << 61) <= V;
    if (out.n > ref.n) {
        if (guard) { nGuard++; return; }
        fail("float.shortest", "double %a formatted as %s (%d digits), but %.*s*10^%d reads back as the same double", v, text, out.n, ref.n, ref.d, ref.kk - ref.n);
    } else if (out.n < ref.n) {
        fail("float.shortest", "double %a formatted as %s, which has fewer digits than any text that reads back as it", v, text);
    } else {
        Z dO = absz(O - V), dR = absz(R - V);
        if (dO <= dR) return;
        if (((dO - dR) << 60) <= V) { nTie++; return; }
        if (guard) { nGuard++; return; }
        fail("float.closest", "double %a formatted as %s, but %.*s*10^%d has as many digits and is closer", v, text, ref.n, ref.d, ref.kk - ref.n);
    }
}

static void one(double v) {
    ctxNum(bits(v));
    lexi::FormatFloat ff(v);
    size_t n = ff.size(); const char *s = ff.data();
    eval();
    distinct(bits(v));
    expSeen[(bits(v) >> 52) & 2047] = true;
    if (n == 0 || n > 64) { fail("float.size", "double %a (bits %016llx) has text of size %zu", v, (unsigned long long) bits(v), n); return; }
    if (M4) {
        double g = 0; auto rc = std::from_chars(s, s + n, g);
        bool bad = rc.ec != std::errc() || rc.ptr != s + n || bits(g) != bits(v);
        if (bad || (st().evaluations & 63) == 0) {
            std::string t(s, n); char *end; double h = strtod(t.c_str(), &end);
            if (bits(h) != bits(v) || end != t.c_str() + n) fail("float.lossless", "double %a (bits %016llx) formatted as %s reads back as %a", v, (unsigned long long) bits(v), show(t).c_str(), h);
            else if (bad && rc.ec == std::errc()) fail("float.lossless", "double %a formatted as %s reads back as %a", v, show(t).c_str(), g);
        }
    }
    if (M5 || M6) {
        Dec x = parse(s, n);
        if (M5) {
            char w[80]; int shape = 0;
            if (!x.ok || x.neg != std::signbit(v) || x.n > 17) fail("float.grammar", "double %a formatted as %s: not a number of the right sign with 1 to 17 digits", v, show(std::string(s, n)).c_str());
            else if (canonical(x, w, &shape) != (int) n || memcmp(w, s, n) != 0) fail("float.notation", "double %a formatted as %s, canonical notation is %.*s", v, show(std::string(s, n)).c_str(), canonical(x, w, &shape), w);
            else { shapeSeen[shape][x.n]++; int k = x.kk + 330; if (k >= 0 && k < 700) decSeen[k] = true; }
        }
        if (M6) {
            char t[64]; auto rc = std::to_chars(t, t + sizeof t, v, std::chars_format::scientific);
            // d[.ddd]e[+-]dd
            Dec y; y.n = 0; y.neg = false; char *p = t; if (*p == '-') { y.neg = true; p++; }
            for (; p < rc.ptr && *p != 'e'; p++) if (*p != '.') y.d[y.n++] = *p;
            p++; bool en = *p == '-'; p++; int ex = 0; for (; p < rc.ptr; p++) ex = ex * 10 + (*p - '0'); y.kk = (en ? -ex : ex) + 1;
            while (y.n > 1 && y.d[y.n - 1] == '0') y.n--;
            if (!x.ok || x.neg != y.neg) { fail("float.shortest", "double %a formatted as %s, not a number of the same sign", v, show(std::string(s, n)).c_str()); return; }
            if (x.n != y.n || x.kk != y.kk || memcmp(x.d, y.d, (size_t) x.n) != 0) slow(v, x, y, std::string(s, n).c_str());
            else count("equal_to_shortest")++;
        }
    }
}

static void special(Rng &r) {
    auto is = [&](const std::string &g, const char *w, const char *what) { eval(); if (g != w) fail("float.special", "%s formatted as %s instead of %s", what, show(g).c_str(), w); };
    double inf = std::numeric_limits<double>::infinity();
    if (M5) {
        is(lexi::lexi(0.0), "0.0", "zero"); is(lexi::lexi(-0.0), "0.0", "negative zero"); is(lexi::lexi(0.0f), "0.0", "float zero"); is(lexi::lexi(-0.0f), "0.0", "negative float zero"); is(lexi::lexi(0.0L), "0.0", "long double zero"); is(lexi::lexi(-0.0L), "0.0", "negative long double zero");
        is(lexi::lexi(inf), "Infinity", "infinity"); is(lexi::lexi(-inf), "-Infinity", "negative infinity");
        is(lexi::lexi((float) inf), "Infinity", "float infinity"); is(lexi::lexi((float) -inf), "-Infinity", "negative float infinity");
        is(lexi::lexi((long double) inf), "Infinity", "long double infinity"); is(lexi::lexi((long double) -inf), "-Infinity", "negative long double infinity");
        // NaN: every single payload bit, random payloads, both signs, all types
        ctxOp("NaN");
        for (int k = 0; k < 52 + 20000; k++) {
            uint64_t pay = k < 52 ? 1ULL << k : (r() & ((1ULL << 52) - 1)); if (!pay) continue;
            for (uint64_t sg : {0ULL, 1ULL << 63}) { uint64_t b = sg | 0x7ff0000000000000ULL | pay; ctxNum(b); is(lexi::lexi(fromBits(b)), "NaN", "NaN"); distinct(b); }
            uint32_t fp = k < 23 ? 1u << k : (uint32_t) (r() & 0x7fffff); if (fp) { uint32_t fb = 0x7f800000u | fp | (k & 1 ? 0x80000000u : 0); float g; memcpy(&g, &fb, 4); is(lexi::lexi(g), "NaN", "float NaN"); }
        }
        is(lexi::lexi(std::numeric_limits<long double>::quiet_NaN()), "NaN", "long double NaN"); is(lexi::lexi(-std::numeric_limits<long double>::quiet_NaN()), "NaN", "negative long double NaN");
        count("special_values") = st().evaluations;
    }
}
static void notation(const std::string &s, bool neg, const char *type, long double v) {
    Dec x = parse(s.data(), s.size()); char w[80]; int shape = 0; eval();
    if (!x.ok || x.neg != neg || x.n > 17) fail(std::string("float.grammar.") + type, "%s %La formatted as %s: not a number of the right sign with 1 to 17 digits", type, v, show(s).c_str());
    else if (canonical(x, w, &shape) != (int) s.size() || memcmp(w, s.data(), s.size()) != 0) fail(std::string("float.notation.") + type, "%s %La formatted as %s, canonical notation is %.*s", type, v, show(s).c_str(), canonical(x, w, &shape), w);
}
// float and long double are formatted as the (nearest) double
static void otherTypes(Rng &r) {
    uint64_t n = scaled(6e6);
    ctxOp("float / long double");
    for (uint64_t i = 0; i < n; i++) {
        uint32_t u = i < 1000000 && st().scale >= 0.2 ? (uint32_t) (i * 4294u + r.below(4294)) : (uint32_t) r(); float g; memcpy(&g, &u, 4);
        ctxNum(u);
        if (std::isfinite(g)) {
            lexi::FormatFloat a(g), b((double) g); eval();
            if (M5 && g != 0) notation(a.string(), std::signbit(g), "float", g);
            if (M4 && a.string() != b.string()) fail("float.type.float", "float %a formatted as %s, the equal double as %s", (double) g, a.c_str(), b.c_str());
            if (g != 0 && M4 && strtof(a.string().c_str(), nullptr) != g) fail("float.lossless.float", "float %a formatted as %s", (double) g, a.c_str());
        }
        if ((i & 3) == 0) {
            uint64_t m = r() | 1ULL << 63; uint16_t e = (uint16_t) (16383 - 1100 + r.below(2200)); if (r.chance(1, 50)) e = (uint16_t) r.below(32767); if (r.chance(1, 2)) e |= 0x8000;
            if (r.chance(1, 3)) m &= ~0x3ffULL; if (r.chance(1, 6)) m = (m & ~0x7ffULL) | 0x400;   // ties
            long double L = 0; memcpy(&L, &m, 8); memcpy((char *) &L + 8, &e, 2);
            double d = (double) L; eval();
            std::string a = lexi::lexi(L), b = lexi::lexi(d);
            if (M5 && d != 0 && std::isfinite(d)) notation(a, d < 0, "long double", L);
            if (M5 && (d == 0 || std::isinf(d))) { const char *w = d == 0 ? "0.0" : d > 0 ? "Infinity" : "-Infinity"; eval(); if (a != w) fail("float.special.longdouble", "long double %La, beyond the range of double, formatted as %s instead of %s", L, show(a).c_str(), w); count("long_doubles_beyond_double")++; }
            if (M4 && a != b) fail("float.type.longdouble", "long double %La formatted as %s, its nearest double as %s", L, show(a).c_str(), show(b).c_str());
        }
    }
    count("floats_and_long_doubles") += n;
}

#ifdef FUZZ
#define FUZZ_RUNS 5e6
#define FUZZ_LEN 16
static void fuzzInit() { M4 = wants("C04"); M5 = wants("C05"); M6 = wants("C06"); ctxOp("format double (num = bits)"); }
static std::vector<std::string> fuzzSeeds() { return {std::string("\0\0\0\0\0\0\0\xf0\x3f", 9), std::string("\1\x9a\x99\x99\x3d", 5), std::string("\2\x15\0\0\0\0\0\0\0\x10\x00", 11)}; }
static void fuzzOne(Feed &f) {
    uint8_t k = f.byte(); uint64_t v = f.u64(); double d;
    if (k % 4 == 1) { uint32_t u = (uint32_t) v; float g; memcpy(&g, &u, 4); d = g; if (std::isfinite(g) && M4 && lexi::lexi(g) != lexi::lexi(d)) fail("float.type.float", "float %a formatted as %s, the equal double as %s", d, lexi::lexi(g).c_str(), lexi::lexi(d).c_str()); }
    else if (k % 4 == 2) { int e = (int) (int16_t) (uint16_t) f.u64() % 330; char t[64]; snprintf(t, sizeof t, "%llue%d", (unsigned long long) v >> (k >> 2 & 63), e); d = strtod(t, nullptr); }
    else if (k % 4 == 3) d = std::ldexp((double) (int64_t) v, (int8_t) f.byte());
    else d = fromBits(v);
    if (std::isfinite(d) && d != 0) one(d);
    else if (M5) { std::string t = lexi::lexi(d), w = d != d ? "NaN" : d == 0 ? t : d > 0 ? "Infinity" : "-Infinity"; eval(); if (t != w) fail("float.special", "%a formatted as %s", d, show(t).c_str()); }
}
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    M4 = wants("C04"); M5 = wants("C05"); M6 = wants("C06");
    Rng r = rng(4);
    if (st().shard == 0) special(r);
    ctxOp("format double (num = bits)");
    gen::doubles(r, 4e7, one);
    if (M4 || M5) otherTypes(r);
    {   // one bit changed at a time: nothing may be remembered from the value before
        uint64_t n = scaled(800000), b = r(); ctxOp("format double (num = bits)");
        for (uint64_t i = 0; i < n; i++) {
            switch (r.below(6)) { case 0: case 1: b ^= 1ULL << r.below(64); break; case 2: b = (b & 0xffffffffULL) | (r() << 32); break; case 3: b ^= 1ULL << 63; break; case 4: b++; break; default: if (r.chance(1, 10)) b = r(); }
            double d = fromBits(b); if (std::isfinite(d) && d != 0) one(d); else lexi::lexi(d); count("one_bit_chain")++;
        }
    }
    int be = 0, de = 0; for (bool b : expSeen) be += b; for (bool b : decSeen) de += b;
    for (int i = 0; i < 2048; i++) if (expSeen[i]) cls("binary_exponent", std::to_string(i));
    for (int i = 0; i < 700; i++) if (decSeen[i]) cls("decimal_exponent", std::to_string(i - 331));
    static const char *nm[] = {"0.00ddd", "ddd00.0", "dd.dd", "d.dde"};
    for (int s = 0; s < 4; s++) for (int k = 1; k < 18; k++) if (shapeSeen[s][k]) cls("notation_x_digits", std::string(nm[s]) + " " + std::to_string(k));
    if (M6) { count("guard_band_exceptions") = nGuard; count("near_tie_exceptions") = nTie; count("exact_analyses") = nSlow; }
    for (int i = 0; i < 3; i++) { double d = fromBits(r()); char t[64]; snprintf(t, sizeof t, "%a -> ", d); sample(t + lexi::lexi(d)); }
    finish();
}
#endif
