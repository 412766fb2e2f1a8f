// C07: extraction of float, double and long double.
// Oracles: libstdc++ from_chars, glibc strtod family in the C locale, and (on
// a share of the cases) exact rational rounding with big integers. The three
// must agree with each other before anything is held against the library.
#include <lexi/lexi.hpp>
#include "gen_double.hpp"
#include <charconv>
#include <limits>
#include <boost/multiprecision/cpp_int.hpp>
using namespace mon;
using gen::bits; using gen::fromBits;
typedef boost::multiprecision::cpp_int Z;
typedef long double ld;

// [ws][sign]digits[.digits][e[sign]digits]; returns false if no number in front
struct Num { size_t a, b; bool neg; size_t db; };
static bool match(const std::string &s, Num &m) {
    size_t i = 0, n = s.size();
    auto dig = [&](size_t k) { return k < n && s[k] >= '0' && s[k] <= '9'; };
    while (i < n && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))) i++;
    m.a = i; m.neg = false;
    if (i < n && (s[i] == '+' || s[i] == '-')) { m.neg = s[i] == '-'; i++; }
    m.db = i;
    size_t nd = 0;
    while (dig(i)) { i++; nd++; }
    if (i < n && s[i] == '.') { size_t j = i + 1, k = 0; while (dig(j)) { j++; k++; } if (nd + k) { i = j; nd += k; } }
    if (!nd) return false;
    if (i < n && (s[i] == 'e' || s[i] == 'E')) { size_t j = i + 1; if (j < n && (s[j] == '+' || s[j] == '-')) j++; if (dig(j)) { while (dig(j)) j++; i = j; } }
    m.b = i;
    return true;
}
// spellings outside the property: hexadecimal, C's other infinities and NaNs
static bool outside(const std::string &s) {
    size_t i = 0, n = s.size();
    while (i < n && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))) i++;
    if (i < n && (s[i] == '+' || s[i] == '-')) i++;
    if (i + 1 < n && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) return true;
    auto ci = [&](const char *w) { for (size_t k = 0; w[k]; k++) if (i + k >= n || (s[i + k] | 32) != w[k]) return false; return true; };
    return ci("inf") || ci("nan");
}

static Z pow10z(unsigned n) { Z r = 1, b = 10; while (n) { if (n & 1) r *= b; b *= b; n >>= 1; } return r; }
// nearest p-bit value, ties to even; result as f*2^e, or overflow
struct Rounded { Z f; int e; bool inf; };
static Rounded exactRound(const std::string &num, int p, int emin, int emax) {  // num: digits[.digits][e..] with small exponent
    Z d = 0; long sc = 0; bool frac = false; size_t i = 0;
    for (; i < num.size() && num[i] != 'e' && num[i] != 'E'; i++) { if (num[i] == '.') { frac = true; continue; } d = d * 10 + (num[i] - '0'); if (frac) sc--; }
    if (i < num.size()) sc += strtol(num.c_str() + i + 1, nullptr, 10);
    Rounded r; r.inf = false; r.f = 0; r.e = emin;
    if (d == 0) return r;
    Z a = d, b = 1; if (sc > 0) a *= pow10z((unsigned) sc); else b = pow10z((unsigned) -sc);
    long e = (long) msb(a) - (long) msb(b) - p;      // a/b about 2^(p) * 2^e
    if (e < emin) e = emin;
    for (;;) {
        Z x = a, y = b; if (e > 0) y <<= (unsigned) e; else x <<= (unsigned) -e;
        Z q, m; divide_qr(x, y, q, m);
        if (q != 0 && (long) msb(q) >= p) { e++; continue; }
        m *= 2; if (m > y || (m == y && (q & 1) != 0)) q++;
        if (q != 0 && (long) msb(q) >= p) { q >>= 1; e++; }
        if (q != 0 && (long) msb(q) + e > emax) r.inf = true;
        r.f = q; r.e = (int) e; return r;
    }
}
template <class T> static T toT(const Rounded &r, bool neg) {
    T v = r.inf ? std::numeric_limits<T>::infinity() : (T) std::ldexp((ld) (uint64_t) r.f, r.e);
    return neg ? -v : v;
}
template <class T> static bool same(T a, T b) { return a == b; }   // oracles: zeros compare equal whatever their sign
// results: a zero read from a number has the sign written
template <class T> static bool agrees(T got, T want, bool has) { return got == want && (!has || want != 0 || std::signbit(got) == std::signbit(want)); }

static std::string lower;
static uint64_t nExact, nOver, nUnder, nSub;
static bool oracle(const std::string &num, bool neg, float &f, double &d, ld &l) {
    // num: unsigned number text
    float f1; double d1;
    auto rf = std::from_chars(num.data(), num.data() + num.size(), f1);
    auto rd = std::from_chars(num.data(), num.data() + num.size(), d1);
    f = strtof(num.c_str(), nullptr); d = strtod(num.c_str(), nullptr); l = strtold(num.c_str(), nullptr);
    // oracles that disagree judge nothing
    if ((rf.ec == std::errc() && !same(f, f1)) || (rd.ec == std::errc() && !same(d, d1))) { count("oracle_disagreements")++; return false; }
    if (d > 1e308 && std::isinf(d)) nOver++;
    if (d == 0) nUnder++; else if (d < DBL_MIN) nSub++;
    if (neg) { f = -f; d = -d; l = -l; }
    return true;
}

static void report(const char *type, const std::string &s, ld got, ld want) {
    fail(std::string("float.extract.") + type, "%s from %s gave %La, expected %La", type, show(s).c_str(), got, want);
}
static std::string shapeOf(const std::string &s, const Num &m) {
    std::string o; if (m.a) o += "ws "; if (m.db > m.a) o += s[m.a];
    bool dot = false, ex = false; size_t nd = 0;
    for (size_t i = m.db; i < m.b; i++) { if (s[i] == '.') dot = true; else if ((s[i] | 32) == 'e') { ex = true; break; } else nd++; }
    o += nd <= 17 ? "d<=17" : nd <= 40 ? "d<=40" : nd <= 800 ? "d<=800" : "d>800"; if (dot) o += "."; if (ex) o += "e"; if (m.b < s.size()) o += "+tail";
    return o;
}

static void check(const std::string &s, bool exact = false) {
    if (outside(s)) { count("skipped_outside")++; return; }
    ctxStr("extract float", s);
    Num m; float f = 0; double d = 0; ld l = 0;
    bool has = match(s, m);
    if (has) {
        std::string num = s.substr(m.db, m.b - m.db);
        if (!oracle(num, m.neg, f, d, l)) return;
        if (exact) {
            size_t e = num.find_first_of("eE");
            if (num.size() < 1200 && (e == std::string::npos || (num.size() - e < 7))) {
                nExact++;
                if (!same(d, toT<double>(exactRound(num, 53, -1074, 1023), m.neg)) || !same(f, toT<float>(exactRound(num, 24, -149, 127), m.neg)) || !same(l, toT<ld>(exactRound(num, 64, -16445, 16383), m.neg))) { count("oracle_disagreements")++; return; }
            }
        }
        cls("text_shape", shapeOf(s, m));
    } else cls("text_shape", "no number");
    distinct(hashBytes(s.data(), s.size()));
    float gf; double gd; ld gl;
    try { gf = lexi::lexi<float>(s); gd = lexi::lexi<double>(s); gl = lexi::lexi<ld>(s); }
    catch (const std::exception &e) { fail("float.extract.throw", "extraction from %s threw %s", show(s).c_str(), e.what()); return; }
    eval(3);
    if (!agrees(gf, f, has)) report("float", s, gf, f);
    if (!agrees(gd, d, has)) report("double", s, gd, d);
    if (!agrees(gl, l, has)) report("long double", s, gl, l);
    if ((st().evaluations & 15) < 3 && s.find('\0') == std::string::npos) {
        gd = lexi::lexi<double>(s.c_str()); gf = (float) lexi::ExtractFloat(s); eval(2);
        if (!agrees(gd, d, has)) report("double (C string)", s, gd, d);
        if (!agrees(gf, f, has)) report("float (ExtractFloat)", s, gf, f);
    }
}

// exact decimal expansion of f*2^e
static void expand(const Z &f, int e, std::string &digits, int &point) {   // value = 0.digits * 10^point
    Z v = f; int sc = 0;
    if (e >= 0) v <<= (unsigned) e; else { Z five = 1; Z b = 5; unsigned n = (unsigned) -e; while (n) { if (n & 1) five *= b; b *= b; n >>= 1; } v *= five; sc = e; }
    digits = v.str(); point = (int) digits.size() + sc;
}
static std::string lay(Rng &r, const std::string &dg, int point) {
    // the same number written in one of several ways
    switch (r.below(4)) {
        case 0: return dg + "e" + std::to_string(point - (int) dg.size());
        case 1: return "0." + dg + "e" + std::to_string(point);
        case 2: { size_t k = 1 + r.below(dg.size()); return dg.substr(0, k) + "." + dg.substr(k) + "E" + (point - (int) k >= 0 ? "+" : "") + std::to_string(point - (int) k); }
        default:
            if (point > 0 && point <= 400) { if ((size_t) point >= dg.size()) return dg + std::string((size_t) point - dg.size(), '0'); return dg.substr(0, (size_t) point) + "." + dg.substr((size_t) point); }
            if (point <= 0 && point > -400) return "0." + std::string((size_t) -point, '0') + dg;
            return dg + "e" + std::to_string(point - (int) dg.size());
    }
}
static void increments(Rng &r, std::string dg, int point, bool neg) {
    auto go = [&](const std::string &x, int pt) { check((neg ? "-" : "") + lay(r, x, pt), true); };
    go(dg, point);
    go(dg + "0000000000000000000001", point);                    // just above
    go(dg + std::string(900, '0') + "1", point);                 // just above, far away
    if (r.chance(1, 30)) {   // the digit that decides lies thousands of places behind
        static const size_t far[] = {1000, 1100, 1600, 2100, 4100, 5200, 8200, 12000, 17000, 33000, 66000}; size_t z = far[r.below(r.chance(1, 4) ? 11 : 7)] + r.below(40);
        std::string x = dg; size_t k = x.size(); while (k-- > 0) { if (x[k] != '0') { x[k]--; break; } x[k] = '9'; }
        go(dg + std::string(z, '0') + "1", point); go(x + std::string(z, '9'), point); count("decided_by_a_far_digit") += 2;
    }
    { std::string x = dg; size_t k = x.size(); while (k-- > 0) { if (x[k] != '0') { x[k]--; break; } x[k] = '9'; } std::string y = x; go(x + "99999999", point); go(y, point); }   // just below
    if (dg.size() > 20) { size_t k = 17 + r.below(dg.size() - 17); go(dg.substr(0, k), point); std::string t = dg.substr(0, k); go(t + "5", point); go(t + "49999", point); }
}
static void midpoints(Rng &r) {
    // per type: the midpoint between a value and its successor
    std::string dg; int pt;
    uint64_t n = scaled(60000);
    for (uint64_t i = 0; i < n; i++) {
        bool neg = r.chance(1, 3);
        {   int be = (int) r.below(2047); if (r.chance(1, 3)) be = 1023 - 60 + (int) r.below(120); if (i < 8) be = (int) i; uint64_t f = r() & ((1ULL << 52) - 1); if (r.chance(1, 8)) f = r.chance(1, 2) ? 0 : (1ULL << 52) - 1; if (be) f |= 1ULL << 52;
            int e = be ? be - 1075 : -1074; expand(Z(2) * f + 1, e - 1, dg, pt); increments(r, dg, pt, neg); count("double_midpoints")++; }
        {   int be = (int) r.below(255); uint64_t f = r() & 0x7fffff; if (r.chance(1, 8)) f = r.chance(1, 2) ? 0 : 0x7fffff; if (be) f |= 1 << 23;
            int e = be ? be - 150 : -149; expand(Z(2) * f + 1, e - 1, dg, pt); increments(r, dg, pt, neg); count("float_midpoints")++;
            // a double-rounding trap: half way for float, displaced by far less than a double or extended unit
            std::string t = dg; t += "000000000000000000000000000000000000000000001"; check((neg ? "-" : "") + lay(r, t, pt), true); }
        if (i % 4 == 0) { int e = (int) r.below(300) - 200; uint64_t f = r() | 1ULL << 63; if (r.chance(1, 40)) e = -16445 + (int) r.below(40); if (r.chance(1, 60)) e = 16383 - 63 - (int) r.below(40);
            if (std::abs(e) > 4000 && i % 64) continue;
            expand(Z(2) * f + 1, e - 1, dg, pt); increments(r, dg, pt, neg); count("long_double_midpoints")++; }
    }
}
static void limits(Rng &r) {
    std::string dg; int pt;
    struct { Z f; int e; const char *n; } b[] = {
        {(Z(1) << 54) - 1, 970, "DBL overflow"}, {Z(1), 1024, "2^1024"}, {(Z(1) << 53) - 1, 971, "DBL_MAX"}, {Z(1), -1074, "DBL_TRUE_MIN"}, {Z(1), -1075, "half DBL_TRUE_MIN"}, {Z(1), -1022, "DBL_MIN"}, {(Z(1) << 53) - 1, -1075, "below DBL_MIN"}, {Z(3), -1075, "1.5 DBL_TRUE_MIN"},
        {(Z(1) << 25) - 1, 103, "FLT overflow"}, {Z(1), 128, "2^128"}, {(Z(1) << 24) - 1, 104, "FLT_MAX"}, {Z(1), -149, "FLT_TRUE_MIN"}, {Z(1), -150, "half FLT_TRUE_MIN"}, {Z(1), -126, "FLT_MIN"}, {(Z(1) << 24) - 1, -150, "below FLT_MIN"}, {Z(3), -150, "1.5 FLT_TRUE_MIN"},
        {(Z(1) << 65) - 1, 16319, "LDBL overflow"}, {Z(1), 16384, "2^16384"}, {Z(1), -16445, "LDBL_TRUE_MIN"}, {Z(1), -16446, "half LDBL_TRUE_MIN"},
    };
    for (auto &x : b) for (int k = 0; k < 6; k++) if (mine()) { expand(x.f, x.e, dg, pt); increments(r, dg, pt, k & 1); count("range_limits")++; cls("limit", x.n); }
    for (auto s : {"1e400", "-1e400", "1e-400", "-1e-400", "1e5000", "1e-5000", "1e99999999999999999999", "-1e99999999999999999999", "1e-99999999999999999999", "0e99999999999999999999", "0e-99999999999999999999", "0.0e400", "00000000000000000000000000000000000000000000001", "1e+0000000000000000000000000000005", "1e-0000000000000000000000000000005", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "3.4028235e38", "3.4028236e38", "3.4028235677973366e38", "3.4028235677973367e38", "1e23", "8.3e26", "9007199254740993", "9007199254740992.9999999999999999999999999999", "16777217", "16777217.0000000000000001", "2.2250738585072011e-308", "2.2250738585072012e-308", "6.631236846766476e-316", "3.518437208883201171875e13"}) if (mine()) { check(s, true); count("known_hard")++; }
    // exponents that a narrower counter would wrap or clamp
    for (auto e : {"255", "256", "257", "300", "308", "309", "512", "1000", "4000", "4931", "4932", "4933", "4999", "5000", "5001", "9999", "10000", "32767", "32768", "65535", "65536", "65537", "65541", "99999", "100000", "999999", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551621", "340282366920938463463374607431768211456"})
        for (auto m : {"1", "-1.5", "0", "0.000", "123456789012345678901234567890", "0.00000000000000000000000000000000001"}) for (auto sg : {"e", "e-", "E+", "e00", "e-00000"}) if (mine()) { check(std::string(m) + sg + e); check(std::string(m) + sg + e + "x"); count("exponent_edges")++; }
    // zeros in every spelling
    for (auto w : {"", " ", "\t\n "}) for (auto g : {"", "-", "+"}) for (auto z : {"0", "00", "0.", ".0", "0.0", "000.000", "0.00000000000000000000000000000000000", "0000000000000000000000000"}) for (auto e : {"", "e0", "e5", "E-5", "e+400", "e-400", "e99999999999", "e-99999999999", "e", "e-", "x", " 5"}) if (mine()) { check(std::string(w) + g + z + e, true); count("zeros")++; }
    // long runs of zeros undone by the exponent
    for (int z : {40, 100, 255, 256, 257, 1000, 4096, 5001, 6000, 10000, 16384, 32767, 65536, 70000, 300000}) {
        if (z > 5001 && st().scale < 0.02) continue;
        for (int d = -6; d <= 6; d++) for (auto m : {"1", "25", "17976931348623157"}) if (mine()) {
            check("0." + std::string((size_t) z, '0') + m + "e" + std::to_string(z + d)); check("-" + std::string(m) + std::string((size_t) z, '0') + "e-" + std::to_string(z + d)); check(std::string((size_t) z, '0') + m + "." + m + std::string((size_t) z, '0') + "e" + std::to_string(d)); check(std::string((size_t) z, ' ') + m + ".5"); count("compensated_zeros") += 4;
        }
    }
    if (st().shard == 2 % st().shards && st().scale >= 0.02) { check(std::string(3 << 20, '7')); check("0." + std::string(3 << 20, '0') + "7e3145728"); check(std::string(10 << 20, ' ') + "2.5" + std::string(100, 'z')); check("2.5" + std::string(10 << 20, 'z')); count("huge_texts") += 4; }
    for (int z : {1, 10, 100, 330, 700, 5000}) if (mine()) { check("0." + std::string((size_t) z, '0') + "1e" + std::to_string(z), true); check("1" + std::string((size_t) z, '0') + "e-" + std::to_string(z), true); check("1" + std::string((size_t) z, '0'), true); check("0." + std::string((size_t) z, '0') + "17"); check("." + std::string((size_t) z, '9')); check(std::string((size_t) z, '9') + "." + std::string((size_t) z, '9')); }
}
static void directed() {
    static const char *pre[] = {"", "+", "-", " ", "\t\n\v\f\r", " -", "  +", "- ", "--", "+-", "x", ".", "e", "\xa0", "_", ",", "\x01", "\xef\xbb\xbf", "\xc2\xa0", "\xe2\x80\x89", "\xe2\x88\x92", "\xe3\x80\x80", "\xe2\x80\x8b", "$", "#", "(", "'", "\"", "=", "~", "\x1a", "\x7f", "+ ", "\b", "\x85", "&", "\\n"};
    static const char *body[] = {"", "0", "1", "1.", ".1", ".", "1.5", "0.1", "00.100", "1e5", "1e", "1e+", "1e-", "1e+5", "1E-5", "1.e2", ".5e1", ".e1", "e5", "1..2", "1.2.3", "1e5.5", "1e5e5", "123456789012345678901234567890", "1,5", "1 5", "1_0", "1'000", "9e9", "0e0", "0.e0", "1e0x", "5f", "5.0L", "5d", "1e1000000", "1d5", "1D5", "1q3", "1^5", "1*10", "1/2", "1:30", "50%", "1k", "1e5'0", "1e5_0", "1__0", "\xef\xbc\x95", "\xd9\xa1", "\xc2\xbd", "1\xe2\x80\xaf" "000", "1.5e3.5", "1.5e0x10", "1.5p3", "0b11", "0o17", "0d12", "1e\xe2\x88\x92" "5", "1e+ 5", "1e++5", "1e+-5", "1 e5", "1. 5", "1 .5", "-0", "+.5"};
    static const char *tail[] = {"", " ", "x", ".", ".5", "e", "e+", "-", "+1", "\n", ",5", "f", "\xd9\xab" "5"};
    for (auto p : pre) for (auto b : body) for (auto t : tail) if (mine()) { check(std::string(p) + b + t, true); count("directed")++; }
    for (auto b : body) if (mine()) { check(b + std::string("\0" "5", 2)); check(std::string("\0", 1) + b); }
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) if (mine()) { char c[2] = {(char) a, (char) b}; check(std::string(c, 2)); check("2" + std::string(c, 2) + "7"); check("2." + std::string(c, 2) + "7"); check(std::string(c, 2) + "3.25"); }
}
static void tokens(Rng &r) {
    auto bad = [&](const char *t, const char *type, ld g) { fail(std::string("float.token.") + type, "%s from \"%s\" gave %Lg", type, t, g); };
    for (int k = 0; k < 3; k++) {
        eval(9);
        if (!std::isnan(lexi::lexi<float>("NaN"))) bad("NaN", "float", lexi::lexi<float>("NaN")); if (!std::isnan(lexi::lexi<double>("NaN"))) bad("NaN", "double", lexi::lexi<double>("NaN")); if (!std::isnan(lexi::lexi<ld>("NaN"))) bad("NaN", "long double", lexi::lexi<ld>("NaN"));
        for (int s = 1; s >= -1; s -= 2) { const char *t = s > 0 ? "Infinity" : "-Infinity";
            if (lexi::lexi<float>(t) != s * std::numeric_limits<float>::infinity()) bad(t, "float", lexi::lexi<float>(t));
            if (lexi::lexi<double>(t) != s * std::numeric_limits<double>::infinity()) bad(t, "double", lexi::lexi<double>(t));
            if (lexi::lexi<ld>(t) != s * std::numeric_limits<ld>::infinity()) bad(t, "long double", lexi::lexi<ld>(t)); }
        (void) r();
    }
    count("tokens") = 9;
}
static void roundTrip(Rng &r) {
    ctxOp("format then extract (num = bits)");
    gen::doubles(r, 4e6, [](double d) {
        ctxNum(bits(d)); eval(); distinct(bits(d)); count("roundtrip_doubles")++;
        std::string t = lexi::lexi(d); double g = lexi::lexi<double>(t);
        if (bits(g) != bits(d)) fail("float.roundtrip.double", "double %a formatted as %s and extracted gives %a", d, show(t).c_str(), g);
    });
    uint64_t per = 4294967296ULL / (uint64_t) st().shards, lo = per * (uint64_t) st().shard, hi = lo + per, step = per / scaled(4e6); if (!step) step = 1;
    for (uint64_t u = lo + r.below(step); u < hi; u += step) {
        uint32_t b = (uint32_t) u; float f; memcpy(&f, &b, 4); ctxNum(b); eval(); st().exact++; count("roundtrip_floats")++;
        std::string t = lexi::lexi(f); float g = lexi::lexi<float>(t);
        if (std::isnan(f) ? !std::isnan(g) : g != f) fail("float.roundtrip.float", "float %a formatted as %s and extracted gives %a", (double) f, show(t).c_str(), (double) g);
    }
}
static void random(Rng &r) {
    uint64_t n = scaled(5e6);
    static const char alpha[] = "01234567890123456789.eE+- \tnNiIfFxX,";
    for (uint64_t i = 0; i < n; i++) {
        std::string s;
        switch (r.below(6)) {
            case 0: { size_t L = r.below(24); for (size_t k = 0; k < L; k++) s += alpha[r.below(sizeof(alpha) - 1)]; break; }
            case 1: { size_t L = r.below(20); for (size_t k = 0; k < L; k++) s += (char) r(); break; }
            case 2: case 3: { if (r.chance(1, 4)) s = "-"; size_t L = 1 + r.below(25), pt = r.below(L + 3); for (size_t k = 0; k < L; k++) { if (k == pt) s += '.'; s += (char) ('0' + r.below(10)); } s += "e" + std::to_string((int) r.below(720) - 370); break; }
            case 4: { size_t L = 1 + r.below(r.chance(1, 20) ? 1500 : 60), pt = r.below(L + 3); for (size_t k = 0; k < L; k++) { if (k == pt) s += '.'; s += r.chance(1, 2) ? '0' : (char) ('0' + r.below(10)); } if (r.chance(1, 2)) s += "e" + std::to_string((int) r.below(100) - 50); break; }
            default: { double d = fromBits(r()); if (!std::isfinite(d)) d = 1; char t[64]; snprintf(t, sizeof t, "%.*g", 1 + (int) r.below(25), d); s = t; }
        }
        check(s, i % 64 == 0); count("random")++;
        if (i < 3 && !outside(s)) { char t[64]; snprintf(t, sizeof t, " -> %a", lexi::lexi<double>(s)); sample(show(s) + t); }
    }
}
static void runs(Rng &r) {
    // texts made of runs, each of one kind of byte, some of them long
    uint64_t n = scaled(400000);
    static const size_t lens[] = {1, 1, 1, 2, 3, 17, 19, 20, 21, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000, 4096};
    for (uint64_t i = 0; i < n; i++) {
        std::string s; int k = 2 + (int) r.below(6);
        for (int j = 0; j < k; j++) {
            size_t L = lens[r.below(r.chance(1, 4) ? 22 : 10)];
            switch (r.below(10)) { case 0: s += std::string(L, '0'); break; case 1: s += std::string(L, " \t\n\v\f\r"[r.below(6)]); break; case 2: s += r.chance(1, 2) ? '-' : '+'; break; case 3: s += (char) r(); break; case 4: s += '.'; break; case 5: s += std::to_string(r() >> r.below(64)); break; case 6: s += r.chance(1, 2) ? "e" : r.chance(1, 2) ? "E-" : "e+"; break; default: for (size_t q = 0; q < L && q < 40; q++) s += (char) ('0' + r.below(10)); }
        }
        check(s); count("runs")++;
    }
    for (size_t L : {16u, 20u, 31u, 32u, 63u, 64u, 100u, 127u, 128u, 255u, 256u, 257u, 300u, 512u, 1024u, 4096u}) for (auto h : {"0", " ", "\t", "9"}) for (auto t : {"-5", " 5", "+7", "x9", "-", "\t8", ".5", "e3", "e-3", ".5e-2", "--4", ".", ".-5", "e 5", "ex"}) if (mine()) { check(std::string(L, h[0]) + t); check("-" + std::string(L, h[0]) + t); check("0." + std::string(L, h[0]) + t); check(" +" + std::string(L, h[0]) + t); count("long_then_byte")++; }
}
#ifdef FUZZ
#define FUZZ_RUNS 4e6
#define FUZZ_LEN 48
static void fuzzInit() {}
static std::vector<std::string> fuzzSeeds() { return {"\1" "1.5e10", "\1" " -0.000123456789012345678901234567890", "\1" "NaN", "\1" "-Infinity", "\1" "179769313486231570814527423731704356798070e267", "\1" "4.9406564584124654e-324", "\1" "9007199254740993", std::string("\2\0\0\0\0\0\0\x20\x00\x01\x02x", 12)}; }
static void fuzzOne(Feed &f) {
    if (count("oracle_disagreements") > 0) _exit(9);
    uint8_t k = f.byte();
    if (k % 4 == 1) { std::string s = f.rest(); check(s, k & 64); return; }
    uint64_t v = f.u64(); int e = (int) (int16_t) (uint16_t) (f.byte() | f.byte() << 8) % 360; uint8_t w = f.byte();
    char t[80]; std::string s; if (w & 1) s += " "; if (w & 2) s += "-";
    if (k % 4 == 2) { snprintf(t, sizeof t, "%llu", (unsigned long long) v >> (k >> 2)); s += t; size_t at = w >> 3; if (at < s.size()) s.insert(s.size() - at, "."); s += f.rest(20); if (w & 4) s += "e" + std::to_string(e); check(s, true); return; }
    double d; memcpy(&d, &v, 8); if (!std::isfinite(d)) return;
    // a double written out in full, its halfway point included
    snprintf(t, sizeof t, "%.*e", (int) (w >> 3), d); s += t; s += f.rest(3); check(s, true);
}
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(7);
    if (st().shard == 0) tokens(r);
    {   // one buffer edited byte by byte: nothing may be remembered from the text before
        uint64_t n = scaled(400000); std::string s = "1234567890.123456e10"; s.reserve(64);
        for (uint64_t i = 0; i < n; i++) {
            if (r.chance(1, 20)) { size_t o = s.size(); s.resize(1 + r.below(34)); for (size_t k = o; k < s.size(); k++) s[k] = (char) ('0' + r.below(10)); }
            s[r.below(s.size())] = r.chance(1, 40) ? (char) r() : r.chance(1, 10) ? ".e-+"[r.below(4)] : (char) ('0' + r.below(10)); check(s); count("edited_in_place")++;
        }
    }
    gen::texts([](const std::string &s) { check(s); });
    gen::constants([](uint64_t x) { double d = fromBits(x); char t[64]; if (std::isfinite(d)) { snprintf(t, sizeof t, "%.17g", d); check(t); snprintf(t, sizeof t, "%.25g", d); check(t); } check(std::to_string((long long) x)); check(std::to_string(x) + "e-5"); }, 8, 3);
    limits(r); runs(r); directed(); midpoints(r); random(r); roundTrip(r);
    count("exact_rational_oracle") = nExact; count("overflowing") = nOver; count("underflowing_to_zero") = nUnder; count("subnormal") = nSub;
    // an oracle that contradicts itself is an error of the check
    if (count("oracle_disagreements") > 0) { fprintf(stderr, "oracles disagree %llu times\n", (unsigned long long) count("oracle_disagreements")); if (!st().nofail && !st().fails) _exit(9); }
    finish();
}
#endif
