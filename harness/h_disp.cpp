// C10: generic entry points pick the right conversion for every type.
// Oracle: the formatter of the value's own type, and the form the statement
// gives each kind of value (words, one character, digits, bytes unchanged).
#include <lexi/lexi.hpp>
#include "mon.hpp"
#include "harvest.hpp"
#include <limits>
#include <cmath>
using namespace mon;
typedef unsigned long long ull;

static std::string dec(__int128 v) {
    bool neg = v < 0; unsigned __int128 w = neg ? (unsigned __int128) 0 - (unsigned __int128) v : (unsigned __int128) v;
    std::string t; do { t.insert(t.begin(), (char) ('0' + (int) (w % 10))); w /= 10; } while (w); if (neg) t.insert(t.begin(), '-'); return t;
}
static void eq(const char *key, const std::string &type, const std::string &got, const std::string &want) {
    eval();
    if (got != want) fail(std::string(key) + "." + type, "%s of a %s gives %s, expected %s", key, type.c_str(), show(got).c_str(), show(want).c_str());
}
template <class F> static std::string caught(F f) {
    try { return f(); } catch (const std::runtime_error &) { return "throws runtime_error"; } catch (const std::exception &) { return "throws another exception"; } catch (...) { return "throws something"; }
}
// a non-character scalar: all forms equal want
template <class T> static void scalar(const std::string &type, const T v, const std::string &want) {
    ctxStr(type.c_str(), want); distinct(hashBytes(want.data(), want.size(), hashBytes(type.data(), type.size()))); cls("value_kind", type); count("scalars")++;
    eq("lexi", type, lexi::lexi(v), want); eq("string", type, lexi::string(v), want); eq("escape", type, lexi::escape(v), want); eq("jsonify", type, lexi::jsonify(v), want);
    auto f = lexi::Format()(v);
    eq("Format.string", type, f.string(), want); eq("Format.escape", type, f.escape(), want); eq("Format.jsonify", type, f.jsonify(), want); eq("Format.conversion", type, std::string(f), want); eq("Format.data", type, std::string(f.data(), f.size()), want); eq("Format.c_str", type, f.c_str(), want);
}
template <class T> static void integer(const char *type, T v) {
    scalar<T>(type, v, dec((__int128) v));
    lexi::FormatInt own(v);
    eq("FormatInt", type, own.string(), dec((__int128) v));
}
template <class T> static void integers(const char *type, Rng &r) {
    for (uint64_t v : {(uint64_t) 0, (uint64_t) 1, (uint64_t) 9, (uint64_t) 10, (uint64_t) 32, (uint64_t) 48, (uint64_t) 65, (uint64_t) 97, (uint64_t) 99, (uint64_t) 100, (uint64_t) 126, (uint64_t) 127, (uint64_t) 128, (uint64_t) 255, ~(uint64_t) 0, (uint64_t) std::numeric_limits<T>::min(), (uint64_t) std::numeric_limits<T>::max()}) integer<T>(type, (T) v);
    if (sizeof(T) == 1) for (int v = 0; v < 256; v++) integer<T>(type, (T) v);
    uint64_t n = scaled(30000); for (uint64_t i = 0; i < n; i++) integer<T>(type, (T) (r() >> r.below(64)));
}
static bool isFloatText(const std::string &s) { return s == "NaN" || s == "Infinity" || s == "-Infinity" || s.find_first_of(".e") != std::string::npos; }
template <class T> static void floating(const char *type, T v) {
    std::string want = lexi::FormatFloat(v).string();
    if (!isFloatText(want)) fail("float.text", "%s %Lg has the text %s", type, (long double) v, show(want).c_str());
    scalar<T>(type, v, want);
}
template <class T> static void floats(const char *type, Rng &r) {
    for (T v : {(T) 0, (T) 1, (T) -1, (T) 0.5, (T) 1e10, (T) 1e21, (T) 1e-7, (T) 123456, std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min()}) floating<T>(type, v);
    uint64_t n = scaled(60000); for (uint64_t i = 0; i < n; i++) { int e = (int) r.below(sizeof(T) == 4 ? 260 : 2000) - (sizeof(T) == 4 ? 130 : 1000); floating<T>(type, (T) std::ldexp((long double) (int64_t) r(), e - 63)); }
}
// reference escaping and JSON, from the statements of C11 and C12
static std::string refEscape(const std::string &s) { std::string o; for (unsigned char c : s) { if (c <= '~' && !(c >= '0' && c <= '9') && !(c >= 'A' && c <= 'Z') && !(c >= 'a' && c <= 'z')) o += '\\'; o += (char) c; } return o; }
static std::string refJson(const std::string &s) {
    std::string o = "\""; char b[8];
    for (unsigned char c : s) switch (c) { case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break;
        default: if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char) c; }
    return o + "\"";
}
struct Derived: std::string { int extra = 7; using std::string::string; Derived(const std::string &s): std::string(s) {} };
struct Derived2: Derived { using Derived::Derived; Derived2(const std::string &s): Derived(s) {} };
template <class S> static void str(const char *type, const S &s, const std::string &want) {
    cls("value_kind", type); count("strings")++;
    eq("lexi", type, lexi::lexi(s), want); eq("string", type, lexi::string(s), want); eq("escape", type, lexi::escape(s), refEscape(want)); eq("jsonify", type, lexi::jsonify(s), refJson(want));
}
static void strings(const std::string &s) {
    ctxStr("strings", s); distinct(hashBytes(s.data(), s.size(), 3));
    str("std::string", s, s); const std::string cs = s; str("const std::string", cs, s);
    str("derived string", Derived(s), s); str("twice derived string", Derived2(s), s);
    std::string c(s.c_str());     // up to the first NUL
    const char *p = s.c_str(); str("const char*", p, c); const char *const cp = p; str("const char* const", cp, c);
    std::vector<char> m(s.begin(), s.end()); m.push_back(0); char *q = m.data(); str("char*", q, c); char *const qc = q; str("char* const", qc, c);
    if (s.size() < 24) { char arr[64]; memset(arr, 'Z', sizeof arr); memcpy(arr, s.data(), s.size()); arr[s.size()] = 0; str("char[]", arr, c); const char (&ca)[64] = arr; str("const char[]", ca, c); }
    // rvalues
    eq("lexi", "std::string rvalue", lexi::lexi(std::string(s)), s); eq("jsonify", "std::string rvalue", lexi::jsonify(std::string(s)), refJson(s));
    if (s != std::string(cs)) fail("string.input", "the input string was changed");
}
static void chars() {
    for (int c = 0; c < 256; c++) {
        char ch = (char) c; std::string w(1, ch); ctxStr("char", w); count("chars")++; cls("value_kind", "char"); distinct((uint64_t) c + 1000);
        lexi::FormatChar own(ch);
        eq("lexi", "char", lexi::lexi(ch), w); eq("string", "char", lexi::string(ch), w); eq("escape", "char", lexi::escape(ch), refEscape(w)); eq("jsonify", "char", lexi::jsonify(ch), refJson(w));
        eq("lexi=FormatChar", "char", lexi::lexi(ch), own.string()); eq("escape=FormatChar", "char", lexi::escape(ch), own.escape()); eq("jsonify=FormatChar", "char", lexi::jsonify(ch), own.jsonify());
        const char k = ch; eq("lexi", "const char", lexi::lexi(k), w);
    }
}
// extraction: C string vs std::string, and the right kind of conversion
template <class T> static std::string showv(const T &v) { return std::to_string(v); }
template <class T> static void extractSame(const char *type, const std::string &s) {
    auto f = [](const T &v) { char b[40]; unsigned char raw[sizeof(T)] = {}; memcpy(raw, &v, sizeof(T) == 16 ? 10 : sizeof(T)); std::string o; for (unsigned char x : raw) { snprintf(b, sizeof b, "%02x", x); o += b; } return o; };
    std::string a = caught([&] { return f(lexi::lexi<T>(s)); }), b = caught([&] { return f(lexi::lexi<T>(s.c_str())); }), c = caught([&] { return f(lexi::Extract<T>()(s)); });
    eval(2); cls("extracted_type", type);
    if (a != b) fail(std::string("extract.cstr.") + type, "%s from %s: std::string gives %s, C string gives %s", type, show(s).c_str(), a.c_str(), b.c_str());
    if (a != c) fail(std::string("extract.generic.") + type, "%s from %s: lexi gives %s, Extract gives %s", type, show(s).c_str(), a.c_str(), c.c_str());
}
template <class T> static void extractInt(const char *type, const std::string &s) {
    extractSame<T>(type, s);
    T a = lexi::lexi<T>(s), b = T(lexi::ExtractInt(s)); eval();
    if (a != b) fail(std::string("extract.int.") + type, "%s from %s: lexi gives %s, ExtractInt gives %s", type, show(s).c_str(), dec(a).c_str(), dec(b).c_str());
}
enum class En : short {};
static void extraction(const std::string &s) {
    if (s.find('\0') != std::string::npos) return;
    ctxStr("extraction", s); count("extraction_texts")++;
    extractInt<signed char>("signed char", s); extractInt<unsigned char>("unsigned char", s); extractInt<short>("short", s); extractInt<unsigned short>("unsigned short", s); extractInt<int>("int", s); extractInt<unsigned>("unsigned int", s); extractInt<long>("long", s); extractInt<unsigned long>("unsigned long", s); extractInt<long long>("long long", s); extractInt<ull>("unsigned long long", s);
    extractSame<float>("float", s); extractSame<double>("double", s); extractSame<long double>("long double", s); extractSame<bool>("bool", s); extractSame<char>("char", s); extractSame<En>("enum", s); extractSame<std::streampos>("stream position", s);
    std::string a = caught([&] { return lexi::lexi<std::nullptr_t>(s) == nullptr ? "null" : "?"; }), b = caught([&] { return lexi::lexi<std::nullptr_t>(s.c_str()) == nullptr ? "null" : "?"; }); eval();
    if (a != b) fail("extract.cstr.null", "null from %s: %s vs %s", show(s).c_str(), a.c_str(), b.c_str());
    auto fl = [](double d) { uint64_t u; memcpy(&u, &d, 8); return u; };
    double x = lexi::lexi<double>(s), y = double(lexi::ExtractFloat(s)); float g = lexi::lexi<float>(s), h = float(lexi::ExtractFloat(s)); eval(2);
    if (fl(x) != fl(y) || fl(g) != fl(h)) fail("extract.float", "float extraction from %s differs between lexi and ExtractFloat", show(s).c_str());
}
// the conversion kind, observed through values only one kind gives
static void kinds() {
    auto want = [&](bool ok, const char *w) { eval(); if (!ok) fail("extract.kind", "%s", w); };
    want(lexi::lexi<char>("7") == '7', "char from \"7\" is not the character");
    want(lexi::lexi<signed char>("7") == 7, "signed char from \"7\" is not 7"); want(lexi::lexi<unsigned char>("200") == 200, "unsigned char from \"200\" is not 200"); want(lexi::lexi<signed char>("-100") == -100, "signed char from \"-100\" is not -100");
    want(lexi::lexi<bool>("true") == true && lexi::lexi<bool>("false") == false, "bool from its word"); want(caught([] { return std::to_string(lexi::lexi<bool>("1")); }) == "throws runtime_error", "bool from \"1\" is accepted");
    want(lexi::lexi<double>("1.5e2") == 150 && lexi::lexi<float>("0.25") == 0.25f && lexi::lexi<long double>("2.5") == 2.5L, "float kinds"); want(lexi::lexi<int>("1.5e2") == 1, "int from \"1.5e2\" is not 1");
    want(lexi::lexi<std::streampos>("123") == std::streampos(123), "stream position"); want(lexi::lexi<En>("-5") == (En) -5, "enum");
    want(lexi::lexi<std::string>(std::string("a,b")) == "a,b", "string to string");
    want(lexi::lexi((signed char) 65) == "65" && lexi::lexi((unsigned char) 65) == "65" && lexi::lexi('A') == "A", "character kinds");
    want(lexi::lexi(1.0f) == "1.0" && lexi::lexi(1.0) == "1.0" && lexi::lexi(1.0L) == "1.0" && lexi::lexi(1) == "1", "number kinds");
    const bool cb = true; const int ci = -3; const double cd = 2.5; const signed char sc = -9; want(lexi::lexi(cb) == "true" && lexi::lexi(ci) == "-3" && lexi::lexi(cd) == "2.5" && lexi::lexi(sc) == "-9", "const values");
    std::vector<bool> vb = {true, false}; want(lexi::lexi(bool(vb[0])) == "true", "vector<bool> element");
    struct { unsigned b: 5; } bf = {21}; want(lexi::lexi(+bf.b) == "21", "bit field"); want(lexi::lexi("lit") == "lit" && lexi::jsonify("l\"t") == "\"l\\\"t\"" && lexi::escape("a b") == "a\\ b" && lexi::string("lit") == "lit", "string literal");
}
#ifdef FUZZ
#define FUZZ_RUNS 6e5
#define FUZZ_LEN 40
static void fuzzInit() {}
static std::vector<std::string> fuzzSeeds() { return {"\1" "12", "\1" "-2.5e3", "\1" "true", "\2" "a\"b\n", std::string("\3\1\2\3\4\5\6\7\x40", 9)}; }
static void fuzzOne(Feed &f) {
    uint8_t k = f.byte();
    if (k % 4 == 1) { extraction(f.rest()); return; }
    if (k % 4 == 2) { strings(f.rest()); return; }
    uint64_t v = f.u64(); double d; memcpy(&d, &v, 8); uint32_t u = (uint32_t) v; float g; memcpy(&g, &u, 4);
    integer<signed char>("signed char", (signed char) v); integer<unsigned char>("unsigned char", (unsigned char) v); integer<short>("short", (short) v); integer<unsigned short>("unsigned short", (unsigned short) v); integer<int>("int", (int) v); integer<unsigned int>("unsigned int", (unsigned int) v); integer<long>("long", (long) v); integer<unsigned long>("unsigned long", (unsigned long) v); integer<long long>("long long", (long long) v); integer<ull>("unsigned long long", v);
    if (d == d) { floating<double>("double", d); floating<long double>("long double", d); } if (g == g) floating<float>("float", g);
    scalar<En>("enum", (En) (short) v, dec((short) v)); if ((long long) v >= 0) scalar<std::streampos>("stream position", std::streampos((std::streamoff) v), dec(v));
}
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(10);
    kinds(); chars();
    scalar<bool>("bool", true, "true"); scalar<bool>("bool", false, "false"); scalar<std::nullptr_t>("nullptr_t", nullptr, "null");
    eq("FormatBool", "bool", lexi::FormatBool(true).string(), "true"); eq("FormatNull", "nullptr_t", lexi::FormatNull(nullptr).string(), "null");
    integers<signed char>("signed char", r); integers<unsigned char>("unsigned char", r); integers<short>("short", r); integers<unsigned short>("unsigned short", r); integers<int>("int", r); integers<unsigned int>("unsigned int", r); integers<long>("long", r); integers<unsigned long>("unsigned long", r); integers<long long>("long long", r); integers<ull>("unsigned long long", r);
    floats<float>("float", r); floats<double>("double", r); floats<long double>("long double", r);
    scalar<En>("enum", (En) -5, "-5"); scalar<std::streampos>("stream position", std::streampos(99), "99");
    strings("");
    for (int a = 0; a < 256; a++) { strings(std::string(1, (char) a)); strings("a" + std::string(1, (char) a) + "z"); }
    for (size_t L : {15, 16, 22, 23, 31, 32, 63, 64, 255, 1000, 4096, 65536}) strings(std::string(L, 'q') + "\n\"");
    uint64_t n = scaled(120000);
    for (uint64_t i = 0; i < n; i++) { std::string s; size_t L = r.below(r.chance(1, 30) ? 400 : 30); for (size_t k = 0; k < L; k++) s += r.chance(1, 2) ? (char) r() : (char) ('a' + r.below(26)); strings(s); if (i < 2) sample("jsonify " + show(s) + " = " + show(lexi::jsonify(s))); }
    gen::texts([](const std::string &s) { strings(s); extraction(s); });
    gen::constants([](uint64_t x) {
        integer<long long>("long long", (long long) x); integer<ull>("unsigned long long", x); integer<int>("int", (int) x); integer<unsigned int>("unsigned int", (unsigned int) x); integer<long>("long", (long) x); integer<unsigned long>("unsigned long", x); integer<short>("short", (short) x); integer<unsigned short>("unsigned short", (unsigned short) x);
        double d; memcpy(&d, &x, 8); if (d == d) floating<double>("double", d); extraction(dec((__int128) x));
    }, 16, 2);
    for (auto s : {"", "0", "1", "-1", "127", "128", "255", "256", "-129", "65535", "99999999999999999999999", "true", "false", "null", "True", "x", " 12", "1.5", "-2.5e3", "1e400", "NaN", "Infinity", "-Infinity", ".", "-", "+7", "\n3", "12abc"}) extraction(s);
    n = scaled(120000);
    static const char al[] = "0123456789.-+e truefalsn";
    for (uint64_t i = 0; i < n; i++) { std::string s; size_t L = r.below(14); for (size_t k = 0; k < L; k++) s += al[r.below(sizeof(al) - 1)]; extraction(s); }
    finish();
}
#endif
