// C09: enumerations and stream positions convert as their underlying integer.
// Oracle: std::to_string of the underlying value; identity after extraction.
#include <lexi/lexi.hpp>
#include "gen_int.hpp"
#include <ios>
#include <limits>
using namespace mon;

enum Plain { PA = 0, PB = 1, PC = 5, PMAX = 0x7fffffff, PMIN = -0x7fffffff - 1 };
enum PlainU { QA = 0, QMAX = 0xffffffffu };
enum Wide { WA = 0, WMAX = 0x7fffffffffffffffLL, WMIN = -0x7fffffffffffffffLL - 1 };
#define LIST(X) X(char, Char) X(signed char, SChar) X(unsigned char, UChar) X(short, Short) X(unsigned short, UShort) X(int, Int) X(unsigned int, UInt) X(long, Long) X(unsigned long, ULong) X(long long, LLong) X(unsigned long long, ULLong) X(wchar_t, WCharT) X(char16_t, Char16) X(char32_t, Char32)
#define X(T, N) enum class S##N : T {}; enum U##N : T {};
LIST(X)
#undef X
enum class SBool : bool { no = false, yes = true };
enum UBool : bool { uno = false, uyes = true };
struct Outer { enum class Inner : short { a = -7, b = 9 }; enum Old : unsigned char { o = 200 }; };
template <class T> struct Tpl { enum class E : T { z }; };

template <class U> static std::string dec(U u) {
    // decimal text computed without the library
    __int128 v = (__int128) u; bool neg = v < 0; unsigned __int128 w = neg ? (unsigned __int128) 0 - (unsigned __int128) v : (unsigned __int128) v;
    std::string t; do { t.insert(t.begin(), (char) ('0' + (int) (w % 10))); w /= 10; } while (w); if (neg) t.insert(t.begin(), '-'); return t;
}
template <class E> static void one(const char *name, E e) {
    typedef typename std::underlying_type<E>::type U;
    U u = (U) e; std::string w = dec(u);
    ctxStr(name, w); eval(); distinct(hashBytes(w.data(), w.size(), hashBytes(name, strlen(name))));
    lexi::FormatEnum fe(e);
    std::string a = lexi::lexi(e), b = lexi::string(e), c = lexi::escape(e), d = lexi::jsonify(e), f = fe.string(), g = lexi::Format()(e).string();
    if (a != w || b != w || c != w || d != w || f != w || g != w || fe.size() != w.size())
        fail(std::string("enum.format.") + name, "%s with value %s formats to %s (string %s, escape %s, jsonify %s, FormatEnum %s)", name, w.c_str(), show(a).c_str(), b.c_str(), c.c_str(), d.c_str(), f.c_str());
    E x = lexi::lexi<E>(w), y = lexi::Extract<E>()(w), z = E(lexi::ExtractEnum(w)), q = lexi::lexi<E>(w.c_str());
    if (x != e || y != e || z != e || q != e) fail(std::string("enum.extract.") + name, "%s with value %s comes back as %s / %s / %s / %s", name, w.c_str(), dec((U) x).c_str(), dec((U) y).c_str(), dec((U) z).c_str(), dec((U) q).c_str());
    count("enumerators")++;
}
template <class E> static void type(const char *name, Rng &r) {
    typedef typename std::underlying_type<E>::type U;
    cls("enum_type", name);
    if (sizeof(U) <= 2) {   // exhaustive
        for (uint64_t v = 0; v < (1ULL << (8 * sizeof(U))); v++) if (mine()) { one<E>(name, (E) (U) v); st().exact++; count("exhaustive_8_16_bit_enumerators")++; }
    } else {
        for (int k = 0; k < (int) sizeof(U) * 8; k++) for (int d = -12; d <= 12; d++) if (mine()) { one<E>(name, (E) (U) ((1ULL << k) + (uint64_t) (int64_t) d)); one<E>(name, (E) (U) (0 - (1ULL << k) + (uint64_t) (int64_t) d)); }
        uint64_t t = 1; for (int k = 0; k < 20; k++) { for (int d = -3; d <= 3; d++) if (mine()) { one<E>(name, (E) (U) (t + (uint64_t) (int64_t) d)); one<E>(name, (E) (U) (0 - t + (uint64_t) (int64_t) d)); } t *= 10; }
        one<E>(name, (E) std::numeric_limits<U>::min()); one<E>(name, (E) std::numeric_limits<U>::max());
        gen::words(r, sizeof(U) < 8 ? 60000 : 400000, [&](uint64_t x, bool) { one<E>(name, (E) (U) x); });
    }
}
static void pos(long long off) {
    std::streampos p((std::streamoff) off); std::string w = dec(off);
    ctxStr("stream position", w); eval(); distinct(hashBytes(w.data(), w.size(), 5)); count("stream_positions")++;
    std::string a = lexi::lexi(p), b = lexi::string(p), c = lexi::escape(p), d = lexi::jsonify(p), f = lexi::Format()(p).string();
    if (a != w || b != w || c != w || d != w || f != w) fail("fpos.format", "stream position %s formats to %s / %s / %s / %s", w.c_str(), show(a).c_str(), b.c_str(), c.c_str(), d.c_str());
    std::streampos q = lexi::lexi<std::streampos>(w), s = lexi::Extract<std::streampos>()(w), t = lexi::lexi<std::streampos>(w.c_str());
    if (q != p || s != p || t != p || std::streamoff(q) != off) fail("fpos.extract", "stream position %s comes back as %lld", w.c_str(), (long long) std::streamoff(q));
}
#ifdef FUZZ
#define FUZZ_RUNS 3e6
#define FUZZ_LEN 16
static void fuzzInit() {}
static std::vector<std::string> fuzzSeeds() { return {std::string("\0\1\0\0\0\0\0\0\0", 9)}; }
static void fuzzOne(Feed &f) {
    int k = f.byte(), j = 0; uint64_t v = f.u64();
#define X(T, N) if (k % 16 == j++ % 16) { one("enum class : " #T, (S##N) (std::underlying_type<S##N>::type) v); one("enum : " #T, (U##N) (std::underlying_type<U##N>::type) v); }
    LIST(X)
#undef X
    if (k & 16) pos((long long) v);
}
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(9);
#define X(T, N) type<S##N>("enum class : " #T, r); type<U##N>("enum : " #T, r);
    LIST(X)
#undef X
    for (auto e : {PA, PB, PC, PMAX, PMIN}) one("plain enum", e);
    for (auto e : {QA, QMAX}) one("plain unsigned enum", e);
    for (auto e : {WA, WMAX, WMIN}) one("plain wide enum", e);
    one("enum class : bool", SBool::no); one("enum class : bool", SBool::yes); one("enum : bool", uno); one("enum : bool", uyes);
    one("nested", Outer::Inner::a); one("nested", Outer::Inner::b); one("nested unscoped", Outer::o);
    one("template", (Tpl<char>::E) 'A'); one("template", (Tpl<signed char>::E) -5); one("template", (Tpl<unsigned long long>::E) ~0ULL);
    cls("enum_type", "plain"); cls("enum_type", "plain unsigned"); cls("enum_type", "plain wide"); cls("enum_type", "bool"); cls("enum_type", "nested"); cls("enum_type", "template");
    for (int k = 0; k < 64; k++) for (int d = -6; d <= 6; d++) if (mine()) { pos((long long) ((1ULL << k) + (uint64_t) (int64_t) d)); pos((long long) (0 - (1ULL << k) + (uint64_t) (int64_t) d)); }
    gen::words(r, 600000, [](uint64_t x, bool) { pos((long long) x); });
    for (uint64_t i = 0; i < 2; i++) { uint64_t x = r() >> r.below(64); pos((long long) x); sample("streampos " + std::to_string((long long) x) + " -> " + lexi::lexi(std::streampos((std::streamoff) x))); }
    sample("enum class : char 65 -> " + lexi::lexi((SChar) 65)); sample("enum class : bool yes -> " + lexi::lexi(SBool::yes));
    finish();
}
#endif
