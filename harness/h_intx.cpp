// C02: format-then-extract identity for integers.  C03: extraction of
// arbitrary text. Oracle for C03: a reference parser written from the
// property's statement.
#include <lexi/lexi.hpp>
#include "gen_int.hpp"
#include <limits>
using namespace mon;
typedef unsigned long long ull;

template <class T> static const char *nameOf();
#define N(T) template <> const char *nameOf<T>() { return #T; }
N(int8_t) N(uint8_t) N(short) N(unsigned short) N(int) N(unsigned int) N(long) N(unsigned long) N(long long) N(ull)
#undef N

// ---- C02
template <class S, class T> static void back(S v, const std::string &text) {
    // only targets able to represent v
    __int128 w = v;
    if (w < (__int128) std::numeric_limits<T>::min() || w > (__int128) std::numeric_limits<T>::max()) return;
    T got = lexi::lexi<T>(text);
    eval();
    if ((__int128) got != w)
        fail(std::string("int.roundtrip.") + nameOf<S>() + "." + nameOf<T>(), "%s value with text %s extracted as %s gives %lld (as signed)", nameOf<S>(), show(text).c_str(), nameOf<T>(), (long long) got);
    static bool once = false;
    if (!once) { once = true; cls("type_pair", std::string(nameOf<S>()) + "->" + nameOf<T>()); }
}
template <class S> static void round(S v, bool all) {
    ctxNum((uint64_t) (long long) v);
    std::string t = lexi::lexi(v);
    back<S, S>(v, t);
    if (all) {
        back<S, int8_t>(v, t); back<S, uint8_t>(v, t); back<S, short>(v, t); back<S, unsigned short>(v, t);
        back<S, int>(v, t); back<S, unsigned int>(v, t); back<S, long>(v, t); back<S, unsigned long>(v, t);
        back<S, long long>(v, t); back<S, ull>(v, t);
    }
}
static void round64(uint64_t x, bool all) {
    distinct(x);
    round<long long>((long long) x, all); round<ull>(x, all);
    round<long>((long) x, all); round<unsigned long>((unsigned long) x, all);
    round<int>((int) x, all); round<unsigned>((unsigned) x, all);
    round<short>((short) x, all); round<unsigned short>((unsigned short) x, all);
    round<int8_t>((int8_t) x, all); round<uint8_t>((uint8_t) x, all);
}

static void runRoundTrip() {
    Rng r = rng(2);
    ctxOp("integer format-then-extract");
    if (st().shard == 0) {
        for (int v = -128; v < 128; v++) round<int8_t>((int8_t) v, true);
        for (int v = 0; v < 256; v++) round<uint8_t>((uint8_t) v, true);
        for (int v = -32768; v < 32768; v++) round<short>((short) v, true);
        for (int v = 0; v < 65536; v++) round<unsigned short>((unsigned short) v, true);
        st().exact += 256 + 65536 * 2;
        count("exhaustive_8_16_bit") = 1;
    }
    {   // strided pass over 32 bits
        uint64_t total = 4294967296ULL, per = total / (uint64_t) st().shards, lo = per * (uint64_t) st().shard, hi = lo + per;
        uint64_t step = per / scaled(2e7); if (step < 1) step = 1;
        for (uint64_t v = lo + r.below(step); v < hi; v += step) { round<unsigned>((unsigned) v, false); round<int>((int) v, false); st().exact++; count("strided_32_bit")++; }
    }
    gen::words(r, 9e6, [](uint64_t x, bool directed) { round64(x, directed); });
    sample("long long min: \"" + lexi::lexi(std::numeric_limits<long long>::min()) + "\" -> " + std::to_string(lexi::lexi<long long>(lexi::lexi(std::numeric_limits<long long>::min()))));
    sample("unsigned long long max: \"" + lexi::lexi(~0ULL) + "\" -> " + std::to_string(lexi::lexi<ull>(lexi::lexi(~0ULL))));
}

// ---- C03
static uint64_t refExtract(const std::string &s, std::string &shape) {
    size_t i = 0, n = s.size();
    shape.clear();
    while (i < n && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))) i++;
    if (i) shape += "ws ";
    bool neg = false;
    if (i < n && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; shape += s[i]; i++; }
    unsigned __int128 v = 0; bool over = false; size_t d0 = i;
    for (; i < n && s[i] >= '0' && s[i] <= '9'; i++) { v = v * 10 + (unsigned) (s[i] - '0'); if (v > ~0ULL) { over = true; v = ~0ULL; } }
    if (i == d0) { shape += "none"; return 0; }
    shape += over ? "overflow" : (i - d0 > 1 && s[d0] == '0') ? "zeros" : "digits" ;
    if (i < n) shape += s[i] == 0 ? "+nul" : "+tail";
    if (over) return ~0ULL;
    return neg ? 0 - (uint64_t) v : (uint64_t) v;
}
template <class T> static void extract(const std::string &s, uint64_t want) {
    T got, got2;
    try { got = lexi::lexi<T>(s); got2 = s.find('\0') == std::string::npos ? lexi::lexi<T>(s.c_str()) : got; }
    catch (const std::exception &e) { fail(std::string("int.extract.throw.") + nameOf<T>(), "%s from %s threw %s", nameOf<T>(), show(s).c_str(), e.what()); return; }
    eval();
    T w = (T) want;
    if (got != w || got2 != w) fail(std::string("int.extract.") + nameOf<T>(), "%s from %s gave %lld, expected %lld (as signed)", nameOf<T>(), show(s).c_str(), (long long) (got != w ? got : got2), (long long) w);
}
static std::string shape;
static void text(const std::string &s) {
    ctxStr("extract integer", s);
    uint64_t w = refExtract(s, shape);
    distinct(hashBytes(s.data(), s.size()));
    cls("text_shape", shape);
    extract<int8_t>(s, w); extract<uint8_t>(s, w); extract<short>(s, w); extract<unsigned short>(s, w);
    extract<int>(s, w); extract<unsigned int>(s, w); extract<long>(s, w); extract<unsigned long>(s, w);
    extract<long long>(s, w); extract<ull>(s, w);
}
static void runText() {
    Rng r = rng(3);
    gen::texts(text);
    gen::constants([](uint64_t x) { text(std::to_string(x)); text(std::to_string((long long) x) + ";"); }, 2);
    // directed: every prefix form x magnitudes around every limit x tails
    static const char *pre[] = {"", "+", "-", " ", "\t", "\n\v\f\r -", "  +", "- ", "--", "+-", "-+", "+ ", "\xa0", "\x85", "x", "0x", "-0x", "(", ".", ",", "_", "\x01", "0", "-0", "+000", "-00000000000000000000000000000"};
    static const char *tail[] = {"", " ", "x", ".5", "e3", ",000", "-", "+1", "\n", " 7", "_1", "\xd9\xa1", "L", "'0"};
    std::vector<std::string> mags = {""};
    {
        unsigned __int128 b[] = {0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647u, 2147483648u, 4294967295u, (unsigned __int128) 1 << 32, ((unsigned __int128) 1 << 63) - 1, (unsigned __int128) 1 << 63, ((unsigned __int128) 1 << 64) - 1, (unsigned __int128) 1 << 64, (unsigned __int128) 1 << 65, ((unsigned __int128) 1 << 64) * 10, (unsigned __int128) 1 << 100};
        for (auto v : b) for (int d = -2; d <= 2; d++) {
            if (d < 0 && v < (unsigned) -d) continue;
            unsigned __int128 x = v + (unsigned __int128) (__int128) d; std::string t;
            do { t.insert(t.begin(), (char) ('0' + (int) (x % 10))); x /= 10; } while (x);
            mags.push_back(t);
        }
        mags.push_back("18446744073709551610"); mags.push_back("18446744073709551620"); mags.push_back("99999999999999999999"); mags.push_back("100000000000000000000");
        mags.push_back(std::string(40, '9')); mags.push_back(std::string(400, '1')); mags.push_back(std::string(5000, '7'));
        mags.push_back("1" + std::string(19, '0')); mags.push_back("2" + std::string(19, '0')); mags.push_back("a"); mags.push_back("/"); mags.push_back(":");
    }
    for (auto p : pre) for (auto &m : mags) for (auto t : tail) if (mine()) { text(std::string(p) + m + t); count("directed")++; }
    for (auto &m : mags) if (mine()) { text(m + std::string("\0" "5", 2)); text(std::string("\0", 1) + m); text("-" + m + std::string("\0\0", 2)); }
    // all one- and two-byte texts, and all bytes before and after digits
    for (int a = 0; a < 256; a++) { if (mine()) { text(std::string(1, (char) a)); text("7" + std::string(1, (char) a) + "3"); text(std::string(1, (char) a) + "42"); text("-" + std::string(1, (char) a) + "9"); }
        for (int b = 0; b < 256; b++) if (mine()) { char c[2] = {(char) a, (char) b}; text(std::string(c, 2)); } }
    // a run of digits, one byte, another run: every byte at every place
    for (int L = 0; L <= 24; L++) for (int c = 0; c < 256; c++) if (mine()) {
        if (st().scale < 0.05 && (c + L) % 5 && !(c >= '/' && c <= '?')) continue;
        std::string a, b; for (int k = 0; k < L; k++) a += (char) ('0' + r.below(10)); for (int k = 0; k < 20; k++) b += (char) ('0' + r.below(10));
        text(a + (char) c + b); text(a + (char) c + b.substr(0, (size_t) (7 - (L % 8)))); text("-" + a + (char) c + b.substr(0, 5)); text(a + (char) c); count("byte_at_place")++;
    }
    {   // spellings that other notations give a meaning to
        static const char *tok[] = {"true", "false", "null", "NaN", "nan", "Infinity", "inf", "0x1F", "0XaB", "0b101", "0o17", "017", "08", "09", "1e3", "1E3", "1e+3", "1.5", ".5", "5.", "1,000", "1.000", "1'000", "1_000", "1 000", "\xc2\xa0" "5", "\xef\xbb\xbf" "5", "\xe2\x88\x92" "5", "\xe2\x80\x8b" "5", "\xef\xbc\x91\xef\xbc\x92", "\xd9\xa3", "\xc2\xb2", "\xc2\xbd", "#5", "$5", "5%", "(5)", "[5]", "\"5\"", "'5'", "1/2", "five", "~5", "!1", "=5", "5L", "5ul", "5n", "1k", "3D", "0", "00", "-0", "+0", "-1", "+1", "--1", "++1", "-+1", "1-", "2147483648", "4294967296", "18446744073709551616", "1:30", "10h", "XIV", "1\r\n2", "9\t9", "\\x35", "&#53;", "%35"};
        for (auto a : tok) for (auto p : {"", " ", "-", "+", "\t-", "0", "00", "-0"}) for (auto t : {"", " ", "0", "e5", "x", "\n"}) if (mine()) { text(std::string(p) + a + t); count("tokens")++; }
        for (auto a : tok) for (auto b : tok) if (mine()) { text(std::string(a) + b); text(std::string(a) + " " + b); count("token_pairs")++; }
    }
    // long prefixes that do not count
    for (size_t L : {20u, 31u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 129u, 255u, 256u, 257u, 300u, 511u, 512u, 513u, 1023u, 1024u, 1025u, 4095u, 4096u, 4097u, 65535u, 65536u, 65537u, 10u << 20}) {
        if (L > 100000 && st().scale < 0.01) continue;
        for (auto m : {"7", "-128", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "+42x"}) for (int k = 0; k < 4; k++) if (mine()) {
            std::string v = m, s; bool sign = v[0] == '-' || v[0] == '+';
            switch (k) { case 0: s = std::string(L, ' ') + v; break; case 1: s = (sign ? v.substr(0, 1) : "") + std::string(L, '0') + v.substr(sign); break; case 2: s = v + std::string(L, 'z'); break; default: s = v + std::string(L, '8'); }
            text(s); count("long_runs")++;
        }
    }
    {   // texts made of runs, each of one kind of byte, some of them long
        uint64_t n = scaled(300000);
        static const size_t lens[] = {1, 1, 1, 2, 3, 19, 20, 21, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000, 4096};
        for (uint64_t i = 0; i < n; i++) {
            std::string s; int k = 2 + (int) r.below(5);
            for (int j = 0; j < k; j++) {
                size_t L = lens[r.below(r.chance(1, 4) ? 21 : 9)];
                switch (r.below(8)) { case 0: s += std::string(L, '0'); break; case 1: s += std::string(L, " \t\n\v\f\r"[r.below(6)]); break; case 2: s += r.chance(1, 2) ? '-' : '+'; break; case 3: s += (char) r(); break; case 4: s += std::string(L, (char) r()); break; case 5: s += std::to_string(r() >> r.below(64)); break; default: for (size_t q = 0; q < L && q < 40; q++) s += (char) ('0' + r.below(10)); }
            }
            text(s); count("runs")++;
        }
        for (size_t L : {16u, 20u, 31u, 32u, 63u, 64u, 100u, 127u, 128u, 255u, 256u, 257u, 300u, 512u, 1024u, 4096u, 65536u}) for (auto h : {"0", " ", "\t", "9"}) for (auto t : {"-5", " 5", "+7", "x9", "-", "\t8", ".5", "e3", "0x1F", "--4"}) if (mine()) { text(std::string(L, h[0]) + t); text("-" + std::string(L, h[0]) + t); text(" +" + std::string(L, h[0]) + t); count("long_then_byte")++; }
    }
    {   // one buffer edited byte by byte: nothing may be remembered from the text before
        uint64_t n = scaled(400000); std::string s = "1234567890123456"; s.reserve(64);
        for (uint64_t i = 0; i < n; i++) {
            if (r.chance(1, 20)) { size_t o = s.size(); s.resize(1 + r.below(30)); for (size_t k = o; k < s.size(); k++) s[k] = (char) ('0' + r.below(10)); }
            s[r.below(s.size())] = r.chance(1, 12) ? (char) r() : r.chance(1, 20) ? '-' : (char) ('0' + r.below(10)); text(s); count("edited_in_place")++;
        }
    }
    // random
    static const char alpha[] = "0123456789012345678901234567890123456789+- \t\n.exXaF,_'";
    uint64_t n = scaled(2e6);
    for (uint64_t i = 0; i < n; i++) {
        std::string s;
        switch (r.below(5)) {
            case 0: { size_t L = r.below(30); for (size_t k = 0; k < L; k++) s += (char) r(); break; }
            case 1: { size_t L = r.below(40); for (size_t k = 0; k < L; k++) s += alpha[r.below(sizeof(alpha) - 1)]; break; }
            case 2: { if (r.chance(1, 3)) s += " "; if (r.chance(1, 2)) s += r.chance(1, 2) ? "-" : "+"; size_t L = 15 + r.below(8); for (size_t k = 0; k < L; k++) s += (char) ('0' + r.below(10)); break; }
            case 3: { if (r.chance(1, 2)) s += "-"; uint64_t x = r() >> r.below(64); s += std::to_string(x); if (r.chance(1, 3)) { size_t L = r.below(5); for (size_t k = 0; k < L; k++) s += (char) r(); } break; }
            default: { size_t z = r.below(60); s = r.chance(1, 2) ? "-" : ""; s += std::string(z, '0'); s += std::to_string(r() >> r.below(64)); if (r.chance(1, 4)) s += std::to_string(r.below(100)); }
        }
        text(s); count("random")++;
        if (i < 3) sample(show(s) + " -> " + std::to_string(lexi::lexi<ull>(s)));
    }
}

#ifdef FUZZ
#define FUZZ_RUNS 3e6
#define FUZZ_LEN 40
static bool R, X;
static void fuzzInit() { R = wants("C02"); X = wants("C03"); }
static std::vector<std::string> fuzzSeeds() { return {"\x01" "18446744073709551615", "\x01" " -9223372036854775808x", "\x01" "+0000127", std::string("\0\xff\xff\xff\x7f", 5), "\x02\x05\x01\x02\x03\x04\x05\x06\x07\x08.5"}; }
static void fuzzOne(Feed &f) {
    uint8_t k = f.byte();
    if (R) { do round64(f.u64(), true); while (f.n); return; }
    if (k % 4 == 1) { text(f.rest()); return; }
    // a number with what may stand around it
    uint8_t w = f.byte(), z = f.byte(); uint64_t v = f.u64();
    std::string s; if (w & 1) s += " "; if (w & 2) s += "\n"; if (w & 4) s += "-"; if (w & 8) s += "+"; s += std::string(z & 128 ? 0 : z, '0'); s += std::to_string(k % 4 == 2 ? v % 100000 : v); s += f.rest(); text(s);
}
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    if (wants("C02")) runRoundTrip();
    if (wants("C03")) runText();
    finish();
}
#endif
