// C11: escape.  C12: JSON form.  Oracles: byte tables written from the
// statements, an unescaper, and a strict JSON literal decoder/validator.
#include <lexi/lexi.hpp>
#include "gen_int.hpp"
#include "gen_double.hpp"
#include <cmath>
#include <limits>
using namespace mon;

static std::string refEscape(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        bool alnum = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
        if (c <= '~' && !alnum) o += '\\';
        o += (char) c;
    }
    return o;
}
static bool unescape(const std::string &s, std::string &o) {
    o.clear();
    for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\') { if (++i >= s.size()) return false; } o += s[i]; }
    return true;
}
// strict RFC 8259 string literal -> bytes
static bool jsonDecode(const std::string &s, std::string &o) {
    o.clear();
    if (s.size() < 2 || s[0] != '"' || s[s.size() - 1] != '"') return false;
    for (size_t i = 1; i + 1 < s.size(); i++) {
        unsigned char c = (unsigned char) s[i];
        if (c < 0x20 || c == '"') return false;
        if (c != '\\') { o += (char) c; continue; }
        if (++i + 1 >= s.size()) return false;
        switch (s[i]) {
            case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
            case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': {
                unsigned v = 0;
                for (int k = 0; k < 4; k++) {
                    if (++i + 1 >= s.size()) return false;
                    char h = s[i]; unsigned d;
                    if (h >= '0' && h <= '9') d = (unsigned) (h - '0'); else if (h >= 'a' && h <= 'f') d = (unsigned) (h - 'a' + 10); else if (h >= 'A' && h <= 'F') d = (unsigned) (h - 'A' + 10); else return false;
                    v = v * 16 + d;
                }
                if (v >= 0x80) return false;      // nothing above ASCII is ever written this way
                o += (char) v; break;
            }
            default: return false;
        }
    }
    return true;
}
static std::string refJson(const std::string &s) {
    std::string o = "\""; char b[8];
    for (unsigned char c : s) {
        switch (c) {
            case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break;
            case '"': o += "\\\""; break; case '\\': o += "\\\\"; break;
            default: if (c < 0x20) { snprintf(b, sizeof b, "\\u00%02x", c); o += b; } else o += (char) c;
        }
    }
    return o + "\"";
}

static bool E, J;
static bool byteSeen[256], lastSeen[256], firstSeen[256];
static void one(const std::string &s) {
    ctxStr("escape/jsonify", s);
    distinct(hashBytes(s.data(), s.size()));
    for (unsigned char c : s) byteSeen[c] = true;
    if (!s.empty()) { firstSeen[(unsigned char) s[0]] = true; lastSeen[(unsigned char) s[s.size() - 1]] = true; }
    bool nul = s.find('\0') != std::string::npos;
    if (E) {
        std::string g = lexi::escape(s), u;
        eval();
        std::string w = refEscape(s);
        if (g != w) fail("escape.string", "escape of %s gave %s", show(s).c_str(), show(g).c_str());
        else if (!unescape(g, u) || u != s) fail("escape.reverse", "escape of %s is not reversible: %s", show(s).c_str(), show(g).c_str());
        if (!nul) { std::string h = lexi::escape(s.c_str()); eval(); if (h != w) fail("escape.cstr", "escape of C string %s gave %s", show(s).c_str(), show(h).c_str()); }
    }
    if (J) {
        std::string g = lexi::jsonify(s), u;
        eval();
        std::string w = refJson(s);
        if (!jsonDecode(g, u)) fail("json.invalid", "JSON form of %s is not a valid literal: %s", show(s).c_str(), show(g).c_str());
        else if (u != s) fail("json.decode", "JSON form of %s decodes to %s", show(s).c_str(), show(u).c_str());
        else if (g != w) fail("json.form", "JSON form of %s gave %s", show(s).c_str(), show(g).c_str());
        if (!nul) { std::string h = lexi::jsonify(s.c_str()); eval(); if (h != w) fail("json.cstr", "JSON form of C string %s gave %s", show(s).c_str(), show(h).c_str()); }
    }
}
static void chars() {
    for (int i = 0; i < 256; i++) {
        char c = (char) i; std::string s(1, c);
        ctxStr("character", s);
        if (E) {
            std::string w = refEscape(s);
            if (lexi::escape(c) != w || lexi::FormatChar(c).escape() != w || lexi::FormatChar((unsigned char) i).escape() != w) fail("escape.char", "escape of character 0x%02x gave %s", i, show(lexi::escape(c)).c_str());
            eval(3);
        }
        if (J) {
            std::string w = refJson(s);
            if (lexi::jsonify(c) != w || lexi::FormatChar(c).jsonify() != w || lexi::FormatChar((unsigned char) i).jsonify() != w) fail("json.char", "JSON form of character 0x%02x gave %s", i, show(lexi::jsonify(c)).c_str());
            eval(3);
        }
    }
}
// JSON number grammar of RFC 8259
static bool jsonNumber(const std::string &s) {
    size_t i = 0, n = s.size();
    auto dig = [&](size_t k) { return k < n && s[k] >= '0' && s[k] <= '9'; };
    if (i < n && s[i] == '-') i++;
    if (!dig(i)) return false;
    if (s[i] == '0') i++; else while (dig(i)) i++;
    if (i < n && s[i] == '.') { i++; if (!dig(i)) return false; while (dig(i)) i++; }
    if (i < n && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < n && (s[i] == '+' || s[i] == '-')) i++; if (!dig(i)) return false; while (dig(i)) i++; }
    return i == n;
}
enum class EI : int {}; enum class EU : unsigned long long {}; enum class EC : char {};
template <class T> static void jsonInt(T v) {
    std::string g = lexi::jsonify(v); eval();
    if (!jsonNumber(g) || g != std::to_string(v)) fail("json.int", "JSON form of integer %s is %s", std::to_string(v).c_str(), show(g).c_str());
}
static void scalars(Rng &r) {
    if (lexi::jsonify(nullptr) != "null" || lexi::FormatNull().jsonify() != "null") fail("json.null", "JSON form of null is %s", show(lexi::jsonify(nullptr)).c_str());
    for (bool b : {true, false}) if (lexi::jsonify(b) != (b ? "true" : "false")) fail("json.bool", "JSON form of %d is %s", b, show(lexi::jsonify(b)).c_str());
    ctxOp("JSON form of integer");
    uint64_t i = 0;
    gen::words(r, 2e6, [&](uint64_t x, bool directed) {
        ctxNum(x); distinct(x); i++;
        jsonInt((long long) x); jsonInt((unsigned long long) x); jsonInt((int) x); jsonInt((unsigned) x); jsonInt((short) x); jsonInt((unsigned short) x);
        if ((i & 7) == 0 || directed) {
            jsonInt((long) x); jsonInt((unsigned long) x);
            if (lexi::jsonify((signed char) x) != std::to_string((int) (signed char) x)) fail("json.schar", "JSON form of signed char %d is %s", (int) (signed char) x, show(lexi::jsonify((signed char) x)).c_str());
            if (lexi::jsonify((unsigned char) x) != std::to_string((int) (unsigned char) x)) fail("json.uchar", "JSON form of unsigned char %d is %s", (int) (unsigned char) x, show(lexi::jsonify((unsigned char) x)).c_str());
            if (lexi::jsonify((EI) (int) x) != std::to_string((int) x)) fail("json.enum", "JSON form of enumerator %d is %s", (int) x, show(lexi::jsonify((EI) (int) x)).c_str());
            if (lexi::jsonify((EU) x) != std::to_string((unsigned long long) x)) fail("json.enum", "JSON form of enumerator %llu is %s", (unsigned long long) x, show(lexi::jsonify((EU) x)).c_str());
            if (lexi::jsonify((EC) (char) x) != std::to_string((int) (char) x)) fail("json.enum", "JSON form of char enumerator %d is %s", (int) (char) x, show(lexi::jsonify((EC) (char) x)).c_str());
        }
    });
    ctxOp("JSON form of float");
    auto real = [&](double d) {
        ctxNum(gen::bits(d)); std::string g = lexi::jsonify(d); eval(); distinct(gen::bits(d)); count("json_doubles")++;
        double back = 0; if (jsonNumber(g)) back = strtod(g.c_str(), nullptr);
        if (!jsonNumber(g) || back != d) fail("json.double", "JSON form of double %.17g (%a) is %s", d, d, show(g).c_str());
        i++; float f = (float) d;
        if ((i & 3) == 0 && std::isfinite(f)) { g = lexi::jsonify(f); if (!jsonNumber(g) || strtof(g.c_str(), nullptr) != f) fail("json.float", "JSON form of float %.9g is %s", f, show(g).c_str()); }
        if ((i & 7) == 0) { long double L = d; g = lexi::jsonify(L); if (!jsonNumber(g) || strtod(g.c_str(), nullptr) != d) fail("json.longdouble", "JSON form of long double %.17g is %s", d, show(g).c_str()); }
    };
    real(0.0); real(-0.0);
    gen::doubles(r, 1.5e6, real);
    count("scalars") += i;
}

#ifdef FUZZ
#define FUZZ_RUNS 2e6
#define FUZZ_LEN 64
static void fuzzInit() { E = wants("C11"); J = wants("C12"); }
static std::vector<std::string> fuzzSeeds() { return {"\1plain", "\1\"q\\\n\x1f", "\1\xe2\x80\xa8</script>", std::string("\2\0\0\0\0\0\0\xf0\x3f", 9), "\3\x10zzzz\n"}; }
static void fuzzOne(Feed &f) {
    uint8_t k = f.byte();
    if (k % 4 == 1) { one(f.rest()); return; }
    if (k % 4 == 3) { size_t n = f.byte(), m = f.byte(); std::string t = f.rest(), s(k & 64 ? n * (m % 5) : n, t.empty() ? 'z' : t[0]); one(s + t); one(t + s); return; }
    uint64_t v = f.u64();
    if (J) {
        ctxOp("JSON form of number"); ctxNum(v);
        jsonInt((long long) v); jsonInt((unsigned long long) v); jsonInt((int) v); jsonInt((unsigned) v); jsonInt((short) v); jsonInt((unsigned short) v); jsonInt((long) v); jsonInt((unsigned long) v);
        double d; memcpy(&d, &v, 8); uint32_t u = (uint32_t) v; float g; memcpy(&g, &u, 4); eval(2);
        if (std::isfinite(d)) { std::string t = lexi::jsonify(d); if (!jsonNumber(t) || strtod(t.c_str(), nullptr) != d) fail("json.double", "JSON form of double %.17g (%a) is %s", d, d, show(t).c_str()); }
        if (std::isfinite(g)) { std::string t = lexi::jsonify(g); if (!jsonNumber(t) || strtof(t.c_str(), nullptr) != g) fail("json.float", "JSON form of float %.9g is %s", g, show(t).c_str()); }
    } else one(f.rest());
}
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    E = wants("C11"); J = wants("C12");
    Rng r = rng(11);
    if (mine()) one("");
    if (mine()) { chars(); count("all_characters") = 1; }
    for (int a = 0; a < 256; a++) {
        if (mine()) one(std::string(1, (char) a));
        for (int b = 0; b < 256; b++) if (mine()) { char c[2] = {(char) a, (char) b}; one(std::string(c, 2)); count("two_byte_strings")++; }
    }
    {   // every three-byte string over an alphabet with a member of every class and class edge
        std::vector<unsigned char> A;
        for (int c : {0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 26, 31, 32, 33, 34, 35, 46, 47, 48, 57, 58, 64, 65, 90, 91, 92, 93, 96, 97, 98, 102, 110, 114, 116, 117, 122, 123, 126, 127, 128, 194, 255}) A.push_back((unsigned char) c);
        unsigned stepc = st().scale < 0.2 ? 13 : 1; uint64_t k = 0;
        for (auto a : A) for (auto b : A) for (auto c : A) { if (k++ % stepc) continue; if (mine()) { char x[3] = {(char) a, (char) b, (char) c}; one(std::string(x, 3)); count("three_byte_strings")++; } }
    }
    if (st().scale >= 0.5) {   // every three-byte ASCII string; every code point, alone and next to ASCII, surrogates and beyond included
        uint64_t part = (uint64_t) st().shard, parts = (uint64_t) st().shards; std::string x(3, ' ');
        for (uint64_t k = part; k < 128 * 128 * 128; k += parts) { x[0] = (char) (k >> 14); x[1] = (char) ((k >> 7) & 127); x[2] = (char) (k & 127); one(x); } count("ascii_three_byte_strings") += 128 * 128 * 128 / parts;
        for (uint64_t cp = 0x80 + part; cp < 0x110800; cp += parts) {
            std::string u;
            if (cp < 0x800) { u += (char) (0xc0 | cp >> 6); u += (char) (0x80 | (cp & 63)); }
            else if (cp < 0x10000) { u += (char) (0xe0 | cp >> 12); u += (char) (0x80 | ((cp >> 6) & 63)); u += (char) (0x80 | (cp & 63)); }
            else { u += (char) (0xf0 | cp >> 18); u += (char) (0x80 | ((cp >> 12) & 63)); u += (char) (0x80 | ((cp >> 6) & 63)); u += (char) (0x80 | (cp & 63)); }
            one(u); if (cp < 0x3000 || cp % 64 == 0) { one(u + "a"); one("\"" + u); one(u + u); } count("code_points")++;
        }
    }
    gen::texts(one);
    {   // tokens that other encodings and formats give a meaning to
        static const std::string tok[] = {"</script>", "</", "<!--", "-->", "]]>", "<![CDATA[", "&amp;", "&#34;", "&quot;", "\\u0041", "\\u00", "\\x41", "\\n", "\\\\", "\\\"", "\\0", "\\/", "%00", "%22", "${x}", "{{", "}}", "\xef\xbb\xbf", "\xfe\xff", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xed\xa0\x80\xed\xb0\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xe2\x80\xa8", "\xe2\x80\xa9", "\xc2\x85", "\xc2\xa0", "\xc2", "\xe2\x80", "\xf0\x9f\x98\x80", "\r\n", "\n\r", "\x1b[0m", "\x7f", "'", "''", "\"\"", "`", "$(id)", "?\?/", "?\?=", "null", "true", "NaN", "0", "-1", "u", "x", "b", "n", " ", "\t", std::string("\0", 1), std::string("\0\0", 2), "a", "Z", "\xff", "\x80"};
        const size_t nt = sizeof tok / sizeof tok[0];
        for (auto &a : tok) for (auto &b : tok) { if (mine()) { one(a + b); one(a + "x" + b + "\""); one(a + std::string(40, 'q') + b); count("token_pairs")++; } }
        uint64_t n = scaled(60000); for (uint64_t i = 0; i < n; i++) { std::string s; for (int k = 0, m = 1 + (int) r.below(9); k < m; k++) s += tok[r.below(nt)]; one(s); count("token_strings")++; }
    }
    // every byte repeated to lengths around powers of two (growth, reserve)
    for (int c = 0; c < 256; c++) for (size_t L : {3u, 7u, 8u, 15u, 16u, 17u, 31u, 32u, 33u, 64u, 100u, 255u, 256u, 257u}) if (mine()) one(std::string(L, (char) c));
    // random, various lengths and alphabets
    uint64_t n = scaled(4e5);
    static const char punct[] = "\"\\\\\"/\b\f\n\r\t\x01\x1f\x7f ~`{|}[]^_!#$%&'()*+,-.:;<=>?@";
    for (uint64_t i = 0; i < n; i++) {
        size_t L = r.chance(1, 200) ? r.below(20000) : r.chance(1, 5) ? r.below(300) : r.below(24);
        std::string s; s.reserve(L);
        int mode = (int) r.below(5);
        while (s.size() < L) {
            switch (mode) {
                case 0: s += (char) r(); break;
                case 1: s += (char) r.below(128); break;
                case 2: s += punct[r.below(sizeof(punct))]; break;       // includes NUL
                case 3: { unsigned cp = (unsigned) r.below(0x10ffff); if (cp >= 0xd800 && cp < 0xe000) cp = 0xe9; if (r.chance(1, 2)) cp %= 0x800;
                    if (cp < 0x80) s += (char) cp; else if (cp < 0x800) { s += (char) (0xc0 | cp >> 6); s += (char) (0x80 | (cp & 63)); }
                    else if (cp < 0x10000) { s += (char) (0xe0 | cp >> 12); s += (char) (0x80 | ((cp >> 6) & 63)); s += (char) (0x80 | (cp & 63)); }
                    else { s += (char) (0xf0 | cp >> 18); s += (char) (0x80 | ((cp >> 12) & 63)); s += (char) (0x80 | ((cp >> 6) & 63)); s += (char) (0x80 | (cp & 63)); } break; }
                default: s += r.chance(1, 2) ? (char) ('a' + r.below(26)) : punct[r.below(sizeof(punct))];
            }
        }
        one(s); count("random_strings")++;
        if (i < 2) sample(show(s).substr(0, 150));
    }
    {   // long plain texts with one to three special bytes anywhere (bulk copies, block boundaries)
        uint64_t n = scaled(150000);
        for (uint64_t i = 0; i < n; i++) {
            size_t L = 1 + r.below(r.chance(1, 50) ? 70000 : r.chance(1, 4) ? 5000 : 200); unsigned char fill = (unsigned char) (r.chance(1, 3) ? 128 + r.below(128) : r.chance(1, 2) ? 'a' + r.below(26) : ' ' + r.below(2) * 16);
            std::string s(L, (char) fill);
            for (int k = 0, m = 1 + (int) r.below(3); k < m; k++) s[r.chance(1, 4) ? (r.chance(1, 2) ? 0 : L - 1) : r.below(L)] = r.chance(1, 3) ? (char) r.below(32) : r.chance(1, 2) ? punct[r.below(sizeof(punct))] : (char) r();
            one(s); count("sparse_strings")++;
        }
        // one special byte at every place of short blocks
        for (size_t L = 1; L <= 66; L++) for (size_t p = 0; p < L; p++) for (char c : {'\0', '"', '\\', '\x1f', '\x7f', '\x80', '/', 'n'}) if (mine()) { std::string s(L, 'x'); s[p] = c; one(s); count("placed_bytes")++; }
    }
    {   // one buffer edited byte by byte: nothing may be remembered from the text before
        uint64_t n = scaled(200000); std::string s(12, 'a'); s.reserve(64);
        for (uint64_t i = 0; i < n; i++) { if (r.chance(1, 20)) s.resize(1 + r.below(40), '"'); s[r.below(s.size())] = r.chance(1, 2) ? (char) r() : punct[r.below(sizeof(punct))]; one(s); count("edited_in_place")++; }
    }
    if (st().shard == 1 % st().shards) {   // far larger than any stack
        size_t L = st().scale < 0.01 ? 100000 : 10 << 20; std::string s(L, 'k'); for (size_t i = 3; i < L; i += 97) s[i] = (char) r(); one(s); count("huge_strings")++;
        s.assign(L, '\x01'); one(s);
    }
    if (st().shard == 0) { std::string big; for (int i = 0; i < (st().scale < 0.2 ? 20000 : 1 << 20); i++) big += (char) r(); one(big); count("largest_string") = big.size(); }
    if (J) scalars(r);
    int bs = 0; for (int i = 0; i < 256; i++) { bs += byteSeen[i]; if (firstSeen[i]) cls("first_byte", std::to_string(i)); if (lastSeen[i]) cls("last_byte", std::to_string(i)); }
    count("distinct_bytes") = (uint64_t) bs;
    finish();
}
#endif
