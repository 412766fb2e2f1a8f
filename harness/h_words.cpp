// C08: booleans, null and characters convert strictly.
// Oracle: equality with the documented words; any other text must be
// rejected with std::runtime_error and nothing else.
#include <lexi/lexi.hpp>
#include "mon.hpp"
#include "harvest.hpp"
#include <stdexcept>
using namespace mon;

enum Out { VALUE_TRUE, VALUE_FALSE, VALUE_NULL, REJECTED, OTHER_EXC };
static const char *outName(Out o) { static const char *n[] = {"true", "false", "null", "std::runtime_error", "another exception"}; return n[o]; }
template <class F> static Out attempt(F f) {
    try { return f(); } catch (const std::runtime_error &) { return REJECTED; } catch (...) { return OTHER_EXC; }
}
static void judge(const char *key, const std::string &s, Out got, Out want) {
    eval();
    if (got != want) fail(key, "extraction from %s gave %s, expected %s", show(s).c_str(), outName(got), outName(want));
}
static uint64_t turn = 0;
static void word(const std::string &s) {
    ctxStr("extract bool/null", s);
    distinct(hashBytes(s.data(), s.size()));
    Out b = s == "true" ? VALUE_TRUE : s == "false" ? VALUE_FALSE : REJECTED;
    Out n = s == "null" ? VALUE_NULL : REJECTED;
    cls("word_outcome", std::string("bool:") + outName(b) + " null:" + outName(n));
    judge("word.bool", s, attempt([&] { return lexi::lexi<bool>(s) ? VALUE_TRUE : VALUE_FALSE; }), b);
    judge("word.null", s, attempt([&] { return lexi::lexi<std::nullptr_t>(s) == nullptr ? VALUE_NULL : OTHER_EXC; }), n);
    if (turn++ % 4 == 0 || b != REJECTED || n != REJECTED) {
        judge("word.bool.Extract", s, attempt([&] { return lexi::Extract<bool>()(s) ? VALUE_TRUE : VALUE_FALSE; }), b);
        judge("word.bool.ExtractBool", s, attempt([&] { return bool(lexi::ExtractBool(s)) ? VALUE_TRUE : VALUE_FALSE; }), b);
        judge("word.null.ExtractNull", s, attempt([&] { lexi::ExtractNull e(s); return e.null() == nullptr && std::nullptr_t(e) == nullptr ? VALUE_NULL : OTHER_EXC; }), n);
        if (s.find('\0') == std::string::npos) {
            judge("word.bool.cstr", s, attempt([&] { return lexi::lexi<bool>(s.c_str()) ? VALUE_TRUE : VALUE_FALSE; }), b);
            judge("word.null.cstr", s, attempt([&] { return lexi::lexi<std::nullptr_t>(s.c_str()) == nullptr ? VALUE_NULL : OTHER_EXC; }), n);
        }
    }
    count(b != REJECTED || n != REJECTED ? "accepted_texts" : "rejected_texts")++;
}
static void character(const std::string &s) {
    ctxStr("extract char", s);
    distinct(hashBytes(s.data(), s.size(), 77));
    eval(4);
    try {
        char c = lexi::lexi<char>(s), d = lexi::Extract<char>()(s); lexi::ExtractChar e(s); char f = char(e); unsigned char g = (unsigned char) e;
        if (s.empty()) fail("char.empty", "extraction of a character from empty text gave %d", c);
        else if (c != s[0] || d != s[0] || f != s[0] || g != (unsigned char) s[0]) fail("char.extract", "first byte of %s extracted as %d/%d/%d/%d", show(s).c_str(), c, d, f, g);
        cls("char_outcome", "value");
    } catch (const std::runtime_error &) { if (!s.empty()) fail("char.reject", "extraction of a character from %s was rejected", show(s).c_str()); cls("char_outcome", "rejected"); }
    catch (...) { fail("char.exception", "extraction of a character from %s threw something that is not a runtime_error", show(s).c_str()); }
    count("char_texts")++;
}
template <class F> static void text(const char *key, const F &f, const std::string &w) {
    eval();
    std::string g = f.string(), h = std::string(f);
    if (g != w || h != w || f.size() != w.size() || f.length() != w.size() || memcmp(f.data(), w.data(), w.size()) || f.c_str()[w.size()] != 0)
        fail(key, "formats to %s / %s, size %zu, expected %s", show(g).c_str(), show(h).c_str(), f.size(), show(w).c_str());
}
#ifdef FUZZ
#define FUZZ_RUNS 3e6
#define FUZZ_LEN 24
static void fuzzInit() {}
static std::vector<std::string> fuzzSeeds() { return {"true", "false", "null", "q"}; }
static void fuzzOne(Feed &f) { std::string s = f.rest(); word(s); character(s); }
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(8);
    // formatting
    if (st().shard == 0) {
        for (int k = 0; k < 3; k++) {
            text("word.format.bool", lexi::FormatBool(true), "true"); text("word.format.bool", lexi::FormatBool(false), "false");
            text("word.format.null", lexi::FormatNull(), "null"); text("word.format.null", lexi::FormatNull(nullptr), "null");
            if (lexi::lexi(true) != "true" || lexi::lexi(false) != "false" || lexi::lexi(nullptr) != "null" || lexi::string(true) != "true" || lexi::string(false) != "false" || lexi::string(nullptr) != "null") fail("word.format", "generic formatting of a word is wrong: %s %s %s", lexi::lexi(true).c_str(), lexi::lexi(false).c_str(), lexi::lexi(nullptr).c_str());
            for (int c = 0; c < 256; c++) {
                std::string w(1, (char) c);
                ctxStr("format char", w);
                text("char.format", lexi::FormatChar((char) c), w); text("char.format.unsigned", lexi::FormatChar((unsigned char) c), w);
                if (lexi::lexi((char) c) != w || lexi::string((char) c) != w) fail("char.format.generic", "character %d formats to %s", c, show(lexi::lexi((char) c)).c_str());
                if (lexi::lexi<char>(lexi::lexi((char) c)) != (char) c) fail("char.roundtrip", "character %d does not survive", c);
                eval(3);
            }
        }
        count("formatted_chars") = 768;
    }
    static const std::string W[] = {"true", "false", "null"};
    word("");
    for (auto &w : W) {
        word(w);
        for (size_t i = 0; i <= w.size(); i++) {
            word(w.substr(0, i)); word(w.substr(i));
            for (int c = 0; c < 256; c++) if (mine()) {
                std::string t = w; t.insert(i, 1, (char) c); word(t);
                if (i < w.size()) { t = w; t[i] = (char) c; word(t); t = w.substr(0, i) + (char) c; word(t); }
                word(w + (char) c + w);
                // two edits
                for (size_t j = 0; j < w.size(); j++) { std::string u = t; if (j < u.size()) { u[j] = (char) (u[j] ^ 0x20); word(u); } }
            }
            if (i < w.size()) { std::string t = w; t.erase(i, 1); word(t); for (size_t j = 0; j < w.size(); j++) { std::string u = w; std::swap(u[i], u[j]); word(u); } }
        }
        for (unsigned m = 0; m < (1u << w.size()); m++) { std::string t = w; for (size_t i = 0; i < w.size(); i++) if (m >> i & 1) t[i] ^= 0x20; word(t); word(t + " "); word(" " + t); count("case_variants")++; }
        for (int k = 0; k < 8; k++) { std::string t = w; for (size_t i = 0; i < w.size(); i++) t[i] = (char) (t[i] ^ (1 << k)); word(t); }
        word(w + std::string(1, '\0')); word(std::string(1, '\0') + w); word(w + std::string("\0junk", 5)); word(w.substr(0, 2) + std::string(1, '\0') + w.substr(2)); word(w + w); word("\"" + w + "\""); word(w + "\r\n"); word("\xef\xbb\xbf" + w);
        word(w + std::string(100000, 'x')); word(std::string(100000, ' ') + w);
        // lengths that agree with the word's in their low bits, and every length near the small ones
        size_t top = st().scale < 0.1 ? 300 : 1100;
        for (size_t L = 1; L <= top; L++) if (mine()) { for (char c : {'\0', ' ', w.back(), 'x', '\xff'}) word(w + std::string(L, c)); std::string t; while (t.size() < L) t += w; word(w + t); word(std::string(L, ' ') + w); word(std::string(L, '\0') + w); count("padded_words")++; }
        for (size_t L : {4096u, 32768u, 65536u, 131072u, 1u << 24}) for (int d = -1; d <= 1; d++) if (mine()) { if (L > 65536 && st().scale < 0.01) continue; std::string t = w; t.resize(L + (size_t) d + w.size(), d ? 'x' : '\0'); word(t); count("padded_words")++; }
        for (auto &v : W) { word(w + v); word(w.substr(0, 2) + v.substr(2)); word(v.substr(0, 1) + w.substr(1)); word(w.substr(0, w.size() - 1) + v.back()); }
    }
    gen::texts([](const std::string &s) { word(s); character(s); });
    for (auto s : {"1", "0", "yes", "no", "on", "off", "t", "f", "T", "F", "y", "n", "None", "nil", "NULL", "True", "False", "nullptr", "undefined", "-1", "2", "true\0", "NaN", "Infinity", "{}", "[]", "(null)", "0x0"}) word(s);
    // short texts exhaustively over the letters of the words
    static const char al[] = "truefalsn"; // t r u e f a l s n
    for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) for (int c = 0; c < 9; c++) for (int d = 0; d < 9; d++) if (mine()) { char t[4] = {al[a], al[b], al[c], al[d]}; word(std::string(t, 4)); if (st().scale >= 0.1) for (int e = 0; e < 9; e++) word(std::string(t, 4) + al[e]); count("exhaustive_letter_texts") += 10; }
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) if (mine()) { char t[2] = {(char) a, (char) b}; if (st().scale >= 0.1 || b % 16 == a % 16) { word(std::string(t, 2)); character(std::string(t, 2)); } if (b == 0) { word(std::string(t, 1)); character(std::string(t, 1)); } }
    character("");
    if (mine()) { std::string t(st().scale < 0.01 ? 100000 : 12 << 20, 'q'); character(t); }
    {   // one buffer edited byte by byte: nothing may be remembered from the text before
        uint64_t n = scaled(400000); std::string s = "true"; s.reserve(64);
        for (uint64_t i = 0; i < n; i++) {
            if (r.chance(1, 6)) s.assign(W[r.below(3)]); else if (r.chance(1, 8)) s.resize(r.below(9), 'e'); else if (!s.empty()) s[r.below(s.size())] = r.chance(1, 6) ? (char) r() : "truefalsn"[r.below(9)];
            word(s); if (i % 8 == 0) character(s); count("edited_in_place")++;
        }
    }
    for (int a = 0; a < 256; a++) if (mine()) { character(std::string(1, (char) a) + std::string(1000, 'z')); character(std::string(1, (char) a) + std::string(40, '\0')); }
    uint64_t n = scaled(2e6);
    for (uint64_t i = 0; i < n; i++) {
        std::string s;
        switch (r.below(4)) {
            case 0: { size_t L = r.below(9); for (size_t k = 0; k < L; k++) s += al[r.below(9)]; break; }
            case 1: { size_t L = r.below(12); for (size_t k = 0; k < L; k++) s += (char) r(); break; }
            case 2: { s = W[r.below(3)]; for (int k = 0, e = 1 + (int) r.below(3); k < e; k++) { size_t p = r.below(s.size() + 1); switch (r.below(3)) { case 0: s.insert(p, 1, r.chance(1, 3) ? (char) r() : al[r.below(9)]); break; case 1: if (p < s.size()) s.erase(p, 1); break; default: if (p < s.size()) s[p] = r.chance(1, 2) ? (char) r() : al[r.below(9)]; } } break; }
            default: { s = W[r.below(3)]; size_t L = r.below(40); for (size_t k = 0; k < L; k++) s += (char) (r.chance(1, 2) ? 0 : r()); }
        }
        word(s); if (i % 4 == 0) character(s); count("random")++;
        if (i < 3) sample(show(s) + " as bool -> " + outName(attempt([&] { return lexi::lexi<bool>(s) ? VALUE_TRUE : VALUE_FALSE; })));
    }
    finish();
}
#endif
