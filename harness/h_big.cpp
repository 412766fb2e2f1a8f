// C17: the big-integer type computes exactly or refuses.
// Every operation of a random history is mirrored on boost's cpp_int; after
// each one the words and count are compared with the model.
#include <lexi/detail/bigint.hpp>
#include "mon.hpp"
#include "harvest.hpp"
#include <stdexcept>
#include <memory>
#include <boost/multiprecision/cpp_int.hpp>
using namespace mon;
typedef boost::multiprecision::cpp_int Z;
typedef lexi::detail::BigInteger B;

static std::string history;
static void note(const std::string &s) { history += s + "; "; if (history.size() > 1500) history.erase(0, history.size() - 1200); ctxStr("BigInteger", history.size() > 300 ? history.substr(history.size() - 300) : history); }
static std::string hz(const Z &z) { std::stringstream o; o << std::hex << z; std::string s = o.str(); return "0x" + (s.size() > 160 ? s.substr(0, 80) + "..." + s.substr(s.size() - 60) : s); }
static unsigned bitsOf(const Z &z) { return z == 0 ? 0 : (unsigned) msb(z) + 1; }
static const Z LIMIT = Z(1) << 3200;

static bool words(const B &b, Z &out, size_t &n) {
    n = b.count();
    if (n == 0 || n > 4096) return false;
    std::vector<uint64_t> w(n);
    for (size_t i = 0; i < n; i++) w[i] = b.digit(i);
    import_bits(out, w.begin(), w.end(), 64, false);
    return true;
}
static bool agree(const B &b, const Z &m, const char *op) {
    eval();
    Z v; size_t n;
    bool ok = words(b, v, n);
    size_t want = m == 0 ? 1 : (msb(m) / 64 + 1);
    if (!ok || v != m || n != want) { fail(std::string("bigint.") + op, "after %s the value is %s in %zu words, expected %s in %zu words; history: %s", op, ok ? hz(v).c_str() : "?", n, hz(m).c_str(), want, history.c_str()); return false; }
    if (b.isZero() != (m == 0)) { fail("bigint.isZero", "isZero is wrong for %s; history: %s", hz(m).c_str(), history.c_str()); return false; }
    return true;
}
static void sizeClass(const Z &z) { unsigned b = bitsOf(z); cls("operand_words", std::to_string((b + 63) / 64)); }
static uint64_t word(Rng &r) {
    if (r.chance(1, 10)) { uint64_t other = r(); return gen::constant(r, other); }
    switch (r.below(10)) {
        case 0: return 0; case 1: return 1; case 2: return ~0ULL; case 3: return ~0ULL - r.below(4); case 4: return 1ULL << r.below(64); case 5: return (1ULL << r.below(64)) - 1; case 6: return r.below(100); case 7: return 0xffffffffULL + r.below(3); case 8: return r() & 0xffffffff00000000ULL; default: return r();
    }
}
// a number with directed words, built by shifts and additions only on the
// model, and by decimal text or by arithmetic on the library
static Z number(Rng &r, size_t maxWords) {
    Z z = 0; size_t n = 1 + r.below(maxWords);
    for (size_t i = 0; i < n; i++) { uint64_t w = word(r); if (r.chance(1, 2)) w = r.chance(1, 2) ? 0 : ~0ULL; z = (z << 64) | w; }
    return z;
}
enum Did { DONE, THREW };
template <class F> static Did attempt(const char *op, const Z &result, F f) {
    try { f(); return DONE; }
    catch (const std::runtime_error &) {
        count("refused")++;
        if (result < LIMIT) fail(std::string("bigint.refused.") + op, "%s threw although the result %s is below 2^3200; history: %s", op, hz(result).c_str(), history.c_str());
        return THREW;
    } catch (const std::exception &e) { fail(std::string("bigint.exception.") + op, "%s threw %s, which is not a runtime_error; history: %s", op, e.what(), history.c_str()); return THREW; }
}
static std::unique_ptr<B> fromModel(const Z &z, Rng &r) {
    // on the heap, so that a write past the object is seen by the sanitizers
    std::string t = z.str(); if (r.chance(1, 4)) t.insert(0, r.below(40), '0');
    note("text " + (t.size() > 60 ? t.substr(0, 60) + "..(" + std::to_string(t.size()) + ")" : t));
    std::unique_ptr<B> p;
    std::vector<char> raw(t.begin(), t.end());   // not NUL-terminated
    if (attempt("text", z, [&] { p.reset(new B(raw.data(), raw.size())); }) != DONE) return nullptr;
    if (!agree(*p, z, "text")) return nullptr;
    return p;
}
static void historyRun(Rng &r, bool large) {
    history.clear();
    std::vector<std::unique_ptr<B>> obj; std::vector<Z> mod;
    auto add = [&](std::unique_ptr<B> p, const Z &z) { if (p) { obj.push_back(std::move(p)); mod.push_back(z); } };
    uint64_t w0 = word(r); note("word " + std::to_string(w0)); add(std::unique_ptr<B>(new B(w0)), Z(w0)); agree(*obj[0], mod[0], "word");
    { Z z = number(r, large ? 20 : 8); add(fromModel(z, r), z); }
    uint64_t sig = 0;
    int steps = 8 + (int) r.below(20);
    for (int t = 0; t < steps && !obj.empty(); t++) {
        size_t i = r.below(obj.size()); B &b = *obj[i]; Z &m = mod[i];
        int op = (int) r.below(14); const char *name = ""; Z want = m; Did did = DONE; bool changed = true;
        std::string I = "#" + std::to_string(i) + " ";
        switch (op) {
            case 0: { uint64_t w = word(r); name = "add"; if (r.chance(1, 3)) w = 0 - (uint64_t) (m & ~0ULL); want = m + w; note(I + "+= " + std::to_string(w)); did = attempt(name, want, [&] { b += w; }); break; }
            case 1: case 2: { uint64_t w = word(r); name = "mul64"; want = m * w; note(I + "*= u64 " + std::to_string(w)); did = attempt(name, want, [&] { b *= w; }); break; }
            case 3: { uint32_t w = (uint32_t) word(r); if (r.chance(1, 4)) w = 0xffffffffu; name = "mul32"; want = m * w; note(I + "*= u32 " + std::to_string(w)); did = attempt(name, want, [&] { b *= w; }); break; }
            case 4: case 5: { size_t sh = r.chance(1, 3) ? 64 * r.below(6) : r.chance(1, 2) ? r.below(64) : r.below(300); if (large && r.chance(1, 3)) sh = r.chance(1, 2) ? r.below(27000) : 26624 - std::min<size_t>(26624, bitsOf(m)) + r.below(130) ; name = sh % 64 ? "shift" : "shift words"; want = m << (unsigned) sh; note(I + "<<= " + std::to_string(sh)); did = attempt(name, want, [&] { b <<= sh; }); break; }
            case 6: { unsigned e = r.chance(1, 2) ? (unsigned) r.below(30) : (unsigned) r.below(large ? 400 : 120); name = "mulPow5"; Z p = 1; for (unsigned k = 0; k < e; k++) p *= 5; want = m * p; note(I + "mulPow5 " + std::to_string(e)); did = attempt(name, want, [&] { b.mulPow5(e); }); break; }
            case 7: { name = "copy"; note("copy " + I); add(std::unique_ptr<B>(new B(b)), Z(mod[i])); agree(*obj.back(), mod.back(), name); changed = false; break; }
            case 8: { size_t j = r.below(obj.size()); name = "assign"; note(I + "= #" + std::to_string(j)); *obj[i] = *obj[j]; want = mod[j]; break; }
            case 9: { uint64_t w = word(r); name = "assign word"; note(I + "= " + std::to_string(w)); b = w; want = w; break; }
            case 10: { // comparison and equality, also between near-equal numbers
                size_t j = r.below(obj.size()); changed = false; name = "compare"; note("compare " + I + "#" + std::to_string(j)); eval();
                int c = obj[i]->compare(*obj[j]), w = mod[i].compare(mod[j]);
                if ((c < 0) != (w < 0) || (c > 0) != (w > 0)) fail("bigint.compare", "compare of %s and %s gives %d; history: %s", hz(mod[i]).c_str(), hz(mod[j]).c_str(), c, history.c_str());
                if ((*obj[i] == *obj[j]) != (w == 0)) fail("bigint.equal", "equality of %s and %s is wrong; history: %s", hz(mod[i]).c_str(), hz(mod[j]).c_str(), history.c_str());
                uint64_t lw = (uint64_t) (mod[i] & ~0ULL); if ((*obj[i] == lw) != (mod[i] == lw)) fail("bigint.equal.word", "equality of %s and the word %llu is wrong; history: %s", hz(mod[i]).c_str(), (unsigned long long) lw, history.c_str());
                cls("comparison", w < 0 ? "less" : w > 0 ? "greater" : "equal"); break; }
            case 11: case 12: { // difference into another object, of a relative too
                changed = false; Z other; std::unique_ptr<B> q;
                switch (r.below(4)) { case 0: other = m + word(r); break; case 1: { unsigned k = (unsigned) r.below(bitsOf(m) + 70); other = m ^ (Z(1) << k); break; } case 2: other = number(r, large ? 20 : 8); break; default: other = Z(1) << (unsigned) r.below(bitsOf(m) + 1); }
                q = fromModel(other, r); if (!q) break;
                std::unique_ptr<B> out(new B(word(r))); if (r.chance(1, 2)) { Z junk = number(r, 10); auto x = fromModel(junk, r); if (x) out = std::move(x); }
                note("difference " + I + "and " + hz(other));
                name = "difference";
                bool ret = false; bool threw = false;
                try { ret = b.difference(*q, out.get()); } catch (const std::runtime_error &) { threw = true; }
                eval();
                if (m == other) { if (!threw) fail("bigint.difference.equal", "the difference of equal numbers did not throw; history: %s", history.c_str()); cls("difference", "equal"); break; }
                if (threw) { if (m < LIMIT && other < LIMIT) fail("bigint.difference.threw", "difference of %s and %s threw; history: %s", hz(m).c_str(), hz(other).c_str(), history.c_str()); break; }
                Z d = m > other ? Z(m - other) : Z(other - m);
                if (ret != (m < other)) fail("bigint.difference.sign", "difference of %s and %s reports the wrong order; history: %s", hz(m).c_str(), hz(other).c_str(), history.c_str());
                agree(*out, d, "difference"); agree(b, m, "difference (operand)"); agree(*q, other, "difference (operand)"); cls("difference", m < other ? "smaller-larger" : "larger-smaller");
                if (r.chance(1, 2)) add(std::move(out), d);
                break; }
            default: { Z z = r.chance(1, 2) ? Z(m + 1) : number(r, large ? 30 : 6); if (z < LIMIT) add(fromModel(z, r), z); name = "text"; changed = false; break; }
        }
        sig = mix(sig * 131 + (uint64_t) op * 65536 + bitsOf(want)); cls("operation", name); count("operations")++;
        if (did == THREW) { obj.erase(obj.begin() + (long) i); mod.erase(mod.begin() + (long) i); continue; }   // a refused operation leaves the number unspecified
        if (changed) { m = want; sizeClass(m); if (want >= LIMIT) count("beyond_2_3200")++; if (!agree(*obj[i], m, name)) return; }
        if (obj.size() > 6) { obj.erase(obj.begin()); mod.erase(mod.begin()); }
    }
    for (size_t i = 0; i < obj.size(); i++) agree(*obj[i], mod[i], "the end of the history");
    distinct(sig); count("histories")++;
}
static void rejections(Rng &r) {
    auto must = [&](const char *key, const std::string &what, bool threw) { eval(); count("rejections")++; if (!threw) fail(key, "%s did not throw std::runtime_error", what.c_str()); };
    uint64_t n = scaled(60000);
    for (uint64_t i = 0; i < n; i++) {
        std::string t; size_t L = 1 + r.below(60); for (size_t k = 0; k < L; k++) t += (char) ('0' + r.below(10));
        char c = (char) r(); if (c >= '0' && c <= '9') c = i & 1 ? '/' : ':'; t[r.below(L)] = c; ctxStr("non-digit text", t); distinct(hashBytes(t.data(), t.size()));
        bool threw = false; try { B b(t.data(), t.size()); } catch (const std::runtime_error &) { threw = true; } catch (...) {}
        must("bigint.text.reject", "text " + show(t), threw);
        Z z = number(r, 6); history.clear(); auto p = fromModel(z, r); if (!p) continue;
        size_t cnt = p->count(); for (size_t k : {cnt, cnt + 1, cnt + (size_t) r.below(500), (size_t) 52, (size_t) 416, (size_t) 417, ~(size_t) 0, ~(size_t) 0 / 8}) { if (k < cnt) continue; threw = false; try { p->digit(k); } catch (const std::runtime_error &) { threw = true; } catch (...) {} must("bigint.digit.range", "word access " + std::to_string(k) + " of " + std::to_string(cnt), threw); }
        B same(*p); threw = false; B out(7); try { p->difference(same, &out); } catch (const std::runtime_error &) { threw = true; } catch (...) {} must("bigint.difference.equal", "difference of equal numbers", threw);
    }
}
// growth until refusal by each operation, from every starting offset
static void capacity(Rng &r) {
    for (int k = 0; k < 12; k++) {
        if (!mine()) continue;
        for (int op = 0; op < 5; op++) {
            history = "growth "; Z m = number(r, 3) + 2; auto p = fromModel(m, r); if (!p) continue;
            size_t big = 26624 - 200 - 64 * r.below(3); note("<<= " + std::to_string(big)); Z want = m << (unsigned) big;
            if (attempt("shift", want, [&] { *p <<= big; }) == THREW) continue; m = want; if (!agree(*p, m, "shift")) continue;
            for (int t = 0; t < 80; t++) {
                const char *nm = ""; Did d = DONE;
                switch (op) { case 0: want = m * ~0ULL; nm = "mul64"; d = attempt(nm, want, [&] { *p *= (uint64_t) ~0ULL; }); break; case 1: want = m * 0xffffffffu; nm = "mul32"; d = attempt(nm, want, [&] { *p *= (uint32_t) 0xffffffffu; }); break; case 2: { size_t s = 1 + r.below(70); if (r.chance(1, 4)) s = 64; want = m << (unsigned) s; nm = "shift"; d = attempt(nm, want, [&] { *p <<= s; }); break; } case 3: { unsigned e = 1 + (unsigned) r.below(30); Z f = 1; for (unsigned q = 0; q < e; q++) f *= 5; want = m * f; nm = "mulPow5"; d = attempt(nm, want, [&] { p->mulPow5(e); }); break; }
                    default: { // all ones, so that an addition carries into a new word
                        want = (((m >> (unsigned) (bitsOf(m) - 1)) << (unsigned) bitsOf(m)) - 1); (void) want; std::string tx((size_t) 8100, '9'); (void) tx; want = m + ~0ULL; nm = "add"; d = attempt(nm, want, [&] { *p += ~0ULL; }); } }
                note(nm); count("capacity_steps")++;
                if (d == THREW) { count("capacity_refusals")++; break; }
                m = want; if (!agree(*p, m, nm)) break;
            }
        }
        // decimal text up to and past the capacity: 26624 bits are 8014 digits
        for (size_t L : {960, 963, 964, 4000, 8000, 8013, 8014, 8015, 8016, 8020, 8040, 8100, 9000}) { history = "long text "; std::string t(L, (char) ('1' + r.below(9))); for (auto &c : t) if (r.chance(1, 2)) c = (char) ('0' + r.below(10)); if (k & 1) t = std::string(L, '9'); Z z(t[0] == '0' ? "1" + t.substr(1) : t); if (t[0] == '0') t[0] = '1';
            std::unique_ptr<B> p; note(std::to_string(L) + " digits"); if (attempt("text", z, [&] { p.reset(new B(t.data(), t.size())); }) == DONE) agree(*p, z, "text"); count("long_texts")++; }
    }
    // carry through every word up to the very last one
    for (int k = 0; k < 4; k++) { if (!mine()) continue;
        for (size_t nw : {(size_t) 1, (size_t) 2, (size_t) 52, (size_t) 53, (size_t) 415, (size_t) 416}) { history = "carry "; Z ones = (Z(1) << (unsigned) (64 * nw)) - 1; std::unique_ptr<B> p = fromModel(ones, r); if (!p) continue; Z want = ones + 1; note("+= 1"); if (attempt("add", want, [&] { *p += 1; }) == DONE) agree(*p, want, "add"); count("full_carries")++; }
    }
}
#ifdef FUZZ
#define FUZZ_RUNS 4e5
#define FUZZ_LEN 200
static void fuzzInit() {}
static std::vector<std::string> fuzzSeeds() { std::vector<std::string> v; Rng r = rng(99); for (int i = 0; i < 12; i++) { std::string s(1, (char) i); for (int k = 0; k < 60; k++) s += (char) r.below(256); v.push_back(s); } return v; }
static void fuzzOne(Feed &f) {
    uint8_t k = f.byte(); Rng r(hashBytes(f.p, f.n)); r.feed = &f; historyRun(r, k == 7);
}
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(17);
    uint64_t n = scaled(120000);
    for (uint64_t i = 0; i < n; i++) { historyRun(r, i % 16 == 0); if (i < 2) sample(history.substr(0, 300)); }
    rejections(r); capacity(r);
    finish();
}
#endif
