// C22: every build gives the same results. Prints a digest of the outcomes of
// each block of cases; the driver compares those of differently built
// programs, and asks for the cases of a block that differs.
#define ENC_MASK 127ULL
#include "ops.hpp"
#include "gen_double.hpp"
#include "gen_int.hpp"
#include <functional>
using namespace mon;
static long dumpOp = -1, dumpBlock = -1;
static const std::vector<uint64_t> *given;   // arguments of the next blocks, instead of random ones
static void block(size_t o, const char *name, uint64_t b, uint64_t n, const std::function<std::string(uint64_t)> &f) {
    if (dumpOp >= 0 && (dumpOp != (long) o || dumpBlock != (long) b)) return;
    ctxOp(name); uint64_t h = 1469598103934665603ULL; Rng r(st().seed * 77 + o * 1000003 + b * 64 + (uint64_t) st().shard);
    for (uint64_t i = 0; i < n; i++) {
        uint64_t x = given ? (*given)[i] : r(); ctxNum(x); std::string t;
        try { t = f(x); } catch (const std::exception &) { t = "!exception"; } catch (...) { t = "!other"; }
        if (dumpOp >= 0) printf("CASE %016llx %s\n", (unsigned long long) x, quote(t).c_str());
        h = hashBytes(t.data(), t.size(), h ^ t.size()); eval(); distinct(x ^ o << 50);
    }
    if (dumpOp < 0) printf("DIGEST %zu %llu %016llx %s\n", o, (unsigned long long) b, (unsigned long long) h, name);
    cls("operation", name);
}
int main(int argc, char **argv) {
    init(argc, argv);
    if (st().extra.compare(0, 5, "dump:") == 0) sscanf(st().extra.c_str() + 5, "%ld:%ld", &dumpOp, &dumpBlock);
    const auto &all = ops::all();
    uint64_t blocks = 8, n = scaled(64000) / blocks + 1;
    for (size_t o = 0; o < all.size(); o++) for (uint64_t b = 0; b < blocks; b++) block(o, all[o].name, b, n, all[o].run);
    uint64_t m = scaled(3e6) / blocks + 1;
    for (uint64_t b = 0; b < blocks; b++) {
        block(100, "format double (random bits)", b, m, [](uint64_t x) { return lexi::lexi(gen::fromBits(x)); });
        block(101, "format double (any exponent, short significand)", b, m, [](uint64_t x) { Rng r(x); uint64_t b = (r() & 1) << 63; b |= r.below(2047) << 52; uint64_t f = r() & ((1ULL << 52) - 1); f >>= r.below(52); f <<= r.below(40); return lexi::lexi(gen::fromBits(b | (f & ((1ULL << 52) - 1)))); });
        block(102, "format double (decimals)", b, m, [](uint64_t x) { Rng r(x); char t[40]; uint64_t p = 1; for (int i = (int) r.below(17); i >= 0; i--) p *= 10; uint64_t m = r.below(p); int e = (int) r.below(640) - 330; snprintf(t, sizeof t, "%llue%d", (unsigned long long) m, e); return lexi::lexi(strtod(t, nullptr)); });
        block(103, "format long long", b, m, [](uint64_t x) { return lexi::lexi((long long) (x >> (x & 63))) + lexi::lexi((int) x) + lexi::lexi((unsigned char) x) + lexi::lexi((signed char) x); });
        block(104, "every character", b, 256, [](uint64_t x) { char c = (char) x; return lexi::lexi(c) + lexi::escape(c) + lexi::jsonify(c) + ops::raw(lexi::lexi<char>(std::string(1, c) + "z")) + lexi::FormatChar((unsigned char) x).jsonify(); });
        block(105, "all bytes in strings", b, m / 10, [](uint64_t x) { Rng r(x); std::string s; for (size_t i = r.below(40); i > 0; i--) s += (char) r(); return lexi::escape(s) + lexi::jsonify(s) + lexi::escape(s.c_str()); });
        block(106, "words", b, m / 10, [](uint64_t x) { Rng r(x); static const char *w[] = {"true", "false", "null", "nan", "Infinity", "t", "", "0", "1", "TRUE"}; std::string s = w[r.below(10)]; if (r.below(3) == 0 && s.size()) { size_t at = r.below(s.size()); s[at] ^= (char) (1 << r.below(8)); } if (r.below(4) == 0) s += (char) r(); return ops::caught([&] { return std::string(lexi::lexi<bool>(s) ? "T" : "F"); }) + ops::caught([&] { lexi::lexi<std::nullptr_t>(s); return std::string("N"); }) + ops::caught([&] { return ops::raw(lexi::lexi<char>(s)); }); });
        block(107, "extract doubles", b, m / 4, [](uint64_t x) { Rng r(x); std::string s; for (size_t i = 1 + r.below(30); i > 0; i--) s += (char) ('0' + r.below(10)); if (r.below(2)) s.insert(r.below(s.size()), "."); if (r.below(2)) s += "e" + std::to_string((int) r.below(700) - 350); return ops::rawf(lexi::lexi<double>(s)) + ops::rawf(lexi::lexi<float>(s)) + ops::rawf(lexi::lexi<long double>(s)) + ops::raw(lexi::lexi<long>(s)); });
    }
    // the directed values of the number monitors, in as many blocks
    std::vector<uint64_t> ints, dbls, part; Rng g(st().seed * 31 + (uint64_t) st().shard);
    gen::words(g, 1e6, [&](uint64_t x, bool) { ints.push_back(x); });
    gen::doubles(g, 1e6, [&](double d) { dbls.push_back(gen::bits(d)); });
    auto over = [&](size_t o, const char *name, const std::vector<uint64_t> &v, const std::function<std::string(uint64_t)> &f) {
        for (uint64_t b = 0; b < blocks; b++) { part.assign(v.begin() + (ptrdiff_t) (v.size() * b / blocks), v.begin() + (ptrdiff_t) (v.size() * (b + 1) / blocks)); given = &part; block(o, name, b, part.size(), f); given = nullptr; }
    };
    over(110, "directed integers", ints, [](uint64_t x) { lexi::FormatInt f((unsigned long long) x); return lexi::lexi((long long) x) + " " + f.string() + " " + lexi::lexi((int) x) + " " + lexi::lexi((unsigned) x) + " " + lexi::lexi((short) x) + " " + lexi::lexi((unsigned short) x) + ops::raw(lexi::lexi<long>(f.c_str())) + ops::raw(lexi::lexi<int>(f.string())); });
    over(111, "directed doubles", dbls, [](uint64_t x) { double d = gen::fromBits(x); return lexi::lexi(d) + " " + lexi::jsonify((float) d); });
    over(112, "directed doubles extracted", dbls, [](uint64_t x) { std::string t = lexi::lexi(gen::fromBits(x)); return ops::rawf(lexi::lexi<double>(t)) + ops::rawf(lexi::lexi<float>(t)) + ops::rawf(lexi::lexi<long double>(t)); });
    sample("outcomes of the whole catalogue, hashed in blocks, equal in all builds");
    finish();
}
