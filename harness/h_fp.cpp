// C21: the extended-precision type computes exactly, or rounded once.
// Oracle: 128-bit integers.
#include <lexi/detail/diyfp.hpp>
#include "mon.hpp"
#include "harvest.hpp"
#include <cmath>
using namespace mon;
using lexi::detail::DiyFp;
typedef unsigned __int128 u128;
static std::string h(uint64_t v) { char b[24]; snprintf(b, sizeof b, "%016llx", (unsigned long long) v); return b; }
static void product(uint64_t a, int ae, uint64_t b, int be) {
    ctxNum(a ^ b * 3); eval(); distinct(hashBytes(&a, 8, b)); count("products")++;
    u128 p = (u128) a * b; uint64_t hi = (uint64_t) (p >> 64), lo = (uint64_t) p; if (lo >> 63) hi++;
    DiyFp x(a, ae), y(b, be); DiyFp z = x * y;
    if (z.f != hi || z.e != ae + be + 64) fail("diyfp.product", "%s*2^%d times %s*2^%d is %s*2^%d, nearest is %s*2^%d", h(a).c_str(), ae, h(b).c_str(), be, h(z.f).c_str(), z.e, h(hi).c_str(), ae + be + 64);
    if (x.f != a || x.e != ae || y.f != b || y.e != be) fail("diyfp.operand", "a product changed its operand");
    if (lo == 1ULL << 63) count("ties")++;
}
static void norm(uint64_t f, int e) {
    if (!f) return;
    ctxNum(f); eval(); distinct(f * 7 + (uint64_t) e);
    int s = 0; while (!(f << s >> 63)) s++;
    DiyFp x(f, e), n = x.normalize(); count("normalised")++;
    if (n.f != f << s || n.e != e - s) fail("diyfp.normalize", "%s*2^%d normalises to %s*2^%d", h(f).c_str(), e, h(n.f).c_str(), n.e);
    if (f < 1ULL << 54) { DiyFp m = x.normalizeBoundary(); if (m.f != f << s || m.e != e - s) fail("diyfp.normalizeBoundary", "boundary %s*2^%d normalises to %s*2^%d", h(f).c_str(), e, h(m.f).c_str(), m.e); }
    cls("leading_zeros", std::to_string(s));
}
static void minus(uint64_t a, uint64_t b, int e) { eval(); DiyFp z = DiyFp(a, e) - DiyFp(b, e); if (z.f != a - b || z.e != e) fail("diyfp.difference", "%s - %s at 2^%d is %s*2^%d", h(a).c_str(), h(b).c_str(), e, h(z.f).c_str(), z.e); count("differences")++; }
static void dbl(uint64_t bits) {
    uint64_t be = bits >> 52 & 0x7ff, fr = bits & ((1ULL << 52) - 1); if (be == 0x7ff || (!be && !fr)) return;
    double d; memcpy(&d, &bits, 8); ctxNum(bits); eval(2); distinct(bits); count("doubles")++;
    uint64_t f = be ? fr | 1ULL << 52 : fr; int e = be ? (int) be - 1075 : -1074;
    DiyFp x(d);
    if (x.f != f || x.e != e) { fail("diyfp.double", "double %a becomes %s*2^%d", d, h(x.f).c_str(), x.e); return; }
    DiyFp lo, hi; x.normalizedBoundaries(&lo, &hi);
    // upper: f + 1/2, normalised; lower: f - 1/2, or f - 1/4 below a power of two, at the same exponent
    uint64_t pf = 2 * f + 1; int pe = e - 1; int s = 0; while (!(pf << s >> 63)) s++; pf <<= s; pe -= s;
    u128 mf = f == 1ULL << 52 ? 4 * (u128) f - 1 : 2 * (u128) f - 1; int me = f == 1ULL << 52 ? e - 2 : e - 1;
    mf <<= me - pe;
    if (hi.f != pf || hi.e != pe) fail("diyfp.upper", "upper boundary of %a is %s*2^%d, exactly %s*2^%d", d, h(hi.f).c_str(), hi.e, h(pf).c_str(), pe);
    if (lo.f != (uint64_t) mf || lo.e != pe) fail("diyfp.lower", "lower boundary of %a is %s*2^%d, exactly %s*2^%d", d, h(lo.f).c_str(), lo.e, h((uint64_t) mf).c_str(), pe);
    if (x.f != f || x.e != e) fail("diyfp.operand", "the boundaries changed their number");
    if (f == 1ULL << 52) count("powers_of_two")++; if (!be) count("subnormal")++;
}
static uint64_t word(Rng &r) {
    if (r.chance(1, 12)) return gen::constant(r, r());
    switch (r.below(8)) { case 0: return ~0ULL >> r.below(64); case 1: return ~0ULL << r.below(64); case 2: return 1ULL << r.below(64); case 3: return (1ULL << r.below(64)) - 1 + r.below(3);
        case 4: return (r() & 0xffffffffULL) | (r.chance(1, 2) ? 0 : 0xffffffff00000000ULL); case 5: return r() << 32 | (r.chance(1, 2) ? 0 : 0xffffffffULL); case 6: return r() >> r.below(64); default: return r(); }
}
#ifdef FUZZ
#define FUZZ_RUNS 1.2e7
#define FUZZ_LEN 24
static void fuzzInit() { ctxOp("extended-precision arithmetic (num = operand)"); }
static std::vector<std::string> fuzzSeeds() { return {std::string("\0\1\2\3\4\5\6\7\x80\1\2\3\4\5\6\7\x80\0\0", 19), std::string("\1\1\2\3\4\5\6\7\x3f", 9)}; }
static void fuzzOne(Feed &f) {
    uint8_t k = f.byte(); uint64_t a = f.u64(), b = f.u64(); int ae = (int8_t) f.byte() * 9, be = (int8_t) f.byte() * 9;
    if (k & 1) { dbl(a); norm(a, ae); norm(b, be); } else { product(a, ae, b, be); minus(a, b, ae); }
}
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(21);
    ctxOp("extended-precision arithmetic (num = operand)");
    if (DiyFp().f || DiyFp().e) fail("diyfp.default", "a default-constructed number is not zero");
    std::vector<uint64_t> w = {0, 1, 2, 3, ~0ULL, ~0ULL - 1, 1ULL << 63, (1ULL << 63) - 1, (1ULL << 63) + 1, 1ULL << 32, (1ULL << 32) - 1, (1ULL << 32) + 1, 0xffffffff00000000ULL, 0x8000000080000000ULL, 0x7fffffff7fffffffULL, 0x80000000ULL, 0x7fffffffULL, 0xaaaaaaaaaaaaaaaaULL, 0x5555555555555555ULL, 0xfa8fd5a0081c0288ULL, 0xaf87023b9bf0ee6bULL};
    for (int k = 0; k < 64; k++) { w.push_back(1ULL << k); w.push_back(~0ULL << k); }
    for (uint64_t a : w) for (uint64_t b : w) if (mine()) { product(a, (int) r.below(2400) - 1200, b, (int) r.below(2400) - 1200); minus(a, b, (int) r.below(100)); }
    gen::constants([&](uint64_t x) { dbl(x); norm(x, (int) r.below(2400) - 1200); product(x, 0, word(r), 0); });
    uint64_t n = scaled(2e7);
    for (uint64_t i = 0; i < n; i++) {
        uint64_t a = word(r), b = word(r); product(a, (int) r.below(4000) - 2000, b, (int) r.below(4000) - 2000);
        if (i % 4 == 0) {   // ties and near-ties: a*b = 2^63 modulo 2^64
            a |= 1; uint64_t inv = a; for (int k = 0; k < 6; k++) inv *= 2 - a * inv; b = inv << 63; product(a, 0, inv * (1ULL << 63), 0); product(a, 3, inv * ((1ULL << 63) - 1), -70); product(a, 3, inv * ((1ULL << 63) + 1), -70); }
        if (i % 4 == 1) { norm(a, (int) r.below(4000) - 2000); norm(b >> r.below(64), (int) r.below(4000) - 2000); minus(a, b, (int) r.below(4000) - 2000); }
        if (i % 4 == 2) { dbl(r()); dbl(r() & ~(0x7ffULL << 52) & ~(~0ULL << r.below(53) & ((1ULL << 52) - 1))); }
    }
    for (int k = 0; k < 64; k++) for (int e : {-1137, -1074, -61, 0, 971}) if (mine()) { norm(1ULL << k, e); norm(~0ULL >> k, e); norm((1ULL << k) | 1, e); norm((2ULL << k) - 1, e); }
    const uint64_t M = (1ULL << 52) - 1;
    for (uint64_t e = 0; e < 2047; e++) if (mine()) { for (int k = 0; k < 52; k++) { dbl(e << 52 | 1ULL << k); dbl(e << 52 | ((1ULL << k) - 1)); dbl(1ULL << 63 | e << 52 | (M ^ ((1ULL << k) - 1))); } dbl(e << 52); dbl(e << 52 | M); dbl(1ULL << 63 | e << 52); count("exponents")++; }
    sample("boundaries of DBL_MIN, product of ~0 and ~0, normalisation of 1");
    { DiyFp z = DiyFp(~0ULL, 0) * DiyFp(~0ULL, 0); sample("~0 * ~0 -> " + h(z.f) + "*2^" + std::to_string(z.e)); }
    finish();
}
#endif
