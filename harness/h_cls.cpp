// C18: float classification and powers of ten.
// Oracle: the bit pattern read as IEEE 754 (and libm's classification);
// correctly rounded decimal conversion of "1e<n>".
#include <lexi/detail/ieee754.hpp>
#include <lexi/detail/pow.hpp>
#include "mon.hpp"
#include "harvest.hpp"
#include <cmath>
using namespace mon;
namespace L = lexi::detail;
static void one(uint64_t b) {
    double d; memcpy(&d, &b, 8); ctxNum(b); eval(); distinct(b);
    uint64_t e = b >> 52 & 0x7ff, f = b & ((1ULL << 52) - 1); bool neg = b >> 63;
    bool nan = e == 0x7ff && f, inf = e == 0x7ff && !f, zero = !e && !f;
    auto is = [&](const char *n, bool g, bool w) { if (g != w) fail(std::string("classify.") + n, "%s(bits %016llx) is %d", n, (unsigned long long) b, (int) g); };
    is("isNan", L::isNan(d), nan); is("isInf", L::isInf(d), inf); is("isInfinity", L::isInfinity(d), inf && !neg); is("isNegativeInfinity", L::isNegativeInfinity(d), inf && neg);
    is("isFinite", L::isFinite(d), e != 0x7ff); is("isZero", L::isZero(d), zero); is("isPositive", L::isPositive(d), !neg);
    count(nan ? "nan" : inf ? "infinite" : zero ? "zero" : e ? "normal" : "subnormal")++;
}
#ifdef FUZZ
#define FUZZ_RUNS 1.2e7
#define FUZZ_LEN 16
static void fuzzInit() { ctxOp("classify (num = bits)"); }
static std::vector<std::string> fuzzSeeds() { return {std::string("\0\0\0\0\0\0\xf0\x7f", 8)}; }
static void fuzzOne(Feed &f) { do one(f.u64()); while (f.n); }
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(18);
    ctxOp("classify (num = bits)");
    gen::constants(one);
    const uint64_t M = (1ULL << 52) - 1;
    for (uint64_t e = 0; e < 2048; e++) if (mine()) for (uint64_t s : {0ULL, 1ULL << 63}) {
        for (int k = 0; k < 52; k++) { one(s | e << 52 | 1ULL << k); one(s | e << 52 | (M ^ (1ULL << k))); one(s | e << 52 | ((1ULL << k) - 1)); one(s | e << 52 | (M ^ ((1ULL << k) - 1))); }
        one(s | e << 52 | M); for (int k = 0; k < 40; k++) { one(s | e << 52 | (r() & M)); one(s | e << 52 | (r() & 0xffffffffULL)); one(s | e << 52 | (r() & M & ~0xffffffffULL)); }
        count("exponent_sign_pairs")++;
    }
    uint64_t n = scaled(2e7);
    for (uint64_t i = 0; i < n; i++) { uint64_t b = r(); switch (i % 5) { case 0: b |= 0x7ff0000000000000ULL; break; case 1: b &= ~0x7ff0000000000000ULL; break; case 2: b &= 0xffffffff00000000ULL; if (i % 2) b |= 0x7ff0000000000000ULL; break; case 3: b &= r() & r(); break; default:; } one(b); }
    if (st().shard == 0) {
        ctxOp("pow10 (num = n)");
        for (int round = 0; round < 3; round++) for (int k = 0; k <= 308; k++) { ctxNum((uint64_t) k); eval(); char t[16]; snprintf(t, sizeof t, "1e%d", k); double w = strtod(t, nullptr), g = L::pow10(k); if (memcmp(&w, &g, 8)) fail("pow10", "pow10(%d) is %a, the nearest double is %a", k, g, w); if (!round) { st().exact++; count("pow10_arguments")++; } }
    }
    char t[80]; snprintf(t, sizeof t, "pow10(22) = %a, isNan(7ff0000000000001)=1", L::pow10(22)); sample(t);
    finish();
}
#endif
