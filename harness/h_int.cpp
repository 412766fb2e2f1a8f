// C01: integer formatting. Oracle: an odometer for exhaustive ranges and
// plain repeated division elsewhere, both independent of the library.
#include <lexi/lexi.hpp>
#include "mon.hpp"
#include "harvest.hpp"
#include <limits>
using namespace mon;

static int refU(unsigned long long v, char *out) {   // canonical decimal
    char t[24]; int n = 0;
    do { t[n++] = (char) ('0' + v % 10); v /= 10; } while (v);
    for (int i = 0; i < n; i++) out[i] = t[n - 1 - i];
    return n;
}
template <class T> static int refI(T v, char *out) {
    int n = 0; unsigned long long u = (unsigned long long) v;
    if (v < 0) { out[n++] = '-'; u = 0ULL - (unsigned long long) (long long) v; }
    return n + refU(u, out + n);
}

static bool pairSeen[10][100];     // two-digit group position (from the right) x pair
static bool lenSeen[2][24];

template <class T> static void check(const char *type, T v, bool generic) {
    char e[32]; int n = refI<T>(v, e);
    ctxNum((uint64_t) (long long) v);
    lexi::FormatInt f(v);
    eval();
    if ((int) f.size() != n || memcmp(f.data(), e, (size_t) n) != 0)
        fail(std::string("int.format.") + type, "%s value %.*s formatted as %s", type, n, e, show(f.string()).c_str());
    if (generic) {
        std::string s = lexi::lexi(v);
        if (s != std::string(e, (size_t) n))
            fail(std::string("int.lexi.") + type, "%s value %.*s formatted by the generic function as %s", type, n, e, show(s).c_str());
    }
    unsigned long long u = v < 0 ? 0ULL - (unsigned long long) (long long) v : (unsigned long long) v;
    lenSeen[v < 0][n] = true;
    for (int i = 0; i < 10 && u; i++, u /= 100) pairSeen[i][u % 100] = true;
}

template <class T> static void checkBits(const char *type, uint64_t bits, bool generic) { check<T>(type, (T) bits, generic); }

static void all64(uint64_t x, bool generic) {
    uint64_t n = 0 - x;
    distinct(x); distinct(n);
    ctxOp("long long"); checkBits<long long>("long long", x, generic); checkBits<long long>("long long", n, generic);
    ctxOp("unsigned long long"); checkBits<unsigned long long>("unsigned long long", x, generic);
    ctxOp("long"); checkBits<long>("long", x, false); checkBits<long>("long", n, false);
    ctxOp("unsigned long"); checkBits<unsigned long>("unsigned long", x, false);
    if (generic) {
        ctxOp("long"); checkBits<long>("long", x, true); checkBits<long>("long", n, true);
        ctxOp("unsigned long"); checkBits<unsigned long>("unsigned long", x, true);
        ctxOp("int"); checkBits<int>("int", x, true); checkBits<int>("int", n, true);
        ctxOp("unsigned int"); checkBits<unsigned int>("unsigned int", x, true);
    }
}

// Odometer over [lo, hi] of unsigned 32-bit values, both as unsigned int and
// as the int with the same magnitude and a minus sign.
static void sweep32(uint64_t lo, uint64_t hi, uint64_t step) {
    char d[16]; int n = refU(lo, d + 1); d[0] = '-';
    for (uint64_t v = lo; v <= hi; v += step) {
        if (step != 1) n = refU(v, d + 1);
        ctxNum(v);
        lexi::FormatInt f((unsigned int) v);
        if ((int) f.size() != n || memcmp(f.data(), d + 1, (size_t) n) != 0)
            fail("int.format.unsigned int", "unsigned int value %llu formatted as %s", (unsigned long long) v, show(f.string()).c_str());
        if (v <= 2147483648ULL && v > 0) {
            lexi::FormatInt g((int) (-(long long) v));
            if ((int) g.size() != n + 1 || memcmp(g.data(), d, (size_t) n + 1) != 0)
                fail("int.format.int", "int value -%llu formatted as %s", (unsigned long long) v, show(g.string()).c_str());
            if (v < 2147483648ULL) {
                lexi::FormatInt h((int) v);
                if ((int) h.size() != n || memcmp(h.data(), d + 1, (size_t) n) != 0)
                    fail("int.format.int", "int value %llu formatted as %s", (unsigned long long) v, show(h.string()).c_str());
            }
        }
        if (step == 1) {
            int i = n; while (i >= 1 && d[i] == '9') d[i--] = '0';
            if (i >= 1) d[i]++;
            else { memmove(d + 2, d + 1, (size_t) n); d[1] = '1'; n++; }
        }
        eval();
    }
}

#ifdef FUZZ
#define FUZZ_RUNS 3e6
#define FUZZ_LEN 24
static void fuzzInit() {}
static std::vector<std::string> fuzzSeeds() { return {std::string(1, '\0') + std::string(8, '\0'), std::string("\1\xff\xff\xff\xff\xff\xff\xff\x7f", 9)}; }
static void fuzzOne(Feed &f) {
    ctxOp("64 bit");
    do { uint64_t x = f.u64(); all64(x, true); check<short>("short", (short) x, true); check<unsigned short>("unsigned short", (unsigned short) x, true); check<int8_t>("int8_t", (int8_t) x, true); check<uint8_t>("uint8_t", (uint8_t) x, true); } while (f.n);
}
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng();
    bool exhaustive32 = st().extra.find("full32") != std::string::npos;
    // 8 and 16 bit types, completely
    if (st().shard == 0) {
        ctxOp("8/16 bit");
        for (int v = -128; v < 128; v++) check<int8_t>("int8_t", (int8_t) v, true);
        for (int v = 0; v < 256; v++) check<uint8_t>("uint8_t", (uint8_t) v, true);
        for (int v = -32768; v < 32768; v++) check<short>("short", (short) v, true);
        for (int v = 0; v < 65536; v++) check<unsigned short>("unsigned short", (unsigned short) v, true);
        for (int v = -32768; v < 65536; v++) { check<int>("int", v, true); check<long>("long", v, true); check<long long>("long long", v, true); }
        for (int v = 0; v < 65536; v++) { check<unsigned>("unsigned int", (unsigned) v, true); check<unsigned long>("unsigned long", (unsigned long) v, true); check<unsigned long long>("unsigned long long", (unsigned long long) v, true); }
        st().exact += 256 + 65536 * 2;
        count("exhaustive_8_16_bit") = 1;
    }
    // 32 bit
    ctxOp("32 bit");
    {
        uint64_t total = 4294967296ULL, per = total / (uint64_t) st().shards;
        uint64_t lo = per * (uint64_t) st().shard, hi = st().shard == st().shards - 1 ? total - 1 : lo + per - 1;
        if (exhaustive32) { sweep32(lo, hi, 1); st().exact += hi - lo + 1; count("swept_32_bit") += hi - lo + 1; }
        else {
            uint64_t before = st().evaluations;
            uint64_t want = scaled(4e7); uint64_t step = (hi - lo + 1) / want; if (step < 1) step = 1;
            sweep32(lo + r.below(step), hi, step);
            st().exact += st().evaluations - before; count("swept_32_bit") += st().evaluations - before;
        }
    }
    ctxOp("constants of the library"); gen::constants([](uint64_t x) { all64(x, true); });
    // 64 bit, directed: around powers of ten and two, type limits
    {
        std::vector<uint64_t> base = {0, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, ~0ULL};
        uint64_t t = 1; for (int i = 0; i < 20; i++) { for (int m = 1; m < 10; m++) if (t <= ~0ULL / (uint64_t) m) base.push_back(t * (uint64_t) m); if (i < 19) t *= 10; }
        for (int i = 0; i < 64; i++) base.push_back(1ULL << i);
        int span = st().scale < 0.2 ? 40 : 1500;
        for (uint64_t b : base) for (int d = -span; d <= span; d++) if (mine()) { all64(b + (uint64_t) (int64_t) d, d >= -2 && d <= 2); count("around_boundaries")++; }
    }
    // 64 bit, four-digit blocks with boundary values in every combination
    {
        static const unsigned B[] = {0, 1, 9, 10, 11, 90, 99, 100, 101, 909, 999, 1000, 1001, 9090, 9999};
        const int nb = 15;
        unsigned stepb = st().scale < 0.2 ? 97 : 1;
        uint64_t nAll = 1844 >= 0 ? (uint64_t) nb * nb * nb * nb * nb : 0;
        for (uint64_t k = 0; k < nAll; k += stepb) {
            if (!mine()) continue;
            uint64_t c = k, x = 0; bool over = false;
            for (int i = 0; i < 5; i++) {
                unsigned blk = B[c % nb]; c /= nb;
                if (i == 0 && blk > 1843) { over = true; break; }
                x = x * 10000 + blk;
            }
            if (over) continue;
            all64(x, (k & 63) == 0); count("block_combinations")++;
        }
    }
    // 64 bit, every leading group above 10^16 and above 10^8 with plain and random rest
    {
        unsigned sk = st().scale < 0.2 ? 37 : 1;
        for (uint64_t a = 1; a <= 1844; a += sk) for (int k = 0; k < 12; k++) if (mine()) { uint64_t rest = k == 0 ? 0 : k == 1 ? 9999999999999999ULL : k == 2 ? 99999999ULL : k == 3 ? 100000000ULL : k == 4 ? 1 : r() % 10000000000000000ULL; if (a == 1844) rest %= 6744073709551616ULL; all64(a * 10000000000000000ULL + rest, k < 2); count("leading_groups")++; }
        for (uint64_t q = 0; q < 10000; q += sk) for (int pos = 0; pos < 4; pos++) for (int k = 0; k < 3; k++) if (mine()) { uint64_t w = 1; for (int j = 0; j < pos; j++) w *= 10000; uint64_t hi = k == 0 ? 1 : k == 1 ? 0 : r.below(1000000 / (pos == 3 ? 1000 : 1)), lo = k == 2 ? r() % w : 0; uint64_t x = q * w + lo; if (hi <= 1800 / (pos == 3 ? 1 : 1)) x += hi * w * 10000; all64(x, false); count("quads_at_position")++; }
    }
    // 64 bit, decimal parts (quotients and remainders by powers of ten) with structured bits
    {
        uint64_t rounds = scaled(600000), w = 1;
        for (int k = 1; k <= 19; k++) {
            w *= 10; uint64_t top = ~0ULL / w;
            for (uint64_t q = 0; q < rounds; q++) {
                auto part = [&](uint64_t limit) -> uint64_t {   // below or at the limit
                    uint64_t v; int i = (int) r.below(64);
                    switch (r.below(10)) { case 0: v = 1ULL << i; break; case 1: v = (1ULL << i) - 1; break; case 2: v = (1ULL << i) + 1; break; case 3: v = (r() << 32) | 0xffffffffULL; break; case 4: v = r() << 32; break; case 5: v = (r() << 32) | (r.chance(1, 2) ? 0x80000000ULL : 0x7fffffffULL); break; case 6: v = (r() << 16) | (r.chance(1, 2) ? 0xffffULL : 0x8000ULL); break; case 7: v = limit - r.below(3); break; case 8: v = r() >> i; break; default: v = r(); }
                    if (limit + 1) { if (v > limit) { int b = 64 - __builtin_clzll(limit | 1); v = b < 64 ? v & ((1ULL << b) - 1) : v; if (v > limit) v &= (1ULL << (b - 1)) - 1; } }
                    return v;
                };
                uint64_t a = part(top), rest = part(w - 1); if (a == top && rest > ~0ULL - top * w) rest = ~0ULL - top * w;
                all64(a * w + rest, (q & 15) == 0); count("structured_parts")++;
            }
        }
    }
    // 64 bit, every pair at every pair position on three backgrounds
    for (int pos = 0; pos < 9; pos++) {
        uint64_t w = 1; for (int i = 0; i < pos; i++) w *= 100;
        for (uint64_t pr = 0; pr < 100; pr++) for (int bg = 0; bg < 8; bg++) {
            if (!mine()) continue;
            uint64_t base = bg == 0 ? 0 : bg == 1 ? 9999999999999999999ULL % (w * 100 < w ? ~0ULL : 10000000000000000000ULL) : r() ;
            uint64_t low = base % w, high = base / w / 100;
            all64((high * 100 + pr) * w + low, bg < 3); count("pair_positions")++;
        }
    }
    {   // one bit changed at a time: nothing may be remembered from the value before
        uint64_t m = scaled(800000), x = r();
        for (uint64_t i = 0; i < m; i++) { switch (r.below(5)) { case 0: case 1: x ^= 1ULL << r.below(64); break; case 2: x = (x & 0xffffffffULL) | (r() << 32); break; case 3: x = 0 - x; break; default: x++; } all64(x, (i & 63) == 0); }
        count("one_bit_chain") += m;
    }
    // random: log-uniform magnitude, digit runs, uniform bits, random digit count
    uint64_t n = scaled(2e7);
    ctxOp("random");
    for (uint64_t i = 0; i < n; i++) {
        uint64_t x;
        switch (i & 3) {
            case 0: x = r() >> r.below(64); break;
            case 1: { int len = 1 + (int) r.below(19); x = 0; unsigned d = (unsigned) r.below(10); for (int k = 0; k < len; k++) { if (r.chance(1, 4)) d = (unsigned) r.below(10); x = x * 10 + d; } break; }
            case 2: { int len = 1 + (int) r.below(20); uint64_t m = 1; for (int k = 1; k < len; k++) m *= 10; x = m + r.below(len == 20 ? 8446744073709551615ULL : m * 9); break; }
            default: x = r();
        }
        all64(x, (i & 1023) < 4);
    }
    count("random_64_bit") += n;
    for (int p = 0; p < 10; p++) for (int q = 0; q < 100; q++) if (pairSeen[p][q]) { char b[16]; snprintf(b, sizeof b, "%d:%02d", p, q); cls("pair_at_position", b); }
    for (int s = 0; s < 2; s++) for (int l = 1; l < 24; l++) if (lenSeen[s][l]) cls("text_length", (s ? "neg" : "pos") + std::to_string(l));
    sample("unsigned long long 18446744073709551615 -> " + lexi::lexi(~0ULL));
    sample("long long min -> " + lexi::lexi(std::numeric_limits<long long>::min()));
    { uint64_t x = r(); sample("random " + std::to_string(x) + " -> " + lexi::lexi((unsigned long long) x)); }
    finish();
}
#endif
