// Workload of 64-bit words for the integer monitors.
#pragma once
#include "mon.hpp"
#include "harvest.hpp"
namespace gen {
// calls f(word, directed); volume is for the whole run, over all shards
template <class F> void words(mon::Rng &r, double volume, F f) {
    using namespace mon;
    double share = volume * st().scale / 6 + 1000;    // per family
    auto stride = [&](double total) { double s = total / share; return s < 1 ? (uint64_t) 1 : (uint64_t) s; };
    uint64_t k = 0;
    auto take = [&](uint64_t s) { return k++ % s == 0 && mine(); };
    constants([&](uint64_t x) { f(x, true); }, volume < 500000 ? 16 : volume < 3e6 ? 4 : 1);
    {   // around powers of ten, two, and the limits of the types
        std::vector<uint64_t> base = {0, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, ~0ULL};
        uint64_t t = 1; for (int i = 0; i < 20; i++) { for (int m = 1; m < 10; m++) if (t <= ~0ULL / (uint64_t) m) base.push_back(t * (uint64_t) m); if (i < 19) t *= 10; }
        for (int i = 0; i < 64; i++) base.push_back(1ULL << i);
        int span = (int) (share / (double) base.size() / 4); if (span < 3) span = 3; if (span > 1500) span = 1500;
        for (uint64_t b : base) for (int d = -span; d <= span; d++) if (mine()) { uint64_t x = b + (uint64_t) (int64_t) d; f(x, d >= -2 && d <= 2); f(0 - x, false); count("around_boundaries") += 2; }
    }
    {   // four-digit blocks with boundary values in every combination
        static const unsigned B[] = {0, 1, 9, 10, 11, 90, 99, 100, 101, 909, 999, 1000, 1001, 9090, 9999}; const uint64_t nb = 15; uint64_t s = stride(759375 * 0.8);
        for (uint64_t q = 0; q < nb * nb * nb * nb * nb; q++) { uint64_t c = q, x = 0; if (B[c % nb] > 1843) continue; if (!take(s)) continue; for (int i = 0; i < 5; i++) { x = x * 10000 + B[c % nb]; c /= nb; } f(x, (q & 63) == 0); count("block_combinations")++; }
    }
    {   // every leading group above 10^16 and every quad at every position, with plain and random rest
        uint64_t s = stride(1844 * 12 + 120000);
        for (uint64_t a = 1; a <= 1844; a++) for (int j = 0; j < 12; j++) if (take(s)) { uint64_t rest = j == 0 ? 0 : j == 1 ? 9999999999999999ULL : j == 2 ? 99999999ULL : j == 3 ? 100000000ULL : j == 4 ? 1 : r() % 10000000000000000ULL; if (a == 1844) rest %= 6744073709551616ULL; f(a * 10000000000000000ULL + rest, j < 2); count("leading_groups")++; }
        for (uint64_t q = 0; q < 10000; q++) for (int pos = 0; pos < 4; pos++) for (int j = 0; j < 3; j++) if (take(s)) { uint64_t w = 1; for (int i = 0; i < pos; i++) w *= 10000; uint64_t hi = j == 0 ? 1 : j == 1 ? 0 : r.below(1000000 / (pos == 3 ? 1000 : 1)), lo = j == 2 ? r() % w : 0; uint64_t x = q * w + lo; if (hi <= 1800) x += hi * w * 10000; f(x, false); count("quads_at_position")++; }
        for (int pos = 0; pos < 9; pos++) { uint64_t w = 1; for (int i = 0; i < pos; i++) w *= 100; for (uint64_t pr = 0; pr < 100; pr++) for (int bg = 0; bg < 8; bg++) { if (!mine()) continue; uint64_t b = bg == 0 ? 0 : bg == 1 ? 9999999999999999999ULL : r(); f((b / w / 100 * 100 + pr) * w + b % w, bg < 3); count("pair_positions")++; } }
    }
    {   // quotients and remainders by powers of ten with structured bits
        uint64_t n = (uint64_t) (share * 2 / 19 / st().shards) + 1, w = 1;
        for (int j = 1; j <= 19; j++) {
            w *= 10; uint64_t top = ~0ULL / w;
            for (uint64_t q = 0; q < n; q++) {
                auto part = [&](uint64_t limit) -> uint64_t {   // at most the limit
                    uint64_t v; int i = (int) r.below(64);
                    switch (r.below(10)) { case 0: v = 1ULL << i; break; case 1: v = (1ULL << i) - 1; break; case 2: v = (1ULL << i) + 1; break; case 3: v = (r() << 32) | 0xffffffffULL; break; case 4: v = r() << 32; break; case 5: v = r() << 32; v |= r.chance(1, 2) ? 0x80000000ULL : 0x7fffffffULL; break; case 6: v = r() << 16; v |= r.chance(1, 2) ? 0xffffULL : 0x8000ULL; break; case 7: v = limit - r.below(3); break; case 8: v = r() >> i; break; default: v = r(); }
                    if (limit + 1 && v > limit) { int b = 64 - __builtin_clzll(limit | 1); v = b < 64 ? v & ((1ULL << b) - 1) : v; if (v > limit) v &= (1ULL << (b - 1)) - 1; }
                    return v;
                };
                uint64_t a = part(top), rest = part(w - 1); if (a == top && rest > ~0ULL - top * w) rest = ~0ULL - top * w;
                uint64_t x = a * w + rest; f(r.chance(1, 4) ? 0 - x : x, (q & 15) == 0); count("structured_parts")++;
            }
        }
    }
    {   // one bit changed at a time: nothing may be remembered from the value before
        uint64_t n = (uint64_t) (share / 4 / st().shards), x = r();
        for (uint64_t i = 0; i < n; i++) { switch (r.below(5)) { case 0: case 1: x ^= 1ULL << r.below(64); break; case 2: x = (x & 0xffffffffULL) | (r() << 32); break; case 3: x = 0 - x; break; default: x++; } f(x, (i & 63) == 0); }
        count("one_bit_chain") += n;
    }
    {   // random: log-uniform magnitude, digit runs, uniform bits, random digit count
        uint64_t n = (uint64_t) (share * 1.75 / st().shards) + 1;
        for (uint64_t i = 0; i < n; i++) {
            uint64_t x;
            switch (i & 3) {
                case 0: x = r(); x >>= r.below(64); if (r() & 1) x = 0 - x; break;
                case 1: { int len = 1 + (int) r.below(19); x = 0; unsigned d = (unsigned) r.below(10); for (int j = 0; j < len; j++) { if (r.chance(1, 4)) d = (unsigned) r.below(10); x = x * 10 + d; } break; }
                case 2: { int len = 1 + (int) r.below(20); uint64_t m = 1; for (int j = 1; j < len; j++) m *= 10; x = m + r.below(len == 20 ? 8446744073709551615ULL : m * 9); break; }
                default: x = r();
            }
            f(x, (i & 1023) < 4);
        }
        count("random_words") += n;
    }
}
}
