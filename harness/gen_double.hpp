// Workload of doubles for the floating-point formatting monitors.
#pragma once
#include "mon.hpp"
#include "harvest.hpp"
#include "edge_doubles.hpp"
#include <cmath>
#include <cfloat>
namespace gen {
inline double fromBits(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

// 10^q correctly rounded to 64 bits, q in -345 .. 310
struct Tens { long double p[656]; Tens() { for (int q = -345; q <= 310; q++) { char t[16]; snprintf(t, sizeof t, "1e%d", q); p[q + 345] = strtold(t, nullptr); } } };
inline const Tens &tens() { static const Tens t; return t; }

// calls f(double) for finite, non-zero doubles; volume is for the whole run
template <class F> void doubles(mon::Rng &r, double volume, F f) {
    using namespace mon;
    auto emit = [&](uint64_t b) { double d = fromBits(b); if (std::isfinite(d) && d != 0) f(d); };
    bool small = st().scale < 0.2;
    constants([&](uint64_t x) { emit(x); emit(bits((double) x)); emit(bits((double) (int64_t) x)); uint32_t u = (uint32_t) x; float g; memcpy(&g, &u, 4); emit(bits((double) g)); emit(bits((double) (float) fromBits(x))); }, volume < 2e6 ? 4 : 1);
    // every binary exponent with structured significands, both signs
    for (uint64_t e = 0; e < 2047; e++) {
        if (!mine()) continue;
        const uint64_t M = (1ULL << 52) - 1;
        for (uint64_t s : {(uint64_t) 0, (uint64_t) 1, (uint64_t) 2, (uint64_t) 3, M, M - 1, M - 2, M / 2, M / 2 + 1, M / 3, M / 5, M / 10}) { emit(e << 52 | s); if (e % 5 == 0) emit(1ULL << 63 | e << 52 | s); }
        for (int k = 0; k < 52; k += small ? 7 : 1) { emit(e << 52 | 1ULL << k); emit(e << 52 | ((1ULL << k) - 1)); emit(e << 52 | (M ^ (1ULL << k))); }
        count("binary_exponents")++;
    }
    // every power of ten times 1..9 and its neighbours
    for (int e = -324; e <= 308; e++) for (int m = 1; m < 10; m++) {
        if (!mine()) continue;
        char t[32]; snprintf(t, sizeof t, "%de%d", m, e); double d = strtod(t, nullptr);
        if (d == 0 || !std::isfinite(d)) continue;
        for (int k = small ? -1 : -8; k <= (small ? 1 : 8); k++) emit(bits(d) + (uint64_t) (int64_t) k);
        count("decimal_exponents_x_digit")++;
    }
    for (uint64_t b : INTERVAL_EDGES) { if (!mine()) continue; emit(b); emit(1ULL << 63 | b); count("interval_edges")++; }
    uint64_t n = (uint64_t) (volume * st().scale / st().shards); if (n < 10) n = 10;
    uint64_t edges = 0;
    // random over several distributions
    for (uint64_t i = 0; i < n; i++) {
        switch (i % 13) {
            case 0: case 1: emit(r()); break;
            case 2: { uint64_t e = (i / 13) % 2047; emit(e << 52 | (r() & ((1ULL << 52) - 1))); break; }   // uniform over exponents
            case 3: { // fixed-notation range
                uint64_t e = 1023 - 22 + r.below(95), b = r() & 0x800fffffffffffffULL; emit(b | e << 52); break; }
            case 4: { // decimal with few digits
                int nd = 1 + (int) r.below(17); uint64_t m = 1; for (int k = 0; k < nd; k++) m *= 10;
                uint64_t dig = 1 + r.below(m - 1); int q = (int) r.below(640) - 330; char t[48]; snprintf(t, sizeof t, "%llue%d", (unsigned long long) dig, q); emit(bits(strtod(t, nullptr)) | (r() & (1ULL << 63))); break; }
            case 5: { // integers and hundredths
                uint64_t v = r(); double d = (double) (int64_t) (v >> r.below(64)); if (r.chance(1, 2)) d /= 100; else if (r.chance(1, 3)) d /= 1000000; emit(bits(d)); break; }
            case 6: { uint64_t s = r() & ((1ULL << 52) - 1); s >>= r.below(52); s <<= r.below(52); emit(r.below(2047) << 52 | (s & ((1ULL << 52) - 1))); break; }
            case 7: { float g; uint32_t u = (uint32_t) r(); memcpy(&g, &u, 4); emit(bits((double) g)); break; }
            default: { // neighbours of short decimals that lie next to the midpoint of two doubles
                for (int tries = 0; tries < 60; tries++) {
                    int nd = 1 + (int) r.below(17); uint64_t m = 1; for (int k = 0; k < nd; k++) m *= 10;
                    uint64_t dig = 1 + r.below(m - 1);
                    // the product of two 64-bit significands is within about one unit of exact; low accepts two
                    int q = r.chance(1, 2) ? (int) r.below(39) - 27 : (int) r.below(650) - 340;
                    long double x = (long double) dig * tens().p[q + 345];
                    uint64_t mant; memcpy(&mant, &x, 8);
                    uint64_t low = mant & 0x7ff;
                    if (low >= 0x3fe && low <= 0x402) {
                        double d = (double) x; if (d == 0 || !std::isfinite(d)) continue;
                        uint64_t b = bits(d); emit(b); emit(b + 1); emit(b - 1); edges++; break;
                    }
                }
            }
        }
    }
    count("edge_decimals") += edges;
    count("random_doubles") += n;
}
}
