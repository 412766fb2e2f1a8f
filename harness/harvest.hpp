// Workloads made of the constants and texts that the library itself contains
// (found by the driver in its sources and objects): if it treats some value in
// a special way, that value is likely among them.
#pragma once
#include "mon.hpp"
namespace gen {
// words: literals with neighbours, multiples and negatives; every window of the objects
template <class F> void constants(F f, uint64_t thin = 1, int near = 9) {
    using namespace mon;
    for (uint64_t n : harvest().lits) for (int d = -near; d <= near; d++) if (mine()) { uint64_t x = n + (uint64_t) (int64_t) d; f(x); f(0 - x); f(x * 2); f(x >> 1); f(~x); f(x * 10); count("harvested_constants") += 6; }
    uint64_t k = 0, step = thin * (st().scale < 0.05 ? 50 : st().scale < 0.2 ? 8 : 1);
    for (uint64_t n : harvest().wins) if (k++ % step == 0 && mine()) { f(n); f(n - 1); f(n + 1); f(0 - n); count("harvested_words") += 4; }
}
// texts: each with small changes, pairs of them, pairs with something between
template <class F> void texts(F f) {
    using namespace mon;
    static const char *around[] = {"5", "-5", " ", "x", "\n", "q7", "0", "\""};
    for (auto &s : harvest().strs) {
        if (!mine()) continue;
        f(s); f(s + s); f(s + std::string(1, '\0')); f(s.substr(1)); f(s.substr(0, s.size() - 1));
        for (auto a : around) { f(s + a); f(a + s); f(a + s + a); f(s + a + s); }
        std::string u = s, l = s; for (auto &c : u) if (c >= 'a' && c <= 'z') c ^= 32; for (auto &c : l) if (c >= 'A' && c <= 'Z') c ^= 32; f(u); f(l);
        for (size_t L : {8u, 15u, 16u, 31u, 32u, 40u, 64u, 100u, 256u}) { std::string z(L, 'z'), n(L, '1'); f(s + z); f(z + s); f(z + s + z); f(s + n); f(n + s); f(n + s + n); }
        count("harvested_texts") += 64;
    }
    uint64_t k = 0, step = st().scale < 0.05 ? 50 : st().scale < 0.2 ? 8 : 1;
    for (auto &a : harvest().strs) for (auto &b : harvest().strs) if (k++ % step == 0 && mine()) { f(a + b); f(a + "k" + b); f(a + "1234567" + b); count("harvested_text_pairs") += 3; }
}
// one of the literals, at or near; one of the texts
inline uint64_t constant(mon::Rng &r, uint64_t other) { auto &v = mon::harvest().lits; if (v.empty()) return other; uint64_t x = v[r.below(v.size())]; if (r.chance(1, 3)) { x += r.below(5); x -= 2; } return x; }
inline std::string text(mon::Rng &r, const std::string &other) { auto &v = mon::harvest().strs; if (v.empty()) return other; return v[r.below(v.size())]; }
}
