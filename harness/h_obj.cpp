// C13: formatter objects are self-contained values with consistent views.
// A pool of formatters of every kind lives through random histories of
// construction, copy, move, assignment, swap, container growth and
// destruction (freed storage is overwritten); after every operation the
// monitor compares every view of the objects concerned, and from time to time
// of all live objects, with a model that is only a std::string per object.
#include <lexi/lexi.hpp>
#include "mon.hpp"
#include "harvest.hpp"
#include <algorithm>
#include <memory>
#include <new>
#include <cmath>
#include <deque>
#include <list>
using namespace mon;

static std::string history;   // last operations, for the report
static void note(const std::string &op) { history += op + "; "; if (history.size() > 900) history.erase(0, history.size() - 700); st().ctx->progress.fetch_add(1, std::memory_order_relaxed); }

template <class F> static void views(const F &f, const std::string &w, const char *kind) {
    eval();
    size_t n = f.size();
    auto bad = [&](const char *what, const std::string &g) { fail(std::string("object.") + kind + "." + what, "%s of a %s is %s, expected %s; history: %s", what, kind, show(g).c_str(), show(w).c_str(), history.c_str()); };
    if (n != w.size()) { bad("size", std::to_string(n)); return; }
    if (f.length() != n) { bad("length", std::to_string(f.length())); return; }
    if (memcmp(f.data(), w.data(), n)) { bad("data", std::string(f.data(), n)); return; }
    if (memcmp(f.c_str(), w.data(), n)) { bad("c_str", std::string(f.c_str(), n)); return; }
    if (f.c_str()[n] != 0 || f.data()[n] != 0) { bad("terminator", std::string(f.data(), n + 1)); return; }
    std::string a = f.string(), b = std::string(f), c = static_cast<std::string>(f);
    if (a != w) bad("string", a); if (b != w) bad("conversion", b); if (c != w) bad("conversion", c);
}

// ---- making formatters with a known text (the text is fixed at birth from an
// independent source where there is one)
static std::string dec(__int128 v) { bool neg = v < 0; unsigned __int128 w = neg ? (unsigned __int128) 0 - (unsigned __int128) v : (unsigned __int128) v; std::string t; do { t.insert(t.begin(), (char) ('0' + (int) (w % 10))); w /= 10; } while (w); if (neg) t.insert(t.begin(), '-'); return t; }
enum class En : long long {};
template <class F> struct Maker;
template <> struct Maker<lexi::FormatInt> {
    static constexpr const char *name = "FormatInt";
    static void make(void *p, Rng &r, std::string &w) {
        uint64_t x = r() >> r.below(64); if (r() & 1) x = 0 - x;
        if (r.chance(1, 8)) x = gen::constant(r, x);
        if (r.chance(1, 8)) x = r.chance(1, 2) ? 0x8000000000000000ULL : ~0ULL;
#define C(T) new (p) lexi::FormatInt((T) x); w = dec((__int128) (T) x); break;
        switch (r.below(10)) { case 0: C(int8_t) case 1: C(uint8_t) case 2: C(short) case 3: C(unsigned short) case 4: C(int) case 5: C(unsigned) case 6: C(long) case 7: C(unsigned long) case 8: C(long long) default: C(unsigned long long) }
#undef C
    }
};
template <> struct Maker<lexi::FormatEnum> { static constexpr const char *name = "FormatEnum"; static void make(void *p, Rng &r, std::string &w) { uint64_t x = r() >> r.below(64); new (p) lexi::FormatEnum((En) x); w = dec((long long) x); } };
template <> struct Maker<lexi::FormatFloat> { static constexpr const char *name = "FormatFloat"; static void make(void *p, Rng &r, std::string &w) {
    uint64_t b = r(); double d; if (r.chance(1, 8)) b = gen::constant(r, b); memcpy(&d, &b, 8);
    // the longest texts: 25 characters
    if (r.chance(1, 6)) { d = -1.2345678901234567e-6 * (1 + (double) (b % 1000003) * 1e-6); new (p) lexi::FormatFloat(d); w = lexi::lexi(d); return; }
    switch (r.below(6)) { case 0: d = NAN; break; case 1: d = r.chance(1, 2) ? INFINITY : -INFINITY; break; case 2: d = (double) (int) b / 8; break; case 3: d = -1.2345678901234567e-300 * (1 + (double) (b % 7)); break; default:; }
    switch (r.below(3)) { case 0: w = lexi::lexi(d); new (p) lexi::FormatFloat(d); break; case 1: w = lexi::lexi((float) d); new (p) lexi::FormatFloat((float) d); break; default: w = lexi::lexi((long double) d); new (p) lexi::FormatFloat((long double) d); } } };
template <> struct Maker<lexi::FormatBool> { static constexpr const char *name = "FormatBool"; static void make(void *p, Rng &r, std::string &w) { bool b = r() & 1; new (p) lexi::FormatBool(b); w = b ? "true" : "false"; } };
template <> struct Maker<lexi::FormatNull> { static constexpr const char *name = "FormatNull"; static void make(void *p, Rng &r, std::string &w) { if (r() & 1) new (p) lexi::FormatNull(nullptr); else new (p) lexi::FormatNull(); w = "null"; } };
template <> struct Maker<lexi::FormatChar> { static constexpr const char *name = "FormatChar"; static void make(void *p, Rng &r, std::string &w) { int c = (int) r.below(256); if (r() & 1) new (p) lexi::FormatChar((char) c); else new (p) lexi::FormatChar((unsigned char) c); w = std::string(1, (char) c); } };

template <class F> static F pass(F f) { return f; }
template <class F> static F viaConst(const F &f) { F g = f; return g; }
template <class F> struct Holder { F a; int pad; F b; };

template <class F> static void histories(Rng &r) {
    const char *K = Maker<F>::name;
    cls("formatter", K);
    enum { N = 14 };
    struct Slot { typename std::aligned_storage<sizeof(F), alignof(F)>::type *mem; bool live, known; std::string w; const char *d, *c; size_t n; };
#ifdef FUZZ
    uint64_t rounds = 1;
#else
    uint64_t rounds = scaled(40000);
#endif
    for (uint64_t h = 0; h < rounds; h++) {
        history.clear(); ctxOp(K); ctxNum(h);
        Slot s[N];
        for (auto &x : s) { x.mem = (decltype(x.mem)) malloc(sizeof(F)); memset((void *) x.mem, 0xA5, sizeof(F)); x.live = false; x.known = false; x.d = x.c = nullptr; x.n = 0; }
        auto obj = [&](int i) -> F & { return *reinterpret_cast<F *>(s[i].mem); };
        auto kill = [&](int i) { if (s[i].live) { obj(i).~F(); s[i].live = false; memset((void *) s[i].mem, 0xA5, sizeof(F)); if (r.chance(1, 3)) { free(s[i].mem); s[i].mem = (decltype(s[i].mem)) malloc(sizeof(F)); memset((void *) s[i].mem, 0x5A, sizeof(F)); } } };
        std::vector<F> vec; std::vector<std::string> vecW;
        std::list<F> lst; std::vector<std::string> lstW;
        uint64_t sig = 0, held = 0;
        int steps = 12 + (int) r.below(30);
        for (int t = 0; t < steps; t++) {
            int i = (int) r.below(N), j = (int) r.below(N), op = (int) r.below(18);
            auto needLive = [&](int k) { if (!s[k].live || !s[k].known) { kill(k); Maker<F>::make(s[k].mem, r, s[k].w); s[k].live = s[k].known = true; } };
            std::string I = std::to_string(i), J = std::to_string(j);
            switch (op) {
                case 0: kill(i); Maker<F>::make(s[i].mem, r, s[i].w); s[i].live = s[i].known = true; note("new " + I + "=" + s[i].w); break;
                case 1: case 2: if (i == j) continue; needLive(j); kill(i); new ((void *) s[i].mem) F(obj(j)); s[i].live = s[i].known = true; s[i].w = s[j].w; note("copy " + I + "<-" + J); break;
                case 3: case 4: needLive(i); needLive(j); obj(i) = obj(j); s[i].w = s[j].w; note("assign " + I + "=" + J); break;
                case 5: if (i == j) continue; needLive(j); kill(i); new ((void *) s[i].mem) F(std::move(obj(j))); s[i].live = s[i].known = true; s[i].w = s[j].w; s[j].known = false; note("move " + I + "<-" + J); break;
                case 6: if (i == j) continue; needLive(i); needLive(j); obj(i) = std::move(obj(j)); s[i].w = s[j].w; s[j].known = false; note("move-assign " + I + "=" + J); break;
                case 7: needLive(i); { F &a = obj(i); F &b = a; a = b; } note("self-assign " + I); break;
                case 8: needLive(i); needLive(j); if (i != j) { if (r.below(2)) std::swap(obj(i), obj(j)); else { using std::swap; swap(obj(i), obj(j)); } std::swap(s[i].w, s[j].w); } note("swap " + I + "," + J); break;
                case 9: kill(i); note("destroy " + I); break;
                case 10: needLive(i); vec.push_back(obj(i)); vecW.push_back(s[i].w); note("push " + I); break;
                case 11: { typename std::aligned_storage<sizeof(F), alignof(F)>::type tmp; std::string w; Maker<F>::make(&tmp, r, w); F *p = reinterpret_cast<F *>(&tmp); size_t k = r.below(vec.size() + 1); vec.insert(vec.begin() + (long) k, *p); vecW.insert(vecW.begin() + (long) k, w); p->~F(); memset((void *) &tmp, 0xEE, sizeof tmp); note("insert temporary"); break; }
                case 12: if (!vec.empty()) { size_t k = r.below(vec.size()); vec.erase(vec.begin() + (long) k); vecW.erase(vecW.begin() + (long) k); note("erase"); } break;
                case 13: needLive(i); needLive(j); { F x = pass(obj(i)); F y = viaConst(obj(j)); obj(i) = y; obj(j) = x; if (i != j) std::swap(s[i].w, s[j].w); } note("pass/return " + I + "," + J); break;
                case 14: if (vec.size() > 1) { std::reverse(vec.begin(), vec.end()); std::reverse(vecW.begin(), vecW.end()); std::vector<F> other(vec); vec.swap(other); vec = std::vector<F>(other.begin(), other.end()); vec.shrink_to_fit(); note("reverse and reseat vector"); } break;
                case 15: needLive(i); needLive(j); { Holder<F> a{obj(i), 1, obj(j)}; Holder<F> *b = new Holder<F>(a); Holder<F> c = *b; memset((void *) &a.pad, 0, sizeof a.pad); delete b; c = Holder<F>{c.b, 2, c.a}; views(c.a, s[j].w, K); views(c.b, s[i].w, K); obj(i) = c.b; obj(j) = i == j ? c.b : c.a; } note("aggregate " + I + "," + J); break;
                case 16: needLive(i); lst.push_back(obj(i)); lstW.push_back(s[i].w); if (lst.size() > 6) { lst.pop_front(); lstW.erase(lstW.begin()); } note("list push " + I); break;
                default: if (vec.size() > 1) { std::vector<std::pair<std::string, size_t>> ord; std::sort(vec.begin(), vec.end(), [](const F &a, const F &b) { return a.string() < b.string(); }); std::sort(vecW.begin(), vecW.end()); note("sort vector"); } break;
            }
            sig = mix(sig * 31 + (uint64_t) op * 256 + (uint64_t) (i * 16 + j));
            cls("operation", std::to_string(op)); count("operations")++;
            // views taken earlier of objects this operation did not touch still show their text
            for (int k = 0; k < N; k++) if (k != i && k != j && s[k].live && s[k].known && s[k].d) {
                held++;
                if (s[k].n != s[k].w.size() || memcmp(s[k].d, s[k].w.data(), s[k].n) || memcmp(s[k].c, s[k].w.data(), s[k].n) || s[k].c[s[k].n] || s[k].d[s[k].n])
                    fail(std::string("object.") + K + ".held", "a view of a %s taken before other objects were worked on shows %s, expected %s; history: %s", K, show(std::string(s[k].c, s[k].n)).c_str(), show(s[k].w).c_str(), history.c_str());
            }
            for (int k : {i, j}) s[k].d = s[k].c = nullptr;
            for (int k : {i, j}) if (s[k].live && s[k].known) { views(obj(k), s[k].w, K); s[k].d = obj(k).data(); s[k].c = obj(k).c_str(); s[k].n = obj(k).size(); }
            if (t % 5 == 4 || t == steps - 1) {
                for (int k = 0; k < N; k++) if (s[k].live && s[k].known) views(obj(k), s[k].w, K);
                for (size_t k = 0; k < vec.size(); k++) views(vec[k], vecW[k], K);
                std::vector<const char *> ptr; for (auto &x : vec) { ptr.push_back(x.data()); ptr.push_back(x.c_str()); }
                for (size_t k = 0; k < vec.size(); k++) for (int q = 0; q < 2; q++) if (memcmp(ptr[2 * k + (size_t) q], vecW[k].c_str(), vecW[k].size() + 1)) fail(std::string("object.") + K + ".together", "views of the elements of a vector taken together: element %zu shows %s, expected %s; history: %s", k, show(std::string(ptr[2 * k + (size_t) q], vecW[k].size())).c_str(), show(vecW[k]).c_str(), history.c_str());
                size_t k = 0; for (auto &x : lst) views(x, lstW[k++], K);
            }
            // keep the allocator busy so that stale pointers meet new bytes
            if (t % 4 == 0) { void *junk = malloc(sizeof(F)); memset(junk, 0x77, sizeof(F)); free(junk); }
        }
        distinct(sig); count("histories")++; count("held_views") += held;
        if (h == 0) sample(std::string(K) + ": " + history.substr(0, 160));
        for (int k = 0; k < N; k++) { kill(k); free(s[k].mem); }
    }
}
// a crowd of formatters alive together, and a few that outlive very many others
template <class F> static void crowd(Rng &r) {
    const char *K = Maker<F>::name; ctxOp((std::string(K) + ", many alive").c_str()); history = "many alive together";
    uint64_t n = 1 + scaled(st().shard == 0 ? 300000 : 9000); if (n > 140000) n = 140000; typename std::aligned_storage<sizeof(F), alignof(F)>::type tmp;
    for (int round = 0; round < 2; round++) {
        // some stay where they were constructed, some are copies; in the first round few stay and the others go
        std::vector<decltype(tmp)> place(n); std::vector<F *> at; std::deque<F> copies; std::vector<std::string> want; std::vector<const char *> held;
        for (uint64_t i = 0; i < n; i++) {
            bool stays = round || i < 40; void *m = stays ? &place[i] : &tmp; std::string w; Maker<F>::make((decltype(&tmp)) m, r, w); F *p = reinterpret_cast<F *>(m);
            if (stays) { at.push_back(p); want.push_back(w); held.push_back(p->c_str()); if (i % 4 == 3) { copies.push_back(*p); at.push_back(&copies.back()); want.push_back(w); held.push_back(at.back()->c_str()); } } else { p->~F(); memset((void *) &tmp, 0xEE, sizeof tmp); }
        }
        for (size_t i = 0; i < at.size(); i++) { if (memcmp(held[i], want[i].c_str(), want[i].size() + 1)) fail(std::string("object.") + K + ".crowd", "a view of a %s taken before %llu others were made shows another text than %s", K, (unsigned long long) (n - i), show(want[i]).c_str()); views(*at[i], want[i], K); }
        count("crowds")++; count("alive_together") += at.size();
        for (uint64_t i = 0; i < (round ? n : n < 40 ? n : 40); i++) reinterpret_cast<F *>(&place[i])->~F();
    }
}
// slicing an enum formatter to its integer base
static void slicing(Rng &r) {
    uint64_t n = scaled(200000);
    for (uint64_t i = 0; i < n; i++) {
        long long x = (long long) (r() >> r.below(64)); std::string w = dec(x);
        lexi::FormatEnum *e = new lexi::FormatEnum((En) x); lexi::FormatInt b(*e); lexi::FormatInt c(0); c = *e; delete e;
        history = "slice " + w; views(b, w, "FormatInt"); views(c, w, "FormatInt"); count("slices")++;
        // a formatter from the generic entry point, kept by value
        auto f = lexi::Format()((double) x / 4); std::string fw = lexi::lexi((double) x / 4); auto g = f; f = lexi::Format()(0.5); views(g, fw, "FormatFloat"); views(f, "0.5", "FormatFloat");
    }
}
// every value keeps its views right after construction, over a broad set
static void fresh(Rng &r) {
    uint64_t n = scaled(1000000);
    ctxOp("fresh formatter");
    for (uint64_t i = 0; i < n; i++) {
        uint64_t b = r(); double d; memcpy(&d, &b, 8); ctxNum(b);
        if (i % 8 == 0) { d = -1.0e-6 * (1 + (double) (b % 9000000000000001ULL) * 1e-15); }
        lexi::FormatFloat f(d); history = "fresh"; views(f, lexi::lexi(d), "FormatFloat");
        if (strlen(f.c_str()) != f.size()) fail("object.FormatFloat.strlen", "C string of %a is %zu bytes, size is %zu", d, strlen(f.c_str()), f.size());
        { lexi::FormatFloat c(f), e(0.5); e = f; f = lexi::FormatFloat(7.0); views(c, lexi::lexi(d), "FormatFloat"); views(e, lexi::lexi(d), "FormatFloat"); f = c; }
        uint64_t x = b >> (i % 64); lexi::FormatInt g((long long) x), u((unsigned long long) x); views(g, dec((long long) x), "FormatInt"); views(u, dec((unsigned long long) x), "FormatInt");
        if (strlen(g.c_str()) != g.size() || strlen(u.c_str()) != u.size()) fail("object.FormatInt.strlen", "C string length of %lld differs from its size", (long long) x);
    }
    count("fresh_objects") += n * 3;
}
#ifdef FUZZ
#define FUZZ_RUNS 3e5
#define FUZZ_LEN 250
static void fuzzInit() {}
static std::vector<std::string> fuzzSeeds() { std::vector<std::string> v; Rng r = rng(99); for (int i = 0; i < 12; i++) { std::string s(1, (char) i); for (int k = 0; k < 60; k++) s += (char) r.below(256); v.push_back(s); } return v; }
static void fuzzOne(Feed &f) {
    uint8_t k = f.byte(); Rng r(hashBytes(f.p, f.n)); r.feed = &f;
    switch (k % 6) { case 0: histories<lexi::FormatInt>(r); break; case 1: histories<lexi::FormatFloat>(r); break; case 2: histories<lexi::FormatEnum>(r); break; case 3: histories<lexi::FormatBool>(r); break; case 4: histories<lexi::FormatNull>(r); break; default: histories<lexi::FormatChar>(r); }
}
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(13);
    histories<lexi::FormatInt>(r); histories<lexi::FormatFloat>(r); histories<lexi::FormatEnum>(r); histories<lexi::FormatBool>(r); histories<lexi::FormatNull>(r); histories<lexi::FormatChar>(r);
    crowd<lexi::FormatInt>(r); crowd<lexi::FormatFloat>(r); crowd<lexi::FormatEnum>(r); crowd<lexi::FormatBool>(r); crowd<lexi::FormatNull>(r); crowd<lexi::FormatChar>(r);
    slicing(r); fresh(r);
    finish();
}
#endif
