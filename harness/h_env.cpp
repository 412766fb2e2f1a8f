// C16: results depend on the arguments alone.
// A pristine child process records the outcome of a list of conversions. Then
// one fresh child per environment (C locale global or per thread, C++ global
// locale, errno, rounding mode, foreign history) makes its first conversions
// in that environment, changes environments midway, and compares outcomes.
// LOCPATH names the locales the driver compiled; --extra lists their names.
#include "ops.hpp"
#include <cfenv>
#include <cerrno>
#include <clocale>
#include <locale>
#include <sstream>
#include <functional>
#include <algorithm>
#include <locale.h>
#include <signal.h>
#include <sys/wait.h>
using namespace mon;
typedef std::vector<std::pair<int, uint64_t>> Plan;

struct Punct: std::numpunct<char> {
    char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; } std::string do_falsename() const override { return "falsch"; }
};
struct Ctype: std::ctype<char> {   // a classification under which every byte is alphanumeric and spaces are not spaces
    static const mask *tab() { static mask t[table_size]; for (auto &m : t) m = alnum | alpha | digit | xdigit; return t; }
    Ctype(): std::ctype<char>(tab()) {}
};
static const auto &O() { return ops::all(); }
static std::vector<uint64_t> expect;
static std::string one(int op, uint64_t x) { return O()[(size_t) op].run(x); }
static uint64_t h(const std::string &s) { return hashBytes(s.data(), s.size()); }

// a getenv of the monitor's own: in some environments every variable anybody asks for is set
static const char *everyVariable = nullptr; static uint64_t asked = 0;
extern "C" char **environ;
extern "C" char *getenv(const char *name) noexcept {
    if (everyVariable) { asked++; return (char *) everyVariable; }
    size_t n = strlen(name); for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return nullptr;
}
extern "C" char *secure_getenv(const char *name) noexcept { return getenv(name); }
struct Env { std::string name; std::function<void()> enter; std::function<void()> leave; bool rounding; };
static std::vector<std::string> locales;
static std::vector<Env> envs() {
    std::vector<Env> v;
    auto nop = [] {};
    v.push_back({"pristine", nop, nop, false});
    for (auto &l : locales) {
        v.push_back({"setlocale " + l, [l] { if (!setlocale(LC_ALL, l.c_str())) { fprintf(stderr, "no locale %s\n", l.c_str()); _exit(9); } }, [] { setlocale(LC_ALL, "C"); }, false});
        v.push_back({"setlocale LC_NUMERIC " + l, [l] { setlocale(LC_NUMERIC, l.c_str()); }, [] { setlocale(LC_ALL, "C"); }, false});
        v.push_back({"setlocale LC_CTYPE " + l, [l] { setlocale(LC_CTYPE, l.c_str()); }, [] { setlocale(LC_ALL, "C"); }, false});
        v.push_back({"uselocale " + l, [l] { locale_t t = newlocale(LC_ALL_MASK, l.c_str(), (locale_t) 0); if (!t) { fprintf(stderr, "no locale %s\n", l.c_str()); _exit(9); } uselocale(t); }, [] { locale_t t = uselocale(LC_GLOBAL_LOCALE); if (t != LC_GLOBAL_LOCALE) freelocale(t); }, false});
        v.push_back({"std::locale " + l, [l] { try { std::locale::global(std::locale(l.c_str())); } catch (...) { setlocale(LC_ALL, l.c_str()); } }, [] { std::locale::global(std::locale::classic()); }, false});
        v.push_back({"C++ numeric facets of " + l, [l] { try { std::locale::global(std::locale(std::locale::classic(), l.c_str(), std::locale::numeric)); } catch (...) { setlocale(LC_ALL, l.c_str()); } }, [] { std::locale::global(std::locale::classic()); }, false});
    }
    v.push_back({"std::locale own numpunct", [] { std::locale::global(std::locale(std::locale::classic(), new Punct)); }, [] { std::locale::global(std::locale::classic()); }, false});
    v.push_back({"std::locale own ctype", [] { std::locale::global(std::locale(std::locale::classic(), new Ctype)); }, [] { std::locale::global(std::locale::classic()); }, false});
    for (int e : {ERANGE, EINVAL, ENOMEM, -1, 12345}) v.push_back({"errno " + std::to_string(e), [e] { errno = e; }, [] { errno = 0; }, false});
    static const std::pair<int, const char *> rm[] = {{FE_UPWARD, "upward"}, {FE_DOWNWARD, "downward"}, {FE_TOWARDZERO, "toward zero"}};
    for (auto &m : rm) v.push_back({std::string("rounding ") + m.second, [m] { fesetround(m.first); }, [] { fesetround(FE_TONEAREST); }, true});
    for (auto &m : rm) if (!locales.empty()) v.push_back({std::string("rounding ") + m.second + " and " + locales[0], [m] { fesetround(m.first); setlocale(LC_ALL, locales[0].c_str()); }, [] { fesetround(FE_TONEAREST); setlocale(LC_ALL, "C"); }, true});
    v.push_back({"raised exceptions", [] { feraiseexcept(FE_ALL_EXCEPT); }, [] { feclearexcept(FE_ALL_EXCEPT); }, false});
    v.push_back({"environment variables", [] { setenv("LC_ALL", locales.empty() ? "C.UTF-8" : locales[0].c_str(), 1); setenv("LANG", "tr_TR", 1); setenv("LC_NUMERIC", "de_DE", 1); setenv("TZ", "Asia/Kathmandu", 1); setlocale(LC_ALL, ""); }, [] { setlocale(LC_ALL, "C"); }, false});
    for (const char *x : {"1", "0", "", "de_DE.UTF-8", ",", "true"}) v.push_back({std::string("every variable is \"") + x + "\"", [x] { everyVariable = x; }, [] { everyVariable = nullptr; }, false});
    return v;
}
static void history(Rng &r, int n) {
    // foreign conversions, successful, failing and out of range
    for (int i = 0; i < n; i++) switch (r.below(5)) {
        case 0: ops::caught([&] { return std::string(lexi::lexi<bool>("maybe") ? "" : ""); }); break;
        case 1: lexi::lexi<double>("1e999999"); lexi::lexi<double>("1e-999999"); lexi::lexi<int>("99999999999999999999999999"); lexi::lexi<double>("junk"); break;
        case 2: ops::caught([&] { return std::string(1, lexi::lexi<char>("")); }); break;
        case 3: lexi::lexi(ops::dbl(r())); lexi::lexi(NAN); break;
        default: one((int) r.below(O().size()), r());
    }
}
static void judge(const Plan &p, size_t i, const std::string &got, const std::string &env) {
    eval();
    if (h(got) != expect[i]) fail("environment." + std::string(O()[(size_t) p[i].first].name), "\"%s\" with argument %llu gives %s in environment \"%s\", something else in a pristine process", O()[(size_t) p[i].first].name, (unsigned long long) p[i].second, show(got).c_str(), env.c_str());
}
// runs f in a child; its FAIL lines go to stdout, its counts come back
static void inChild(const std::function<void()> &f) {
    fflush(stdout);
    int fd[2]; if (pipe(fd)) _exit(9);
    pid_t pid = fork();
    if (pid < 0) _exit(9);
    if (!pid) { close(fd[0]); st().evaluations = 0; st().fails = 0; f(); uint64_t c[2] = {st().evaluations, st().fails}; fflush(stdout); if (write(fd[1], c, sizeof c) != (ssize_t) sizeof c) _exit(9); _exit(0); }
    close(fd[1]); uint64_t c[2] = {0, 0}; ssize_t n = read(fd[0], c, sizeof c); close(fd[0]);
    int ws = 0; waitpid(pid, &ws, 0);
    if (WIFSIGNALED(ws)) { signal(WTERMSIG(ws), SIG_DFL); raise(WTERMSIG(ws)); _exit(9); }
    if (WEXITSTATUS(ws)) _exit(WEXITSTATUS(ws));
    if (n == (ssize_t) sizeof c) { st().evaluations += c[0]; st().fails += c[1]; }
}
// ---- order: chains of arguments that resemble their predecessors (one bit,
// one byte, same length, same object) are converted forwards, backwards,
// shuffled and each twice, in separate processes; the outcomes must agree.
struct Step { int kind; uint64_t x; std::string t; };
static std::string slot;   // all texts are presented in this one object
static std::string conv(const Step &s) {
    double d; memcpy(&d, &s.x, 8);
    switch (s.kind) {
        case 0: return lexi::lexi(d) + "|" + lexi::FormatFloat(d).c_str(); case 1: return lexi::lexi((float) d) + "|" + lexi::lexi((long double) d); case 2: return lexi::lexi((long long) s.x) + "|" + lexi::lexi((unsigned) s.x) + "|" + lexi::lexi((short) s.x);
        default: break;
    }
    slot = s.t;
    switch (s.kind) {
        case 3: return ops::raw(lexi::lexi<long long>(slot)) + ops::raw(lexi::lexi<unsigned char>(slot)); case 4: return ops::rawf(lexi::lexi<double>(slot)) + ops::rawf(lexi::lexi<float>(slot)) + ops::rawf(lexi::lexi<long double>(slot));
        case 5: return lexi::escape(slot); case 6: return lexi::jsonify(slot); case 7: return ops::caught([&] { return std::string(lexi::lexi<bool>(slot) ? "T" : "F"); }); case 8: return ops::caught([&] { return std::string(lexi::lexi<std::nullptr_t>(slot) == nullptr ? "N" : "?"); });
        case 9: return lexi::string(slot) + lexi::lexi(slot.c_str()); default: return ops::caught([&] { return std::string(1, lexi::lexi<char>(slot)); });
    }
}
// ---- arguments that a table keyed by a hash would mistake for one another
static uint32_t weak(int which, const std::string &t) {
    uint32_t h = which == 0 ? 2166136261u : which == 1 ? 5381u : which == 2 ? 0xffffffffu : which == 7 ? 5381u : 0;
    switch (which) {
        case 0: for (unsigned char c : t) h = (h ^ c) * 16777619u; break;                       // FNV-1a
        case 1: for (unsigned char c : t) h = h * 33 + c; break;                                // djb2
        case 2: for (unsigned char c : t) { h ^= c; for (int k = 0; k < 8; k++) h = h >> 1 ^ (h & 1 ? 0xedb88320u : 0); } break;   // CRC-32
        case 3: for (unsigned char c : t) h = h * 31 + c; break;                                // as in Java
        case 4: for (unsigned char c : t) h = c + (h << 6) + (h << 16) - h; break;              // sdbm
        case 5: h = (uint32_t) std::hash<std::string>()(t); break;                              // its lower half
        case 6: for (unsigned char c : t) { h += c; h += h << 10; h ^= h >> 6; } h += h << 3; h ^= h >> 11; h += h << 15; break;   // one at a time
        case 7: for (unsigned char c : t) h = h * 33 ^ c; break;
        default: { uint64_t f = 1469598103934665603ULL; for (unsigned char c : t) f = (f ^ c) * 1099511628211ULL; h = (uint32_t) (which == 8 ? f : f ^ f >> 32); }   // FNV-1a, 64 bits, folded
    }
    return h;
}
static const int WEAK = 10;
// pairs of texts of equal length, found by their birthdays
static const std::vector<std::pair<std::string, std::string>> &twins() {
    static std::vector<std::pair<std::string, std::string>> v;
    if (!v.empty()) return v;
    Rng r(4711);
    for (int digits = 0; digits < 2; digits++) for (int w = 0; w < WEAK; w++) {
        std::vector<std::pair<uint32_t, std::string>> all;
        for (int i = 0; i < 90000; i++) { std::string t(digits ? 14 : 9, 0); for (auto &c : t) c = digits ? (char) ('0' + r.below(10)) : (char) (32 + r.below(95)); if (digits && t[0] == '0') t[0] = '7'; all.push_back({weak(w, t), t}); }
        std::sort(all.begin(), all.end()); int got = 0;
        for (size_t i = 1; i < all.size() && got < 6; i++) if (all[i].first == all[i - 1].first && all[i].second != all[i - 1].second) { v.push_back({all[i - 1].second, all[i].second}); got++; cls("colliding_hash", std::to_string(w)); }
    }
    return v;
}
// another text with the same bytes, sum, exclusive or, or polynomial as before
static void alike(Rng &r, std::string &t) {
    size_t n = t.size(); if (n < 2) return;
    size_t i = r.below(n), j = r.below(n); uint8_t d = (uint8_t) (1 + r.below(3));
    switch (r.below(6)) {
        case 0: std::swap(t[i], t[j]); break;
        case 1: if (i != j) { t[i] = (char) (t[i] + d); t[j] = (char) (t[j] - d); } break;
        case 2: if (i != j) { t[i] = (char) (t[i] ^ d); t[j] = (char) (t[j] ^ d); } break;
        case 3: i = r.below(n - 1); t[i] = (char) (t[i] + 1); t[i + 1] = (char) (t[i + 1] - 31); break;
        case 4: i = r.below(n - 1); t[i] = (char) (t[i] + 1); t[i + 1] = (char) (t[i + 1] - 33); break;
        default: if (n >= 5) { i = r.below(n - 4); static const uint8_t P[] = {0x41, 0x06, 0x71, 0xdb, 0x01}; for (int k = 0; k < 5; k++) t[i + (size_t) k] = (char) (t[i + (size_t) k] ^ P[k]); }   // the generator of CRC-32
    }
}
static std::vector<Step> chain(Rng &r, size_t n) {
    std::vector<Step> v; Step s; s.kind = 0; s.x = r();
    static const char *seedText[] = {"true", "false", "null", "123456789012345678901", "-17.25e10", "3.14159265358979323846264338327950288", "a \"quoted\" text\n", "0.1", "  42 tail tail tail tail tail"};
    while (v.size() < n) {
        if (r.chance(1, 30)) { s.kind = (int) r.below(11); s.x = r() >> r.below(64); s.t = seedText[r.below(9)]; if (r.chance(1, 2)) s.t = gen::text(r, s.t); if (r.chance(1, 4)) s.x = gen::constant(r, s.x); if (r.chance(1, 3)) s.t += std::string(r.below(300), '1'); }
        else if (r.chance(1, 40)) {   // two texts with one hash, one right after the other
            auto &w = twins()[r.below(twins().size())]; std::string tail = r.chance(1, 2) ? std::string(r.below(30), '5') : std::string(); if (s.kind <= 2) s.kind = 3 + (int) r.below(8);
            s.t = w.first + tail; v.push_back(s); s.t = w.second + tail; v.push_back(s); s.t = w.first + tail;
        }
        else if (s.kind > 2 && r.chance(1, 6)) alike(r, s.t);
        else if (s.kind <= 2 && r.chance(1, 12)) switch (r.below(4)) { case 0: { uint64_t m = r() >> 32; s.x ^= m << 32 | m; break; } case 1: s.x = s.x << 32 | s.x >> 32; break; case 2: s.x = __builtin_bswap64(s.x); break; default: { uint64_t m = r() & 0xffff; int a = 16 * (int) r.below(4), b = 16 * (int) r.below(4); if (a != b) s.x ^= m << a ^ m << b; } }
        else if (s.kind > 2 && r.chance(1, 10)) s.t = gen::text(r, s.t);
        else if (s.kind <= 2 && r.chance(1, 20)) s.x = gen::constant(r, s.x);
        else if (s.kind <= 2) switch (r.below(8)) { case 0: s.x ^= 1ULL << r.below(64); break; case 1: s.x++; break; case 2: s.x = 0 - s.x; break; case 3: s.x ^= 1ULL << 63; break; case 4: s.x = (s.x & 0xffffffffULL) | (r() << 32); break;
            // neighbours in decimal: other leading digits, other trailing digits, a distance of 2^a * 10^b
            case 5: { uint64_t d = 1; for (uint64_t b = r.below(20); b; b--) d *= 10; s.x = s.x - s.x % d + r() % d; break; } case 6: { uint64_t d = 1; for (uint64_t b = r.below(20); b; b--) d *= 10; s.x = s.x % d + (r() >> r.below(64)) / d * d; break; }
            default: { static const int A[] = {8, 10, 12, 16, 20, 24, 31, 32, 33, 40, 48, 52, 53, 56}; uint64_t d = 1; for (uint64_t b = r.below(20); b; b--) d *= 10; d <<= A[r.below(14)]; s.x = r.chance(1, 2) ? s.x + d : s.x - d; } }
        else if (!s.t.empty()) { char c = s.kind == 3 || s.kind == 4 ? (char) ('0' + r.below(10)) : r.chance(1, 2) ? (char) r() : (char) (32 + r.below(95)); if (s.kind >= 7 && s.kind <= 8 && r.chance(1, 2)) s.t = seedText[r.below(3)]; else s.t[r.chance(1, 2) ? s.t.size() / 2 : r.below(s.t.size())] = c; }
        if (r.chance(1, 8)) s.kind = s.kind <= 2 ? (int) r.below(3) : 3 + (int) r.below(8);
        v.push_back(s);
    }
    return v;
}
static void orders(Rng &r) {
    auto C = chain(r, (size_t) scaled(400000)); size_t n = C.size();
    uint64_t *sh = (uint64_t *) mmap(nullptr, n * 8 * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) _exit(9);
    std::vector<size_t> mixed(n); for (size_t i = 0; i < n; i++) mixed[i] = i; for (size_t i = n; i > 1; i--) std::swap(mixed[i - 1], mixed[r.below(i)]);
    static const char *how[] = {"in order", "in reverse order", "in mixed order", "twice in a row"};
    for (int w = 0; w < 4; w++) inChild([&] {
        ctxOp(how[w]);
        for (size_t k = 0; k < n; k++) { size_t i = w == 1 ? n - 1 - k : w == 2 ? mixed[k] : k; ctxNum(i); if (w == 3) conv(C[i]); sh[(size_t) w * n + i] = h(conv(C[i])); eval(); }
    });
    for (size_t i = 0; i < n; i++) for (int w = 1; w < 4; w++) if (sh[i] != sh[(size_t) w * n + i]) { fail("history.order", "conversion kind %d of number 0x%llx / text %s gives other results when a list of conversions is run %s than %s; alone it gives %s", C[i].kind, (unsigned long long) C[i].x, show(C[i].t).c_str(), how[w], how[0], show(conv(C[i])).c_str()); break; }
    count("order_chain") += n; cls("order", "forward/reverse/mixed/twice"); munmap(sh, n * 32);
}
// one conversion, or a few, made over and over: the hundred-thousandth outcome is that of the first
static void repetition(Rng &r) {
    uint64_t n = (uint64_t) (140000 * (st().scale < 1 ? st().scale : 1));
    for (size_t o = 0; o < O().size(); o++) {
        uint64_t seed = r();
        inChild([&] {
            Rng q(seed); ctxOp((std::string("repeated ") + O()[o].name).c_str());
            for (int mode = 0; mode < 2; mode++) {
                std::vector<uint64_t> a, first; size_t m = mode ? 2 + q.below(40) : 1;
                for (size_t i = 0; i < m; i++) { a.push_back(q()); first.push_back(h(one((int) o, a[i]))); }
                for (uint64_t k = 0; k < n; k++) { size_t i = k % m; ctxNum(k); std::string g = one((int) o, a[i]); eval(); if (h(g) != first[i]) { fail("history.repetition", "\"%s\" with argument %llu gives %s after %llu conversions of %zu arguments, another outcome than at first", O()[o].name, (unsigned long long) a[i], show(g).c_str(), (unsigned long long) k, m); break; } }
            }
        });
        count("repetitions") += 2 * n;
        if (st().fails >= 12) return;
    }
}
#ifdef FUZZ
#define FUZZ_RUNS 2e6
#define FUZZ_LEN 120
static void fuzzInit() {}
static std::vector<std::string> fuzzSeeds() { return {std::string("\0\0\1\2\3\4\5\6\7\x40\1\1\2\3\4\5\6\7\x40", 19), "\3\x02" "42\3\x03" "-17\4\x04" "0.25\4\x05" "1e300", "\5\4ab\n\"\6\4ab\n\"\7\4true\7\5false\x08\4null"}; }
// a list of conversions forwards, then backwards with other values of errno and, where it must not matter, another rounding mode
static void fuzzOne(Feed &f) {
    std::vector<Step> C; ctxOp("fuzzed order");
    while (f.n && C.size() < 24) { uint8_t k = f.byte(); Step s; if ((k & 128) && !C.empty()) { s = C.back(); s.kind = s.kind <= 2 ? k % 3 : 3 + k % 8; if (s.kind <= 2) s.x ^= 1ULL << (f.byte() & 63); else if (!s.t.empty()) { size_t i = f.byte() % s.t.size(); s.t[i] = (char) f.byte(); } } else { s.kind = k % 11; if (s.kind <= 2) s.x = f.u64(); else { s.x = 0; s.t = f.rest(f.byte() % 40); } } C.push_back(s); }
    std::vector<std::string> a; for (auto &s : C) { ctxNum(a.size()); a.push_back(conv(s)); eval(); }
    for (size_t i = C.size(); i-- > 0;) {
        static const int E[] = {0, ERANGE, EINVAL, ENOENT, EDOM}; errno = E[i % 5]; bool turn = C[i].kind != 1 && C[i].kind != 4 && i % 3 == 0;
        if (turn) fesetround(i % 2 ? FE_UPWARD : FE_DOWNWARD); std::string g = conv(C[i]); if (turn) fesetround(FE_TONEAREST); eval();
        if (g != a[i]) fail("history.order", "conversion kind %d of number 0x%llx / text %s, number %zu of %zu, gives %s in order and %s in reverse order", C[i].kind, (unsigned long long) C[i].x, show(C[i].t).c_str(), i, C.size(), show(a[i]).c_str(), show(g).c_str());
    }
    count("fuzzed_orders")++;
}
#include "fuzz.hpp"
#else
int main(int argc, char **argv) {
    init(argc, argv);
    { std::stringstream ss(st().extra); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) locales.push_back(t); }
    Rng r = rng(16);
    Plan plan; int nop = (int) O().size(); size_t per = (size_t) (scaled(8 * 250.0 * st().shards / 8)); if (per < 10) per = 10;
    for (int o = 0; o < nop; o++) { std::string n = O()[(size_t) o].name; size_t k = n.find("double") != std::string::npos || n.find("float") != std::string::npos || n == "escape" || n == "jsonify" ? per * 4 : per; for (size_t i = 0; i < k; i++) plan.push_back({o, r()}); }
    expect.resize(plan.size());
    {   // pristine child records the expectations through shared memory
        uint64_t *sh = (uint64_t *) mmap(nullptr, plan.size() * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) _exit(9);
        inChild([&] { ctxOp("pristine"); for (size_t i = 0; i < plan.size(); i++) { ctxNum(i); sh[i] = h(one(plan[i].first, plan[i].second)); } });
        for (size_t i = 0; i < plan.size(); i++) { expect[i] = sh[i]; distinct(hashBytes(&plan[i].second, 8, (uint64_t) plan[i].first)); }
    }
    auto E = envs();
    for (auto &e : E) cls("environment", e.name);
    for (size_t k = 0; k < E.size(); k++) {
        uint64_t seed = r();
        inChild([&] {
            Rng q(seed); const Env &e = E[k]; ctxOp(("env " + e.name).c_str());
            // first conversions of the process happen in this environment
            e.enter(); if (q.chance(1, 2)) history(q, 20);
            for (size_t i = 0; i < plan.size(); i++) { if (e.rounding && !O()[(size_t) plan[i].first].roundingFree) continue; ctxNum(i); if (e.name.compare(0, 5, "errno") == 0) e.enter(); if (q.chance(1, 64)) { if (!e.rounding) history(q, 1); } std::string g = one(plan[i].first, plan[i].second); judge(plan, i, g, e.name); }
            e.leave();
            // back in the initial environment after having lived in this one
            for (size_t i = q.below(3); i < plan.size(); i += 3) { ctxNum(i); judge(plan, i, one(plan[i].first, plan[i].second), "left " + e.name); }
            // and in quick alternation with other environments
            for (int z = 0; z < 60; z++) { const Env &f = E[q.below(E.size())]; f.enter(); for (int y = 0; y < 25; y++) { size_t i = q.below(plan.size()); if (f.rounding && !O()[(size_t) plan[i].first].roundingFree) continue; ctxNum(i); judge(plan, i, one(plan[i].first, plan[i].second), e.name + " then " + f.name); } f.leave(); }
        });
        count("environment_processes")++;
        if (st().fails >= 12) finish();
    }
    orders(r); repetition(r);
    count("planned_conversions") = plan.size();
    sample("\"extract double\" of " + show(ops::floatText(plan[0].second)) + " in " + std::to_string(E.size()) + " environments");
    for (size_t k = 1; k < E.size() && k < 4; k++) sample("environment: " + E[k].name);
    finish();
}
#endif
