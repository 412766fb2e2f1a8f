// C19: allocation failure is reported cleanly and harms nothing.
// For every operation and argument, every allocation it makes is made to
// fail in turn (operator new, and malloc as called from the library). The
// monitor watches the outcome, live allocations, inputs and bystanders.
#include "ops.hpp"
#include <new>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <memory>
using namespace mon;
static thread_local bool armed = false; static thread_local long countdown = -1; static thread_local bool fired = false;
static long live = 0; static long made = 0;
extern "C" void *__real_malloc(size_t); extern "C" void __real_free(void *); extern "C" void *__real_calloc(size_t, size_t); extern "C" void *__real_realloc(void *, size_t);
static bool refuse() { if (!armed) return false; made++; if (countdown == 0) { fired = true; countdown = -1; return true; } if (countdown > 0) countdown--; return false; }
static void *take(size_t n) { if (refuse()) return nullptr; void *p = __real_malloc(n ? n : 1); if (p) live++; return p; }
static void give(void *p) { if (p) { live--; __real_free(p); } }
extern "C" void *__wrap_malloc(size_t n) { return take(n); }
extern "C" void __wrap_free(void *p) { give(p); }
extern "C" void *__wrap_calloc(size_t a, size_t b) { if (refuse()) return nullptr; void *p = __real_calloc(a, b); if (p) live++; return p; }
extern "C" void *__wrap_realloc(void *o, size_t n) { if (refuse()) return nullptr; if (!o) live++; return __real_realloc(o, n); }
void *operator new(size_t n) { void *p = take(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = take(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return take(n); }
void operator delete(void *p) noexcept { give(p); } void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); } void operator delete[](void *p, size_t) noexcept { give(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { give(p); } void operator delete[](void *p, const std::nothrow_t &) noexcept { give(p); }

// outcomes are kept without allocating while armed: a digest and an exception code
struct Outcome { int exc; uint64_t hash; };   // 0 value, 1 bad_alloc, 2 runtime_error, 3 other
static void put(Outcome &o, const std::string &s) { o.hash = hashBytes(s.data(), s.size(), o.hash ? o.hash : 1469598103934665603ULL); }
template <class T> static void putv(Outcome &o, const T &v) { unsigned char b[16] = {}; memcpy(b, &v, sizeof(T) == 16 ? 10 : sizeof(T)); o.hash = hashBytes(b, 16, o.hash ? o.hash : 1469598103934665603ULL); }
struct In { std::string text; uint64_t x; double d; char *c; };
struct Call { const char *name; void (*run)(const In &, Outcome &); };
static const Call CALLS[] = {
    {"lexi(double)", [](const In &i, Outcome &o) { put(o, lexi::lexi(i.d)); }}, {"lexi(long double)", [](const In &i, Outcome &o) { put(o, lexi::lexi((long double) i.d)); }}, {"lexi(float)", [](const In &i, Outcome &o) { put(o, lexi::lexi((float) i.x)); }},
    {"string(double)", [](const In &i, Outcome &o) { put(o, lexi::string(i.d)); }}, {"jsonify(double)", [](const In &i, Outcome &o) { put(o, lexi::jsonify(i.d)); }}, {"escape(double)", [](const In &i, Outcome &o) { put(o, lexi::escape(i.d)); }},
    {"lexi(long long)", [](const In &i, Outcome &o) { put(o, lexi::lexi((long long) i.x)); }}, {"jsonify(unsigned long long)", [](const In &i, Outcome &o) { put(o, lexi::jsonify((unsigned long long) i.x)); }}, {"escape(int)", [](const In &i, Outcome &o) { put(o, lexi::escape((int) i.x)); }}, {"string(short)", [](const In &i, Outcome &o) { put(o, lexi::string((short) i.x)); }},
    {"lexi(bool)", [](const In &i, Outcome &o) { put(o, lexi::lexi((i.x & 1) != 0)); put(o, lexi::jsonify((i.x & 2) != 0)); put(o, lexi::escape((i.x & 4) != 0)); }}, {"lexi(null)", [](const In &, Outcome &o) { put(o, lexi::lexi(nullptr)); put(o, lexi::jsonify(nullptr)); put(o, lexi::escape(nullptr)); }},
    {"lexi(char)", [](const In &i, Outcome &o) { put(o, lexi::lexi((char) i.x)); }}, {"escape(char)", [](const In &i, Outcome &o) { put(o, lexi::escape((char) i.x)); }}, {"jsonify(char)", [](const In &i, Outcome &o) { put(o, lexi::jsonify((char) i.x)); }},
    {"lexi(enum)", [](const In &i, Outcome &o) { put(o, lexi::lexi((ops::EnU) i.x)); }}, {"lexi(stream position)", [](const In &i, Outcome &o) { put(o, lexi::lexi(std::streampos((std::streamoff) i.x))); }},
    {"lexi(string)", [](const In &i, Outcome &o) { put(o, lexi::lexi(i.text)); }}, {"string(string)", [](const In &i, Outcome &o) { put(o, lexi::string(i.text)); }}, {"lexi(char*)", [](const In &i, Outcome &o) { put(o, lexi::lexi(i.c)); }},
    {"escape(string)", [](const In &i, Outcome &o) { put(o, lexi::escape(i.text)); }}, {"jsonify(string)", [](const In &i, Outcome &o) { put(o, lexi::jsonify(i.text)); }}, {"escape(char*)", [](const In &i, Outcome &o) { put(o, lexi::escape(i.c)); }}, {"jsonify(char*)", [](const In &i, Outcome &o) { put(o, lexi::jsonify(i.c)); }},
    {"extract int", [](const In &i, Outcome &o) { putv(o, lexi::lexi<long long>(i.text)); putv(o, lexi::lexi<unsigned char>(i.text)); }}, {"extract int (C string)", [](const In &i, Outcome &o) { putv(o, lexi::lexi<int>(i.c)); }}, {"extract double", [](const In &i, Outcome &o) { double v = lexi::lexi<double>(i.text); if (v == v) putv(o, v); }}, {"extract float", [](const In &i, Outcome &o) { float v = lexi::lexi<float>(i.text); if (v == v) putv(o, v); }}, {"extract long double (C string)", [](const In &i, Outcome &o) { long double v = lexi::lexi<long double>(i.c); if (v == v) putv(o, v); }},
    {"extract bool", [](const In &i, Outcome &o) { putv(o, lexi::lexi<bool>(i.text)); }}, {"extract bool (C string)", [](const In &i, Outcome &o) { putv(o, lexi::lexi<bool>(i.c)); }}, {"extract null", [](const In &i, Outcome &o) { putv(o, lexi::lexi<std::nullptr_t>(i.text) == nullptr); }}, {"extract char", [](const In &i, Outcome &o) { putv(o, lexi::lexi<char>(i.text)); }}, {"extract enum", [](const In &i, Outcome &o) { putv(o, lexi::lexi<ops::En>(i.text)); }}, {"extract stream position", [](const In &i, Outcome &o) { putv(o, (long long) std::streamoff(lexi::lexi<std::streampos>(i.text))); }},
    {"FormatFloat views", [](const In &i, Outcome &o) { lexi::FormatFloat f(i.d); lexi::FormatFloat g(f); f = lexi::FormatFloat(0.25); put(o, g.string()); put(o, std::string(g)); put(o, f.jsonify()); put(o, g.escape()); }}, {"FormatInt views", [](const In &i, Outcome &o) { lexi::FormatInt f((long long) i.x); lexi::FormatInt g(f); f = lexi::FormatInt(7); put(o, g.string()); put(o, std::string(f)); put(o, g.jsonify()); put(o, g.escape()); }}, {"FormatChar views", [](const In &i, Outcome &o) { lexi::FormatChar f((char) i.x); put(o, f.string()); put(o, f.escape()); put(o, f.jsonify()); put(o, std::string(f)); }},
#ifndef PUBLIC_ONLY
    {"BigInteger text", [](const In &i, Outcome &o) { lexi::detail::BigInteger b(i.text.data(), i.text.size() > 1500 ? 1500 : i.text.size()); b *= (uint64_t) 12345678901234567ULL; b <<= 77; putv(o, b.count()); putv(o, b.digit(0)); }},
#endif
};
static long after = 0;   // live allocations right after the call
static Outcome attempt(const Call &c, const In &in, long k) {
    Outcome o = {0, 0};
    fired = false; countdown = k; armed = k >= -1;
    try { c.run(in, o); }
    catch (const std::bad_alloc &) { o.exc = 1; } catch (const std::runtime_error &) { o.exc = 2; } catch (...) { o.exc = 3; }
    armed = false; countdown = -1; after = live;
    return o;
}
static uint64_t points = 0, survived = 0;
static void explore(const Call &c, const In &in) {
    ctxStr(c.name, in.text); ctxNum(in.x);
    attempt(c, in, -2);                       // warm-up: one-time allocations are no leak
    long before = live; Outcome want = attempt(c, in, -1);
    std::string text = in.text; std::string cs = in.c;
    before = live; want = attempt(c, in, -1);
    if (after != before) fail(std::string("alloc.leak.") + c.name, "%s of %s leaks %ld allocations", c.name, show(in.text).c_str(), after - before);
    lexi::FormatFloat bf(2.5); lexi::FormatInt bi(-77); lexi::FormatBool bb(true); lexi::FormatChar bc('x');
    for (long k = 0; k < 400; k++) {
        before = live; Outcome o = attempt(c, in, k);
        if (!fired) { cls("allocations_per_call", std::to_string(k)); break; }
        eval(); points++; distinct(hashBytes(in.text.data(), in.text.size(), hashBytes(c.name, strlen(c.name), (uint64_t) k + in.x)));
        cls("operation_with_allocation", c.name);
        if (o.exc == 1) count("bad_alloc_propagated")++; else { survived++; cls("result_despite_failure", c.name); }
        if (o.exc != 1 && (o.exc != want.exc || o.hash != want.hash)) fail(std::string("alloc.outcome.") + c.name, "%s of %s with allocation %ld failing %s", c.name, show(in.text).c_str(), k, o.exc == 0 ? "returned a wrong result" : o.exc == 2 ? "threw runtime_error" : "threw an unrelated exception");
        if (after != before) fail(std::string("alloc.leak.") + c.name, "%s of %s with allocation %ld failing leaks %ld allocations", c.name, show(in.text).c_str(), k, after - before);
        if (in.text != text || cs != in.c) fail(std::string("alloc.input.") + c.name, "%s with allocation %ld failing changed its input", c.name, k);
        if (strcmp(bf.c_str(), "2.5") || strcmp(bi.c_str(), "-77") || strcmp(bb.c_str(), "true") || strcmp(bc.c_str(), "x") || bf.size() != 3 || bi.size() != 3) fail(std::string("alloc.bystander.") + c.name, "%s with allocation %ld failing damaged another formatter", c.name, k);
        Outcome again = attempt(c, in, -1);
        if (again.exc != want.exc || again.hash != want.hash) fail(std::string("alloc.again.") + c.name, "%s of %s gives another result after allocation %ld had failed once", c.name, show(in.text).c_str(), k);
    }
    count("calls_explored")++;
}
// The first call of a process is the one that fails: what a conversion sets up
// only once must not stay half done. Each attempt is a fresh child.
struct Cold { Outcome first, again, third; int fired; };
static Cold coldChild(const Call &c, const In &in, long k) {
    Cold o = {}; int fd[2]; if (pipe(fd)) _exit(9);
    fflush(stdout); pid_t pid = fork(); if (pid < 0) _exit(9);
    if (!pid) { close(fd[0]); o.first = attempt(c, in, k); o.fired = fired; o.again = attempt(c, in, -1); o.third = attempt(c, in, -1); if (write(fd[1], &o, sizeof o) != (ssize_t) sizeof o) _exit(9); _exit(0); }
    close(fd[1]); ssize_t n = read(fd[0], &o, sizeof o); close(fd[0]);
    int ws = 0; while (waitpid(pid, &ws, 0) < 0) {}
    if (WIFSIGNALED(ws)) { signal(WTERMSIG(ws), SIG_DFL); raise(WTERMSIG(ws)); _exit(9); }
    if (WEXITSTATUS(ws) || n != (ssize_t) sizeof o) _exit(9);
    return o;
}
static void cold() {
    static const char *texts[] = {"\"\\\n\x01 0123456789 abcdefghijklmnopqrstuvwxyz", "-123456789012345678901234567890.5e-3", "true", "no", ""};
    for (auto &c : CALLS) for (int t = 0; t < 5; t++) {
        if (!mine()) continue;
        In in; in.text = texts[t]; std::vector<char> cs(in.text.begin(), in.text.end()); cs.push_back(0); in.c = cs.data(); in.x = 0xfedcba9876543210ULL >> (t * 7); in.d = t & 1 ? -1.2345678901234567e-300 : -1.2345678901234567e-6;
        ctxStr(c.name, in.text);
        Cold want = coldChild(c, in, -1);
        for (long k = 0; k < 60; k++) {
            Cold o = coldChild(c, in, k); if (!o.fired) break;
            eval(); points++; count("cold_fault_points")++; cls("first_call_failed", c.name); distinct(hashBytes(in.text.data(), in.text.size(), hashBytes(c.name, strlen(c.name), (uint64_t) k + 7777)));
            if (o.first.exc != 1 && (o.first.exc != want.first.exc || o.first.hash != want.first.hash)) fail(std::string("alloc.first.") + c.name, "first call of a process, %s of %s, with allocation %ld failing %s", c.name, show(in.text).c_str(), k, o.first.exc == 0 ? "returned a wrong result" : "threw something else");
            for (auto *a : {&o.again, &o.third}) if (a->exc != want.first.exc || a->hash != want.first.hash) { fail(std::string("alloc.again.") + c.name, "%s of %s gives another result after allocation %ld failed in the first call of the process", c.name, show(in.text).c_str(), k); break; }
        }
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(19);
    cold();
    std::vector<std::string> T = {"", "a", "\"", "true", "false", "null", "nope", "12345", "-1.5e300", "0.1", "1e400", "123456789012345678901234567890", "-99999999999999999999999", "NaN", std::string(15, 'k'), std::string(16, 'k'), std::string(15, '\n'), std::string(16, '\n'), std::string(8, '\x01'), std::string(31, '"'), std::string(100, '7'), std::string(1000, '/'), std::string(5000, '\x02'), std::string(70000, 'z'), "true" + std::string(40, 'e'), "x" + std::string(300, '\\')};
    for (int i = 0; i < 120; i++) { std::string s; size_t L = r.below(r.chance(1, 5) ? 2000 : 60); int kind = (int) r.below(4); for (size_t k = 0; k < L; k++) s += kind == 0 ? (char) r() : kind == 1 ? (char) ('0' + r.below(10)) : kind == 2 ? (char) (r.chance(1, 3) ? r.below(32) : 'a' + r.below(26)) : (char) (32 + r.below(95)); T.push_back(s); }
    for (size_t t = 0; t < T.size(); t++) {
        std::vector<char> c(T[t].begin(), T[t].end()); c.push_back(0);
        for (auto &call : CALLS) { if (!mine()) continue; In in; in.text = T[t]; in.x = t < 8 ? (uint64_t) t * 37 + 10 : r() >> r.below(64); in.d = t < 4 ? -1.2345678901234567e-300 : ops::dbl(r()); in.c = c.data(); explore(call, in); }
    }
    uint64_t n = scaled(60000);
    for (uint64_t i = 0; i < n; i++) { const Call &call = CALLS[r.below(sizeof CALLS / sizeof *CALLS)]; In in; uint64_t x = r(); switch (r.below(4)) { case 0: in.text = ops::bytes(x); break; case 1: in.text = ops::floatText(x); break; case 2: in.text = ops::intText(x); break; default: in.text = ops::wordText(x); } std::vector<char> c(in.text.begin(), in.text.end()); c.push_back(0); in.c = c.data(); in.x = ops::num(x); in.d = ops::dbl(x); explore(call, in); }
    count("fault_points") = points; count("result_despite_failure") = survived;
    sample("escape of 5000 control bytes: every allocation failed in turn");
    char b[100]; snprintf(b, sizeof b, "%llu fault points over %llu calls", (unsigned long long) points, (unsigned long long) count("calls_explored")); sample(b);
    finish();
}
