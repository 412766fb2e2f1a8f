// C26: formatting is reentrant.
// The processor's single-step flag turns every instruction of a formatting
// call into an interruption point; the trap handler (a signal handler on the
// same stack) formats other values there. Both the interrupted and the
// interrupting call must give the text they give alone.
#include <lexi/lexi.hpp>
#include "mon.hpp"
#include <csignal>
#include <ucontext.h>
#include <cmath>
using namespace mon;
enum class En : int {};
struct Case { int kind; uint64_t x; double d; char text[40]; size_t size; };
static double mk(Rng &r) { double d; switch (r.below(7)) { case 0: { uint64_t b = r(); memcpy(&d, &b, 8); return d; } case 1: return (double) (int) r() / 64; case 2: return r.chance(1, 2) ? NAN : r.chance(1, 2) ? INFINITY : -INFINITY; case 3: return (double) r.below(100000) * 1e-8; case 4: return 0.0; case 5: return 1.2345678901234567e-300 * (double) (1 + r.below(1000)); default: return (double) r.below(1000000) * 1e15; } }
// formats case c, copies text out without allocating
template <class F> static inline void take(const F &f, char *out, size_t &n) { n = f.size(); size_t m = n < 39 ? n : 39; const char *p = f.c_str(); for (size_t i = 0; i < m; i++) out[i] = p[i]; out[m] = p[m < n ? m : n]; if (m < n) out[39] = 0; }
__attribute__((noinline)) static void format(int kind, uint64_t x, double d, char *out, size_t &n) {
    switch (kind) {
        case 0: take(lexi::FormatInt((signed char) x), out, n); break; case 1: take(lexi::FormatInt((unsigned char) x), out, n); break; case 2: take(lexi::FormatInt((short) x), out, n); break; case 3: take(lexi::FormatInt((unsigned short) x), out, n); break;
        case 4: take(lexi::FormatInt((int) x), out, n); break; case 5: take(lexi::FormatInt((unsigned) x), out, n); break; case 6: take(lexi::FormatInt((long) x), out, n); break; case 7: take(lexi::FormatInt((unsigned long) x), out, n); break; case 8: take(lexi::FormatInt((long long) x), out, n); break; case 9: take(lexi::FormatInt((unsigned long long) x), out, n); break;
        case 10: case 11: case 12: take(lexi::FormatFloat(d), out, n); break; case 13: take(lexi::FormatFloat((float) d), out, n); break; case 14: take(lexi::FormatFloat((long double) d), out, n); break;
        case 15: take(lexi::FormatBool(x & 1), out, n); break; case 16: take(lexi::FormatNull(nullptr), out, n); break; case 17: take(lexi::FormatChar((char) x), out, n); break; case 18: take(lexi::FormatEnum((En) (int) x), out, n); break;
        case 19: { lexi::FormatFloat a(d), b(a); a = lexi::FormatFloat(1.5); take(b, out, n); break; } default: { lexi::FormatInt a((long long) x), b(a); a = lexi::FormatInt(7); take(b, out, n); }
    }
}
static const int KINDS = 21;
static const int INNER = 512; static Case inner[INNER];
static volatile bool on; static volatile uint64_t step, at, hits; static volatile int mode, next; static volatile int badInner = -1; static char badText[40];
__attribute__((noinline)) static void stepOn() { on = true; asm volatile("sub $128,%%rsp; pushf; orq $0x100,(%%rsp); popf; add $128,%%rsp" ::: "memory", "cc"); }
__attribute__((noinline)) static void stepOff() { on = false; asm volatile("nop" ::: "memory"); }
// mode 3: the interrupting call is itself interrupted, and so on: one interruption per level
static const int DEEPEST = 40; static volatile int depth, deepest, reached; static volatile uint64_t levelStep[DEEPEST + 1], levelAt[DEEPEST + 1], lcg = 1;
static void trap(int, siginfo_t *, void *uc) {
    if (!on) { ((ucontext_t *) uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100L; return; }
    uint64_t s = step; step = s + 1; int level = depth;
    bool now = mode == 0 || (mode == 1 && s == at) || (mode == 2 && s % 7 == at % 7);
    if (mode == 3) { uint64_t l = levelStep[level]; levelStep[level] = l + 1; now = l == levelAt[level] && level < deepest; }
    if (!now) return;
    int k = next; next = (k + 1) % INNER; hits = hits + 1;
    char t[40]; size_t n; int saved = errno;
    if (mode == 3) {
        depth = level + 1; if (depth > reached) reached = depth; lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL; levelStep[depth] = 0; levelAt[depth] = (lcg >> 33) % ((lcg >> 60) < 8 ? 60 : 330);
        stepOn(); format(inner[k].kind, inner[k].x, inner[k].d, t, n); stepOff(); on = true; depth = level;
    } else format(inner[k].kind, inner[k].x, inner[k].d, t, n);
    errno = saved;
    size_t m = inner[k].size;
    if (badInner < 0 && (n != m || memcmp(t, inner[k].text, m + 1))) { badInner = k; memcpy(badText, t, 39); badText[39] = 0; }
}
static void judge(const Case &c, Rng &r) {
    char t[40]; size_t n; step = 0; hits = 0; badInner = -1; next = (int) r.below(INNER);
    ctxNum(c.x ^ (uint64_t) c.kind << 56); int first = next;
    depth = 0; levelStep[0] = 0; stepOn(); format(c.kind, c.x, c.d, t, n); stepOff();
    eval(1 + hits); count("interruptions") += hits; count("instructions_stepped") += step; distinct(mix((uint64_t) c.kind * 31 + at * 1000 + (uint64_t) mode) ^ mix(c.x) ^ (uint64_t) first);
    if (n != c.size || memcmp(t, c.text, n + 1)) { t[39] = 0; fail("reentrant.outer", "formatting (kind %d) interrupted at %s by another formatting gives \"%s\", alone \"%s\"", c.kind, mode == 1 ? ("instruction " + std::to_string(at)).c_str() : mode == 3 ? "one step, and the interrupting one likewise," : "every step", t, c.text); }
    if (badInner >= 0) fail("reentrant.inner", "formatting (kind %d) in a handler that interrupted another formatting (kind %d) gives \"%s\", alone \"%s\"", inner[badInner].kind, c.kind, badText, inner[badInner].text);
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(26);
    ctxOp("interrupted formatting (num = argument and kind)");
    auto fresh = [&](Case &c, int kind) { c.kind = kind; c.x = r() >> r.below(64); if (r.chance(1, 3)) c.x = 0 - c.x; c.d = mk(r); memset(c.text, 0, 40); format(c.kind, c.x, c.d, c.text, c.size); if (c.size > 38) { fprintf(stderr, "text too long\n"); _exit(9); } };
    struct sigaction s; memset(&s, 0, sizeof s); s.sa_sigaction = trap; s.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &s, nullptr);
    for (int i = 0; i < INNER; i++) fresh(inner[i], i < 3 * KINDS ? i % KINDS : (int) (r.chance(1, 2) ? 10 : r.below(KINDS)));
    {   // does stepping work here?
        Case c; fresh(c, 10); mode = 1; at = ~0ULL; char t[40]; size_t n; step = 0; stepOn(); format(c.kind, c.x, c.d, t, n); stepOff();
        if (step < 20) { fprintf(stderr, "single-stepping is not available\n"); _exit(9); }
    }
    uint64_t rounds = scaled(160) + 1;
    for (uint64_t q = 0; q < rounds; q++) {
        for (int k = 0; k < KINDS; k++) {
            Case c; fresh(c, k); cls("interrupted", std::to_string(k));
            mode = 0; at = 0; judge(c, r);                       // at every instruction
            uint64_t len = step; mode = 2; at = r.below(7); judge(c, r);
            mode = 1; for (int j = 0; j < 6; j++) { at = r.below(len ? len : 1); judge(c, r); }   // at one instruction
            mode = 3; for (int j = 0; j < 3; j++) { lcg = lcg ^ r(); deepest = j == 0 ? 2 : j == 1 ? 3 + (int) r.below(4) : DEEPEST; if (j == 2 && r.below(10)) break; levelAt[0] = r.below(len ? len : 1); reached = 0; judge(c, r); count("nested_interruptions") += (uint64_t) reached; if ((uint64_t) reached > count("deepest_nesting")) count("deepest_nesting") = (uint64_t) reached; cls("nesting", std::to_string(reached)); }
            mode = 1;
            if (q == 0) { uint64_t stride = len > 60 ? len / 60 : 1; for (at = r.below(stride); at < len; at = at + stride) judge(c, r); }
            if (len > count("longest_call_instructions")) count("longest_call_instructions") = len;
        }
        if (q % 4 == 0) for (int i = 0; i < 64; i++) fresh(inner[r.below(INNER)], (int) r.below(KINDS));
    }
    sample("every instruction of 21 kinds of formatting calls interrupted by other formatting calls");
    finish();
}
