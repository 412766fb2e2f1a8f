// C27: conversions have no side effects.
// Three monitors: (1) a system-call filter traps every call but those that
// obtain or release memory, in a process that makes its first conversions
// under it; (2) process state that lives in memory (locales, rounding mode and
// control words, environment, streams, handlers, random generators, pending
// output) is compared after every conversion; (3) input texts lie in pages
// that are write-protected during the conversion and end at a guard page.
#include "ops.hpp"
#include <iostream>
#include <locale>
#include <clocale>
#include <new>
#include <exception>
#include <cerrno>
#include <cwchar>
#include <pthread.h>
#include <locale>
#include <csignal>
#include <cstddef>
#include <stdio_ext.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <linux/audit.h>
#include <ucontext.h>
#ifdef __x86_64__
#include <xmmintrin.h>
#endif
using namespace mon;
// ---- an arena for texts that must not be written to
static char *arena; static size_t arenaSize = 1 << 20, arenaUsed; static bool arenaOn;
void *operator new(size_t n) {
    if (arenaOn) { n = (n + 15) & ~size_t(15); if (arenaUsed + n > arenaSize) throw std::bad_alloc(); void *p = arena + arenaUsed; arenaUsed += n; return p; }
    void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void operator delete(void *p) noexcept { if ((char *) p >= arena && (char *) p < arena + arenaSize) return; free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void *operator new[](size_t n) { return operator new(n); } void operator delete[](void *p) noexcept { operator delete(p); } void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// ---- system calls
struct Shared { volatile long nr[16]; volatile int op[16]; volatile uint64_t arg[16]; volatile int n, curOp, done, filtered; volatile uint64_t curArg, calls; };
static Shared *sh;
static void onSys(int, siginfo_t *si, void *) { int k = sh->n; if (k < 16) { sh->nr[k] = si->si_syscall; sh->op[k] = sh->curOp; sh->arg[k] = sh->curArg; sh->n = k + 1; } }
static bool filter() {
    static const unsigned ok[] = {SYS_brk, SYS_mmap, SYS_munmap, SYS_mremap, SYS_madvise, SYS_mprotect, SYS_futex, SYS_exit_group, SYS_exit, SYS_rt_sigreturn};
    const unsigned n = sizeof ok / sizeof ok[0]; sock_filter f[3 + n + 2]; unsigned k = 0;
    f[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
    for (unsigned i = 0; i < n; i++) f[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, ok[i], (unsigned char) (n - i), 0);
    f[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP); f[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    sock_fprog p = {(unsigned short) k, f};
    return prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}
// a stream of the user's with output that waits in its buffer, and the hidden state of some library functions
static FILE *cookie; static uint64_t cookieWrites;
static ssize_t cookieWrite(void *, const char *, size_t n) { cookieWrites++; return (ssize_t) n; }
static void waiting() { if (!cookie) { cookie_io_functions_t f = {nullptr, cookieWrite, nullptr, nullptr}; cookie = fopencookie(nullptr, "w", f); setvbuf(cookie, nullptr, _IOFBF, 4096); } if (__fpending(cookie) > 3000) fflush(cookie); fputs("waiting", cookie); }
static char tokens[] = "one,two,three", *converted; static const char convertedText[] = "15";
static bool halfway, clean; static unsigned turn;
static void begin() { waiting(); memcpy(tokens, "one,two,three", sizeof tokens); strtok(tokens, ","); int a, b; converted = ecvt(1.5, 2, &a, &b); clean = MB_CUR_MAX > 1 && mbrtowc(nullptr, "", 1, nullptr) == 0 && mbrlen("", 1, nullptr) == 0; halfway = clean && turn++ % 2; if (halfway) { wchar_t w; halfway = mbrtowc(&w, "\xe2\x82", 2, nullptr) == (size_t) -2 && mbrlen("\xe2\x82", 2, nullptr) == (size_t) -2; } }
static const char *ended() { const char *t = strtok(nullptr, ","); if (!t || strcmp(t, "two") != 0) return "the state of strtok"; if (halfway) { wchar_t w; size_t a = mbrtowc(&w, "\xac", 1, nullptr), b = mbrlen("\xac", 1, nullptr); if (a != 1 || b != 1) return "the state of a multibyte conversion"; count("multibyte_conversions_halfway")++; } else if (clean && (mbrtowc(nullptr, "a", 1, nullptr) != 1 || mbrlen("a", 1, nullptr) != 1)) return "the state of a multibyte conversion"; return strcmp(converted, convertedText) == 0 ? nullptr : "the result of ecvt"; }
static void systemCalls(Rng &r) {
    const auto &all = ops::all(); ctxOp("conversions under a system-call filter");
    sh->n = 0; sh->done = sh->filtered = 0; fflush(stdout); fflush(stderr);
    uint64_t n = scaled(24000); pid_t p = fork(); if (p < 0) { perror("fork"); _exit(9); }
    if (!p) {
        // what the C and C++ run-times do once, on the first use of the heap, of exceptions and of signals
        free(malloc(100)); try { throw std::runtime_error("first"); } catch (...) {}
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, nullptr);
        // output that is waiting in buffers stays there
        static char room[4096]; setvbuf(stdout, room, _IOFBF, sizeof room); fputs("waiting", stdout); waiting();
        if (!filter()) _exit(0);
        sh->filtered = 1;
        for (uint64_t i = 0; i < n; i++) for (size_t o = 0; o < all.size(); o++) { size_t q = (o * 7 + (size_t) st().shard * 5 + i) % all.size(); uint64_t x = r(); sh->curOp = (int) q; sh->curArg = x; ctxNum(x); try { all[q].run(x); } catch (...) {} sh->calls = sh->calls + 1; }
        sh->done = 1; _exit(0);
    }
    int ws; while (waitpid(p, &ws, 0) < 0) {}
    if (!sh->filtered) { count("system_call_filter_unavailable") = 1; return; }
    eval(sh->calls); count("conversions_under_filter") += sh->calls;
    for (int i = 0; i < sh->n; i++) fail("effect.systemcall", "\"%s\" with argument %llu made system call %ld", all[(size_t) sh->op[i]].name, (unsigned long long) sh->arg[i], (long) sh->nr[i]);
    if (!sh->n && !sh->done) { if (WIFSIGNALED(ws)) fail("effect.died", "\"%s\" with argument %llu died of signal %d under the filter", all[(size_t) sh->curOp].name, (unsigned long long) sh->curArg, WTERMSIG(ws)); else fail("effect.exit", "\"%s\" with argument %llu ended the process", all[(size_t) sh->curOp].name, (unsigned long long) sh->curArg); }
}

// ---- state in memory
extern char **environ;
struct Snap {
    std::string loc; locale_t tl; int round, flags; unsigned csr; unsigned short cw; uint64_t env; std::ios::fmtflags ff; std::streamsize prec; std::ios::iostate state; std::terminate_handler th; std::new_handler nh; size_t pend; int rnd; double rnd48; std::locale gl; void *env0; uint64_t ios; std::locale sl[4]; int cancel; bool synced;
    static Snap take() {
        Snap s; s.pend = __fpending(stdout) + __fpending(stderr) * 8192 + (cookie ? __fpending(cookie) << 26 : 0) + (cookieWrites << 40); s.rnd = rand(); s.rnd48 = drand48();
        const char *l = setlocale(LC_ALL, nullptr); s.loc = l ? l : ""; s.tl = uselocale((locale_t) 0); s.round = fegetround(); s.flags = fegetexcept(); s.csr = 0; s.cw = 0;
#ifdef __x86_64__
        s.csr = _mm_getcsr() & 0xffc0u; asm volatile("fnstcw %0" : "=m"(s.cw));
#endif
        s.env0 = environ; s.env = 1; for (char **e = environ; e && *e; e++) s.env = hashBytes(*e, strlen(*e), s.env);
        s.ios = 1; std::ios *all[] = {&std::cin, &std::cout, &std::cerr, &std::clog}; for (std::ios *i : all) for (long long v : {(long long) i->width(), (long long) i->fill(), (long long) i->flags(), (long long) i->precision(), (long long) i->exceptions(), (long long) i->rdstate(), (long long) (size_t) i->tie(), (long long) (size_t) i->rdbuf()}) s.ios = mix(s.ios ^ (uint64_t) v);
        s.ff = std::cout.flags(); s.prec = std::cout.precision() * 1000 + std::cerr.precision(); s.state = std::cout.rdstate() | std::cerr.rdstate() | std::clog.rdstate(); s.th = std::get_terminate(); s.nh = std::get_new_handler();
        for (int i = 0; i < 4; i++) s.sl[i] = all[i]->getloc(); std::wios *wide[] = {&std::wcin, &std::wcout, &std::wcerr, &std::wclog}; for (std::wios *i : wide) for (long long v : {(long long) i->width(), (long long) i->flags(), (long long) i->precision(), (long long) i->rdstate(), (long long) (size_t) i->tie(), (long long) (size_t) i->rdbuf()}) s.ios = mix(s.ios ^ (uint64_t) v);
        int was = 0, type = 0; pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &was); pthread_setcancelstate(was, nullptr); pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &type); pthread_setcanceltype(type, nullptr); s.cancel = was * 16 + type; s.synced = std::ios::sync_with_stdio(true);
        return s;
    }
    const char *differs(const Snap &o) const {
        if (pend != o.pend) return "pending output"; if (rnd != o.rnd) return "rand"; if (rnd48 != o.rnd48) return "drand48"; if (loc != o.loc) return "the C locale"; if (tl != o.tl) return "the thread's locale"; if (round != o.round) return "the rounding mode"; if (flags != o.flags) return "enabled floating-point traps"; if (csr != o.csr) return "the SSE control word"; if (cw != o.cw) return "the x87 control word";
        if (env != o.env || env0 != o.env0) return "the environment"; if (ff != o.ff || prec != o.prec || ios != o.ios) return "stream formatting"; if (state != o.state) return "stream state"; if (th != o.th) return "the terminate handler"; if (nh != o.nh) return "the new handler"; if (!(gl == o.gl)) return "the C++ locale"; for (int i = 0; i < 4; i++) if (!(sl[i] == o.sl[i])) return "the locale of a stream"; if (cancel != o.cancel) return "the cancellation state"; if (synced != o.synced) return "the synchronisation of the streams"; return nullptr;
    }
};
static void quiet() {}
static void myTerminate() { abort(); }
static void states(Rng &r) {
    const auto &all = ops::all(); uint64_t n = scaled(9000);
    locale_t own = newlocale(LC_ALL_MASK, "C.UTF-8", (locale_t) 0); if (!own) own = newlocale(LC_ALL_MASK, "C", (locale_t) 0);
    static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    for (uint64_t i = 0; i < n; i++) {
        int kind = (int) r.below(8);
        if (kind & 1) uselocale(own); else uselocale(LC_GLOBAL_LOCALE);
        setlocale(LC_ALL, kind & 2 ? "C.UTF-8" : "C"); std::cout.precision(3 + kind); for (std::ios *q : {(std::ios *) &std::cout, (std::ios *) &std::cerr, (std::ios *) &std::clog}) { q->width(kind & 1 ? 11 * kind : 0); q->fill(kind & 2 ? '*' : ' '); q->exceptions(kind == 6 ? std::ios::badbit : std::ios::goodbit); } static const std::locale own2(std::locale::classic(), new std::numpunct<char>); for (std::ios *q : {(std::ios *) &std::cin, (std::ios *) &std::cout, (std::ios *) &std::cerr, (std::ios *) &std::clog}) q->imbue(kind & 1 ? own2 : std::locale::classic()); if (kind & 4) std::cout.setf(std::ios::hex, std::ios::basefield); std::set_terminate(kind & 2 ? myTerminate : abort); std::set_new_handler(kind & 4 ? quiet : nullptr); errno = kind == 5 ? ERANGE : 0;
        int mode = r.chance(1, 2) ? FE_TONEAREST : modes[r.below(4)]; cls("state", std::to_string(kind) + "/" + std::to_string(mode));
        for (size_t o = 0; o < all.size(); o++) {
            uint64_t x = r(); ctxOp(all[o].name); ctxNum(x);
            begin(); fesetround(mode); srand(77); srand48(78); Snap a = Snap::take(); srand(77); srand48(78);
            all[o].run(x);
            Snap b = Snap::take(); fesetround(FE_TONEAREST); const char *left = ended(); eval(); distinct(mix(x) + o);
            const char *d = a.differs(b); if (!d) d = left;
            if (d) { uselocale(LC_GLOBAL_LOCALE); fail(std::string("effect.") + d, "\"%s\" with argument %llu changed %s", all[o].name, (unsigned long long) x, d); return; }
        }
        count("state_blocks")++;
    }
    uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C"); std::cout.flags(std::ios::dec | std::ios::skipws); for (std::ios *q : {(std::ios *) &std::cin, (std::ios *) &std::cout, (std::ios *) &std::cerr, (std::ios *) &std::clog}) q->imbue(std::locale::classic()); for (std::ios *q : {(std::ios *) &std::cout, (std::ios *) &std::cerr, (std::ios *) &std::clog}) { q->width(0); q->exceptions(std::ios::goodbit); }
}

// ---- protected inputs
template <class F> static void protectedRun(const char *name, const std::string &text, bool cstr, F f) {
    ctxStr(name, text);
    if (cstr && text.find('\0') != std::string::npos) return;
    arenaUsed = 0; const std::string *s = nullptr; const char *c = nullptr;
    if (cstr) { char *p = arena + arenaSize - text.size() - 1; memcpy(p, text.c_str(), text.size() + 1); c = p; }
    else { arenaOn = true; void *o = operator new(sizeof(std::string)); s = new (o) std::string(text); arenaOn = false; }
    mprotect(arena, arenaSize, PROT_READ);
    try { f(s, c); } catch (const std::runtime_error &) {}
    mprotect(arena, arenaSize, PROT_READ | PROT_WRITE);
    eval(); distinct(hashBytes(name, strlen(name), hashBytes(text.data(), text.size()) + cstr)); cls("protected_call", std::string(name) + (cstr ? " (C string)" : ""));
    // the arena is only reused: the string's memory lies in it
}
enum class E1 : short {};
static void inputs(Rng &r) {
    uint64_t n = scaled(12000);
    for (uint64_t i = 0; i < n; i++) {
        std::string t;
        switch (r.below(6)) { case 0: t = ops::bytes(r()); break; case 1: t = ops::intText(r()); break; case 2: t = ops::floatText(r()); break; case 3: t = ops::wordText(r()); break; case 4: t = std::string(r.below(40) ? r.below(9000) : r.below(400000), (char) (r.chance(1, 2) ? ' ' : '0' + r.below(10))) + ops::floatText(r()); break; default: t = ops::bytes(r()) + ops::bytes(r()) + ops::bytes(r()); }
        for (bool cstr : {false, true}) {
#define RUN(name, expr) protectedRun(name, t, cstr, [](const std::string *s, const char *c) { if (s) { auto &in = *s; auto v = expr; (void) v; } else { auto &in = c; auto v = expr; (void) v; } })
            RUN("escape", lexi::escape(in)); RUN("jsonify", lexi::jsonify(in)); RUN("string", lexi::string(in)); RUN("lexi", lexi::lexi(in));
            RUN("extract int", lexi::lexi<int>(in)); RUN("extract unsigned long long", lexi::lexi<unsigned long long>(in)); RUN("extract signed char", lexi::lexi<signed char>(in)); RUN("extract double", lexi::lexi<double>(in)); RUN("extract float", lexi::lexi<float>(in)); RUN("extract long double", lexi::lexi<long double>(in)); RUN("extract bool", lexi::lexi<bool>(in)); RUN("extract null", lexi::lexi<std::nullptr_t>(in)); RUN("extract char", lexi::lexi<char>(in)); RUN("extract enumeration", lexi::lexi<E1>(in)); RUN("extract position", lexi::lexi<std::streampos>(in));
        }
        count("protected_texts")++;
    }
    {   // formatters in write-protected storage: reading them writes nothing
        for (uint64_t i = 0; i < n; i++) {
            double d = ops::dbl(r()); uint64_t x = r() >> r.below(64); arenaUsed = 0; ctxOp("reading a write-protected formatter"); ctxNum(x);
            auto *f = new (arena) lexi::FormatFloat(d); auto *g = new (arena + 256) lexi::FormatInt((long long) x); auto *b = new (arena + 512) lexi::FormatBool(x & 1); auto *c = new (arena + 768) lexi::FormatChar((char) x); auto *u = new (arena + 1024) lexi::FormatNull(); auto *e = new (arena + 1280) lexi::FormatEnum((E1) x);
            mprotect(arena, 8192, PROT_READ); size_t k = 0;
#define READ(o) k += o->size() + o->length() + strlen(o->c_str()) + (size_t) (unsigned char) o->data()[0] + o->string().size() + o->escape().size() + o->jsonify().size() + std::string(*o).size()
            READ(f); READ(g); READ(b); READ(c); READ(u); READ(e); lexi::FormatFloat f2(*f); lexi::FormatInt g2(*g); k += f2.size() + g2.size();
            mprotect(arena, 8192, PROT_READ | PROT_WRITE); volatile size_t keep = k; (void) keep; eval(6); count("protected_formatters") += 6;
        }
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    arena = (char *) mmap(nullptr, arenaSize + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (arena == MAP_FAILED) _exit(9); mprotect(arena + arenaSize, 4096, PROT_NONE);
    sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) _exit(9);
    Rng r = rng(27);
    ops::all(); systemCalls(r);
    states(r); inputs(r);
    sample("the catalogue of conversions under a system-call filter, with process state compared after each; inputs in write-protected pages");
    finish();
}
