// C25: conversions work from static initialisation to process exit.
// Objects with the earliest and the latest initialisation priority convert in
// their constructors, before any initialiser of the library, and in their
// destructors, after everything of the library is gone; also thread_local
// destructors, atexit functions and forked children. Every outcome is compared
// with the one at the height of the process, in main.
#include "ops.hpp"
#include <thread>
#include <pthread.h>
#include <sys/wait.h>
using namespace mon;
static int gArgc; static char **gArgv; static bool begun;
// plain storage only: nothing here needs an initialiser of its own
struct Plan { bool early, thread, late; uint64_t seed; int n; };
static Plan plan;
static void start() {
    if (begun) return; begun = true;
    init(gArgc, gArgv); int k = st().shard % 4; plan.early = k == 0 || k == 3; plan.late = k != 0; plan.thread = k == 2; plan.seed = st().seed * 1000003 + (uint64_t) st().shard; plan.n = 200 + (int) (100 * st().scale);
}
// outcomes by moment, op and argument; leaked on purpose
static std::vector<std::string> *log_[8];
static const char *MOMENT[8] = {"static initialisation (first)", "static initialisation (last)", "main", "thread_local destructor", "atexit", "static destruction (first)", "static destruction (last)", "forked child"};
static void record(int moment) {
    ctxOp(MOMENT[moment]);
    auto *v = new std::vector<std::string>; const auto &all = ops::all();
    for (int i = 0; i < plan.n; i++) for (size_t o = 0; o < all.size(); o++) { uint64_t x = mix(plan.seed * 64 + (uint64_t) i * 131 + o); ctxNum(x); v->push_back(all[o].run(x)); if (moment != 2) { eval(); st().exact++; } }
    log_[moment] = v; count(MOMENT[moment]) += v->size(); cls("moment", MOMENT[moment]);
}
static void judge(int moment) {
    if (!log_[moment] || !log_[2]) return; const auto &all = ops::all();
    for (size_t i = 0; i < log_[2]->size(); i++) if ((*log_[moment])[i] != (*log_[2])[i]) { const char *n = all[i % all.size()].name; fail(std::string("life.") + n, "%s during %s gives %s, in main %s", n, MOMENT[moment], show((*log_[moment])[i]).c_str(), show((*log_[2])[i]).c_str()); }
    delete log_[moment]; log_[moment] = nullptr;
}
// receives the arguments before any constructor of an object runs
__attribute__((constructor(101))) static void args(int c, char **v) { gArgc = c; gArgv = v; }
struct First { First() { start(); if (plan.early) record(0); } ~First() { if (plan.late) { record(6); judge(6); } report(); _exit(st().fails ? 3 : 0); } };
struct Last { Last() { start(); if (plan.early) record(1); } ~Last() { if (plan.late) { record(5); judge(5); } } };
__attribute__((init_priority(102))) static First first;
__attribute__((init_priority(65535))) static Last last;
struct Tls { int on = 0; ~Tls() { if (on) { record(3); judge(3); } } };
static thread_local Tls tls;
int main() {
    atexit([] { record(4); judge(4); });
    record(2); judge(0); judge(1);
    if (plan.thread) { std::thread t([] { tls.on = 1; volatile int keep = tls.on; (void) keep; lexi::FormatFloat f(1.5); (void) f; }); t.join(); }
    {   // a child that forks off in the middle
        fflush(stdout); pid_t p = fork(); if (p < 0) _exit(9);
        if (!p) { auto *w = log_[2]; record(7); bool ok = *log_[7] == *w; _exit(ok ? 0 : 5); }
        int ws; while (waitpid(p, &ws, 0) < 0) {} eval();
        if (WIFSIGNALED(ws)) fail("life.child", "a conversion in a forked child died of signal %d", WTERMSIG(ws)); else if (WEXITSTATUS(ws) == 5) fail("life.child", "conversions in a forked child differ"); else if (WEXITSTATUS(ws)) _exit(9);
    }
    sample("the catalogue of conversions, before main, in main, in destructors at exit");
    return 0;
}
