// C25: conversions in a child forked while other threads of the parent are in
// the middle of conversions. Only the forking thread lives on in the child, in
// memory as it was at that instant; every conversion must still end and give
// the outcome it gives in the parent.
#include <lexi/lexi.hpp>
#include "mon.hpp"
#include "ops.hpp"
#include <atomic>
#include <thread>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mon;
struct Shared { volatile uint64_t progress; volatile int op; volatile uint64_t arg; volatile int wrong; };
static Shared *sh; static std::atomic<int> focus{0}; static std::atomic<bool> stop{false}; static std::atomic<uint64_t> background{0};
static std::string outcome(const ops::Op &o, uint64_t x) { return o.run(x); }
// state letter and processor time (ticks) of a process
static bool stat_(pid_t p, char &state, unsigned long &ticks) {
    char f[64], b[1024]; snprintf(f, sizeof f, "/proc/%d/stat", (int) p); FILE *s = fopen(f, "r"); if (!s) return false; size_t n = fread(b, 1, sizeof b - 1, s); fclose(s); b[n] = 0;
    char *q = strrchr(b, ')'); unsigned long u, k; if (!q || sscanf(q + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &state, &u, &k) != 3) return false; ticks = u + k; return true;
}
// waits for the child; true if it is stuck: asleep, or busy for 20 s of processor time, without a step forward
static bool stuck(pid_t p, int &ws) {
    uint64_t last = ~0ULL; int asleep = 0; unsigned long from = 0; long hz = sysconf(_SC_CLK_TCK);
    for (int i = 0;; i++) {
        pid_t q = waitpid(p, &ws, WNOHANG); if (q == p) return false;
        if (i < 2000) { usleep(i < 200 ? 50 : 1000); continue; }
        usleep(250000); char st = '?'; unsigned long t = 0; if (!stat_(p, st, t)) continue;
        if (sh->progress != last) { last = sh->progress; asleep = 0; from = t; continue; }
        if (st == 'S' && t == from) asleep++; else { asleep = 0; if (t - from > 20UL * (unsigned long) hz) return true; if (st == 'S') from = t; }
        if (asleep >= 24) return true;      // six seconds asleep, nothing to wait for
    }
}
int main(int argc, char **argv) {
    init(argc, argv); Rng r = rng(125);
    sh = (Shared *) mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) _exit(9);
    const auto &all = ops::all(); uint64_t n = scaled(4000) + 20;
    for (auto &o : all) for (int k = 0; k < 3; k++) outcome(o, r());       // not the first use: that is another moment
    std::vector<std::thread> t; uint64_t seed = r();
    for (int k = 0; k < 3; k++) t.emplace_back([k, seed, &all] { Rng q(seed + (uint64_t) k); while (!stop) { size_t o = (size_t) focus.load(); if (q.chance(1, 8)) o = q.below(all.size()); outcome(all[o], q()); background++; } });
    for (uint64_t i = 0; i < n && !st().fails; i++) {
        focus = (int) (i % all.size()); std::vector<std::pair<size_t, uint64_t>> plan; std::vector<std::string> want;
        // mostly the conversion the others are busy with comes first
        plan.push_back({i % all.size(), r()}); for (int k = 0; k < 6; k++) plan.push_back({r.below(all.size()), r()}); if (i % 16 == 0) for (size_t o = 0; o < all.size(); o++) plan.push_back({o, r()});
        for (auto &x : plan) want.push_back(outcome(all[x.first], x.second));
        ctxOp((std::string("forked while threads do \"") + all[i % all.size()].name + "\"").c_str()); ctxNum(i);
        sh->progress = 0; sh->wrong = 0; pid_t p = fork(); if (p < 0) _exit(9);
        if (!p) { for (size_t k = 0; k < plan.size(); k++) { sh->op = (int) plan[k].first; sh->arg = plan[k].second; if (outcome(all[plan[k].first], plan[k].second) != want[k]) { sh->wrong = 1; _exit(5); } sh->progress = sh->progress + 1; } _exit(0); }
        int ws = 0; bool hang = stuck(p, ws); if (hang) { kill(p, SIGKILL); while (waitpid(p, &ws, 0) < 0) {} }
        eval(plan.size()); distinct(mix(i) + (uint64_t) st().shard); cls("busy_with", all[i % all.size()].name); count("forks")++; count("conversions_in_children") += plan.size();
        const char *nm = all[(size_t) sh->op].name; unsigned long long a = sh->arg;
        if (hang) fail("life.fork.stuck", "\"%s\" with argument %llu never ends in a child forked while other threads were converting", nm, a);
        else if (sh->wrong) fail("life.fork.outcome", "\"%s\" with argument %llu gives another outcome in a child forked while other threads were converting", nm, a);
        else if (WIFSIGNALED(ws)) fail("life.fork.died", "\"%s\" with argument %llu died of signal %d in a child forked while other threads were converting", nm, a, WTERMSIG(ws));
        else if (WEXITSTATUS(ws)) _exit(9);
    }
    stop = true; for (auto &x : t) x.join();
    count("conversions_in_other_threads") += background; sample("children forked while three threads were in the middle of conversions");
    finish();
}
