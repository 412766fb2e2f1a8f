// C15: concurrent conversions neither race nor disturb each other.
// Threads start together in a process that has made no conversion yet, run
// conversions on their own and on shared inputs, formatter and extractor objects, and
// record every outcome; after they have ended the outcomes are compared with
// those of the same calls made alone. Run plainly and under ThreadSanitizer
// (the recording uses relaxed atomics only, which order nothing for it).
// Tickets taken before and after each call show which calls overlapped.
#include "ops.hpp"
#include <thread>
#include <algorithm>
#include <memory>
#include <sched.h>
#include <clocale>
#include <locale.h>
#include <sstream>
using namespace mon;
static std::atomic<uint32_t> ready{0}; static std::atomic<bool> go{false};
static std::atomic<uint64_t> ticket{0};
struct Rec { uint64_t a, b; uint64_t arg; int op; uint64_t hash; };
static void progress() { st().ctx->progress.fetch_add(1, std::memory_order_relaxed); }

int main(int argc, char **argv) {
    init(argc, argv);
    uint64_t rounds = scaled(8 * 40.0 * st().shards / 8.0); if (st().extra == "short") rounds = 1;
    int T = 8; int per = st().extra == "short" ? 120 : 1500;
    Rng r = rng(15);
    // with a list of locales the threads live in them: global, some threads in their own
    std::vector<std::string> locales; if (st().extra != "short") { std::stringstream ss(st().extra); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) locales.push_back(t); }
    std::string loc; locale_t own = (locale_t) 0; if (!locales.empty()) per = 600;
    const auto &O = ops::all();
    int nop = (int) O.size();
    // shared inputs: strings only; formatters are made by one of the threads'
    // siblings below (built by the main thread after the first, fresh round)
    std::vector<std::string> texts; for (int i = 0; i < 16; i++) { texts.push_back(ops::bytes((uint64_t) i * 77 + 5)); texts.push_back(ops::floatText(r())); texts.push_back(ops::intText(r())); }
    std::vector<std::vector<bool>> pairSeen(nop + 3, std::vector<bool>(nop + 3, false));
    uint64_t overlaps = 0, switches = 0; std::set<uint64_t> windows;
    for (uint64_t h = 0; h < rounds; h++) {
        std::unique_ptr<lexi::FormatFloat> sf; std::unique_ptr<lexi::FormatInt> si; std::unique_ptr<lexi::FormatBool> sb; std::unique_ptr<lexi::FormatChar> sc; std::unique_ptr<lexi::FormatEnum> se; std::unique_ptr<lexi::FormatNull> sn;
        std::unique_ptr<lexi::ExtractInt> xi; std::unique_ptr<lexi::ExtractFloat> xf; std::unique_ptr<lexi::ExtractEnum> xe; std::unique_ptr<lexi::ExtractBool> xb; std::unique_ptr<lexi::ExtractChar> xc; std::unique_ptr<lexi::ExtractNull> xn;
        uint64_t shArg = r();
        if (!locales.empty()) { loc = locales[(size_t) (h + (uint64_t) st().shard) % locales.size()]; if (!setlocale(LC_ALL, loc.c_str())) { fprintf(stderr, "no locale %s\n", loc.c_str()); _exit(9); } if (own) freelocale(own); own = newlocale(LC_ALL_MASK, locales[(size_t) h % locales.size()].c_str(), (locale_t) 0); cls("locale", loc); }
        bool shared = h > 0 || (st().extra == "short" && st().seed % 2);
        if (shared) { sf.reset(new lexi::FormatFloat(ops::dbl(shArg))); si.reset(new lexi::FormatInt((long long) ops::num(shArg))); sb.reset(new lexi::FormatBool(shArg & 1)); sc.reset(new lexi::FormatChar((char) shArg)); se.reset(new lexi::FormatEnum((ops::En) shArg)); sn.reset(new lexi::FormatNull(nullptr));
            xi.reset(new lexi::ExtractInt(ops::intText(shArg))); xf.reset(new lexi::ExtractFloat(ops::floatText(shArg))); xe.reset(new lexi::ExtractEnum(std::string(shArg & 2 ? "-7" : "12"))); xb.reset(new lexi::ExtractBool(std::string(shArg & 1 ? "true" : "false"))); xc.reset(new lexi::ExtractChar(std::string(1, (char) shArg))); xn.reset(new lexi::ExtractNull(std::string("null"))); }
        auto sharedRead = [&]() {
            lexi::FormatFloat cf(*sf); lexi::FormatInt ci(*si);
            return std::string(sf->c_str(), sf->size()) + sf->string() + cf.string() + si->string() + std::string(si->data(), si->length()) + ci.jsonify() + sb->string() + sb->jsonify() + sc->escape() + sc->jsonify() + se->string() + std::string(*sn) + sf->escape() + sf->jsonify();
        };
        // each call asks a few of the targets, in an order of its own
        auto sharedAsk = [&](uint64_t x) {
            std::string o; lexi::ExtractInt ci(*xi); lexi::ExtractFloat cf(*xf);
            for (int k = 0; k < 6; k++) { switch ((x >> (4 * k)) & 15) {
                case 0: o += ops::raw((long long) *xi); break; case 1: o += ops::raw((unsigned long long) *xi); break;
                case 2: o += ops::raw((int) *xi); break; case 3: o += ops::raw((unsigned int) *xi); break;
                case 4: o += ops::raw((short) *xi); break; case 5: o += ops::raw((int8_t) *xi); break;
                case 6: o += ops::raw((long long) ci); break; case 7: o += ops::rawf((double) *xf); break;
                case 8: o += ops::rawf((float) *xf); break; case 9: { long double v = (long double) *xf; o += ops::rawf((double) v); break; }
                case 10: o += ops::rawf((double) cf); break; case 11: o += ops::raw((long long) (ops::En) *xe); break;
                case 12: o += (bool) *xb ? "T" : "F"; break; case 13: o += (char) *xc; break;
                case 14: o += xn->null() == nullptr ? "N" : "?"; break; default: o += ops::raw((unsigned long) *xi); o += (char) (unsigned char) *xc; } }
            return o;
        };
        auto sharedText = [&](uint64_t x) {
            const std::string &s = texts[x % texts.size()];
            return lexi::escape(s) + lexi::jsonify(s) + ops::rawf(lexi::lexi<double>(s)) + ops::rawf(lexi::lexi<float>(s)) + ops::raw(lexi::lexi<long long>(s)) + ops::caught([&] { return std::string(lexi::lexi<bool>(s) ? "T" : "F"); });
        };
        auto run = [&](int op, uint64_t x) { return op < nop ? O[(size_t) op].run(x) : op == nop ? sharedText(x) : op == nop + 1 ? sharedRead() : sharedAsk(x); };
        ready = 0; go = false; ticket = 0;
        std::vector<std::vector<Rec>> rec((size_t) T);
        // plans made beforehand; in some rounds all threads do the same thing
        int mode = (int) r.below(4); int focus = (int) r.below((uint64_t) nop); int focus2 = (int) r.below((uint64_t) nop + (shared ? 3 : 1));
        for (int t = 0; t < T; t++) for (int k = 0; k < per; k++) {
            int op = mode == 0 ? focus : mode == 1 ? (r.chance(1, 2) ? focus : focus2) : (int) r.below((uint64_t) nop + (shared ? 3 : 1));
            uint64_t x = mode == 3 ? (uint64_t) k * 977 + h : r();   // mode 3: same arguments everywhere
            rec[(size_t) t].push_back({0, 0, x, op, 0});
        }
        std::vector<std::thread> th;
        for (int t = 0; t < T; t++) th.emplace_back([&, t] {
            if (own && t % 4 == 3) uselocale(own);
            auto &R = rec[(size_t) t]; uint64_t jit = Rng(shArg + (uint64_t) t)();
            ready.fetch_add(1, std::memory_order_relaxed);
            while (!go.load(std::memory_order_acquire)) {}
            for (auto &q : R) {
                jit = jit * 6364136223846793005ULL + 1442695040888963407ULL;
                if ((jit >> 60) == 0) sched_yield(); else if ((jit >> 61) == 1) for (volatile int z = 0; z < (int) (jit >> 40 & 255); z = z + 1) {}
                q.a = ticket.fetch_add(1, std::memory_order_relaxed);
                std::string o = run(q.op, q.arg);
                q.b = ticket.fetch_add(1, std::memory_order_relaxed);
                q.hash = hashBytes(o.data(), o.size());
            }
        });
        while (ready.load(std::memory_order_relaxed) < (uint32_t) T) {}
        go.store(true, std::memory_order_release);
        for (auto &t : th) { t.join(); progress(); }
        // offline: compare with the calls made alone
        if (!loc.empty()) setlocale(LC_ALL, loc.c_str());
        for (int t = 0; t < T; t++) for (auto &q : rec[(size_t) t]) {
            progress(); std::string o = run(q.op, q.arg); eval();
            const char *nm = q.op < nop ? O[(size_t) q.op].name : q.op == nop ? "shared strings" : q.op == nop + 1 ? "shared formatters" : "shared extractors";
            if (hashBytes(o.data(), o.size()) != q.hash) fail(std::string("thread.result.") + nm, "\"%s\" with argument %llu gave a different outcome among %d threads than alone, where it gives %s", nm, (unsigned long long) q.arg, T, show(o).c_str());
            distinct(hashBytes(&q.arg, 8, (uint64_t) q.op));
        }
        // offline: which calls overlapped in time
        struct Ev { uint64_t a, b; int op, t; }; std::vector<Ev> ev; for (int t = 0; t < T; t++) for (auto &q : rec[(size_t) t]) ev.push_back({q.a, q.b, q.op, t});
        std::sort(ev.begin(), ev.end(), [](const Ev &x, const Ev &y) { return x.a < y.a; });
        uint64_t win = 0;
        for (size_t i = 0; i < ev.size(); i++) {
            if (i && ev[i].t != ev[i - 1].t) switches++;
            win = (win << 3 | (uint64_t) ev[i].t) & 0xffffff; if (i >= 7) windows.insert(win);
            for (size_t j = i + 1; j < ev.size() && ev[j].a < ev[i].b; j++) { overlaps++; pairSeen[(size_t) ev[i].op][(size_t) ev[j].op] = pairSeen[(size_t) ev[j].op][(size_t) ev[i].op] = true; }
        }
        count("rounds")++; count("threads") += (uint64_t) T;
    }
    for (int a = 0; a < nop + 3; a++) for (int b = a; b < nop + 3; b++) if (pairSeen[(size_t) a][(size_t) b]) cls("overlapping_operation_pair", std::to_string(a) + "|" + std::to_string(b));
    for (uint64_t w : windows) { if (windows.size() > 15000 && (w & 7)) continue; cls("interleaving_windows", std::to_string(w)); }
    count("overlapping_calls") += overlaps; count("thread_switches_between_calls") += switches;
    sample("8 threads, " + std::to_string(overlaps) + " overlapping call pairs, first operations include \"" + O[(size_t) r.below((uint64_t) nop)].name + "\"");
    finish();
}
