// Common runtime of the monitors: deterministic PRNG, crash/hang context
// shared with the driver, violation and statistics reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <map>
#include <vector>
#include <set>
#include <atomic>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

namespace mon {

// ---- bytes chosen by a fuzzer
struct Feed {
    const uint8_t *p; size_t n;
    uint8_t byte() { if (!n) return 0; n--; return *p++; }
    uint64_t u64() { uint64_t v = 0; size_t k = n < 8 ? n : 8; memcpy(&v, p, k); p += k; n -= k; return v; }
    std::string rest(size_t max = ~(size_t) 0) { size_t k = n < max ? n : max; std::string s((const char *) p, k); p += k; n -= k; return s; }
};

// ---- PRNG (xoshiro256**), seeded by splitmix64
struct Rng {
#ifdef FUZZ
    Feed *feed = nullptr;   // choices come from here first
#endif
    uint64_t s[4];
    static uint64_t sm(uint64_t &x) { uint64_t z = (x += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    explicit Rng(uint64_t seed = 1) { for (auto &v : s) v = sm(seed); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t operator()() {
#ifdef FUZZ
        if (feed && feed->n) return feed->u64();
#endif
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) {
#ifdef FUZZ
        if (feed && feed->n && n <= 256) return feed->byte() % n;
#endif
        return (*this)() % n;
    }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// ---- context page shared with the driver
struct Ctx {
    std::atomic<uint64_t> progress;   // completed + started cases
    std::atomic<uint32_t> len;
    std::atomic<uint64_t> num;
    char op[52];
    unsigned char data[4000];
};

// constants and texts that the library contains, found by the driver
struct Harvest { std::vector<uint64_t> lits, wins; std::vector<std::string> strs; };

struct State {
    Harvest harvest;
    uint64_t seed = 1;
    int shard = 0, shards = 1;
    double scale = 1;
    std::string monitors = "all";
    bool nofail = false;
    std::string extra;
    Ctx *ctx = nullptr;
    unsigned char *bitmap = nullptr;
    size_t bitmapBits = 0;
    uint64_t evaluations = 0;      // monitored executions
    uint64_t exact = 0;            // distinct by construction (enumerated ranges)
    std::map<std::string, uint64_t> stats;
    std::map<std::string, std::set<std::string>> classes;
    std::vector<std::string> samples;
    std::set<std::string> failKeys;
    uint64_t fails = 0;
};
inline State &st() { static State &s = *new State; return s; }   // never destroyed: used during exit

inline std::string quote(const std::string &s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}

inline void ctxBytes(const char *op, const void *p, size_t n) {
    Ctx *c = st().ctx;
    c->progress.fetch_add(1, std::memory_order_relaxed);
    strncpy(c->op, op, sizeof(c->op) - 1);
    size_t m = n < sizeof(c->data) ? n : sizeof(c->data);
    memcpy(c->data, p, m);
    c->len.store((uint32_t) n, std::memory_order_relaxed);
}
inline void ctxStr(const char *op, const std::string &s) { ctxBytes(op, s.data(), s.size()); }
// cheap variant for tight loops: op is set once, the number every time
inline void ctxOp(const char *op) { Ctx *c = st().ctx; strncpy(c->op, op, sizeof(c->op) - 1); c->len.store(0, std::memory_order_relaxed); }
inline void ctxNum(uint64_t v) { Ctx *c = st().ctx; c->num.store(v, std::memory_order_relaxed); c->progress.store(c->progress.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed); }

inline uint64_t mix(uint64_t x) { x ^= x >> 32; x *= 0xd6e8feb86659fd93ULL; x ^= x >> 32; x *= 0xd6e8feb86659fd93ULL; x ^= x >> 32; return x; }
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    auto *b = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
    return mix(h);
}
// records a distinct, non-trivial case (a lower bound: collisions merge)
inline void distinct(uint64_t h) {
    State &s = st();
    if (!s.bitmap) return;
    uint64_t i = mix(h) & (s.bitmapBits - 1);
    s.bitmap[i >> 3] |= (unsigned char) (1u << (i & 7));
}
inline void eval(uint64_t n = 1) { st().evaluations += n; }
inline uint64_t &count(const char *name) { return st().stats[name]; }
inline void cls(const char *group, const std::string &v) { auto &s = st().classes[group]; if (s.size() < 20000) s.insert(v); }
inline void sample(const std::string &s) { if (st().samples.size() < 6) st().samples.push_back(s); }

inline bool wants(const char *m) {
    const std::string &x = st().monitors;
    return x == "all" || ("," + x + ",").find(std::string(",") + m + ",") != std::string::npos;
}

inline void report() {
    State &s = st();
    std::string o = "STATS {\"evaluations\":" + std::to_string(s.evaluations) + ",\"exact_distinct\":" + std::to_string(s.exact) + ",\"stats\":{";
    bool f = true;
    for (auto &k : s.stats) { o += (f ? "" : ",") + quote(k.first) + ":" + std::to_string(k.second); f = false; }
    o += "},\"classes\":{"; f = true;
    for (auto &k : s.classes) {
        o += (f ? "" : ",") + quote(k.first) + ":["; f = false;
        bool g = true;
        for (auto &v : k.second) { o += (g ? "" : ",") + quote(v); g = false; }
        o += "]";
    }
    o += "},\"samples\":["; f = true;
    for (auto &v : s.samples) { o += (f ? "" : ",") + quote(v); f = false; }
    o += "]}\n";
    fputs(o.c_str(), stdout);
    fflush(stdout);
}
[[noreturn]] inline void finish() {
    report();
    if (st().fails) _exit(3);
    // a normal exit, so that leak checking at exit runs
    exit(0);
}

// A violation: key names the monitor, what describes the failing case.
inline void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
inline void fail(const std::string &key, const char *fmt, ...) {
    State &s = st();
    if (s.nofail) { s.stats["ignored_functional_failures"]++; return; }
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    s.fails++;
    printf("FAIL {\"key\":%s,\"what\":%s}\n", quote(key).c_str(), quote(buf).c_str());
    fflush(stdout);
    if (s.fails >= 12) finish();
}

inline std::string hex(const std::string &s, size_t max = 200) {
    std::string o; char b[4];
    for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, sizeof b, "%02x", (unsigned char) s[i]); o += b; }
    if (s.size() > max) o += "...";
    return o;
}
inline std::string show(const std::string &s) { return "<" + (s.size() > 120 ? s.substr(0, 120) + "..." : s) + "> hex=" + hex(s) + " len=" + std::to_string(s.size()); }

inline void init(int argc, char **argv) {
    State &s = st();
    const char *ctxFile = nullptr, *bm = nullptr, *hv = nullptr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> const char * { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); _exit(9); } return argv[++i]; };
        if (a == "--seed") s.seed = strtoull(next(), nullptr, 10);
        else if (a == "--shard") s.shard = atoi(next());
        else if (a == "--shards") s.shards = atoi(next());
        else if (a == "--scale") s.scale = atof(next());
        else if (a == "--mon") s.monitors = next();
        else if (a == "--nofail") s.nofail = true;
        else if (a == "--ctx") ctxFile = next();
        else if (a == "--bitmap") bm = next();
        else if (a == "--extra") s.extra = next();
        else if (a == "--harvest") hv = next();
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); _exit(9); }
    }
    if (hv) {
        FILE *f = fopen(hv, "r"); if (!f) { perror("harvest"); _exit(9); }
        char line[300];
        while (fgets(line, sizeof line, f)) {
            if (line[0] == 'S') { std::string t; for (const char *p = line + 2; p[0] > 32 && p[1] > 32; p += 2) { char b[3] = {p[0], p[1], 0}; t += (char) strtoul(b, nullptr, 16); } s.harvest.strs.push_back(t); }
            else (line[0] == 'L' ? s.harvest.lits : s.harvest.wins).push_back(strtoull(line + 2, nullptr, 16));
        }
        fclose(f);
    }
    if (ctxFile) {
        int fd = open(ctxFile, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Ctx)) != 0) { perror("ctx"); _exit(9); }
        s.ctx = (Ctx *) mmap(nullptr, sizeof(Ctx), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    } else {
        s.ctx = (Ctx *) mmap(nullptr, sizeof(Ctx), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    if (s.ctx == MAP_FAILED) { perror("mmap"); _exit(9); }
    if (bm) {
        s.bitmapBits = size_t(1) << 26;
        int fd = open(bm, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, s.bitmapBits / 8) != 0) { perror("bitmap"); _exit(9); }
        s.bitmap = (unsigned char *) mmap(nullptr, s.bitmapBits / 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        if (s.bitmap == MAP_FAILED) { perror("mmap"); _exit(9); }
    }
}

inline const Harvest &harvest() { return st().harvest; }
inline uint64_t scaled(double n) { double v = n * st().scale / st().shards; return v < 1 ? 1 : (uint64_t) v; }
inline Rng rng(uint64_t salt = 0) { return Rng(st().seed * 0x9E3779B97F4A7C15ULL + (uint64_t) st().shard * 0xD1B54A32D192ED03ULL + salt * 0x8CB92BA72F3D8DD7ULL); }
// round-robin ownership of directed cases among the shards
inline bool mine() { static uint64_t n = 0; return (int) (n++ % (uint64_t) st().shards) == st().shard; }

}  // mon
