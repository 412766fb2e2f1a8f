// Coverage-guided workload: libFuzzer chooses the inputs (branches, compared
// operands and table indexes of the library guide it), the monitors of the
// harness judge them. Included at the end of a harness built with -DFUZZ,
// after it defined `static void fuzzOne(Feed &)` and `static const char *fuzzSeeds[]`.
#pragma once
#include <sys/stat.h>
#include <dirent.h>
extern "C" int LLVMFuzzerRunDriver(int *argc, char ***argv, int (*cb)(const uint8_t *, size_t));
namespace fuzz {
static uint64_t runs;
static std::string dir;
static int one(const uint8_t *p, size_t n) {
    mon::Feed f{p, n};
    runs++;
    mon::distinct(mon::hashBytes(p, n) ^ 0xF022);
    fuzzOne(f);
    return 0;
}
static void bye() {
    // what the fuzzer kept: inputs that reached something new
    uint64_t kept = 0;
    if (DIR *d = opendir(dir.c_str())) {
        while (dirent *e = readdir(d)) if (e->d_name[0] != '.') { kept++; unlink((dir + "/" + e->d_name).c_str()); }
        closedir(d); rmdir(dir.c_str()); unlink((dir + ".dict").c_str());
    }
    mon::count("fuzzed_inputs") = runs; mon::count("fuzzed_inputs_reaching_something_new") = kept;
    mon::report();
    _exit(mon::st().fails ? 3 : 0);
}
}
int main(int argc, char **argv) {
    using namespace mon;
    init(argc, argv);
    fuzzInit();
    fuzz::dir = "fuzz-" + std::to_string(st().shard) + "-" + std::to_string((long) getpid());
    mkdir(fuzz::dir.c_str(), 0700);
    int k = 0;
    for (auto &s : fuzzSeeds()) {
        std::string f = fuzz::dir + "/seed" + std::to_string(k++);
        if (FILE *o = fopen(f.c_str(), "wb")) { fwrite(s.data(), 1, s.size(), o); fclose(o); }
    }
    std::string dict = fuzz::dir + ".dict"; std::vector<std::string> words = harvest().strs;
    for (uint64_t v : harvest().lits) { words.push_back(std::string((const char *) &v, 8)); words.push_back(std::to_string(v)); if (v >> 32 == 0) words.push_back(std::string((const char *) &v, 4)); if (words.size() > 1500) break; }
    if (FILE *o = fopen(dict.c_str(), "w")) { for (auto &w : words) if (w.size() <= 60) { fputc('"', o); for (unsigned char c : w) fprintf(o, "\\x%02x", c); fputs("\"\n", o); } fclose(o); }
    std::vector<std::string> a = {"fuzz", "-dict=" + dict, "-seed=" + std::to_string(1 + (st().seed * 1009 + (uint64_t) st().shard * 31) % 1000000007ULL), "-runs=" + std::to_string(scaled(FUZZ_RUNS)), "-use_value_profile=1", "-max_len=" + std::to_string(FUZZ_LEN), "-len_control=20",
        "-rss_limit_mb=0", "-malloc_limit_mb=0", "-timeout=100000", "-detect_leaks=0", "-verbosity=0", "-print_final_stats=0", "-reload=0", "-handle_segv=0", "-handle_bus=0", "-handle_abrt=0", "-handle_ill=0", "-handle_fpe=0", "-handle_int=0", "-handle_term=0", "-handle_xfsz=0", "-handle_usr1=0", "-handle_usr2=0", "-handle_winexit=0", fuzz::dir};
    std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]); v.push_back(nullptr);
    int c = (int) a.size(); char **p = v.data();
    atexit(fuzz::bye);
    LLVMFuzzerRunDriver(&c, &p, fuzz::one);
    exit(0);
}
