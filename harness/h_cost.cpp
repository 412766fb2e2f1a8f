// C24: every conversion ends, in time and memory linear in its input.
// The monitor meters processor time, the number of heap requests and the bytes
// requested (operator new, and malloc as called from the library) of single
// calls on inputs of doubling size, many shapes each. The bounds are some
// hundred times what linear code needs; quadratic code exceeds them by far.
#include <lexi/lexi.hpp>
#include "mon.hpp"
#include "shapes.hpp"
#include "ops.hpp"
#include <malloc.h>
#include <new>
#include <ctime>
#include <cmath>
using namespace mon;
static bool armed = false; static uint64_t nAlloc, nBytes, nLive, nPeak;
extern "C" void *__real_malloc(size_t); extern "C" void __real_free(void *); extern "C" void *__real_calloc(size_t, size_t); extern "C" void *__real_realloc(void *, size_t);
static void note(size_t n) { if (armed) { nAlloc++; nBytes += n; } }
extern "C" void *__wrap_malloc(size_t n) { note(n); return __real_malloc(n); }
extern "C" void __wrap_free(void *p) { __real_free(p); }
extern "C" void *__wrap_calloc(size_t a, size_t b) { note(a * b); return __real_calloc(a, b); }
extern "C" void *__wrap_realloc(void *o, size_t n) { note(n); return __real_realloc(o, n); }
void *operator new(size_t n) { note(n); void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __real_free(p); } void operator delete[](void *p) noexcept { __real_free(p); } void operator delete(void *p, size_t) noexcept { __real_free(p); } void operator delete[](void *p, size_t) noexcept { __real_free(p); }
static double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }
template <class F> static void meter(const char *name, const std::string &in, const char *shape, F f) {
    ctxOp((std::string(name) + " of " + shape).c_str()); ctxNum(in.size());
    nAlloc = nBytes = 0; double t = cpu(); armed = true;
    try { f(in); } catch (const std::runtime_error &) {}
    armed = false; t = cpu() - t; eval(); distinct(hashBytes(name, strlen(name), in.size() + hashBytes(shape, strlen(shape)))); cls("call", name); cls("shape", shape);
    double n = (double) in.size(), limit = (in.size() < 4096 ? 0.05 : 0.3) + 2.5e-7 * n;
    // generous: 0.25 microseconds and 64 bytes (extraction: 6) per byte of input
    // a slow call is repeated: the quickest of six runs counts, against about ten times what is seen
    if (t > limit) for (int k = 0; k < 5 && t > limit && t < 20; k++) { double u = cpu(); try { f(in); } catch (const std::runtime_error &) {} u = cpu() - u; if (u < t) t = u; count("repeated_slow_calls")++; }
    if (t > limit) fail(std::string("cost.time.") + name, "%s of %zu bytes (%s) took %.2f s of processor time", name, in.size(), shape, t);
    double per = !strncmp(name, "extract", 7) ? 6 : 64;
    if ((double) nBytes > 16384 + per * n) fail(std::string("cost.memory.") + name, "%s of %zu bytes (%s) requested %llu bytes in all", name, in.size(), shape, (unsigned long long) nBytes);
    if ((double) nAlloc > 64 + n / 16) fail(std::string("cost.requests.") + name, "%s of %zu bytes (%s) made %llu heap requests", name, in.size(), shape, (unsigned long long) nAlloc);
    uint64_t ppm = in.size() > 4096 ? (uint64_t) ((double) nBytes / n * 1000) : 0; if (ppm > count("largest_bytes_per_input_byte_milli")) count("largest_bytes_per_input_byte_milli") = ppm;
    uint64_t ns = in.size() > (1 << 20) ? (uint64_t) (t / n * 1e12) : 0; if (ns > count("largest_time_per_byte_ps")) count("largest_time_per_byte_ps") = ns;
    if (nAlloc > count("most_heap_requests")) count("most_heap_requests") = nAlloc;
    count("calls")++; count("input_bytes") += in.size();
}
static void all(const std::string &s, const char *shape) {
    meter("escape", s, shape, [](const std::string &t) { return lexi::escape(t).size(); });
    meter("jsonify", s, shape, [](const std::string &t) { return lexi::jsonify(t).size(); });
    meter("string", s, shape, [](const std::string &t) { return lexi::string(t).size(); });
    meter("lexi", s, shape, [](const std::string &t) { return lexi::lexi(t.c_str()).size(); });
    meter("escape (C string)", s, shape, [](const std::string &t) { return lexi::escape(t.c_str()).size(); });
    meter("jsonify (C string)", s, shape, [](const std::string &t) { return lexi::jsonify(t.c_str()).size(); });
    meter("extract integer", s, shape, [](const std::string &t) { return (size_t) lexi::lexi<long long>(t); });
    meter("extract integer (C string)", s, shape, [](const std::string &t) { return (size_t) lexi::lexi<int>(t.c_str()); });
    meter("extract enumeration", s, shape, [](const std::string &t) { enum class E : short {}; return (size_t) lexi::lexi<E>(t); });
    meter("extract double", s, shape, [](const std::string &t) { return (size_t) (lexi::lexi<double>(t) == 1); });
    meter("extract float", s, shape, [](const std::string &t) { return (size_t) (lexi::lexi<float>(t) == 1); });
    meter("extract long double", s, shape, [](const std::string &t) { return (size_t) (lexi::lexi<long double>(t) == 1); });
    meter("extract bool", s, shape, [](const std::string &t) { return (size_t) lexi::lexi<bool>(t); });
    meter("extract null", s, shape, [](const std::string &t) { return (size_t) (lexi::lexi<std::nullptr_t>(t) == nullptr); });
    meter("extract char", s, shape, [](const std::string &t) { return (size_t) lexi::lexi<char>(t); });
}
// memory kept after calls have returned: bounded, however many calls with however many different arguments
static size_t heap() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static void retained(Rng &r) {
    const auto &v = ops::all(); uint64_t n = scaled(9000) + 2000, warm = 1000; ctxOp("catalogue, memory kept");
    auto once = [&](uint64_t i) { for (size_t o = 0; o < v.size(); o++) { uint64_t x = r(); ctxOp(v[o].name); ctxNum(x); try { v[o].run(x); } catch (...) {} } uint64_t b = r(); std::string s((const char *) &b, 1 + i % 8); s += std::to_string(i); lexi::jsonify(s); lexi::escape(s); lexi::string(s); (void) lexi::lexi<long>(std::to_string(b)); (void) lexi::lexi<double>(std::to_string(b >> 11)); };
    for (uint64_t i = 0; i < warm; i++) once(i);
    size_t before = heap(); for (uint64_t i = 0; i < n; i++) once(i); size_t after = heap(), grown = after > before ? after - before : 0;
    eval(n * (v.size() + 5)); count("conversions_after_which_the_heap_was_weighed") += n * (v.size() + 5); if (grown > count("largest_heap_growth_bytes")) count("largest_heap_growth_bytes") = grown;
    if (grown > 40 * n) fail("cost.retained", "%llu rounds of conversions of different arguments left %zu bytes more on the heap", (unsigned long long) n, grown);
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(24);
    size_t top = (size_t) (4e6 * st().scale); if (top < 1 << 16) top = 1 << 16; if (top > 1u << 27) top = 1u << 27;
    // super-linear cost only grows with the size: the first size that shows it ends the sweep
    for (size_t n = 16; n <= top && !st().fails; n *= 2) {
        for (int k = 0; k < shapes::COUNT; k++) {
            if (!mine() || st().fails) continue;
            const char *name; std::string t = shapes::make(k, n + (n > 1000 ? r.below(n / 4) : 0), r, name);
            all(t, name);
        }
    }
    size_t each = (size_t) (50000 * st().scale); if (each < 60000) each = 60000; if (each > 2000000) each = 2000000;
    for (int k = 0; k < shapes::BYTE_KINDS; k++) for (int b = 0; b < 256; b++) { if (!mine() || st().fails) continue; const char *name; std::string t = shapes::ofByte(b, k, k < 2 ? 5 * each : each, name); all(t, name); count("shapes_of_each_byte")++; }
    // short texts that denote large things: effort follows the length, not the value
    for (const char *sign : {"", "-"}) for (const char *lead : {"0", "1", "9.75", ".001", "123456789"}) for (const char *e : {"e", "E-", "e+"}) for (const char *x : {"0", "22", "308", "4932", "99999", "1000000", "100000000", "999999999", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "99999999999999999999999999"}) {
        if (!mine() || st().fails) continue;
        all(std::string(sign) + lead + e + x, "exponents of any value"); count("exponent_texts")++;
    }
    retained(r);
    // numbers: a bounded effort whatever the value
    uint64_t m = scaled(2e6); ctxOp("number formatting, batches"); double worst = 0;
    for (uint64_t i = 0; i < m; i += 1000) {
        Rng q = r; double best = 1e9; uint64_t sink = 0;
        for (int again = 0; again < 6 && best > 0.2; again++) {
            r = q; nAlloc = nBytes = 0; double t = cpu(); armed = true;
            for (int k = 0; k < 1000; k++) {
                uint64_t b = r() >> (k % 3 ? 0 : r.below(64)); double d; if (k % 5) memcpy(&d, &b, 8); else { d = (double) (int64_t) b; if (k % 2) d /= 1e6; }
                ctxNum(b); lexi::FormatFloat f(d), h((float) d), l((long double) d * 0.1L); lexi::FormatInt g((long long) b); sink += f.size() + g.size() + h.size() + l.size() + lexi::lexi((unsigned) b).size() + lexi::jsonify((short) b).size();
            }
            armed = false; t = cpu() - t; if (t < best) best = t;
            if (nBytes > 1000 * 4096) fail("cost.memory.number", "1000 numbers requested %llu bytes", (unsigned long long) nBytes);
        }
        eval(1000); if (best > worst) worst = best;
        if (best > 0.2) { fail("cost.time.number", "1000 numbers took %.2f s of processor time", best); break; }
        volatile uint64_t keep = sink; (void) keep;
    }
    count("numbers") = m; count("slowest_batch_of_1000_us") = (uint64_t) (worst * 1e6);
    sample("jsonify, escape, string and all extractions of 37 shapes of text, sizes doubling from 16 to " + std::to_string(top));
    finish();
}
