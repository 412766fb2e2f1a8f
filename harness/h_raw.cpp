// C14: the low-level writers, given a heap buffer of exactly the size the
// formatters give them; meant for AddressSanitizer. Built only while these
// internal functions keep their signatures.
#include <lexi/detail/dtoa.hpp>
#include <lexi/detail/itoa.hpp>
#include <lexi/detail/fmt.hpp>
#include <memory>
#include "gen_double.hpp"
using namespace mon;
template <class F> static void guarded(size_t cap, F f) { std::unique_ptr<char[]> b(new char[cap]); memset(b.get(), 0x55, cap); char *e = f(b.get()); eval(); if (e < b.get() || e >= b.get() + cap) fail("capacity.raw", "text of %ld bytes for a buffer of %zu", (long) (e - b.get()), cap); }
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(141);
    ctxOp("raw writers (num = argument)");
    gen::doubles(r, 2e6, [](double d) { ctxNum(gen::bits(d)); distinct(gen::bits(d)); guarded(lexi::detail::FLOAT_SIZE, [&](char *b) { return lexi::detail::dtoa(d, b); }); });
    uint64_t n = scaled(2e6);
    for (uint64_t i = 0; i < n; i++) { uint64_t x = r() >> r.below(64); if (i & 1) x = 0 - x; ctxNum(x); distinct(x);
        guarded(lexi::detail::INTEGER_SIZE, [&](char *b) { return lexi::detail::u64toa(x, b); }); guarded(lexi::detail::INTEGER_SIZE, [&](char *b) { return lexi::detail::i64toa((int64_t) x, b); });
        guarded(lexi::detail::INTEGER_SIZE, [&](char *b) { return lexi::detail::u32toa((uint32_t) x, b); }); guarded(lexi::detail::INTEGER_SIZE, [&](char *b) { return lexi::detail::i32toa((int32_t) x, b); }); }
    finish();
}
