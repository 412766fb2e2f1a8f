// C14: capacity monitor. Formatters are built in guarded storage and their
// text must fit the internal buffer with its terminating NUL; where the
// class has a member buffer_ its size is the capacity. Every formatter is also
// built between guard bytes, so that a write past the object shows without a
// sanitizer.
#include <lexi/lexi.hpp>
#include "gen_double.hpp"
#include <limits>
#include <new>
using namespace mon;
// sizeof of the protected member buffer_, or 0 where there is none (any more)
template <class F> struct Peek: F { using F::F;
    template <class G> static auto cap(G *) -> decltype(sizeof(G::buffer_)) { return sizeof(G::buffer_); } static size_t cap(...) { return 0; }
    template <class G> auto inside(const G *g) const -> decltype((const char *) g->buffer_) { return (const char *) g->buffer_; } const char *inside(...) const { return nullptr; }
    static size_t capacity() { return cap((Peek *) nullptr); } const char *buf() const { return inside(this); } };
static uint64_t maxLen[3];
template <class F, class V> static void one(V v, int which) {
    struct { unsigned char a[64]; alignas(F) unsigned char m[sizeof(Peek<F>)]; unsigned char b[64]; } g;
    memset(g.a, 0xC3, 64); memset(g.b, 0x3C, 64); memset(g.m, 0x99, sizeof g.m);
    Peek<F> *f = new (g.m) Peek<F>(v);
    size_t n = f->size(); const char *d = f->data(); eval();
    for (int i = 0; i < 64; i++) if (g.a[i] != 0xC3 || g.b[i] != 0x3C) { fail("capacity.outside", "formatting \"%.*s\" wrote outside the formatter object", (int) (n < 60 ? n : 60), d); return; }
    size_t cap = Peek<F>::capacity();
    if (cap && f->buf() && d >= f->buf() && d < (const char *) g.m + sizeof g.m) {
        if (n > sizeof g.m || (size_t) (d - f->buf()) + n + 1 > cap) { fail("capacity.buffer", "the text \"%.*s\" with its NUL takes %zu bytes at offset %zu of a buffer of %zu", (int) (n < 60 ? n : 60), d, n + 1, (size_t) (d - f->buf()), cap); return; }
        count("within_internal_buffer")++;
    } else count("no_internal_buffer")++;
    if (n > maxLen[which]) maxLen[which] = n;
    f->~Peek<F>();
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = rng(14);
    ctxOp("capacity (num = bits)");
    const uint64_t M = (1ULL << 52) - 1;
    auto dbl = [&](double d) { ctxNum(gen::bits(d)); distinct(gen::bits(d)); one<lexi::FormatFloat>(d, 0); one<lexi::FormatFloat>(-d, 0); };
    for (double d : {0.0, (double) INFINITY, (double) NAN, 1e21, 1e20, 999999999999999900000.0, 123456789012345680000.0, 1e-7, 1.2345678901234567e-6, 1.2345678901234567e-7, 2.2250738585072014e-308, 5e-324, 1.7976931348623157e308, 1.2345678901234567e-300}) dbl(d);
    gen::doubles(r, 3e6, dbl);
    uint64_t n = scaled(3e6);
    for (uint64_t i = 0; i < n; i++) { uint64_t e = 1023 - 24 + r.below(100); dbl(gen::fromBits(e << 52 | (r() & M))); float g; uint32_t u = (uint32_t) r(); memcpy(&g, &u, 4); one<lexi::FormatFloat>(g, 0); if (i % 8 == 0) one<lexi::FormatFloat>((long double) g * 1e300L, 0);
        uint64_t x = r() >> r.below(64); one<lexi::FormatInt>((long long) x, 1); one<lexi::FormatInt>((unsigned long long) x, 1); one<lexi::FormatInt>((long long) (0 - x), 1); one<lexi::FormatInt>((int) x, 1); one<lexi::FormatInt>((unsigned) x, 1); one<lexi::FormatInt>((short) x, 1); one<lexi::FormatInt>((int8_t) x, 1); }
    one<lexi::FormatInt>(std::numeric_limits<long long>::min(), 1); one<lexi::FormatInt>(~0ULL, 1);
    for (int c = 0; c < 256; c++) one<lexi::FormatChar>((char) c, 2);
    one<lexi::FormatBool>(true, 2); one<lexi::FormatBool>(false, 2); one<lexi::FormatNull>(nullptr, 2);
    cls("longest_float_text", std::to_string(maxLen[0])); cls("longest_int_text", std::to_string(maxLen[1]));
    sample("longest float text " + std::to_string(maxLen[0]) + " bytes of capacity " + std::to_string(Peek<lexi::FormatFloat>::capacity()) + ", longest integer text " + std::to_string(maxLen[1]) + " of " + std::to_string(Peek<lexi::FormatInt>::capacity()));
    finish();
}
