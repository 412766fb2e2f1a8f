// C28: conversions need little stack, whatever their input.
// Every conversion runs on a stack of its own that is painted before and
// scanned after; an overrun of the stack hits a guard page.
#include "ops.hpp"
#include "shapes.hpp"
#include <ucontext.h>
using namespace mon;
static const size_t STACK = 256 << 10, LIMIT = 64 << 10;
static char *stack_; static ucontext_t outer, inner; static void (*job)(void *); static void *arg_;
static void entry() { job(arg_); }
static size_t measure(void (*f)(void *), void *a) {
    // paint what the last run touched, at least; the rest is still painted
    static size_t dirty = STACK; memset(stack_ + STACK - dirty, 0xa5, dirty);
    job = f; arg_ = a; getcontext(&inner); inner.uc_stack.ss_sp = stack_; inner.uc_stack.ss_size = STACK; inner.uc_link = &outer; makecontext(&inner, entry, 0); swapcontext(&outer, &inner);
    const uint64_t *p = (const uint64_t *) stack_; size_t i = 0; while (i < STACK / 8 && p[i] == 0xa5a5a5a5a5a5a5a5ULL) i++;
    size_t used = STACK - i * 8; dirty = used + 64 < STACK ? used + 64 : STACK; return used;
}
struct Text { const std::string *s; size_t n; };
template <class F> static void one(const char *name, const std::string &t, const char *shape) {
    ctxOp((std::string(name) + " of " + shape).c_str()); ctxNum(t.size()); Text a{&t, 0};
    size_t u = measure([](void *p) { try { F::run(*((Text *) p)->s); } catch (const std::runtime_error &) {} }, &a);
    eval(); distinct(hashBytes(name, strlen(name), t.size() + hashBytes(shape, strlen(shape)))); cls("call", name); cls("shape", shape); if (u > count("largest_stack_bytes")) count("largest_stack_bytes") = u;
    if (u > LIMIT) fail(std::string("stack.") + name, "%s of %zu bytes (%s) used %zu bytes of stack", name, t.size(), shape, u);
}
#define FN(id, expr) struct id { static void run(const std::string &t) { volatile size_t k = (size_t) (expr); (void) k; } }
enum class E1 : short {};
FN(Esc, lexi::escape(t).size()); FN(Jso, lexi::jsonify(t).size()); FN(Str, lexi::string(t).size()); FN(Lex, lexi::lexi(t.c_str()).size()); FN(EscC, lexi::escape(t.c_str()).size()); FN(JsoC, lexi::jsonify(t.c_str()).size());
FN(XI, lexi::lexi<int>(t)); FN(XU, lexi::lexi<unsigned long long>(t.c_str())); FN(XE, lexi::lexi<E1>(t)); FN(XD, lexi::lexi<double>(t) == 1); FN(XF, lexi::lexi<float>(t) == 1); FN(XL, lexi::lexi<long double>(t.c_str()) == 1); FN(XB, lexi::lexi<bool>(t)); FN(XN, lexi::lexi<std::nullptr_t>(t) == nullptr); FN(XC, lexi::lexi<char>(t));
static void all(const std::string &t, const char *shape) {
    one<Esc>("escape", t, shape); one<Jso>("jsonify", t, shape); one<Str>("string", t, shape); one<Lex>("lexi", t, shape); one<EscC>("escape (C string)", t, shape); one<JsoC>("jsonify (C string)", t, shape);
    one<XI>("extract integer", t, shape); one<XU>("extract integer (C string)", t, shape); one<XE>("extract enumeration", t, shape); one<XD>("extract double", t, shape); one<XF>("extract float", t, shape); one<XL>("extract long double", t, shape); one<XB>("extract bool", t, shape); one<XN>("extract null", t, shape); one<XC>("extract char", t, shape);
}
struct OpArg { const ops::Op *o; uint64_t x; };
int main(int argc, char **argv) {
    init(argc, argv); Rng r = rng(28);
    char *m = (char *) mmap(nullptr, STACK + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) _exit(9); mprotect(m, 65536, PROT_NONE); stack_ = m + 65536;
    size_t top = (size_t) (4e6 * st().scale); if (top < 1 << 14) top = 1 << 14; if (top > 1u << 26) top = 1u << 26;
    for (size_t n = 1; n <= top; n *= 2) {
        for (int k = 0; k < shapes::COUNT; k++) { if (!mine() || st().fails) continue; const char *name; std::string t = shapes::make(k, n + (n > 1000 ? r.below(n / 4) : 0), r, name); all(t, name); }
    }
    for (int q = 0; q < shapes::BYTE_KINDS; q++) for (int b = 0; b < 256; b++) { if (!mine() || st().fails) continue; const char *name; std::string t = shapes::ofByte(b, q, 50000, name); all(t, name); count("shapes_of_each_byte")++; }
    const auto &v = ops::all(); uint64_t k = scaled(15000);
    for (uint64_t i = 0; i < k && !st().fails; i++) for (auto &o : v) {
        OpArg a{&o, r()}; ctxOp(o.name); ctxNum(a.x);
        size_t u = measure([](void *p) { auto *q = (OpArg *) p; try { q->o->run(q->x); } catch (...) {} }, &a); eval(); cls("call", o.name); if (u > count("largest_stack_bytes")) count("largest_stack_bytes") = u;
        // the catalogue's big integers and strings live in frames of its own, too
        if (u > LIMIT + 32768) { fail("stack.catalogue", "\"%s\" with argument %llu used %zu bytes of stack", o.name, (unsigned long long) a.x, u); break; }
    }
    sample("37 shapes of text, sizes doubling to " + std::to_string(top) + ", and the catalogue of conversions, on painted stacks");
    finish();
}
