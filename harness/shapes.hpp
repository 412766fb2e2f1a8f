// Shapes of text of any size, for the monitors of cost and stack.
#pragma once
#include "mon.hpp"
namespace shapes {
inline std::string cyc(const std::string &t, size_t n) { std::string s; s.reserve(n + t.size()); while (s.size() < n) s += t; s.resize(n); return s; }
static const int COUNT = 37;
inline std::string make(int k, size_t n, mon::Rng &r, const char *&name) {
#define S(i, nm, ex) case i: name = nm; return ex
    switch (k) {
        S(0, "zeros", std::string(n, '0')); S(1, "digits", std::string(n, '7')); S(2, "letters", std::string(n, 'k')); S(3, "quotes", std::string(n, '"')); S(4, "control bytes", std::string(n, '\x01')); S(5, "NUL bytes", std::string(n, '\0'));
        S(6, "blanks", std::string(n, ' ')); S(7, "blanks then a number", std::string(n, ' ') + "12.5"); S(8, "backslashes", std::string(n, '\\')); S(9, "bytes above 0x7f", std::string(n, '\xe9'));
        S(10, "true and more", "true" + std::string(n, 'e')); S(11, "fraction", "0." + std::string(n, '3')); S(12, "zeros and exponent", "0." + std::string(n, '0') + "1e" + std::to_string(n)); S(13, "exponent digits", "1e" + std::string(n, '9')); S(14, "signs", std::string(n, '-'));
        S(15, "line ends", std::string(n, '\n')); S(16, "DEL bytes", std::string(n, '\x7f')); S(17, "null and more", "null" + std::string(n, 'l')); S(18, "points", std::string(n, '.')); S(19, "minus zeros", "-" + std::string(n, '0'));
        S(20, "UTF-8 text", cyc("\xe2\x80\xa8\xc3\xa9z", n)); S(21, "quoted letters", cyc("\"a", n)); S(22, "a quote in 64 letters", cyc("\"" + std::string(63, 'k'), n)); S(23, "a control byte in 1000 letters", cyc(std::string(999, 'k') + "\x02", n)); S(24, "a quote in 20000 letters", cyc(std::string(19999, 'k') + "\"", n));
        S(25, "grouped digits", cyc("123,", n)); S(26, "line ends and blanks", cyc("\r\n\t ", n)); S(27, "escapes", cyc("\\u00", n)); S(28, "numbers", cyc("-12.5e3 ", n)); S(29, "NUL and letters", cyc(std::string("\0k", 2), n));
        S(30, "letters then a quote", std::string(n, 'k') + "\""); S(31, "quote then letters", "\"" + std::string(n, 'k')); S(32, "digits then a letter", std::string(n, '3') + "x"); S(33, "digits and exponent", std::string(n, '4') + "e-" + std::to_string(n)); S(34, "line ends, sign, number", std::string(n, '\n') + "-77");
        case 35: { name = "random bytes"; std::string s; s.reserve(n); for (size_t i = 0; i < n; i++) s += (char) r(); return s; }
        default: { name = "random text"; std::string s; s.reserve(n); for (size_t i = 0; i < n; i++) s += (char) (32 + r.below(95)); return s; }
    }
#undef S
}
// every byte value in repetition: alone, between letters, next to a quote, behind and in front of a number, with a backslash, sparse
static const int BYTE_KINDS = 7;
inline std::string ofByte(int b, int kind, size_t n, const char *&name) {
    static char label[64]; static const char *what[] = {"a run of", "letters and", "quotes and", "a digit, then", "a digit after", "backslashes and", "sixteen letters and"};
    snprintf(label, sizeof label, "%s byte 0x%02x", what[kind], b); name = label; std::string c(1, (char) b);
    switch (kind) { case 0: return std::string(n, (char) b); case 1: return cyc("a" + c, n); case 2: return cyc("\"" + c, n); case 3: return "7" + std::string(n, (char) b); case 4: return std::string(n, (char) b) + "7"; case 5: return cyc("\\" + c, n); default: return cyc("abcdefghijklmnop" + c, n); }
}
}
