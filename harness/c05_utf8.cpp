// C05: text validity. Reference: RFC 3629 / MQTT 1.5.4 plus FlashMQ's documented refusal of control characters and non-characters.
#include "fsx.h"
#include "utils.h"
#include "threadlocalutils.h"
#include <string>
#define CHECK(c, m) fsx_assert((c), m)
static bool ref(const std::string &s, bool pub) {
    size_t i = 0, n = s.size();
    while (i < n) {
        unsigned a = (unsigned char)s[i]; if (pub && (a == '#' || a == '+')) return false;
        if (a < 0x80) { if (a < 0x20 || a == 0x7f) return false; i++; continue; }
        unsigned len, cp; if (a >= 0xC2 && a <= 0xDF) { len = 2; cp = a & 31; } else if ((a & 0xF0) == 0xE0) { len = 3; cp = a & 15; } else if (a >= 0xF0 && a <= 0xF4) { len = 4; cp = a & 7; } else return false;
        if (i + len > n) return false; for (unsigned k = 1; k < len; k++) { unsigned b = (unsigned char)s[i + k]; if ((b & 0xC0) != 0x80) return false; cp = cp << 6 | (b & 63); }
        if (len == 3 && cp < 0x800) return false; if (len == 4 && (cp < 0x10000 || cp > 0x10FFFF)) return false; if (cp >= 0xD800 && cp <= 0xDFFF) return false; if (cp <= 0x9F) return false; if (cp >= 0xFDD0 && cp <= 0xFDEF) return false; if ((cp & 0xFFFE) == 0xFFFE) return false;
        i += len; }
    return true; }
static void both(const std::string &s) {
    bool pub = fsx_choice("publish topic", 2); bool r = ref(s, pub); bool g = isValidUtf8Generic(s, pub); CHECK(g == r, "portable check agrees with the definition");
    SimdUtils u; bool v = u.isValidUtf8(s, pub); CHECK(v == r, "accelerated check agrees with the definition"); CHECK(isValidUtf8(s, pub) == r, "check in use agrees with the definition"); fsx_obs_u64("valid", v); fsx_cover(r ? "valid" : "invalid"); }
// every string of up to N bytes
#ifndef N
#define N 4
#endif
extern "C" void fsx_all() { unsigned n = fsx_choice("len", N + 1); std::string s(n, 0); if (n) fsx_symbolic(&s[0], n, "s"); both(s); }
// a window of arbitrary bytes anywhere in a longer string, so that 16-byte blocks are crossed in every way
#ifndef WIN
#define WIN 3
#endif
extern "C" void fsx_window() {
    static const unsigned offs[] = {0, 1, 12, 13, 14, 15, 16, 17, 28, 29, 30, 31, 32}; unsigned off = offs[fsx_choice("offset", 13)]; unsigned kind = fsx_choice("filler", 2); unsigned after = (fsx_choice("after", 3)) * 8;
    std::string s; while (s.size() < off) { if (kind && s.size() + 2 <= off) s += "\xc3\xa9"; else s += 'a'; } std::string w(WIN, 0); fsx_symbolic(&w[0], WIN, "w"); s += w; s += std::string(after, 'z'); both(s); }
// two arbitrary bytes far apart, around a multi-byte character
extern "C" void fsx_pair() {
    unsigned p = fsx_choice("first", 16), q = fsx_choice("second", 20); std::string s(36, 'k'); unsigned char a, b; fsx_symbolic(&a, 1, "a"); fsx_symbolic(&b, 1, "b"); unsigned m = fsx_choice("multi", 3); if (m) { s[16 * m - 9] = '\xc3'; s[16 * m - 8] = '\xa9'; } s[p] = a; s[q] = b; both(s); }
// too long for the accelerated check's scratch memory: refused, not overrun; the longest MQTT string is handled
extern "C" void fsx_long() { static const unsigned ls[] = {65535, 65536 - 1, 65520}; unsigned n = ls[fsx_choice("len", 3)]; std::string s(n, 'x'); unsigned char a; fsx_symbolic(&a, 1, "last"); s[n - 1] = a; SimdUtils u; bool r = a >= 0x20 && a < 0x7f; CHECK(u.isValidUtf8(s, false) == r, "longest string"); fsx_cover("long"); }
