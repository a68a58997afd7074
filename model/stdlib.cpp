// Models of library code that is not available as source: libstdc++ internals, streams, libc helpers.
// Linked only into the engine build; the native replay uses the real libraries.
#include <string>
#include <stdexcept>
#include <new>
#include <list>
#include <functional>
#include <system_error>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cstdarg>
#include <ctype.h>
#include <map>
#include <sstream>
#include <unordered_map>
#include "fsx.h"
#include "env.h"
#include <arpa/inet.h>

template class std::__cxx11::basic_string<char>;
template std::string std::operator+(const char *, const std::string &);
template std::string std::operator+(const std::string&, const char *);
template std::string std::operator+(std::string&&, const char *);

// ---- red-black tree interface as a plain search tree (only ordering is observable) ----
namespace std {
static _Rb_tree_node_base *rbInc(_Rb_tree_node_base *x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
static _Rb_tree_node_base *rbDec(_Rb_tree_node_base *x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return rbInc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return rbInc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return rbDec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return rbDec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; // all nodes black, header stays red
    if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
    else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw() {
    _Rb_tree_node_base *&root = header._M_parent, *&leftmost = header._M_left, *&rightmost = header._M_right;
    _Rb_tree_node_base *y = z, *x = nullptr;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
    } else {
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { auto *t = x; while (t->_M_left) t = t->_M_left; leftmost = t; } }
        if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { auto *t = x; while (t->_M_right) t = t->_M_right; rightmost = t; } }
    }
    return z;
}
namespace __detail {
static const size_t primes[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : primes) if (p >= n) { const_cast<_Prime_rehash_policy *>(this)->_M_next_resize = p; return p; } return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) { size_t want = ne + ni; if (want < 11 && _M_next_resize == 0) want = 11; if (want >= nb) return {true, _M_next_bkt(want + 1 > 2 * nb ? want + 1 : 2 * nb)}; const_cast<_Prime_rehash_policy *>(this)->_M_next_resize = nb; }
    return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *first, _List_node_base *last) noexcept {
    if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first; auto *t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
    else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
}
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
}

// ---- standard exception classes: {vptr, char* message} ----
struct ExLay { void *vptr; const char *msg; };
extern "C" {
const char *fsx_ex_what(ExLay *t) { return t->msg ? t->msg : ""; }
const char *fsx_ex_what0(ExLay *) { return "std::exception"; }
void fsx_ex_dtor(ExLay *) {}
static const char *dupstr(const char *s) { size_t n = strlen(s); char *p = (char *)malloc(n + 1); memcpy(p, s, n + 1); return p; }
static const char *dupS(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
#define EXC(mang, tag) \
  extern void *ti_##tag __asm__("_ZTI" mang); \
  void *vt_##tag[5] __asm__("_ZTV" mang) = {nullptr, &ti_##tag, (void *)fsx_ex_dtor, (void *)fsx_ex_dtor, (void *)fsx_ex_what}; \
  void d1_##tag(ExLay *) __asm__("_ZN" mang "D1Ev"); void d1_##tag(ExLay *) {} \
  void d2_##tag(ExLay *) __asm__("_ZN" mang "D2Ev"); void d2_##tag(ExLay *) {} \
  void d0_##tag(ExLay *t) __asm__("_ZN" mang "D0Ev"); void d0_##tag(ExLay *t) { ::operator delete(t); } \
  const char *w_##tag(ExLay *t) __asm__("_ZNK" mang "4whatEv"); const char *w_##tag(ExLay *t) { return t->msg ? t->msg : ""; }
#define EXCC(mang, tag) EXC(mang, tag) \
  void c1_##tag(ExLay *t, const char *s) __asm__("_ZN" mang "C1EPKc"); void c1_##tag(ExLay *t, const char *s) { t->vptr = &vt_##tag[2]; t->msg = dupstr(s); } \
  void c2_##tag(ExLay *t, const char *s) __asm__("_ZN" mang "C2EPKc"); void c2_##tag(ExLay *t, const char *s) { t->vptr = &vt_##tag[2]; t->msg = dupstr(s); } \
  void c3_##tag(ExLay *t, const std::string &s) __asm__("_ZN" mang "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void c3_##tag(ExLay *t, const std::string &s) { t->vptr = &vt_##tag[2]; t->msg = dupS(s); } \
  void c4_##tag(ExLay *t, const std::string &s) __asm__("_ZN" mang "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void c4_##tag(ExLay *t, const std::string &s) { t->vptr = &vt_##tag[2]; t->msg = dupS(s); } \
  void c5_##tag(ExLay *t, ExLay *o) __asm__("_ZN" mang "C1ERKS_"); void c5_##tag(ExLay *t, ExLay *o) { t->vptr = &vt_##tag[2]; t->msg = o->msg; } \
  void c6_##tag(ExLay *t, ExLay *o) __asm__("_ZN" mang "C2ERKS_"); void c6_##tag(ExLay *t, ExLay *o) { t->vptr = &vt_##tag[2]; t->msg = o->msg; } \
  void c7_##tag(ExLay *t, ExLay *o) __asm__("_ZN" mang "C2EOS_"); void c7_##tag(ExLay *t, ExLay *o) { t->vptr = &vt_##tag[2]; t->msg = o->msg; }
EXCC("St13runtime_error", rte) EXCC("St11logic_error", lge) EXCC("St12out_of_range", oor) EXCC("St16invalid_argument", ina) EXCC("St12length_error", lne) EXCC("St11range_error", rge)
EXC("St9exception", exc) EXC("St9bad_alloc", bal) EXC("St20bad_array_new_length", ban) EXC("St8bad_cast", bca)
}

// ---- streams: an output stream is {vptr, std::string* text}; text may be null (discarded) ----
extern "C" {
static long fsx_stream_vt[8] = {112, 0, 0, 0, 0, 0, 0, 0};
static long fsx_istream_vt[8] = {120, 0, 0, 0, 0, 0, 0, 0};
struct OS { void *vptr; std::string *text; };
struct ISData { std::string s; size_t pos; };
struct IS { void *vptr; size_t gcount; ISData *d; };
static unsigned char fsx_ctype[600];
static void isCtype(IS *s) { if (!fsx_ctype[56]) { fsx_ctype[56] = 1; for (int i = 0; i < 256; i++) fsx_ctype[57 + i] = (unsigned char)i; } *(void **)((char *)s + ((long *)s->vptr)[-3] + 240) = fsx_ctype; } // what the inlined widen() looks at
static int &isState(IS *s) { return *(int *)((char *)s + ((long *)s->vptr)[-3] + 32); }
static void osInit(OS *o, std::string *t) { memset((void *)o, 0, 376); o->vptr = &fsx_stream_vt[3]; o->text = t; }
static void osAdd(OS *o, const char *p, size_t n) { if (o->text) o->text->append(p, n); }
// decimal digits right-aligned before `end`; symbolic values fork only on the number of digits
static int decDigits(unsigned long v, char *end) { if (!fsx_is_symbolic(v)) { int k = 0; do { *--end = '0' + v % 10; v /= 10; k++; } while (v); return k; }
    if (v >> 32) { v = fsx_concretize(v); return decDigits(v, end); } unsigned x = (unsigned)v, lim = 10; int k = 1; while (k < 10 && x >= lim) { k++; lim = k < 10 ? lim * 10 : lim; } for (int i = 0; i < k; i++) { *--end = '0' + x % 10; x /= 10; } return k; }
static OS *osNum(OS *o, unsigned long v, bool neg) { if (!o->text) return o; char b[24]; int i = 24; i -= decDigits(v, b + i); if (neg) b[--i] = '-'; osAdd(o, b + i, 24 - i); return o; }
void oss_ctor(OS *o) __asm__("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev"); void oss_ctor(OS *o) { osInit(o, new std::string); }
void oss_dtor(OS *o) __asm__("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev"); void oss_dtor(OS *o) { delete o->text; o->text = nullptr; }
void oss_dtor2(OS *o, void *) __asm__("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED2Ev"); void oss_dtor2(OS *o, void *) { delete o->text; o->text = nullptr; }
void oss_str(std::string *r, OS *o) __asm__("_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv"); void oss_str(std::string *r, OS *o) { new (r) std::string(o->text ? *o->text : std::string()); }
void oss_str2(std::string *r, OS *o) __asm__("_ZNKRSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv"); void oss_str2(std::string *r, OS *o) { new (r) std::string(o->text ? *o->text : std::string()); }
void oss_str3(std::string *r, OS *o) __asm__("_ZNOSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv"); void oss_str3(std::string *r, OS *o) { new (r) std::string(o->text ? *o->text : std::string()); }
OS *os_ins(OS *o, const char *p, long n) __asm__("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"); OS *os_ins(OS *o, const char *p, long n) { osAdd(o, p, n); return o; }
OS *os_uchar(OS *o, unsigned char c) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h"); OS *os_uchar(OS *o, unsigned char c) { char x = (char)c; if (o->text) osAdd(o, &x, 1); return o; }
OS *os_cstr(OS *o, const char *p) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"); OS *os_cstr(OS *o, const char *p) { if (o->text) osAdd(o, p, strlen(p)); return o; }
OS *os_chr(OS *o, char c) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c"); OS *os_chr(OS *o, char c) { osAdd(o, &c, 1); return o; }
OS *os_put(OS *o, char c) __asm__("_ZNSo3putEc"); OS *os_put(OS *o, char c) { osAdd(o, &c, 1); return o; }
OS *os_flush(OS *o) __asm__("_ZNSo5flushEv"); OS *os_flush(OS *o) { return o; }
OS *os_write(OS *o, const char *p, long n) __asm__("_ZNSo5writeEPKcl"); OS *os_write(OS *o, const char *p, long n) { osAdd(o, p, n); return o; }
OS *os_endl(OS *o) __asm__("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"); OS *os_endl(OS *o) { osAdd(o, "\n", 1); return o; }
OS *os_i(OS *o, int v) __asm__("_ZNSolsEi"); OS *os_i(OS *o, int v) { if (!o->text) return o; return v < 0 ? osNum(o, -(long)v, true) : osNum(o, v, false); }
OS *os_s(OS *o, short v) __asm__("_ZNSolsEs"); OS *os_s(OS *o, short v) { if (!o->text) return o; return v < 0 ? osNum(o, -(long)v, true) : osNum(o, v, false); }
OS *os_l(OS *o, long v) __asm__("_ZNSo9_M_insertIlEERSoT_"); OS *os_l(OS *o, long v) { if (!o->text) return o; return v < 0 ? osNum(o, -(unsigned long)v, true) : osNum(o, v, false); }
OS *os_m(OS *o, unsigned long v) __asm__("_ZNSo9_M_insertImEERSoT_"); OS *os_m(OS *o, unsigned long v) { return osNum(o, v, false); }
OS *os_b(OS *o, bool v) __asm__("_ZNSo9_M_insertIbEERSoT_"); OS *os_b(OS *o, bool v) { if (!o->text) return o; return osNum(o, v, false); }
OS *os_d(OS *o, double v) __asm__("_ZNSo9_M_insertIdEERSoT_"); OS *os_d(OS *o, double v) { if (!o->text) return o; return osNum(o, (unsigned long)v, false); }
OS *os_p(OS *o, const void *) __asm__("_ZNSo9_M_insertIPKvEERSoT_"); OS *os_p(OS *o, const void *) { return o; }
void os_clear(void *, int) __asm__("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate"); void os_clear(void *ios, int st) { *(int *)((char *)ios + 32) = st; }
// input string streams
void iss_ctor(IS *s, const std::string &str, int) __asm__("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode");
void iss_ctor(IS *s, const std::string &str, int) { memset((void *)s, 0, 384); s->vptr = &fsx_istream_vt[3]; isCtype(s); s->d = new ISData{str, 0}; }
void iss_dtor(IS *s) __asm__("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev"); void iss_dtor(IS *s) { delete s->d; s->d = nullptr; }
IS *iss_getline(IS *s, std::string &out, char delim) __asm__("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
IS *iss_getline(IS *s, std::string &out, char delim) {
    out.clear(); if (isState(s)) { isState(s) |= 4; return s; }
    ISData *d = s->d; bool any = false;
    while (true) { if (d->pos >= d->s.size()) { isState(s) |= 2; if (!any) isState(s) |= 4; break; } char c = d->s[d->pos++]; any = true; if (c == delim) break; out.push_back(c); }
    return s;
}
IS *iss_getline2(IS *s, std::string &out) __asm__("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"); IS *iss_getline2(IS *s, std::string &out) { return iss_getline(s, out, '\n'); }
void iss_ctor2(IS *s, std::string &&str, int m) __asm__("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1EONS_12basic_stringIcS2_S3_EESt13_Ios_Openmode"); void iss_ctor2(IS *s, std::string &&str, int m) { iss_ctor(s, str, m); }
// input file streams read the virtual files
static long fsx_ifstream_vt[8] = {256, 0, 0, 0, 0, 0, 0, 0};
void ifs_ctor(IS *s, const std::string &path, int) __asm__("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void ifs_ctor(IS *s, const std::string &path, int) { memset((void *)s, 0, 520); s->vptr = &fsx_ifstream_vt[3]; isCtype(s); bool ex = env_file_exists(path.c_str()); s->d = new ISData{ex ? std::string((char *)env_file_data(path.c_str()), env_file_size(path.c_str())) : std::string(), 0}; memset((char *)s + 24, ex ? 1 : 0, 232); if (!ex) isState(s) |= 4; }
void ifs_dtor(IS *s) __asm__("_ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev"); void ifs_dtor(IS *s) { delete s->d; s->d = nullptr; }
bool bf_isopen(const char *f) __asm__("_ZNKSt12__basic_fileIcE7is_openEv"); bool bf_isopen(const char *f) { return *f != 0; }
IS *is_long(IS *s, long &v) __asm__("_ZNSi10_M_extractIlEERSiRT_");
IS *is_long(IS *s, long &v) { if (isState(s)) { isState(s) |= 4; return s; } ISData *d = s->d; while (d->pos < d->s.size() && isspace((unsigned char)d->s[d->pos])) d->pos++; size_t b = d->pos; bool neg = false; if (d->pos < d->s.size() && (d->s[d->pos] == '-' || d->s[d->pos] == '+')) { neg = d->s[d->pos] == '-'; d->pos++; } bool any = false, over = false; unsigned long x = 0; while (d->pos < d->s.size() && isdigit((unsigned char)d->s[d->pos])) { int g = d->s[d->pos++] - '0'; any = true; if (x > (0x7fffffffffffffffUL - g) / 10) over = true; x = x * 10 + g; } if (d->pos >= d->s.size()) isState(s) |= 2; if (!any) { isState(s) |= 4; v = 0; return s; } (void)b; if (over) { isState(s) |= 4; v = neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL; return s; } v = neg ? -(long)x : (long)x; return s; }
void ios_init(void *) __asm__("_ZNSt8ios_base4InitC1Ev"); void ios_init(void *) {}
void ios_initd(void *) __asm__("_ZNSt8ios_base4InitD1Ev"); void ios_initd(void *) {}
// ---- libc ----
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
void *m_memchr(const void *p, int c, size_t n) __asm__("memchr"); void *m_memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return nullptr; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char *m_dirname(char *s) __asm__("dirname"); char *m_dirname(char *s) { static char dot[] = "."; if (!s || !*s) return dot; char *e = s; while (*e) e++; while (e > s + 1 && e[-1] == '/') *--e = 0; char *c = e; while (c > s && c[-1] != '/') c--; if (c == s) return dot; while (c > s + 1 && c[-1] == '/') c--; *c = 0; return s; }
char *m_strchr(const char *s, int c) __asm__("strchr"); char *m_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int strcasecmp(const char *a, const char *b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
static int fsx_errno; int *__errno_location() { return &fsx_errno; }
char *strerror(int) { static char b[] = "error"; return b; }
long strtol(const char *s, char **end, int base) {
    const char *p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0; bool any = false, over = false; for (;; p++) { int d; if (isdigit((unsigned char)*p)) d = *p - '0'; else if (isalpha((unsigned char)*p)) d = tolower((unsigned char)*p) - 'a' + 10; else break; if (d >= base) break; any = true; if (v > (0x7fffffffffffffffUL - d) / base) over = true; v = v * base + d; }
    if (end) *end = (char *)(any ? p : s); if (over) { fsx_errno = 34; return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL; } return neg ? -(long)v : (long)v;
}
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long strtoul(const char *s, char **end, int base) { 
    const char *p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++; unsigned long v = 0; bool any = false, over = false;
    for (;; p++) { int d; if (isdigit((unsigned char)*p)) d = *p - '0'; else if (isalpha((unsigned char)*p)) d = tolower((unsigned char)*p) - 'a' + 10; else break; if (d >= base) break; any = true; if (v > (~0UL - d) / base) over = true; v = v * base + d; }
    if (end) *end = (char *)(any ? p : s); if (over) { fsx_errno = 34; return ~0UL; } return neg ? -v : v; }
unsigned long long strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }

int vsnprintf(char *buf, size_t n, const char *f, va_list ap) {
    size_t o = 0; auto put = [&](char c) { if (o + 1 < n) buf[o] = c; o++; };
    for (; *f; f++) {
        if (*f != '%') { put(*f); continue; }
        f++; bool zero = false, left = false; int width = 0, prec = -1, lng = 0; while (*f == '0' || *f == '-' || *f == '#' || *f == '+' || *f == ' ') { if (*f == '0') zero = true; if (*f == '-') left = true; f++; }
        if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') { if (*f == 'l' || *f == 'z' || *f == 'j') lng = 1; f++; }
        if (*f == '%') { put('%'); continue; }
        if (*f == 'c') { put((char)va_arg(ap, int)); continue; }
        if (*f == 's') { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; for (int i = 0; (prec < 0 || i < prec) && s[i]; i++) put(s[i]); continue; }
        if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'p' || *f == 'o') {
            unsigned long v; bool neg = false; if (*f == 'p') v = (unsigned long)va_arg(ap, void *); else if (*f == 'd' || *f == 'i') { long x = lng ? va_arg(ap, long) : (long)va_arg(ap, int); neg = x < 0; v = neg ? -(unsigned long)x : x; } else { v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); }
            unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10; char b[32]; int k = 0; if (base == 10 && fsx_is_symbolic(v)) { char t[24]; k = decDigits(v, t + 24); for (int i = 0; i < k; i++) b[i] = t[23 - i]; } else do { unsigned d = v % base; b[k++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v); if (neg && !zero) b[k++] = '-'; (void)left; if (neg && zero) put('-'); for (int i = k + (neg && zero); i < width; i++) put(zero ? '0' : ' '); while (k) put(b[--k]); continue; }
        if (*f == 'f' || *f == 'g') { (void)va_arg(ap, double); put('0'); continue; }
        put('?');
    }
    if (n) buf[o < n ? o : n - 1] = 0; return (int)o;
}
int snprintf(char *buf, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(buf, n, f, ap); va_end(ap); return r; }
const char *inet_ntop(int af, const void *p, char *buf, socklen_t n) {
    const unsigned char *b = (const unsigned char *)p; bool sym = false; for (int i = 0; i < (af == 2 ? 4 : 16); i++) if (fsx_is_symbolic(b[i])) sym = true; if (sym) { memcpy(buf, "<addr>", 7); return buf; }
    if (af == 2) snprintf(buf, n, "%d.%d.%d.%d", b[0], b[1], b[2], b[3]); else { size_t o = 0; for (int i = 0; i < 8; i++) o += snprintf(buf + o, n - o, i ? ":%x" : "%x", b[2 * i] << 8 | b[2 * i + 1]); } return buf; }
static int pton4(const char *s, unsigned char *out, const char **end) { unsigned char r[4]; int k = 0; while (true) { if (!isdigit((unsigned char)*s)) return 0; int v = 0, dg = 0; while (isdigit((unsigned char)*s)) { if (dg && v == 0) return 0; v = v * 10 + (*s++ - '0'); if (v > 255) return 0; dg++; } r[k++] = v; if (k == 4) break; if (*s != '.') return 0; s++; } memcpy(out, r, 4); *end = s; return 1; }
int inet_pton(int af, const char *s, void *dst) {
    unsigned char *out = (unsigned char *)dst; const char *e; if (af == 2) { unsigned char r[4]; if (!pton4(s, r, &e) || *e) return 0; memcpy(out, r, 4); return 1; }
    unsigned char r[16]; memset(r, 0, 16); int k = 0, dc = -1; if (s[0] == ':') { if (s[1] != ':') return 0; s++; }
    bool lastColon = false; const char *start = s; while (*s) {
        if (*s == ':') { if (s == start || lastColon || true) { if (dc >= 0) return 0; dc = k; s++; lastColon = true; if (!*s) break; continue; } }
        int v = 0, dg = 0; const char *tok = s; while (true) { unsigned c = (unsigned char)*s; bool dig = c - '0' < 10u; bool let = (c | 32) - 'a' < 6u; if (!(dig | let)) break; v = v * 16 + (dig ? c - '0' : (c | 32) - 'a' + 10); s++; if (++dg > 4) break; }
        if (*s == '.') { if (k > 12 || !pton4(tok, r + k, &e) || *e) return 0; k += 4; s = e; lastColon = false; break; }
        if (!dg || dg > 4 || k >= 16) return 0; r[k++] = v >> 8; r[k++] = v; lastColon = false; if (*s == ':') { s++; if (!*s) return 0; } else if (*s) return 0; }
    if (dc >= 0) { if (k == 16) return 0; int n = k - dc; for (int i = 1; i <= n; i++) { r[16 - i] = r[k - i]; if (16 - i != k - i) r[k - i] = 0; } k = 16; } if (k != 16) return 0; memcpy(out, r, 16); return 1; }
int inet_net_pton(int af, const char *s, void *dst, size_t n) { // dotted quad with optional /bits
    unsigned char r[4] = {0, 0, 0, 0}; int k = 0; if (af != 2) { errno = 97; return -1; } while (true) { if (!isdigit((unsigned char)*s)) { errno = 2; return -1; } int v = 0; while (isdigit((unsigned char)*s)) { v = v * 10 + (*s++ - '0'); if (v > 255) { errno = 2; return -1; } } if (k >= 4) { errno = 2; return -1; } r[k++] = v; if (*s != '.') break; s++; }
    int bits = -1; if (*s == '/') { s++; if (!isdigit((unsigned char)*s)) { errno = 2; return -1; } bits = 0; while (isdigit((unsigned char)*s)) { bits = bits * 10 + (*s++ - '0'); if (bits > 32) { errno = 90; return -1; } } } if (*s) { errno = 2; return -1; }
    if (bits < 0) { bits = r[0] >= 240 ? 32 : r[0] >= 224 ? 8 : r[0] >= 192 ? 24 : r[0] >= 128 ? 16 : 8; if (bits < k * 8) bits = k * 8; if (bits == 8 && r[0] == 224) bits = 4; } memcpy(dst, r, n < 4 ? n : 4); return bits; }
char *strdup(const char *s) { return (char *)dupstr(s); }
int puts(const char *) { return 0; } int m_putchar(int c) __asm__("putchar"); int m_putchar(int c) { return c; } int printf(const char *, ...) { return 0; }
char __libc_single_threaded = 1;
int sem_init(void *, int, unsigned) { return 0; }
int sem_post(void *) { return 0; }
int sem_destroy(void *) { return 0; }
unsigned int sleep(unsigned) { return 0; }
int usleep(unsigned) { return 0; }
int sched_yield() { return 0; }
}
namespace std { const nothrow_t nothrow{}; }
