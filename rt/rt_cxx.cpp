// libstdc++ pieces that live in the shared library, re-implemented (or instantiated) as bitcode.
#include "pre.h"
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <locale>
#include <codecvt>
#include <list>
#include <map>
#include <unordered_map>
#include <functional>
#include <system_error>
#include <ios>
#include <iostream>
#include <sstream>
#include <memory>
#include <cstring>
#include <cstdlib>
#include <cmath>
extern "C" { void __sym_unsupported(const char*); uint64_t sym_param(const char*, uint64_t); double __sym_strtod(const char*, size_t*); size_t __sym_fmt_double(char*, size_t, const char*, double); }
extern "C" double sym_rfmt(double, unsigned); extern "C" size_t __rt_udec(char*, unsigned long long); extern "C" int snprintf(char*, size_t, const char*, ...);
namespace std _GLIBCXX_VISIBILITY(default) {
static string decS(long long v) { char b[32]; size_t n = 0; unsigned long long u = v; if (v < 0) { b[n++] = '-'; u = 0 - u; } n += __rt_udec(b + n, u); return string(b, n); }
static string decU(unsigned long long v) { char b[32]; size_t n = __rt_udec(b, v); return string(b, n); }
static string decF(double v) { char b[512]; int n = snprintf(b, sizeof b, "%f", v); return string(b, n); }
string to_string(int v) { return decS(v); } string to_string(unsigned v) { return decU(v); } string to_string(long v) { return decS(v); } string to_string(unsigned long v) { return decU(v); } string to_string(long long v) { return decS(v); } string to_string(unsigned long long v) { return decU(v); } string to_string(float v) { return decF(v); } string to_string(double v) { return decF(v); }

template class basic_string<char>; template class basic_string<wchar_t>; template class basic_string<char16_t>; template class basic_string<char32_t>;
// exceptions
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
static char* dupStr(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupStr("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupStr(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupStr(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupStr(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupStr(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dupStr("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
static const char* cowp(const __cow_string& s) { return *(const char* const*)&s; }
#define EXC2(T) T::T(const string& s) : _M_msg(s) {} T::T(const char* s) : _M_msg(s, strlen(s)) {} T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {} T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } T::T(T&& o) noexcept : _M_msg((__cow_string&&)o._M_msg) {} T& T::operator=(T&& o) noexcept { _M_msg = (__cow_string&&)o._M_msg; return *this; } T::~T() noexcept {} const char* T::what() const noexcept { return cowp(_M_msg); }
EXC2(logic_error) EXC2(runtime_error)
#define EXD(T, Bs) T::T(const string& s) : Bs(s) {} T::T(const char* s) : Bs(s) {} T::~T() noexcept {}
EXD(domain_error, logic_error) EXD(invalid_argument, logic_error) EXD(length_error, logic_error) EXD(out_of_range, logic_error) EXD(range_error, runtime_error) EXD(overflow_error, runtime_error) EXD(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
// type_info
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
// containers
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  auto& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    auto xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { auto y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); } }
    else { auto y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); } }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto &root = h._M_parent, &leftmost = h._M_left, &rightmost = h._M_right; auto y = z; _Rb_tree_node_base *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { auto m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { auto m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        auto w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
      } else {
        auto w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto n = _M_next, p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
static const size_t gPrimes[] = {1, 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697, 1447153};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { if (n < 14) { static const unsigned char f[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13}; if (n == 0) return 1; _M_next_resize = (size_t)(f[n] * (double)_M_max_load_factor); return f[n]; } for (size_t p : gPrimes) if (p >= n) { _M_next_resize = (size_t)(p * (double)_M_max_load_factor); return p; } return n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { double m = (double)std::max<size_t>(ne + ni, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor; if (m >= nb) return {true, _M_next_bkt(std::max<size_t>((size_t)m + 1, nb * 2))}; _M_next_resize = (size_t)(nb * (double)_M_max_load_factor); return {false, 0}; } return {false, 0}; }
}
// By default every key lands in one bucket (the container contract does not depend on the value); "realhash" selects the library's function.
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
  if (!sym_param("realhash", 0)) return 0;
  if (sym_param("realhash", 0) == 2) { union { uint64_t u; double d; } x; x.u = seed ^ len; for (size_t k = 0; k < len; k += 8) { uint64_t d = 0; memcpy(&d, (const char*)ptr + k, len - k < 8 ? len - k : 8); x.u ^= d; x.d = sym_rfmt(x.d, 77); } return x.u; } // an arbitrary function of the bytes
  static const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; const char* const buf = (const char*)ptr; const size_t la = len & ~(size_t)7; const char* const end = buf + la; size_t hash = seed ^ (len * mul);
  for (const char* p = buf; p != end; p += 8) { size_t d; memcpy(&d, p, 8); d = d * mul; d = (d ^ (d >> 47)) * mul; hash ^= d; hash *= mul; }
  if (len & 7) { size_t d = 0; for (int k = (int)(len & 7) - 1; k >= 0; k--) d = (d << 8) + (unsigned char)end[k]; hash ^= d; hash *= mul; }
  hash = (hash ^ (hash >> 47)) * mul; hash = hash ^ (hash >> 47); return hash;
}
// locale facets used by wstring_convert
locale::facet::~facet() {}
codecvt<char16_t, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char16_t, char, mbstate_t>::do_out(state_type&, const char16_t*, const char16_t*, const char16_t*&, char*, char*, char*&) const { return error; }
codecvt_base::result codecvt<char16_t, char, mbstate_t>::do_unshift(state_type&, char*, char*, char*&) const { return noconv; }
codecvt_base::result codecvt<char16_t, char, mbstate_t>::do_in(state_type&, const char*, const char*, const char*&, char16_t*, char16_t*, char16_t*&) const { return error; }
int codecvt<char16_t, char, mbstate_t>::do_encoding() const throw() { return 0; } bool codecvt<char16_t, char, mbstate_t>::do_always_noconv() const throw() { return false; }
int codecvt<char16_t, char, mbstate_t>::do_length(state_type&, const char*, const char*, size_t) const { return 0; } int codecvt<char16_t, char, mbstate_t>::do_max_length() const throw() { return 4; }
static const char32_t kInc = (char32_t)-2, kBad = (char32_t)-1;
static char32_t rd8(const char*& p, const char* e, unsigned long maxc) {
  size_t av = e - p; if (!av) return kInc; char32_t c1 = (unsigned char)p[0];
  if (c1 < 0x80) { ++p; return c1; } if (c1 < 0xC2) return kBad;
  if (c1 < 0xE0) { if (av < 2) return kInc; char32_t c2 = (unsigned char)p[1]; if ((c2 & 0xC0) != 0x80) return kBad; char32_t c = (c1 << 6) + c2 - 0x3080; if (c <= maxc) p += 2; return c; }
  if (c1 < 0xF0) { if (av < 2) return kInc; char32_t c2 = (unsigned char)p[1]; if ((c2 & 0xC0) != 0x80) return kBad; if (c1 == 0xE0 && c2 < 0xA0) return kBad; if (c1 == 0xED && c2 >= 0xA0) return kBad; if (av < 3) return kInc; char32_t c3 = (unsigned char)p[2]; if ((c3 & 0xC0) != 0x80) return kBad; char32_t c = (c1 << 12) + (c2 << 6) + c3 - 0xE2080; if (c <= maxc) p += 3; return c; }
  if (c1 < 0xF5) { if (av < 2) return kInc; char32_t c2 = (unsigned char)p[1]; if ((c2 & 0xC0) != 0x80) return kBad; if (c1 == 0xF0 && c2 < 0x90) return kBad; if (c1 == 0xF4 && c2 >= 0x90) return kBad; if (av < 3) return kInc; char32_t c3 = (unsigned char)p[2]; if ((c3 & 0xC0) != 0x80) return kBad; if (av < 4) return kInc; char32_t c4 = (unsigned char)p[3]; if ((c4 & 0xC0) != 0x80) return kBad; char32_t c = (c1 << 18) + (c2 << 12) + (c3 << 6) + c4 - 0x3C82080; if (c <= maxc) p += 4; return c; }
  return kBad;
}
static bool wr8(char*& p, char* e, char32_t c) {
  size_t av = e - p;
  if (c < 0x80) { if (av < 1) return false; *p++ = (char)c; } else if (c <= 0x7FF) { if (av < 2) return false; *p++ = (char)((c >> 6) + 0xC0); *p++ = (char)((c & 0x3F) + 0x80); }
  else if (c <= 0xFFFF) { if (av < 3) return false; *p++ = (char)((c >> 12) + 0xE0); *p++ = (char)(((c >> 6) & 0x3F) + 0x80); *p++ = (char)((c & 0x3F) + 0x80); }
  else { if (av < 4) return false; *p++ = (char)((c >> 18) + 0xF0); *p++ = (char)(((c >> 12) & 0x3F) + 0x80); *p++ = (char)(((c >> 6) & 0x3F) + 0x80); *p++ = (char)((c & 0x3F) + 0x80); } return true;
}
#define U16 __codecvt_utf8_utf16_base<char16_t>
U16::~__codecvt_utf8_utf16_base() {}
codecvt_base::result U16::do_out(state_type&, const char16_t* f, const char16_t* fe, const char16_t*& fn, char* t, char* te, char*& tn) const {
  result r = ok; while (f != fe) { char32_t c = *f; int inc = 1; if (c >= 0xD800 && c <= 0xDBFF) { if (fe - f < 2) { r = ok; break; } char32_t c2 = f[1]; if (c2 >= 0xDC00 && c2 <= 0xDFFF) { c = (c << 10) + c2 - 0x35FDC00; inc = 2; } else { r = error; break; } } else if (c >= 0xDC00 && c <= 0xDFFF) { r = error; break; } if (c > _M_maxcode) { r = error; break; } if (!wr8(t, te, c)) { r = partial; break; } f += inc; } fn = f; tn = t; return r;
}
codecvt_base::result U16::do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result U16::do_in(state_type&, const char* f, const char* fe, const char*& fn, char16_t* t, char16_t* te, char16_t*& tn) const {
  result r = ok; while (f != fe && t != te) { auto orig = f; char32_t c = rd8(f, fe, _M_maxcode); if (c == kInc) { r = partial; break; } if (c > _M_maxcode) { r = error; break; } if (c <= 0xFFFF) *t++ = (char16_t)c; else { if (te - t < 2) { f = orig; r = partial; break; } *t++ = (char16_t)(0xD7C0 + (c >> 10)); *t++ = (char16_t)(0xDC00 + (c & 0x3FF)); } } fn = f; tn = t; return r;
}
int U16::do_encoding() const throw() { return 0; } bool U16::do_always_noconv() const throw() { return false; }
int U16::do_length(state_type&, const char*, const char*, size_t) const { __sym_unsupported("codecvt length"); return 0; } int U16::do_max_length() const throw() { return 4; }
codecvt<wchar_t, char, mbstate_t>::codecvt(size_t refs) : __codecvt_abstract_base<wchar_t, char, mbstate_t>(refs) {}
codecvt<wchar_t, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<wchar_t, char, mbstate_t>::do_out(state_type&, const wchar_t*, const wchar_t*, const wchar_t*&, char*, char*, char*&) const { return error; }
codecvt_base::result codecvt<wchar_t, char, mbstate_t>::do_unshift(state_type&, char*, char*, char*&) const { return noconv; }
codecvt_base::result codecvt<wchar_t, char, mbstate_t>::do_in(state_type&, const char*, const char*, const char*&, wchar_t*, wchar_t*, wchar_t*&) const { return error; }
int codecvt<wchar_t, char, mbstate_t>::do_encoding() const throw() { return 0; } bool codecvt<wchar_t, char, mbstate_t>::do_always_noconv() const throw() { return false; }
int codecvt<wchar_t, char, mbstate_t>::do_length(state_type&, const char*, const char*, size_t) const { return 0; } int codecvt<wchar_t, char, mbstate_t>::do_max_length() const throw() { return 4; }
#define W16 __codecvt_utf16_base<wchar_t>
W16::~__codecvt_utf16_base() {}
codecvt_base::result W16::do_out(state_type&, const wchar_t*, const wchar_t*, const wchar_t*&, char*, char*, char*&) const { __sym_unsupported("utf16 from wide"); return error; }
codecvt_base::result W16::do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result W16::do_in(state_type&, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const {
  result r = ok; while (fe - f >= 2 && t != te) { char32_t c = (unsigned char)f[0] | (unsigned char)f[1] << 8; int inc = 2; if (c >= 0xD800 && c <= 0xDBFF) { if (fe - f < 4) { r = partial; break; } char32_t c2 = (unsigned char)f[2] | (unsigned char)f[3] << 8; if (c2 < 0xDC00 || c2 > 0xDFFF) { r = error; break; } c = (c << 10) + c2 - 0x35FDC00; inc = 4; } else if (c >= 0xDC00 && c <= 0xDFFF) { r = error; break; } if (c > _M_maxcode) { r = error; break; } f += inc; *t++ = (wchar_t)c; } if (r == ok && f != fe) r = partial; fn = f; tn = t; return r;
}
int W16::do_encoding() const throw() { return 0; } bool W16::do_always_noconv() const throw() { return false; }
int W16::do_length(state_type&, const char*, const char*, size_t) const { __sym_unsupported("codecvt length"); return 0; } int W16::do_max_length() const throw() { return 4; }
// streams: construction only
ios_base::Init::Init() {} ios_base::Init::~Init() {}
// shared_ptr support
bool _Sp_make_shared_tag::_S_eq(const type_info& t) noexcept { return false; }
}
// rtti vtables the engine recognises by name
namespace __cxxabiv1 {
}

// the constructor from a text as a C++14 unit names it (a template since C++17)
extern "C" void rt_string_c2(std::string* s, const char* p, const std::allocator<char>&) __asm__("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC2EPKcRKS3_"); extern "C" void rt_string_c2(std::string* s, const char* p, const std::allocator<char>&) { new (s) std::string(p); }
extern "C" void rt_string_c1(std::string* s, const char* p, const std::allocator<char>&) __asm__("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC1EPKcRKS3_"); extern "C" void rt_string_c1(std::string* s, const char* p, const std::allocator<char>&) { new (s) std::string(p); }
