// Models of the out-of-line parts of libstdc++ that the harness bitcode links against.
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include <vector>
#include <list>
#include <optional>
#include "shim/sym_streams.h"

namespace std {
ostream cout, cerr, clog;
istream cin;

// ---- exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

static char* sym_dup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = sym_dup("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = sym_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = sym_dup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = sym_dup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = sym_dup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = sym_dup("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { std::swap(_M_p, o._M_p); return *this; }

#define SYM_EXC(X, B) \
  X::X(const string& s) : B(s) {} X::X(const char* s) : B(s) {} X::~X() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
SYM_EXC(domain_error, logic_error)
SYM_EXC(invalid_argument, logic_error)
SYM_EXC(length_error, logic_error)
SYM_EXC(out_of_range, logic_error)
SYM_EXC(range_error, runtime_error)
SYM_EXC(overflow_error, runtime_error)
SYM_EXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...);
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
}
// variadic in the library; the extra arguments are ignored here
extern "C" void sym_throw_oor(const char* s) { throw std::out_of_range(s); }

namespace std {
// ---- red-black trees
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_right;
  x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_left;
  x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
    } else {
      _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
  _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { leftmost = x; while (leftmost->_M_left) leftmost = leftmost->_M_left; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { rightmost = x; while (rightmost->_M_right) rightmost = rightmost->_M_right; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
        }
      } else {
        _Rb_tree_node_base* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
// ---- lists
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  bool const ex = x._M_next == &x, ey = y._M_next == &y;
  std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
  if (ey) x._M_next = x._M_prev = &x; else x._M_next->_M_prev = x._M_prev->_M_next = &x;
  if (ex) y._M_next = y._M_prev = &y; else y._M_next->_M_prev = y._M_prev->_M_next = &y;
}
// ---- hashing: bucket counts from a short list of primes, growth factor 2
static const size_t sym_primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (size_t p : sym_primes) if (p >= n) { _M_next_resize = (size_t)((double)p * _M_max_load_factor); return p; }
  return sym_primes[15];
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    double mb = (double)std::max<size_t>(ne + ni, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor;
    if (mb >= (double)nb) return {true, _M_next_bkt(std::max<size_t>((size_t)mb + 1, nb * 2))};
    _M_next_resize = (size_t)((double)nb * _M_max_load_factor);
  }
  return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* c = (const unsigned char*)p; size_t h = seed;
  for (size_t i = 0; i < n; ++i) h = h * 31 + c[i];
  return h;
}
bool type_info::__is_pointer_p() const { return false; }
type_info::~type_info() {}
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
}
extern "C" {
// complex multiplication / division slow paths (called by the compiler only when a NaN shows up)
typedef double _Complex sym_cd;
typedef float _Complex sym_cf;
sym_cd __muldc3(double a, double b, double c, double d) { sym_cd r; __real__ r = a * c - b * d; __imag__ r = a * d + b * c; return r; }
sym_cf __mulsc3(float a, float b, float c, float d) { sym_cf r; __real__ r = a * c - b * d; __imag__ r = a * d + b * c; return r; }
sym_cd __divdc3(double a, double b, double c, double d) { double n = c * c + d * d; sym_cd r; __real__ r = (a * c + b * d) / n; __imag__ r = (b * c - a * d) / n; return r; }
int sym_fmt_double_f(double v, char* buf);
// std::to_string(double): stands in for the variadic __gnu_cxx::__to_xstring<std::string>
void sym_to_xstring(std::string* out, void*, size_t, const char*, double v) { char b[400]; int n = sym_fmt_double_f(v, b); new (out) std::string(b, (size_t)n); }
// ---- small parts of the C library
static int sym_errno_v;
int* __errno_location() noexcept { return &sym_errno_v; }
struct sym_ldiv_t { long quot, rem; };
sym_ldiv_t sym_ldiv(long a, long b) __asm__("ldiv");
sym_ldiv_t sym_ldiv(long a, long b) { return {a / b, a % b}; }
sym_ldiv_t sym_lldiv(long a, long b) __asm__("lldiv");
sym_ldiv_t sym_lldiv(long a, long b) { return {a / b, a % b}; }
struct sym_div_t { int quot, rem; };
sym_div_t sym_div(int a, int b) __asm__("div");
sym_div_t sym_div(int a, int b) { return {a / b, a % b}; }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isalpha(int c) noexcept { return isupper(c) || islower(c); }
int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
static unsigned long sym_strto(const char* s, char** e, int base, bool& neg) {
  const char* p = s; neg = false;
  while (isspace(*p)) ++p;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if (base == 0) base = 10;
  unsigned long r = 0; bool any = false;
  for (;; ++p) {
    int d = isdigit(*p) ? *p - '0' : isalpha(*p) ? tolower(*p) - 'a' + 10 : 99;
    if (d >= base) break;
    r = r * base + d; any = true;
  }
  if (e) *e = (char*)(any ? p : s);
  return r;
}
long sym_strtol(const char* s, char** e, int base) __asm__("strtol");
long sym_strtol(const char* s, char** e, int base) { bool n; unsigned long r = sym_strto(s, e, base, n); return n ? -(long)r : (long)r; }
long sym_isoc23_strtol(const char* s, char** e, int base) __asm__("__isoc23_strtol");
long sym_isoc23_strtol(const char* s, char** e, int base) { return sym_strtol(s, e, base); }
unsigned long sym_strtoul(const char* s, char** e, int base) __asm__("strtoul");
unsigned long sym_strtoul(const char* s, char** e, int base) { bool n; unsigned long r = sym_strto(s, e, base, n); return n ? -r : r; }
unsigned long sym_isoc23_strtoul(const char* s, char** e, int base) __asm__("__isoc23_strtoul");
unsigned long sym_isoc23_strtoul(const char* s, char** e, int base) { return sym_strtoul(s, e, base); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
}
