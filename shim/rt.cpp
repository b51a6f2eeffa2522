#define _GLIBCXX_DEFINING_STRING_INSTANTIATIONS 1
// Run-time model linked with the code under test when it is executed
// symbolically: the parts of libstdc++/libsupc++ that are only available as
// binary code.  Everything here is written from the Itanium C++ ABI and the
// libstdc++ headers; none of it is repository code.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <ios>
#include <istream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>

extern "C" {
[[noreturn]] void __sx_raise(void *hdr);
int __sx_spawn(void (*f)(void *), void *a);
[[noreturn]] void sx_fail(const char *m);
}

// ---------------------------------------------------------------- exceptions
namespace {
struct Hdr {
  void *adjusted;             // [0]  written by the unwinder
  std::type_info *ti;         // [8]
  void *obj;                  // [16]
  void (*dtor)(void *);
  long refs;                  // owners of the primary exception object
  int handlers;
  Hdr *primary;               // dependent exceptions point at the primary one
  Hdr *next;                  // caught stack
  char pad[128 - 64];
};
static_assert(sizeof(Hdr) == 128, "header size");
thread_local Hdr *caughtTop = nullptr;
thread_local int uncaughtN = 0;
Hdr *ofObj(void *o) { return (Hdr *)((char *)o - sizeof(Hdr)); }
void releasePrimary(Hdr *p) {
  if (__atomic_sub_fetch(&p->refs, 1, __ATOMIC_ACQ_REL) == 0) {
    if (p->dtor) p->dtor(p->obj);
    ::free(p);
  }
}
void releaseHdr(Hdr *h) {
  Hdr *p = h->primary;
  if (p != h) ::free(h);
  releasePrimary(p);
}
} // namespace
extern "C" {
void *__cxa_allocate_exception(size_t n) noexcept {
  Hdr *h = (Hdr *)::malloc(n + sizeof(Hdr));
  memset(h, 0, n + sizeof(Hdr));
  return (char *)h + sizeof(Hdr);
}
void __cxa_free_exception(void *o) noexcept { ::free(ofObj(o)); }
void __cxa_throw(void *o, std::type_info *ti, void (*dtor)(void *)) {
  Hdr *h = ofObj(o);
  h->ti = ti;
  h->obj = o;
  h->dtor = dtor;
  h->refs = 1;
  h->primary = h;
  uncaughtN++;
  __sx_raise(h);
}
__cxxabiv1::__cxa_refcounted_exception *__cxa_init_primary_exception(void *o, std::type_info *ti, void (*dtor)(void *)) noexcept { // std::make_exception_ptr
  Hdr *h = ofObj(o);
  h->ti = ti;
  h->obj = o;
  h->dtor = dtor;
  h->refs = 0;
  h->primary = h;
  return (__cxxabiv1::__cxa_refcounted_exception *)h;
}
void *__cxa_begin_catch(void *e) noexcept {
  Hdr *h = (Hdr *)e;
  if (h->handlers < 0) h->handlers = -h->handlers; // rethrown
  h->handlers++;
  uncaughtN--;
  if (caughtTop != h) {
    h->next = caughtTop;
    caughtTop = h;
  }
  return h->adjusted;
}
void *__cxa_get_exception_ptr(void *e) noexcept { return ((Hdr *)e)->adjusted; }
void __cxa_end_catch() {
  Hdr *h = caughtTop;
  if (!h) return;
  if (h->handlers < 0) { // being rethrown
    if (++h->handlers == 0) caughtTop = h->next;
    return;
  }
  if (--h->handlers == 0) {
    caughtTop = h->next;
    releaseHdr(h);
  }
}
void __cxa_rethrow() {
  Hdr *h = caughtTop;
  if (!h) std::terminate();
  h->handlers = -h->handlers;
  uncaughtN++;
  __sx_raise(h);
}
void __cxa_call_unexpected(void *) { std::terminate(); }
}
namespace std {
int uncaught_exceptions() noexcept { return uncaughtN; }
bool uncaught_exception() noexcept { return uncaughtN != 0; }
namespace __exception_ptr {
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) __atomic_add_fetch(&ofObj(_M_exception_object)->refs, 1, __ATOMIC_ACQ_REL); }
void exception_ptr::_M_release() noexcept {
  if (_M_exception_object) {
    releasePrimary(ofObj(_M_exception_object));
    _M_exception_object = nullptr;
  }
}
void *exception_ptr::_M_get() const noexcept { return _M_exception_object; }
exception_ptr::exception_ptr(void *o) noexcept : _M_exception_object(o) { _M_addref(); }
#ifndef __clang__
#endif
} // namespace __exception_ptr
exception_ptr current_exception() noexcept {
  Hdr *h = caughtTop;
  if (!h) return exception_ptr();
  struct P { void *o; } p{h->primary->obj};
  static_assert(sizeof(P) == sizeof(exception_ptr), "");
  exception_ptr r;
  memcpy((void *)&r, &p, sizeof p);
  __atomic_add_fetch(&h->primary->refs, 1, __ATOMIC_ACQ_REL);
  return r;
}
void rethrow_exception(exception_ptr ep) {
  void *o;
  memcpy(&o, (void *)&ep, sizeof o);
  if (!o) sx_fail("std::rethrow_exception called with a null exception_ptr");
  Hdr *p = ofObj(o);
  Hdr *d = (Hdr *)::malloc(sizeof(Hdr));
  memset((void *)d, 0, sizeof *d);
  d->ti = p->ti;
  d->obj = p->obj;
  d->primary = p;
  __atomic_add_fetch(&p->refs, 1, __ATOMIC_ACQ_REL);
  uncaughtN++;
  // the by-value argument dies when this frame is unwound: release it now
  ep = nullptr;
  __sx_raise(d);
}
} // namespace std

// ---------------------------------------------------------------- standard exception classes
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

static const char *dupstr(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)::malloc(n); memcpy(p, s, n); return p; }
// __cow_string is one pointer wide; the model owns a private copy of the text
__cow_string::__cow_string(const std::string &s) : _M_p(dupstr(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t n) { char *p = (char *)::malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupstr(o._M_p)) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { const char *n = dupstr(o._M_p); ::free((void *)_M_p); _M_p = n; return *this; }
__cow_string::~__cow_string() { ::free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(dupstr(o._M_p)) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *n = dupstr(o._M_p); ::free((void *)_M_p); _M_p = n; return *this; }

logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error &&) noexcept = default;
logic_error &logic_error::operator=(logic_error &&) noexcept = default;
logic_error::logic_error(const logic_error &) noexcept = default;
logic_error &logic_error::operator=(const logic_error &) noexcept = default;
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error &&) noexcept = default;
runtime_error &runtime_error::operator=(runtime_error &&) noexcept = default;
runtime_error::runtime_error(const runtime_error &) noexcept = default;
runtime_error &runtime_error::operator=(const runtime_error &) noexcept = default;
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define LE(C) C::C(const string &s) : logic_error(s) {} C::C(const char *s) : logic_error(s) {} C::~C() noexcept {}
#define RE(C) C::C(const string &s) : runtime_error(s) {} C::C(const char *s) : runtime_error(s) {} C::~C() noexcept {}
LE(domain_error) LE(invalid_argument) LE(length_error) LE(out_of_range)
RE(range_error) RE(overflow_error) RE(underflow_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
void __throw_ios_failure(const char *s, int) { throw runtime_error(s); }
} // namespace std

// ---------------------------------------------------------------- containers
namespace std {
// Hash values are unspecified by the standard.  The model hashes a key by its
// length only, so that keys with symbolic bytes still have concrete buckets.
size_t _Hash_bytes(const void *, size_t len, size_t) { return len * 31 + 7; }
size_t _Fnv_hash_bytes(const void *, size_t len, size_t) { return len * 31 + 7; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
  size_t r;
  if (n < sizeof fast) {
    if (n == 0) return 1;
    r = fast[n];
  } else {
    r = n | 1;
    for (;; r += 2) {
      bool p = true;
      for (size_t d = 3; d * d <= r; d += 2) if (r % d == 0) { p = false; break; }
      if (p) break;
    }
  }
  const_cast<_Prime_rehash_policy *>(this)->_M_next_resize = r; // max load factor 1
  return r;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t want = (_M_next_resize ? ne + ni : std::max<size_t>(ne + ni, 11));
    if (want >= nb) return {true, _M_next_bkt(std::max(want + 1, nb * 2))};
    const_cast<_Prime_rehash_policy *>(this)->_M_next_resize = nb;
    return {false, 0};
  }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base *const pos) noexcept {
  this->_M_next = pos; this->_M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    auto *t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
} // namespace __detail

// Red-black trees: the balance is an optimisation; the model keeps an
// unbalanced search tree with the same ordering and header invariants.
typedef _Rb_tree_node_base *NP;
static NP inc(NP x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  NP y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static NP dec(NP x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  NP y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc((NP)x); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec((NP)x); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
static void transplant(NP u, NP v, _Rb_tree_node_base &h) {
  if (h._M_parent == u) h._M_parent = v;
  else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
  else u->_M_parent->_M_right = v;
  if (v) v->_M_parent = u->_M_parent;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  if (h._M_left == z) { if (z->_M_right) { NP y = z->_M_right; while (y->_M_left) y = y->_M_left; h._M_left = y; } else h._M_left = z->_M_parent; }
  if (h._M_right == z) { if (z->_M_left) { NP y = z->_M_left; while (y->_M_right) y = y->_M_right; h._M_right = y; } else h._M_right = z->_M_parent; }
  if (!z->_M_left) transplant(z, z->_M_right, h);
  else if (!z->_M_right) transplant(z, z->_M_left, h);
  else {
    NP y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { transplant(y, y->_M_right, h); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    transplant(z, y, h);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  return z;
}
} // namespace std

namespace std { template class basic_string<char>; }

// ---------------------------------------------------------------- threads
namespace {
struct Dtor { void (*f)(void *); void *o; Dtor *next; };
thread_local Dtor *tlsDtors = nullptr;
}
extern "C" {
char __libc_single_threaded = 0;
int __cxa_thread_atexit(void (*f)(void *), void *o, void *) {
  Dtor *d = (Dtor *)::malloc(sizeof(Dtor));
  d->f = f; d->o = o; d->next = tlsDtors;
  tlsDtors = d;
  return 0;
}
void sx_run_thread_exit() {
  while (Dtor *d = tlsDtors) {
    tlsDtors = d->next;
    d->f(d->o);
    ::free(d);
  }
}
void __sx_thread_main(void (*f)(void *), void *a) {
  f(a);
  sx_run_thread_exit();
}
int sx_thread_create(void (*f)(void *), void *a) { return __sx_spawn(f, a); }
void __cxa_guard_abort(void *) {}
}

// ---------------------------------------------------------------- C strings
// Functions of the C library the code under test may use; the executor
// implements strlen, strcmp, strncmp, strchr, strrchr, memchr and memcmp itself.
extern "C" {
size_t strnlen(const char *s, size_t n) noexcept {
  size_t i = 0;
  while (i < n && s[i]) i++;
  return i;
}
char *strcpy(char *d, const char *s) noexcept {
  for (size_t i = 0;; i++) if (!(d[i] = s[i])) return d;
}
char *stpcpy(char *d, const char *s) noexcept {
  while ((*d = *s)) d++, s++;
  return d;
}
char *strncpy(char *d, const char *s, size_t n) noexcept {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char *strcat(char *d, const char *s) noexcept {
  strcpy(d + strlen(d), s);
  return d;
}
char *strncat(char *d, const char *s, size_t n) noexcept {
  size_t l = strlen(d), i = 0;
  for (; i < n && s[i]; i++) d[l + i] = s[i];
  d[l + i] = 0;
  return d;
}
size_t strspn(const char *s, const char *set) noexcept {
  size_t i = 0;
  for (; s[i]; i++) {
    const char *c = set;
    while (*c && *c != s[i]) c++;
    if (!*c) break;
  }
  return i;
}
size_t strcspn(const char *s, const char *set) noexcept {
  size_t i = 0;
  for (; s[i]; i++) {
    const char *c = set;
    while (*c && *c != s[i]) c++;
    if (*c) break;
  }
  return i;
}
char *__sx_strpbrk(const char *s, const char *set) noexcept __asm__("strpbrk");
char *__sx_strpbrk(const char *s, const char *set) noexcept {
  s += strcspn(s, set);
  return *s ? (char *)s : nullptr;
}
char *__sx_strstr(const char *s, const char *n) noexcept __asm__("strstr");
char *__sx_strstr(const char *s, const char *n) noexcept {
  for (;; s++) {
    size_t i = 0;
    while (n[i] && s[i] == n[i]) i++;
    if (!n[i]) return (char *)s;
    if (!*s) return nullptr;
  }
}
char *strdup(const char *s) noexcept {
  size_t n = strlen(s) + 1;
  return (char *)memcpy(malloc(n), s, n);
}
char *strndup(const char *s, size_t m) noexcept {
  size_t n = strnlen(s, m);
  char *r = (char *)memcpy(malloc(n + 1), s, n);
  r[n] = 0;
  return r;
}
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isalpha(int c) noexcept { return isupper(c) || islower(c); }
int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
}
