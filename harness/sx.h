// Harness interface.  The same harness source is executed symbolically (LLVM
// IR in the engine) and natively (replay of a concrete path).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sx_symbolic(void *p, size_t n, const char *name); // bytes become arbitrary
void sx_assume(int c);
void sx_assert_(int c, const char *msg);
void sx_fail(const char *msg);
void sx_reach(const char *label);                      // vacuity guard
void sx_observe(const char *name, const void *p, size_t n);
int sx_param(const char *name, int dflt);              // bounds, set per tier
unsigned sx_choose(unsigned n, const char *name);      // arbitrary value < n, one path per value
uint64_t sx_concretize(uint64_t v);                    // one path per feasible value
size_t sx_heap_count();                                // live heap blocks
size_t sx_heap_bytes();
int sx_is_native();
void sx_debug(const char *name, uint64_t v);
int sx_thread_create(void (*f)(void *), void *arg);
void sx_thread_join(int t);
void sx_run_thread_exit();
void sx_yield();                                       // extra scheduling point
}
static inline __attribute__((always_inline)) void sx_check(bool c, const char *msg) { sx_assert_(c ? 1 : 0, msg); }
#define SX_ASSERT(...) sx_check(__VA_ARGS__)
template <class T> static inline T sx_any(const char *name) {
  T t;
  sx_symbolic(&t, sizeof t, name);
  return t;
}
template <class T> static inline T sx_range(T lo, T hi, const char *name) { // arbitrary value in [lo,hi], stays symbolic
  T t;
  sx_symbolic(&t, sizeof t, name);
  sx_assume(t >= lo);
  sx_assume(t <= hi);
  return t;
}
template <class T> static inline void sx_obs(const char *name, const T &t) { sx_observe(name, &t, sizeof t); }
