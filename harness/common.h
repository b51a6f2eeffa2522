// Shared by the harnesses.
#pragma once
#include "sx.h"
#include <jnivm.h>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

// an exactly sized heap buffer, so that any access outside it is an error
template <class T> struct Buf {
  T *p;
  size_t n;
  explicit Buf(size_t n) : p((T *)malloc(n * sizeof(T) ? n * sizeof(T) : 1)), n(n) {}
  ~Buf() { free(p); }
  T &operator[](size_t i) { return p[i]; }
  operator T *() { return p; }
};
// bit-exact equality (floating point values travel as bits)
template <class T> static inline bool same(const T &a, const T &b) { return memcmp(&a, &b, sizeof(T)) == 0; }
static inline bool streq(const char *a, const char *b) {
  size_t i = 0;
  for (; a[i] && b[i]; i++) if (a[i] != b[i]) return false;
  return a[i] == b[i];
}
