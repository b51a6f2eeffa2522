// C02: any byte string is stored verbatim; UTF-16 views decode exactly the
// well-formed modified UTF-8 and reject everything else.
#include "common.h"
#include <stdexcept>
using namespace jnivm;
// independent decoder: returns number of units or -1 when malformed; good counts the units before that
static int decode(const unsigned char *b, unsigned n, jchar *out, int &k, unsigned *at) {
  unsigned i = 0;
  k = 0;
  at[0] = 0;
  while (i < n) {
    if (b[i] < 0x80) out[k++] = b[i++];
    else if (b[i] >= 0xC0 && b[i] < 0xE0) {
      if (i + 1 >= n || b[i + 1] < 0x80 || b[i + 1] > 0xBF) return -1;
      out[k++] = (b[i] & 0x1F) << 6 | (b[i + 1] & 0x3F);
      i += 2;
    } else if (b[i] >= 0xE0 && b[i] < 0xF0) {
      if (i + 1 >= n || b[i + 1] < 0x80 || b[i + 1] > 0xBF) return -1;
      if (i + 2 >= n || b[i + 2] < 0x80 || b[i + 2] > 0xBF) return -1;
      out[k++] = (b[i] & 0x0F) << 12 | (b[i + 1] & 0x3F) << 6 | (b[i + 2] & 0x3F);
      i += 3;
    } else return -1;
    at[k] = i;
  }
  return k;
}
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  unsigned n = sx_choose(sx_param("N", 3) + 1, "len");
  Buf<unsigned char> in(n + 1);
  sx_symbolic(in, n, "bytes");
  in[n] = 0;
  for (unsigned i = 0; i < n; i++) sx_assume(in[i] != 0);
  jstring s = env->NewStringUTF((const char *)(unsigned char *)in);
  SX_ASSERT(env->GetStringUTFLength(s) == (jsize)n, "stored length");
  jboolean cp = 7;
  const char *u = env->GetStringUTFChars(s, &cp);
  SX_ASSERT(cp == JNI_TRUE || cp == JNI_FALSE, "isCopy is set");
  for (unsigned i = 0; i <= n; i++) SX_ASSERT((unsigned char)u[i] == in[i], "stored verbatim");
  env->ReleaseStringUTFChars(s, u);
  Buf<jchar> want(n);
  Buf<unsigned> at(n + 1); // where each unit begins
  int good, k = decode(in, n, want, good, at.p);
  bool threw = false;
  int what = sx_choose(4, "view");
  size_t before = sx_heap_count();
  try {
    if (what == 0) {
      jsize len = env->GetStringLength(s);
      SX_ASSERT(k >= 0, "malformed text must not be counted");
      SX_ASSERT(len == k, "decoded length");
      sx_reach("length");
    } else if (what == 1) {
      const jchar *c = env->GetStringChars(s, nullptr);
      SX_ASSERT(k >= 0, "malformed text must not be decoded");
      for (int i = 0; i < k; i++) SX_ASSERT(c[i] == want[i], "decoded content");
      env->ReleaseStringChars(s, c);
      sx_reach("chars");
    } else if (what == 3) { // any region, also outside
      Buf<jchar> out(n + 1);
      Buf<char> o8(n + 2);
      for (unsigned i = 0; i <= n; i++) out[i] = 0x4141, o8[i] = 0x41;
      o8[n + 1] = 0x41;
      jint start = sx_any<jint>("start"), len = sx_any<jint>("size");
      bool utf = sx_choose(2, "utf"), thrown = false;
      bool ok = start >= 0 && len >= 0 && (jlong)start + len <= good;
      try {
        if (utf) env->GetStringUTFRegion(s, start, len, o8); else env->GetStringRegion(s, start, len, out);
      } catch (const std::exception &) { thrown = true; }
      bool pending = env->ExceptionCheck();
      env->ExceptionClear();
      if (ok) SX_ASSERT(!thrown && !pending, "a well-formed region inside the string is read");
      else SX_ASSERT(thrown || pending, "anything else is refused");
      if (k >= 0) SX_ASSERT(!thrown, "regions of well-formed text are refused with a pending exception");
      if (utf) {
        unsigned m = ok ? at[start + len] - at[start] : 0;
        for (unsigned i = 0; i <= n + 1; i++) SX_ASSERT((unsigned char)o8[i] == (ok && i < m ? in[at[start] + i] : ok && i == m ? 0 : 0x41), "UTF region");
      } else
        for (int i = 0; i <= (int)n; i++) SX_ASSERT(out[i] == (ok && i < len ? want[start + i] : 0x4141), "region");
      sx_reach(ok ? "inside" : "outside");
    } else if (k >= 0) {
      Buf<jchar> out(k);
      env->GetStringRegion(s, 0, k, out);
      for (int i = 0; i < k; i++) SX_ASSERT(out[i] == want[i], "decoded region");
      Buf<char> o8(n + 1);
      env->GetStringUTFRegion(s, 0, k, o8);
      for (unsigned i = 0; i <= n; i++) SX_ASSERT((unsigned char)o8[i] == in[i], "whole UTF region");
      sx_reach("region");
    } else {
      Buf<jchar> out(n);
      env->GetStringRegion(s, 0, n, out); // runs into the malformed sequence first
      sx_fail("malformed text must not be decoded by region");
    }
  } catch (const std::exception &) {
    threw = true;
  }
  if (threw) {
    SX_ASSERT(k < 0, "well-formed text must not be rejected");
    sx_reach("rejected");
  }
  SX_ASSERT(sx_heap_count() == before, "no memory is lost");
  // the string is still usable afterwards
  SX_ASSERT(env->GetStringUTFLength(s) == (jsize)n, "still intact");
  sx_reach("end");
  return 0;
}
