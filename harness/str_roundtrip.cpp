// C01: strings created from UTF-16 keep their content in every view.
#include "common.h"
using namespace jnivm;
static int encLen(jchar c) { return c == 0 ? 2 : c < 0x80 ? 1 : c < 0x800 ? 2 : 3; }
static int enc(jchar c, unsigned char *o) {
  if (c != 0 && c < 0x80) { o[0] = c; return 1; }
  if (c < 0x800) { o[0] = 0xC0 | (c >> 6); o[1] = 0x80 | (c & 0x3F); return 2; }
  o[0] = 0xE0 | (c >> 12); o[1] = 0x80 | ((c >> 6) & 0x3F); o[2] = 0x80 | (c & 0x3F);
  return 3;
}
static void checkViews(JNIEnv *env, jstring s, const jchar *in, unsigned n) {
  SX_ASSERT(env->GetStringLength(s) == (jsize)n, "GetStringLength is the number of UTF-16 units");
  int total = 0;
  Buf<unsigned char> want(3 * n);
  for (unsigned i = 0; i < n; i++) total += enc(in[i], want + total);
  SX_ASSERT(env->GetStringUTFLength(s) == total, "GetStringUTFLength is the modified UTF-8 size");
  jboolean copy = 0;
  const char *u = env->GetStringUTFChars(s, &copy);
  SX_ASSERT(u != nullptr, "GetStringUTFChars");
  for (int i = 0; i < total; i++) SX_ASSERT((unsigned char)u[i] == want[i], "GetStringUTFChars is the modified UTF-8 encoding");
  SX_ASSERT(u[total] == 0, "GetStringUTFChars is NUL terminated");
  jboolean copy2 = 7;
  const char *u2 = env->GetStringUTFChars(s, &copy2);
  SX_ASSERT((u2 != u) == (copy == JNI_TRUE) && copy2 == copy, "isCopy of GetStringUTFChars tells whether the bytes are a copy");
  env->ReleaseStringUTFChars(s, u2);
  env->ReleaseStringUTFChars(s, u);
}
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  unsigned n = sx_choose(sx_param("N", 2) + 1, "len");
  Buf<jchar> in(n);
  sx_symbolic(in, 2 * n, "chars");
  env->PushLocalFrame(16);
  jstring s = env->NewString(in, n);
  SX_ASSERT(s != nullptr, "NewString");
  switch (sx_choose(5, "view")) {
  case 0: // whole content, then again from the exported UTF-8
    checkViews(env, s, in, n);
    {
      int total = env->GetStringUTFLength(s);
      bool nul = false;
      const char *u = env->GetStringUTFChars(s, nullptr);
      std::string cp(u);
      SX_ASSERT((int)cp.size() == total, "modified UTF-8 contains no NUL byte");
      jstring s2 = env->NewStringUTF(cp.c_str());
      SX_ASSERT(!env->IsSameObject(s, s2), "NewStringUTF creates a new object");
      checkViews(env, s2, in, n);
      Buf<jchar> out(n);
      env->GetStringRegion(s2, 0, n, out);
      for (unsigned i = 0; i < n; i++) SX_ASSERT(out[i] == in[i], "UTF-16 to UTF-8 to UTF-16 is the identity");
      checkViews(env, s, in, n); // the first string is unaffected
      sx_reach("utf");
    }
    break;
  case 1: // every window in UTF-16
  {
    unsigned st = sx_choose(n + 1, "start"), len = sx_choose(n - st + 1, "count");
    Buf<jchar> out(len);
    env->GetStringRegion(s, st, len, out);
    for (unsigned i = 0; i < len; i++) SX_ASSERT(out[i] == in[st + i], "GetStringRegion window");
    sx_reach("region");
    break;
  }
  case 2: // every window in UTF-8
  {
    unsigned st = sx_choose(n + 1, "start"), len = sx_choose(n - st + 1, "count");
    Buf<unsigned char> want(3 * len + 1);
    int total = 0;
    for (unsigned i = 0; i < len; i++) total += enc(in[st + i], want + total);
    Buf<char> out(total + 1);
    env->GetStringUTFRegion(s, st, len, out);
    for (int i = 0; i < total; i++) SX_ASSERT((unsigned char)out[i] == want[i], "GetStringUTFRegion window");
    SX_ASSERT(out[total] == 0, "GetStringUTFRegion terminates");
    sx_reach("utfregion");
    break;
  }
  case 3: // exported UTF-16 arrays, both entry points
  {
    size_t before = sx_heap_count();
    jboolean copy = 7;
    bool crit = sx_choose(2, "critical");
    const jchar *c = crit ? env->GetStringCritical(s, &copy) : env->GetStringChars(s, &copy);
    SX_ASSERT(copy == JNI_TRUE || copy == JNI_FALSE, "isCopy is set");
    for (unsigned i = 0; i < n; i++) SX_ASSERT(c[i] == in[i], "GetStringChars content");
    jboolean copy2 = 7;
    const jchar *c2 = crit ? env->GetStringCritical(s, &copy2) : env->GetStringChars(s, &copy2);
    SX_ASSERT((c2 != c) == (copy == JNI_TRUE) && copy2 == copy, "isCopy of GetStringChars tells whether the units are a copy");
    if (crit) env->ReleaseStringCritical(s, c2); else env->ReleaseStringChars(s, c2);
    if (crit) env->ReleaseStringCritical(s, c); else env->ReleaseStringChars(s, c);
    SX_ASSERT(sx_heap_count() == before, "ReleaseStringChars releases what GetStringChars allocated");
    const jchar *d = env->GetStringChars(s, nullptr);
    for (unsigned i = 0; i < n; i++) SX_ASSERT(d[i] == in[i], "GetStringChars content after a release");
    env->ReleaseStringChars(s, d);
    sx_reach("chars");
    break;
  }
  case 4: // two strings do not share content
  {
    Buf<jchar> in2(n);
    sx_symbolic(in2, 2 * n, "chars2");
    jstring s2 = env->NewString(in2, n);
    Buf<jchar> out(n), out2(n);
    for (unsigned i = 0; i < n; i++) { out[i] = in[i]; in[i] = ~in[i]; } // the source buffer may be reused
    Buf<jchar> o1(n), o2(n);
    env->GetStringRegion(s, 0, n, o1);
    env->GetStringRegion(s2, 0, n, o2);
    for (unsigned i = 0; i < n; i++) SX_ASSERT(o1[i] == out[i] && o2[i] == in2[i], "strings are independent copies");
    SX_ASSERT(!env->IsSameObject(s, s2), "distinct string objects");
    sx_reach("independent");
    break;
  }
  }
  env->PopLocalFrame(nullptr);
  sx_reach("end");
  return 0;
}
