// C33: regions and indexes that are not completely inside are refused and change nothing.
#include "jni_types.h"
#include <stdexcept>
using namespace jnivm;
static JNIEnv *env;
static ENV *e;
static int maxn;
static bool inside(jint s, jint len, jint n) { return s >= 0 && len >= 0 && s <= n && (jlong)s + len <= n; }
static void outcome(bool ok, bool threw) {
  SX_ASSERT(!threw, "no C++ exception reaches foreign code");
  SX_ASSERT(env->ExceptionCheck() == !ok, "an exception is pending exactly if something outside was asked for");
  env->ExceptionClear();
  sx_reach(ok ? "inside" : "outside");
}
#define TRY(x) [&]() -> bool { try { x; return false; } catch (...) { return true; } }()
template <class T> struct At;
#define AT(T, N)                                                                                             \
  template <> struct At<T> {                                                                                 \
    typedef T##Array A;                                                                                      \
    static A make(jsize n) { return env->New##N##Array(n); }                                                 \
    static T *elems(A a) { return env->Get##N##ArrayElements(a, nullptr); }                                  \
    static void get(A a, jsize s, jsize n, T *p) { env->Get##N##ArrayRegion(a, s, n, p); }                   \
    static void set(A a, jsize s, jsize n, const T *p) { env->Set##N##ArrayRegion(a, s, n, p); }             \
  };
AT(jboolean, Boolean)
AT(jbyte, Byte)
AT(jchar, Char)
AT(jshort, Short)
AT(jint, Int)
AT(jlong, Long)
AT(jfloat, Float)
AT(jdouble, Double)
template <class T> static void prim() {
  typedef At<T> X;
  int what = sx_choose(3, "what");
  if (what == 2) {
    jint n = sx_any<jint>("length");
    sx_assume(n <= maxn);
    typename X::A a = nullptr;
    bool threw = TRY(a = X::make(n));
    SX_ASSERT(n < 0 ? !a : a && env->GetArrayLength(a) == n, "only arrays with a length that is not negative are made");
    outcome(n >= 0, threw);
    return;
  }
  jint n = sx_choose(maxn + 1, "length");
  bool null = n == 0 && sx_choose(2, "null");
  typename X::A a = null ? nullptr : X::make(n);
  Buf<T> init(n), buf(n + 1), old(n + 1);
  if (n) sx_symbolic(init.p, n * sizeof(T), "init");
  sx_symbolic(buf.p, (n + 1) * sizeof(T), "buf");
  memcpy(old.p, buf.p, (n + 1) * sizeof(T));
  if (n) memcpy(X::elems(a), init.p, n * sizeof(T));
  jint s = sx_any<jint>("start"), len = sx_any<jint>("len");
  bool ok = inside(s, len, n);
  bool threw = what == 0 ? TRY(X::get(a, s, len, buf.p)) : TRY(X::set(a, s, len, buf.p));
  outcome(ok, threw);
  T *p = null ? nullptr : X::elems(a);
  for (jint i = 0; i < n; i++) {
    bool in = ok && what == 1 && i >= s && i - s < len;
    SX_ASSERT(same(p[i], in ? old.p[i - s] : init.p[i]), "only elements of a region inside the array are written");
  }
  for (jint i = 0; i <= n; i++) {
    bool in = ok && what == 0 && i < len;
    SX_ASSERT(same(buf.p[i], in ? init.p[s + i] : old.p[i]), "the buffer receives a region inside the array, and nothing else");
  }
}
static void strings() {
  int n = sx_choose(maxn + 1, "units");
  Buf<jchar> u(n), buf(n + 1);
  Buf<char> b8(3 * n + 2);
  if (n) sx_symbolic(u.p, n * sizeof(jchar), "text");
  jstring str = n == 0 && sx_choose(2, "null") ? nullptr : env->NewString(u.p, n);
  for (int i = 0; i <= n; i++) buf.p[i] = (jchar)(0x4100 + i);
  memset(b8.p, 0x11, 3 * n + 2);
  jint s = sx_any<jint>("start"), len = sx_any<jint>("len");
  bool ok = inside(s, len, n);
  if (sx_choose(2, "utf")) {
    bool threw = TRY(env->GetStringUTFRegion(str, s, len, b8.p));
    outcome(ok, threw);
    int k = 0;
    if (ok) {
      for (jint i = 0; i < n; i++) {
        if (i < s || i - s >= len) continue;
        jchar c = u.p[i];
        unsigned char x[3];
        int m = 0;
        if (c != 0 && c < 0x80) x[m++] = (unsigned char)c;
        else if (c < 0x800) { x[m++] = (unsigned char)(0xC0 | c >> 6); x[m++] = (unsigned char)(0x80 | (c & 0x3F)); }
        else { x[m++] = (unsigned char)(0xE0 | c >> 12); x[m++] = (unsigned char)(0x80 | (c >> 6 & 0x3F)); x[m++] = (unsigned char)(0x80 | (c & 0x3F)); }
        for (int j = 0; j < m; j++) SX_ASSERT((unsigned char)b8.p[k++] == x[j], "the encoding of the region");
      }
      SX_ASSERT(b8.p[k] == 0, "a terminated region");
      k++;
    }
    for (; k < 3 * n + 2; k++) SX_ASSERT(b8.p[k] == 0x11, "nothing else is written");
  } else {
    bool threw = TRY(env->GetStringRegion(str, s, len, buf.p));
    outcome(ok, threw);
    for (jint i = 0; i <= n; i++) {
      bool in = ok && i < len;
      SX_ASSERT(buf.p[i] == (in ? u.p[s + i] : (jchar)(0x4100 + i)), "the buffer receives a region inside the string, and nothing else");
    }
  }
}
struct A : public Extends<Object> {};
struct B : public Extends<A> {};
template <class T> static jobject obj() { return JNITypes<std::shared_ptr<T>>::ToJNIType(e, std::make_shared<T>()); }
static void objects() {
  e->GetClass<A>("p/A");
  // a method taking B[] makes the typed array of B known
  e->GetClass<B>("p/B")->HookInstanceFunction(e, "take", [](ENV *, Object *, std::shared_ptr<Array<B>> a) -> jint { return a ? a->getSize() : -1; });
  static const char *names[] = {"java/lang/Object", "p/A", "p/B"};
  int cls = sx_choose(3, "elementclass"), what = sx_choose(4, "what");
  jclass jc = env->FindClass(names[cls]);
  bool typed = cls == 2;
  jobject a0 = obj<A>(), b0 = obj<B>(), b1 = obj<B>();
  if (what == 3) { // creation
    jint n = sx_any<jint>("length");
    sx_assume(n <= maxn);
    int init = sx_choose(3, "init");
    jobject i = init == 0 ? nullptr : init == 1 ? a0 : b0;
    jobjectArray a = nullptr;
    bool threw = TRY(a = env->NewObjectArray(n, jc, i));
    bool ok = n >= 0 && !(typed && init == 1 && n > 0);
    SX_ASSERT(ok ? a && env->GetArrayLength(a) == n : !a, "only arrays of elements of their type are made");
    outcome(ok, threw);
    return;
  }
  int n = sx_choose(maxn + 1, "length");
  jobjectArray a = n == 0 && sx_choose(2, "null") ? nullptr : env->NewObjectArray(n, jc, b0);
  jint i = sx_any<jint>("index");
  bool in = inside(i, 1, n), store = false;
  jobject v = nullptr;
  if (what == 0) { // element read
    jobject r = nullptr;
    bool threw = TRY(r = env->GetObjectArrayElement(a, i));
    SX_ASSERT(r == (in ? b0 : nullptr), "the element, or nothing");
    outcome(in, threw);
  } else { // element written
    int k = sx_choose(3, "value");
    v = k == 0 ? nullptr : k == 1 ? a0 : b1;
    bool ok = in && !(typed && k == 1);
    bool threw = TRY(env->SetObjectArrayElement(a, i, what == 1 || !v ? v : env->NewGlobalRef(v)));
    outcome(ok, threw);
    store = ok;
  }
  for (int j = 0; j < n; j++) SX_ASSERT(env->IsSameObject(env->GetObjectArrayElement(a, j), store && i == j ? v : b0), "nothing else changes");
}
int main() {
  VM vm;
  env = vm.GetJNIEnv();
  e = vm.GetEnv().get();
  maxn = sx_param("N", 2);
  switch (sx_choose(10, "kind")) {
  case 0: prim<jboolean>(); break;
  case 1: prim<jbyte>(); break;
  case 2: prim<jchar>(); break;
  case 3: prim<jshort>(); break;
  case 4: prim<jint>(); break;
  case 5: prim<jlong>(); break;
  case 6: prim<jfloat>(); break;
  case 7: prim<jdouble>(); break;
  case 8: strings(); break;
  case 9: objects(); break;
  }
  SX_ASSERT(!env->ExceptionCheck(), "nothing pending");
  sx_reach("end");
  return 0;
}
