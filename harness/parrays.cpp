// C15: primitive arrays.
#include "jni_types.h"
using namespace jnivm;
template <class T> struct At;
#define AT(T, N, S)                                                                                                                           \
  template <> struct At<T> {                                                                                                                  \
    typedef T##Array A;                                                                                                                       \
    static const char *cls() { return "[" S; }                                                                                                \
    static A make(JNIEnv *e, jsize n) { return e->New##N##Array(n); }                                                                          \
    static T *elems(JNIEnv *e, A a, jboolean *c) { return e->Get##N##ArrayElements(a, c); }                                                    \
    static void release(JNIEnv *e, A a, T *p, jint m) { e->Release##N##ArrayElements(a, p, m); }                                               \
    static void get(JNIEnv *e, A a, jsize s, jsize n, T *p) { e->Get##N##ArrayRegion(a, s, n, p); }                                            \
    static void set(JNIEnv *e, A a, jsize s, jsize n, const T *p) { e->Set##N##ArrayRegion(a, s, n, p); }                                      \
  };
AT(jboolean, Boolean, "Z")
AT(jbyte, Byte, "B")
AT(jchar, Char, "C")
AT(jshort, Short, "S")
AT(jint, Int, "I")
AT(jlong, Long, "J")
AT(jfloat, Float, "F")
AT(jdouble, Double, "D")
template <class T> static void run(JNIEnv *env, ENV *e) {
  typedef At<T> X;
  int maxn = sx_param("N", 3);
  { // first use: class, descriptors and tables are set up
    env->PushLocalFrame(4);
    X::make(env, 1);
    env->PopLocalFrame(nullptr);
  }
  env->PushLocalFrame(64);
  size_t heap0 = sx_heap_count();
  jsize n = sx_choose(maxn + 1, "length");
  int how = sx_choose(4, "made");
  std::shared_ptr<Array<T>> keep;
  T *model = (T *)malloc(n ? n * sizeof(T) : 1);
  T *init = (T *)malloc(n ? n * sizeof(T) : 1);
  memset(model, 0, n * sizeof(T));
  if (n) sx_symbolic(init, n * sizeof(T), "init");
  typename X::A a;
  if (how == 0) a = X::make(env, n);
  else {
    auto cl = e->GetClass(X::cls());
    if (how == 1) { auto v = std::make_shared<std::vector<T>>(init, init + n); keep = std::make_shared<Array<T>>(*v); }
    else if (how == 2) keep = std::make_shared<Array<T>>(init, n);
    else { keep = std::make_shared<Array<T>>(n); memcpy(keep->getArray(), init, n * sizeof(T)); }
    keep->clazz = cl;
    memcpy(model, init, n * sizeof(T));
    a = (typename X::A)JNITypes<std::shared_ptr<Array<T>>>::ToJNIType(e, keep);
  }
  SX_ASSERT(a, "an array");
  SX_ASSERT(env->GetArrayLength(a) == n, "the length asked for");
  SX_ASSERT(env->IsSameObject(env->GetObjectClass(a), env->FindClass(X::cls())), "the class of an array");
  jobject other = env->NewGlobalRef(a);
  switch (sx_choose(4, "op")) {
  case 0: { // a region is written
    jsize s = sx_choose(n + 1, "start"), len = sx_choose(n - s + 1, "len");
    Buf<T> b(len);
    if (len) sx_symbolic(b.p, len * sizeof(T), "data");
    X::set(env, a, s, len, b.p);
    memcpy(model + s, b.p, len * sizeof(T));
    sx_reach("setregion");
    break;
  }
  case 1: { // an element is written through the pointer
    jboolean copy = 9;
    bool crit = sx_choose(2, "critical");
    T *p = crit ? (T *)env->GetPrimitiveArrayCritical(a, &copy) : X::elems(env, a, sx_choose(2, "isCopy") ? &copy : nullptr);
    SX_ASSERT(copy == 9 || copy == JNI_FALSE || copy == JNI_TRUE, "isCopy is a boolean");
    SX_ASSERT(n == 0 || p, "elements");
    for (jsize i = 0; i < n; i++) SX_ASSERT(same(p[i], model[i]), "the elements given out are the elements of the array");
    jint mode = sx_choose(2, "commit") ? JNI_COMMIT : 0;
    if (n) {
      jsize i = sx_choose(n, "index");
      T v = sx_any<T>("v");
      p[i] = v;
      model[i] = v;
    }
    if (crit) env->ReleasePrimitiveArrayCritical(a, p, mode); else X::release(env, a, p, mode);
    if (mode == JNI_COMMIT && n) { // still usable until released
      jsize i = sx_choose(n, "index2");
      T v = sx_any<T>("v2");
      p[i] = v;
      model[i] = v;
      if (crit) env->ReleasePrimitiveArrayCritical(a, p, 0); else X::release(env, a, p, 0);
    }
    sx_reach("elements");
    break;
  }
  case 2: // the array is seen from C++
    if (keep || true) {
      auto k = JNITypes<std::shared_ptr<Array<T>>>::JNICast(e, other);
      SX_ASSERT(k->getSize() == n, "length");
      for (jsize i = 0; i < n; i++) SX_ASSERT(same((*k)[i], model[i]), "elements");
      if (n) { jsize i = sx_choose(n, "index"); T v = sx_any<T>("v"); (*k)[i] = v; model[i] = v; }
    }
    sx_reach("cpp");
    break;
  case 3: { // copies are arrays of their own
    auto k = JNITypes<std::shared_ptr<Array<T>>>::JNICast(e, other);
    std::shared_ptr<Array<T>> c;
    T *ext = nullptr;
    switch (sx_choose(4, "copy")) {
    case 0: c = std::make_shared<Array<T>>(*k); break;
    case 1: c = std::make_shared<Array<T>>(sx_choose(3, "oldsize")); *c = *k; break;
    case 2: c = std::make_shared<Array<T>>(); *c = *k; *c = *c; break;
    case 3: { // a view of foreign memory, assigned over and copied
      ext = (T *)malloc((n + 1) * sizeof(T));
      memcpy(ext, model, n * sizeof(T));
      auto v = std::make_shared<Array<T>>(ext, n, false);
      c = std::make_shared<Array<T>>(*v);
      *v = *k;
      if (n) { jsize i = sx_choose(n, "index3"); (*c)[i] = sx_any<T>("v3"); SX_ASSERT(same(ext[i], (*c)[i]), "a copy of a view is a view"); ext[i] = model[i]; }
      break;
    }
    }
    SX_ASSERT(c->getSize() == n, "length of a copy");
    for (jsize i = 0; i < n; i++) SX_ASSERT(same((*c)[i], model[i]), "elements of a copy");
    if (n) {
      jsize i = sx_choose(n, "index");
      (*c)[i] = sx_any<T>("v");
      T v = sx_any<T>("v2");
      jsize m = sx_choose(n, "index2");
      T was = (*c)[m];
      (*k)[m] = v;
      model[m] = v;
      SX_ASSERT(same((*c)[m], was), "a copy has elements of its own");
    }
    c.reset();
    free(ext);
    sx_reach("copied");
    break;
  }
  }
  // every view agrees
  {
    jsize s = sx_choose(n + 1, "rstart"), len = sx_choose(n - s + 1, "rlen");
    Buf<T> b(len + 2);
    memset(b.p, 0x5a, (len + 2) * sizeof(T));
    X::get(env, (typename X::A)other, s, len, b.p + 1);
    for (jsize i = 0; i < len; i++) SX_ASSERT(same(b.p[1 + i], model[s + i]), "a region read back is what the array holds");
    T guard;
    memset(&guard, 0x5a, sizeof guard);
    SX_ASSERT(same(b.p[0], guard) && same(b.p[len + 1], guard), "only the region asked for is written");
  }
  {
    T *p = X::elems(env, (typename X::A)other, nullptr);
    for (jsize i = 0; i < n; i++) SX_ASSERT(same(p[i], model[i]), "unwritten elements keep their value, new arrays are zero");
    X::release(env, (typename X::A)other, p, JNI_ABORT);
  }
  SX_ASSERT(!env->ExceptionCheck(), "nothing pending");
  free(model);
  free(init);
  keep.reset();
  env->DeleteGlobalRef(other);
  env->PopLocalFrame(nullptr);
  size_t h1 = sx_heap_count();
  SX_ASSERT(h1 <= heap0, "an array is released with its last reference");
  sx_reach("end");
}
template <class T> static void large(JNIEnv *env) { // the same for arrays of many elements
  typedef At<T> X;
  static const jsize sizes[] = {40, 65, 300}, starts[] = {0, 1, 31}, lens[] = {0, 9, 33, 40};
  jsize n = sizes[sx_choose(3, "size")];
  auto a = X::make(env, n);
  SX_ASSERT(env->GetArrayLength(a) == n, "the length asked for");
  T *model = (T *)calloc(n, sizeof(T));
  Buf<T> all(n);
  X::get(env, a, 0, n, all.p);
  for (jsize i = 0; i < n; i++) SX_ASSERT(same(all.p[i], model[i]), "new arrays are zero");
  jsize len = lens[sx_choose(4, "len")], s = starts[sx_choose(3, "start")];
  if (s + len > n) s = n - len;
  Buf<T> b(len);
  if (len) sx_symbolic(b.p, len * sizeof(T), "data");
  X::set(env, a, s, len, b.p);
  memcpy(model + s, b.p, len * sizeof(T));
  T *p = X::elems(env, a, nullptr);
  p[n - 1] = model[n - 1] = sx_any<T>("last");
  X::release(env, a, p, 0);
  X::get(env, a, 0, n, all.p);
  for (jsize i = 0; i < n; i++) SX_ASSERT(same(all.p[i], model[i]), "a region read back is what the array holds");
  X::get(env, a, s, len, b.p);
  for (jsize i = 0; i < len; i++) SX_ASSERT(same(b.p[i], model[s + i]), "a region read back is what the array holds");
  free(model);
  sx_reach("large");
  sx_reach("end");
}
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  env->DeleteGlobalRef(env->NewGlobalRef(env->FindClass("x")));
  bool big = sx_choose(2, "large");
  switch (sx_choose(8, "type")) {
  case 0: big ? large<jboolean>(env) : run<jboolean>(env, e); break;
  case 1: big ? large<jbyte>(env) : run<jbyte>(env, e); break;
  case 2: big ? large<jchar>(env) : run<jchar>(env, e); break;
  case 3: big ? large<jshort>(env) : run<jshort>(env, e); break;
  case 4: big ? large<jint>(env) : run<jint>(env, e); break;
  case 5: big ? large<jlong>(env) : run<jlong>(env, e); break;
  case 6: big ? large<jfloat>(env) : run<jfloat>(env, e); break;
  case 7: big ? large<jdouble>(env) : run<jdouble>(env, e); break;
  }
  return 0;
}
