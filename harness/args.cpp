// C03: arguments and results of calls travel unchanged through every call form.
#include "jni_types.h"
using namespace jnivm;
struct Obj0 : public Object {};
struct Obj1 : public Extends<Object> {
  // a member function bound directly
  template <class T> T mem(jint a, T b, jlong c);
};
template <class T> struct Got { jint a; T b; jlong c; int calls; void *self; };
template <class T> static Got<T> &got() { static Got<T> g; return g; }
static void *gotCls;
template <class T> T Obj1::mem(jint a, T b, jlong c) {
  Got<T> &g = got<T>();
  g.a = a; g.b = b; g.c = c; g.calls++; g.self = (Object *)this;
  return b;
}
// forms: 0 variadic, 1 va_list, 2 jvalue array
template <class T> static T listO(JNIEnv *e, jobject o, jmethodID m, ...) {
  va_list l;
  va_start(l, m);
  T r = Tr<T>::callL(e, o, m, l);
  va_end(l);
  return r;
}
template <class T> static T listS(JNIEnv *e, jclass o, jmethodID m, ...) {
  va_list l;
  va_start(l, m);
  T r = Tr<T>::callL(e, o, m, l);
  va_end(l);
  return r;
}
template <class T> static T listN(JNIEnv *e, jobject o, jclass c, jmethodID m, ...) {
  va_list l;
  va_start(l, m);
  T r = Tr<T>::callL(e, o, c, m, l);
  va_end(l);
  return r;
}
static jobject listNew(JNIEnv *e, jclass c, jmethodID m, ...) {
  va_list l;
  va_start(l, m);
  jobject r = e->functions->NewObjectV(e, c, m, l);
  va_end(l);
  return r;
}
template <class T> static T anyArg(JNIEnv *env, jobject o) { return sx_any<T>("b"); }
template <> jobject anyArg<jobject>(JNIEnv *env, jobject o) { return sx_choose(2, "nullarg") ? o : nullptr; }
template <class T> static void run(VM &vm, JNIEnv *env) {
  ENV *e = vm.GetEnv().get();
  auto cl = e->GetClass<Obj1>("pkg/Obj1");
  auto obj = std::make_shared<Obj1>();
  jobject o = JNITypes<std::shared_ptr<Obj1>>::ToJNIType(e, obj);
  jclass c = env->FindClass("pkg/Obj1");
  auto other = std::make_shared<Obj0>();
  e->GetClass<Obj0>("pkg/Obj0");
  jobject oo = JNITypes<std::shared_ptr<Obj0>>::ToJNIType(e, other);
  Got<T> &g = got<T>();
  jint a = sx_any<jint>("a");
  T b = anyArg<T>(env, oo);
  jlong d = sx_any<jlong>("c");
  std::string sig = std::string("(I") + Tr<T>::sig() + "J)" + Tr<T>::sig();
  unsigned kind = sx_choose(4, "kind"), form = sx_choose(3, "form");
  jvalue v[3] = {toV(a), toV(b), toV(d)};
  T r;
  if (kind == 0) { // static
    cl->Hook(e, "f", [](ENV *, Class *k, jint a, T b, jlong c) { Got<T> &g = got<T>(); g.a = a; g.b = b; g.c = c; g.calls++; gotCls = k; return b; });
    jmethodID m = env->GetStaticMethodID(c, "f", sig.c_str());
    r = form == 0 ? Tr<T>::callV(env, c, m, a, b, d) : form == 1 ? listS<T>(env, c, m, a, b, d) : Tr<T>::callA(env, c, m, v);
    SX_ASSERT(gotCls == cl.get(), "a static call passes the class it was made on");
    sx_reach("static");
  } else if (kind == 1) { // instance, plain callable with an instance parameter
    cl->HookInstanceFunction(e, "f", [](ENV *, Object *self, jint a, T b, jlong c) { Got<T> &g = got<T>(); g.a = a; g.b = b; g.c = c; g.calls++; g.self = self; return b; });
    jmethodID m = env->GetMethodID(c, "f", sig.c_str());
    r = form == 0 ? Tr<T>::callV(env, o, m, a, b, d) : form == 1 ? listO<T>(env, o, m, a, b, d) : Tr<T>::callA(env, o, m, v);
    SX_ASSERT(g.self == (Object *)obj.get(), "an instance call passes its receiver");
    sx_reach("instance");
  } else if (kind == 2) { // instance, bound member function
    cl->Hook(e, "f", &Obj1::mem<T>);
    jmethodID m = env->GetMethodID(c, "f", sig.c_str());
    r = form == 0 ? Tr<T>::callV(env, o, m, a, b, d) : form == 1 ? listO<T>(env, o, m, a, b, d) : Tr<T>::callA(env, o, m, v);
    SX_ASSERT(g.self == (Object *)obj.get(), "a bound member function runs on the receiver");
    sx_reach("member");
  } else { // non-virtual
    cl->HookInstanceFunction(e, "f", [](ENV *, Object *self, jint a, T b, jlong c) { Got<T> &g = got<T>(); g.a = a; g.b = b; g.c = c; g.calls++; g.self = self; return b; });
    jmethodID m = env->GetMethodID(c, "f", sig.c_str());
    r = form == 0 ? Tr<T>::callV(env, o, c, m, a, b, d) : form == 1 ? listN<T>(env, o, c, m, a, b, d) : Tr<T>::callA(env, o, c, m, v);
    SX_ASSERT(g.self == (Object *)obj.get(), "a non-virtual call passes its receiver");
    sx_reach("nonvirtual");
  }
  SX_ASSERT(!env->ExceptionCheck(), "a call that raised nothing leaves nothing pending");
  SX_ASSERT(g.calls == 1, "the bound implementation runs exactly once");
  SX_ASSERT(g.a == a && g.c == d, "arguments around the typed one arrive unchanged");
  SX_ASSERT(carried(g.b, b), "the typed argument arrives unchanged");
  SX_ASSERT(carried(r, b), "the result returns unchanged");
}
// objects of every reference type among all primitives, past the register arguments
struct Rec9 { jboolean z; jfloat f; jbyte b; jdouble d; jchar c; jlong j; jshort s; jfloat f2; jint i; jdouble d2; Object *o; String *t; Array<jint> *p; Array<String> *q; jfloat f9; jint last; int calls; };
static Rec9 R;
static void wide(ENV *, Class *, jboolean z, jfloat f, jbyte b, jdouble d, std::shared_ptr<Array<jint>> p, jchar c, jlong j, std::shared_ptr<String> t, jshort s, jfloat f2, jint i, jdouble d2, std::shared_ptr<Array<String>> q, std::shared_ptr<Object> o, jfloat f3, jdouble d3, jfloat f4, jdouble d4, jfloat f9, jint last) {
  R = {z, f, b, d, c, j, s, f2, i, d2, o.get(), t.get(), p.get(), q.get(), f9, last, R.calls + 1};
}
static void voidListS(JNIEnv *e, jclass o, jmethodID m, ...) {
  va_list l;
  va_start(l, m);
  e->functions->CallStaticVoidMethodV(e, o, m, l);
  va_end(l);
}
static void runWide(VM &vm, JNIEnv *env) {
  ENV *e = vm.GetEnv().get();
  auto cl = e->GetClass("pkg/Wide");
  cl->Hook(e, "f", wide);
  jclass c = env->FindClass("pkg/Wide");
  jmethodID m = env->GetStaticMethodID(c, "f", "(ZFBD[ICJLjava/lang/String;SFID[Ljava/lang/String;Ljava/lang/Object;FDFDFI)V");
  jintArray p = env->NewIntArray(1);
  jstring t = env->NewStringUTF("x");
  jobjectArray q = env->NewObjectArray(1, env->FindClass("java/lang/String"), nullptr);
  jobject o = sx_choose(2, "nullobj") ? nullptr : (jobject)p;
  jboolean z = sx_any<jboolean>("z"); jfloat f = sx_any<jfloat>("f"); jbyte b = sx_any<jbyte>("b"); jdouble d = sx_any<jdouble>("d"); jchar ch = sx_any<jchar>("ch");
  jlong j = sx_any<jlong>("j"); jshort s = sx_any<jshort>("s"); jfloat f2 = sx_any<jfloat>("f2"); jint i = sx_any<jint>("i"); jdouble d2 = sx_any<jdouble>("d2");
  jfloat f9 = sx_any<jfloat>("f9"); jint last = sx_any<jint>("last");
  jdouble k = 1.0;
  jvalue v[20] = {toV(z), toV(f), toV(b), toV(d), toV<jobject>(p), toV(ch), toV(j), toV<jobject>(t), toV(s), toV(f2), toV(i), toV(d2), toV<jobject>(q), toV(o), toV(1.5f), toV(k), toV(2.5f), toV(k), toV(f9), toV(last)};
  switch (sx_choose(3, "form")) {
  case 0: env->functions->CallStaticVoidMethod(env, c, m, z, f, b, d, p, ch, j, t, s, f2, i, d2, q, o, 1.5f, k, 2.5f, k, f9, last); break;
  case 1: voidListS(env, c, m, z, f, b, d, p, ch, j, t, s, f2, i, d2, q, o, 1.5f, k, 2.5f, k, f9, last); break;
  case 2: env->functions->CallStaticVoidMethodA(env, c, m, v); break;
  }
  SX_ASSERT(!env->ExceptionCheck(), "a call that raised nothing leaves nothing pending");
  SX_ASSERT(R.calls == 1, "the bound implementation runs exactly once");
  SX_ASSERT(R.z == z && R.b == b && R.c == ch && R.j == j && R.s == s && R.i == i && R.last == last, "integral arguments arrive in their positions");
  SX_ASSERT(carried(R.f, f) && carried(R.d, d) && carried(R.f2, f2) && carried(R.d2, d2) && carried(R.f9, f9), "floating arguments arrive in their positions");
  SX_ASSERT((jobject)(Object *)R.o == o && (jobject)(Object *)R.t == (jobject)t && (jobject)(Object *)R.p == (jobject)p && (jobject)(Object *)R.q == (jobject)q, "reference arguments arrive as the same objects");
  sx_reach("wide");
}
// constructors
static std::shared_ptr<Obj1> made;
static struct { jint a; jdouble b; jchar c; int calls; } K;
static void runCtor(VM &vm, JNIEnv *env) {
  ENV *e = vm.GetEnv().get();
  auto cl = e->GetClass<Obj1>("pkg/Obj1");
  cl->Hook(e, "<init>", [](ENV *, Class *, jint a, jdouble b, jchar c) { K.a = a; K.b = b; K.c = c; K.calls++; made = std::make_shared<Obj1>(); return made; });
  jclass c = env->FindClass("pkg/Obj1");
  jmethodID m = env->GetMethodID(c, "<init>", "(IDC)V");
  jint a = sx_any<jint>("a");
  jdouble b = sx_any<jdouble>("b");
  jchar d = sx_any<jchar>("c");
  jvalue v[3] = {toV(a), toV(b), toV(d)};
  jobject r = nullptr;
  switch (sx_choose(3, "form")) {
  case 0: r = env->functions->NewObject(env, c, m, a, b, d); break;
  case 1: r = listNew(env, c, m, a, b, d); break;
  case 2: r = env->functions->NewObjectA(env, c, m, v); break;
  }
  SX_ASSERT(K.calls == 1, "the constructor runs exactly once");
  SX_ASSERT(K.a == a && K.c == d && carried(K.b, b), "constructor arguments arrive unchanged");
  SX_ASSERT(r == (jobject)(Object *)made.get(), "NewObject returns the object the constructor made");
  SX_ASSERT(env->IsSameObject(env->GetObjectClass(r), c), "the new object is of the constructed class");
  made = nullptr;
  sx_reach("ctor");
}
// variadic arguments narrower than int are passed as int: the low bits count
static struct { jbyte b; jchar c; jshort s; jboolean z; jint i; int calls; } W;
static void narrow(ENV *, Class *, jbyte b, jchar c, jshort s, jboolean z, jint i) { W = {b, c, s, z, i, W.calls + 1}; }
static void runNarrow(VM &vm, JNIEnv *env) {
  ENV *e = vm.GetEnv().get();
  e->GetClass("pkg/Narrow")->Hook(e, "f", narrow);
  jclass c = env->FindClass("pkg/Narrow");
  jmethodID m = env->GetStaticMethodID(c, "f", "(BCSZI)V");
  jint a[5];
  for (auto &x : a) x = sx_any<jint>("a");
  sx_assume(a[3] == 0 || a[3] == 1);
  if (sx_choose(2, "form")) env->functions->CallStaticVoidMethod(env, c, m, a[0], a[1], a[2], a[3], a[4]);
  else voidListS(env, c, m, a[0], a[1], a[2], a[3], a[4]);
  SX_ASSERT(W.calls == 1 && !env->ExceptionCheck(), "the bound implementation runs exactly once");
  SX_ASSERT(W.b == (jbyte)a[0] && W.c == (jchar)a[1] && W.s == (jshort)a[2] && W.z == a[3] && W.i == a[4], "narrow arguments arrive as their low bits");
  sx_reach("narrow");
}
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  switch (sx_choose(12, "type")) {
  case 0: run<jboolean>(vm, env); break;
  case 1: run<jbyte>(vm, env); break;
  case 2: run<jchar>(vm, env); break;
  case 3: run<jshort>(vm, env); break;
  case 4: run<jint>(vm, env); break;
  case 5: run<jlong>(vm, env); break;
  case 6: run<jfloat>(vm, env); break;
  case 7: run<jdouble>(vm, env); break;
  case 8: run<jobject>(vm, env); break;
  case 9: runWide(vm, env); break;
  case 10: runCtor(vm, env); break;
  case 11: runNarrow(vm, env); break;
  }
  sx_reach("end");
  return 0;
}
