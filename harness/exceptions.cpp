// C10: the pending exception over every history of JNI calls.
#include "jni_types.h"
#include <stdexcept>
using namespace jnivm;
static int live;
struct MyEx : public Extends<Throwable> {
  jint code = 0;
  MyEx() { live++; }
  ~MyEx() { live--; }
};
struct Odd { jint a, b; }; // an exception type nobody knows
enum Kind { NONE, OBJ, RT, INT, ODD, ANY };
struct Model { Kind kind = NONE; Object *obj = nullptr; jint v = 0; const char *what = nullptr; };
static Model m;
static int mode; // which exception the implementation throws
static jint thr; // it throws when its argument reaches this
static void maybe(jint a) {
  if (a < thr) return;
  if (mode == 0) throw std::runtime_error("boom");
  if (mode == 1) throw (jint)a;
  if (mode == 2) throw Odd{a, thr};
}
// the exception a Throwable carries
static void carries(Throwable *t) {
  SX_ASSERT((bool)t->except, "a pending exception carries what was thrown");
  try { std::rethrow_exception(t->except); }
  catch (const std::exception &e) { SX_ASSERT(m.kind == RT && streq(e.what(), m.what), "the message of a pending exception"); }
  catch (jint v) { SX_ASSERT(m.kind == INT && v == m.v, "the value of a pending exception"); }
  catch (const Odd &o) { SX_ASSERT(m.kind == ODD && o.a == m.v && o.b == thr, "the value of a pending exception of any type"); }
}
static void checkState(JNIEnv *env, ENV *e) {
  SX_ASSERT((bool)env->ExceptionCheck() == (m.kind != NONE), "exactly the exceptions raised and not cleared are pending");
  SX_ASSERT(env->PushLocalFrame(4) == 0, "frame");
  jthrowable t = env->ExceptionOccurred();
  SX_ASSERT((t != nullptr) == (m.kind != NONE), "a pending exception can be obtained, and only a pending one");
  if (m.kind == OBJ) SX_ASSERT((Object *)t == m.obj, "the object thrown is the one pending");
  if (t && m.kind != OBJ) carries(JNITypes<std::shared_ptr<Throwable>>::JNICast(e, t).get());
  env->PopLocalFrame(nullptr);
  SX_ASSERT((bool)env->ExceptionCheck() == (m.kind != NONE), "looking at the pending exception leaves it pending");
}
static void thrown(jint a) {
  if (a < thr) return;
  m = Model();
  m.v = a;
  m.kind = mode == 0 ? RT : mode == 1 ? INT : ODD;
  m.what = "boom";
}
template <class T> static T va(JNIEnv *e, int kind, jobject o, jclass c, jmethodID m, ...) {
  va_list l;
  va_start(l, m);
  struct End { va_list &l; ~End() { va_end(l); } } end{l};
  return kind == 0 ? Tr<T>::callL(e, c, m, l) : kind == 1 ? Tr<T>::callL(e, o, m, l) : Tr<T>::callL(e, o, c, m, l);
}
template <class T> struct Ret { static T ok() { return (T)7; } static bool isOk(T t) { return t == (T)7; } static bool zero(T t) { T z; memset(&z, 0, sizeof z); return same(t, z); } };
template <> struct Ret<jboolean> { static jboolean ok() { return 1; } static bool isOk(jboolean t) { return t == 1; } static bool zero(jboolean t) { return t == 0; } };
static std::shared_ptr<Object> result;
template <class T> struct Hooked { using R = T; };
// one call of each type, kind and form, that may throw
template <class T> static void calls(VM &vm, JNIEnv *env) {
  ENV *e = vm.GetEnv().get();
  struct K : public Extends<Object> {};
  auto c = e->GetClass<K>("p/K");
  std::string sig = std::string("(I)") + Tr<T>::sig();
  unsigned kind = sx_choose(3, "kind"), form = sx_choose(3, "form");
  mode = sx_choose(3, "what");
  thr = sx_any<jint>("threshold");
  jint a = sx_any<jint>("a");
  if (kind == 0) c->Hook(e, "f", [](ENV *, Class *, jint a) -> T { maybe(a); return Ret<T>::ok(); });
  else c->HookInstanceFunction(e, "f", [](ENV *, Object *, jint a) -> T { maybe(a); return Ret<T>::ok(); });
  auto obj = std::make_shared<K>();
  jobject o = JNITypes<std::shared_ptr<K>>::ToJNIType(e, obj);
  jclass jc = env->FindClass("p/K");
  jmethodID id = kind == 0 ? env->GetStaticMethodID(jc, "f", sig.c_str()) : env->GetMethodID(jc, "f", sig.c_str());
  SX_ASSERT(id, "method");
  bool before = sx_choose(2, "pendingbefore");
  if (before) { env->ThrowNew(jc, "first"); m.kind = RT; m.what = "first"; }
  jvalue v = toV(a);
  T r = form == 0 ? (kind == 0 ? Tr<T>::callV(env, jc, id, a) : kind == 1 ? Tr<T>::callV(env, o, id, a) : Tr<T>::callV(env, o, jc, id, a))
        : form == 1 ? va<T>(env, kind, o, jc, id, a)
                    : kind == 0 ? Tr<T>::callA(env, jc, id, &v) : kind == 1 ? Tr<T>::callA(env, o, id, &v) : Tr<T>::callA(env, o, jc, id, &v);
  thrown(a);
  if (a >= thr) { SX_ASSERT(Ret<T>::zero(r), "a call that throws returns zero"); sx_reach("threw"); }
  else { SX_ASSERT(Ret<T>::isOk(r), "a call that does not throw returns its result, whatever is pending"); sx_reach("returned"); }
  checkState(env, e);
}
// accessors of fields may throw as well
static jint ga;
static std::shared_ptr<Object> stored;
template <class T> struct Bound { using R = T; static R ok() { return Ret<T>::ok(); } };
template <> struct Bound<jobject> { using R = std::shared_ptr<Object>; static R ok() { return result; } };
template <class T> static void accessors(VM &vm, JNIEnv *env) {
  ENV *e = vm.GetEnv().get();
  struct K : public Extends<Object> {};
  using R = typename Bound<T>::R;
  auto c = e->GetClass<K>("p/K");
  auto obj = std::make_shared<K>();
  result = obj;
  bool st = sx_choose(2, "static"), set = sx_choose(2, "set");
  mode = sx_choose(3, "what");
  thr = sx_any<jint>("threshold");
  ga = sx_any<jint>("a");
  static int sets;
  sets = 0;
  if (st) {
    c->HookGetterFunction(e, "f", [](ENV *) -> R { maybe(ga); return Bound<T>::ok(); });
    c->HookSetterFunction(e, "f", [](ENV *, R r) { maybe(ga); sets++; });
  } else {
    c->HookInstanceGetterFunction(e, "f", [](ENV *) -> R { maybe(ga); return Bound<T>::ok(); });
    c->HookInstanceSetterFunction(e, "f", [](ENV *, R r) { maybe(ga); sets++; });
  }
  jobject o = JNITypes<std::shared_ptr<K>>::ToJNIType(e, obj);
  jclass jc = env->FindClass("p/K");
  jfieldID id = st ? env->GetStaticFieldID(jc, "f", Tr<T>::sig()) : env->GetFieldID(jc, "f", Tr<T>::sig());
  SX_ASSERT(id, "field");
  if (sx_choose(2, "pendingbefore")) { env->ThrowNew(jc, "first"); m.kind = RT; m.what = "first"; }
  if (set) {
    T v;
    memset(&v, 0, sizeof v);
    if (st) Tr<T>::set(env, jc, id, v);
    else Tr<T>::set(env, o, id, v);
    SX_ASSERT(sets == (ga < thr), "the setter runs");
  } else {
    T r = st ? Tr<T>::get(env, jc, id) : Tr<T>::get(env, o, id);
    if (ga < thr) {
      if constexpr (std::is_same<T, jobject>::value) SX_ASSERT(env->IsSameObject(r, o), "the result");
      else SX_ASSERT(Ret<T>::isOk(r), "the result");
    }
  }
  thrown(ga);
  sx_reach("accessor");
  checkState(env, e);
  result.reset();
}
struct K : public Extends<Object> { K(jint a) {} };
static void other(VM &vm, JNIEnv *env) { // void and object results, constructors, member functions
  ENV *e = vm.GetEnv().get();
  auto c = e->GetClass<K>("p/K");
  mode = sx_choose(3, "what");
  thr = sx_any<jint>("threshold");
  jint a = sx_any<jint>("a");
  jclass jc = env->FindClass("p/K");
  auto obj = std::make_shared<K>(0);
  result = obj;
  jobject o = JNITypes<std::shared_ptr<K>>::ToJNIType(e, obj);
  c->Hook(e, "v", [](ENV *, Class *, jint a) { maybe(a); });
  c->Hook(e, "<init>", [](ENV *, Class *, jint a) { maybe(a); return std::make_shared<K>(a); });
  c->HookInstanceFunction(e, "o", [](ENV *, Object *, jint a) -> std::shared_ptr<K> { maybe(a); return std::dynamic_pointer_cast<K>(result); });
  c->HookInstanceFunction(e, "w", [](ENV *, Object *, jint a) { maybe(a); });
  jobject r = nullptr;
  switch (sx_choose(5, "call")) {
  case 0: env->CallStaticVoidMethod(jc, env->GetStaticMethodID(jc, "v", "(I)V"), a); goto noresult;
  case 1: r = env->NewObject(jc, env->GetMethodID(jc, "<init>", "(I)V"), a); break;
  case 2: r = env->CallObjectMethod(o, env->GetMethodID(jc, "o", "(I)Lp/K;"), a); break;
  case 3: env->CallVoidMethod(o, env->GetMethodID(jc, "w", "(I)V"), a); goto noresult;
  case 4: r = env->CallNonvirtualObjectMethod(o, jc, env->GetMethodID(jc, "o", "(I)Lp/K;"), a); break;
  }
  SX_ASSERT((r == nullptr) == (a >= thr), "a call that throws returns null, and no other");
noresult:
  thrown(a);
  checkState(env, e);
  result.reset();
  sx_reach("other");
}
static void history(VM &vm, JNIEnv *env) {
  ENV *e = vm.GetEnv().get();
  e->GetClass<MyEx>("p/MyEx");
  auto c = e->GetClass<K>("p/K");
  c->Hook(e, "f", [](ENV *, Class *, jint a) -> jint { maybe(a); return 7; });
  jclass jc = env->FindClass("p/K");
  jmethodID id = env->GetStaticMethodID(jc, "f", "(I)I");
  thr = 10;
  mode = 1;
  env->PushLocalFrame(8);
  jobject l0 = nullptr, g1 = nullptr, w0 = nullptr;
  Object *x0 = nullptr, *x1 = nullptr;
  {
    auto a = std::make_shared<MyEx>(), b = std::make_shared<MyEx>();
    a->code = 1; b->code = 2;
    x0 = a.get(); x1 = b.get();
    l0 = JNITypes<std::shared_ptr<MyEx>>::ToJNIType(e, a);
    jobject l1 = JNITypes<std::shared_ptr<MyEx>>::ToJNIType(e, b);
    g1 = env->NewGlobalRef(l1);
    w0 = env->NewWeakGlobalRef(l0);
    env->DeleteLocalRef(l1);
  }
  int n = sx_param("N", 3);
  for (int i = 0; i < n; i++) {
    switch (sx_choose(10, "op")) {
    case 0: env->Throw((jthrowable)l0); m = Model(); m.kind = OBJ; m.obj = x0; break;
    case 1: SX_ASSERT(env->Throw((jthrowable)g1) == 0, "throw"); m = Model(); m.kind = OBJ; m.obj = x1; break;
    case 2: env->Throw((jthrowable)w0); m = Model(); m.kind = OBJ; m.obj = x0; break;
    case 3: SX_ASSERT(env->ThrowNew(jc, "new") == 0, "throw new"); m = Model(); m.kind = RT; m.what = "new"; break;
    case 4: env->ExceptionClear(); m = Model(); break;
    case 5: env->ExceptionDescribe(); break;
    case 6: { jint a = sx_any<jint>("a"); jint r = env->CallStaticIntMethod(jc, id, a); SX_ASSERT(r == (a >= thr ? 0 : 7), "result"); thrown(a); break; }
    case 7: { // an exception obtained earlier is thrown again
      jthrowable t = env->ExceptionOccurred();
      env->ExceptionClear();
      SX_ASSERT(!env->ExceptionCheck(), "cleared");
      if (t) env->Throw(t);
      break;
    }
    case 8: { env->PushLocalFrame(2); env->FindClass("p/K"); env->NewStringUTF("x"); env->PopLocalFrame(nullptr); break; }
    case 9: { jobject l = env->NewLocalRef(l0); env->Throw((jthrowable)l); env->DeleteLocalRef(l); m = Model(); m.kind = OBJ; m.obj = x0; l0 = env->NewLocalRef(w0); break; }
    }
    checkState(env, e);
  }
  // nothing keeps an exception alive once it is cleared and its references are gone
  env->DeleteGlobalRef(g1);
  env->PopLocalFrame(nullptr);
  int want = m.kind == OBJ ? 1 : 0;
  SX_ASSERT(live == want, "the pending exception, and nothing else, keeps its object alive");
  checkState(env, e);
  env->DeleteWeakGlobalRef((jweak)w0);
  env->ExceptionClear();
  m = Model();
  checkState(env, e);
  SX_ASSERT(live == 0, "a cleared exception is released");
  sx_reach("history");
}
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  switch (sx_choose(13, "scenario")) {
  case 0: history(vm, env); break;
  case 1: other(vm, env); break;
  case 2: calls<jint>(vm, env); break;
  case 3: calls<jlong>(vm, env); break;
  case 4: calls<jboolean>(vm, env); break;
  case 5: calls<jbyte>(vm, env); break;
  case 6: calls<jchar>(vm, env); break;
  case 7: calls<jshort>(vm, env); break;
  case 8: calls<jfloat>(vm, env); break;
  case 9: calls<jdouble>(vm, env); break;
  case 10: accessors<jint>(vm, env); break;
  case 11: accessors<jboolean>(vm, env); break;
  case 12: accessors<jobject>(vm, env); break;
  }
  sx_reach("end");
  return 0;
}
