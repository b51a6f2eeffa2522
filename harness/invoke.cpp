// C11: invoking a method object from C++: arguments, results, exceptions.
#include "jni_types.h"
#include <stdexcept>
using namespace jnivm;
struct K : public Extends<Object> { jint n = 0; };
struct MyEx : public Extends<Throwable> { };
struct Odd { jint a; };
struct Rec { jint a; jlong c; void *self, *obj; int calls; };
static Rec rec;
template <class T> struct Seen { static T v; };
template <class T> T Seen<T>::v;
static int mode; // 0 return, 1 runtime_error, 2 jint, 3 Odd, 4 throws through the interface
static jint thr;
static bool native;
static void maybe(JNIEnv *env, jint a) {
  if (a < thr) return;
  if (mode == 4) { env->ThrowNew(env->FindClass("java/lang/Throwable"), "iface"); return; }
  if (mode == 5) { env->Throw((jthrowable)env->NewLocalRef((jobject)rec.obj)); return; }
  if (native) return; // native code does not throw C++ exceptions
  if (mode == 1) throw std::runtime_error("boom");
  if (mode == 2) throw (jint)a;
  if (mode == 3) throw Odd{a};
}
template <class T> static T body(JNIEnv *env, void *self, jint a, T b, jlong c, void *o) {
  rec.a = a; rec.c = c; rec.self = self; rec.calls++;
  Seen<T>::v = b;
  SX_ASSERT(o == rec.obj, "object argument");
  maybe(env, a);
  return b;
}
template <class T> static T JNICALL nat(JNIEnv *env, jobject self, jint a, T b, jlong c, jobject o) { return body<T>(env, self, a, b, c, (Object *)o); }
template <class T> static void run(VM &vm, JNIEnv *env, T JNITypesValue, T (*get)(jvalue)) {
  ENV *e = vm.GetEnv().get();
  auto cl = e->GetClass<K>("p/K");
  e->GetClass<MyEx>("p/MyEx");
  auto obj = std::make_shared<K>(), arg = std::make_shared<K>();
  obj->clazz = cl;
  arg->clazz = cl;
  auto ex = std::make_shared<MyEx>();
  rec = Rec();
  mode = sx_choose(6, "mode");
  native = sx_choose(2, "native");
  bool st = sx_choose(2, "static");
  sx_assume(!native || mode == 0 || mode >= 4);
  rec.obj = (Object *)arg.get();
  thr = mode ? sx_any<jint>("threshold") : 0;
  if (mode == 5) { rec.obj = (Object *)ex.get(); }
  jint a = sx_any<jint>("a");
  T b = sx_any<T>("b");
  jlong c = sx_any<jlong>("c");
  std::string sig = std::string("(I") + Tr<T>::sig() + "J" + "Ljava/lang/Object;)" + Tr<T>::sig();
  Method *m;
  if (native) {
    JNINativeMethod nm{(char *)"f", (char *)sig.c_str(), (void *)&nat<T>};
    env->RegisterNatives(env->FindClass("p/K"), &nm, 1);
    m = nullptr;
    for (auto &i : cl->methods) if (i->native) m = i.get();
  } else {
    if (st) cl->Hook(e, "f", [](JNIEnv *env, Class *k, jint a, T b, jlong c, std::shared_ptr<Object> o) -> T { return body<T>(env, k, a, b, c, o.get()); });
    else cl->HookInstanceFunction(e, "f", [](JNIEnv *env, Object *k, jint a, T b, jlong c, std::shared_ptr<Object> o) -> T { return body<T>(env, k, a, b, c, o.get()); });
    jclass jc = env->FindClass("p/K");
    m = (Method *)(st ? env->GetStaticMethodID(jc, "f", sig.c_str()) : env->GetMethodID(jc, "f", sig.c_str()));
  }
  SX_ASSERT(m, "the method exists");
  std::shared_ptr<Object> o = arg;
  if (mode == 5) o = ex;
  int reps = 1 + (mode != 0); // a failed call does not disturb the next one
  for (int k = 0; k < reps; k++) {
    int got = 0;
    jvalue r;
    memset(&r, 0, sizeof r);
    jint ak = k == 0 ? a : sx_any<jint>("a2");
    rec.calls = 0;
    try {
      if (st) r = m->invoke(*env, cl.get(), ak, b, c, o);
      else r = m->invoke(*env, (Object *)obj.get(), ak, b, c, o);
    } catch (const std::runtime_error &x) {
      got = streq(x.what(), "boom") ? 1 : streq(x.what(), "iface") ? 4 : 5;
    } catch (jint v) {
      SX_ASSERT(v == ak, "value thrown");
      got = 2;
    } catch (const Odd &v) {
      SX_ASSERT(v.a == ak, "value thrown");
      got = 3;
    } catch (...) {
      got = 5;
    }
    SX_ASSERT(rec.calls == 1 && rec.a == ak && same(Seen<T>::v, b) && rec.c == c, "the implementation runs once with the arguments given");
    SX_ASSERT(rec.self == (st ? (void *)(native ? (void *)(Object *)cl.get() : (void *)cl.get()) : (void *)(Object *)obj.get()), "the implementation runs on the receiver given");
    int want = mode && ak >= thr ? mode : 0;
    SX_ASSERT(got == want, "the exception the method raised, and no other, comes out of the call");
    SX_ASSERT(!env->ExceptionCheck(), "an exception delivered to the caller is no longer pending");
    if (!want) { SX_ASSERT(same(get(r), b), "the result of the method comes out of the call"); sx_reach("returned"); }
    else sx_reach(want == 5 ? "threw-object" : "threw");
  }
}
static jint seen;
static void *recv;
static void JNICALL natV(JNIEnv *, jobject self, jint a) { seen = a; recv = self; }
static jobject JNICALL natO(JNIEnv *, jobject self, jint a, jobject k) { seen = a; recv = self; return k; }
static void other(VM &vm, JNIEnv *env) { // void and object results
  ENV *e = vm.GetEnv().get();
  auto cl = e->GetClass<K>("p/K");
  auto obj = std::make_shared<K>();
  obj->clazz = cl;
  jclass jc = env->FindClass("p/K");
  seen = 0;
  recv = nullptr;
  int how = sx_choose(3, "how"); // instance, static, native
  thr = sx_any<jint>("threshold");
  jint a = sx_any<jint>("a");
  cl->HookInstanceFunction(e, "v", [](ENV *, Object *self, jint a) { recv = self; seen = a; if (a >= thr) throw Odd{a}; });
  cl->HookInstanceFunction(e, "o", [](ENV *, Object *self, jint a, std::shared_ptr<K> k) { recv = self; seen = a; if (a >= thr) throw Odd{a}; return k; });
  cl->Hook(e, "v", [](ENV *, Class *self, jint a) { recv = (Object *)self; seen = a; if (a >= thr) throw Odd{a}; });
  cl->Hook(e, "o", [](ENV *, Class *self, jint a, std::shared_ptr<K> k) { recv = (Object *)self; seen = a; if (a >= thr) throw Odd{a}; return k; });
  cl->HookInstanceFunction(e, "n", [](ENV *, Object *) -> jint { return 12; });
  bool v = sx_choose(2, "void");
  bool null = sx_choose(2, "null");
  const char *sig = v ? "(I)V" : "(ILp/K;)Lp/K;";
  Method *m = (Method *)(how == 1 ? env->GetStaticMethodID(jc, v ? "v" : "o", sig) : env->GetMethodID(jc, v ? "v" : "o", sig));
  bool st = how == 1 || (how == 2 && sx_choose(2, "static"));
  if (how == 2) {
    sx_assume(a < thr);
    JNINativeMethod nm{(char *)(v ? "v" : "o"), (char *)sig, v ? (void *)&natV : (void *)&natO};
    env->RegisterNatives(jc, &nm, 1);
    m = nullptr;
    for (auto &i : cl->methods) if (i->native) m = i.get();
  }
  SX_ASSERT(m, "method");
  SX_ASSERT(((Method *)env->GetMethodID(jc, "n", "()I"))->invoke(*env, (Object *)obj.get()).i == 12, "no arguments");
  bool threw = false;
  try {
    if (v && st) m->invoke(*env, cl.get(), a);
    else if (v) m->invoke(*env, (Object *)obj.get(), a);
    else {
      auto k = null ? std::shared_ptr<K>() : obj;
      jvalue r = st ? m->invoke(*env, cl.get(), a, k) : m->invoke(*env, (Object *)obj.get(), a, k);
      SX_ASSERT(r.l == (null ? nullptr : (jobject)(Object *)obj.get()), "object result");
    }
  } catch (const Odd &o) { threw = true; SX_ASSERT(o.a == a, "value thrown"); }
  SX_ASSERT(threw == (a >= thr), "exactly the exceptions raised come out");
  SX_ASSERT(seen == a && recv == (st ? (void *)(Object *)cl.get() : (void *)(Object *)obj.get()), "the implementation runs on the receiver given, with the argument");
  SX_ASSERT(!env->ExceptionCheck(), "an exception delivered to the caller is no longer pending");
  sx_reach("other");
}
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  switch (sx_choose(9, "type")) {
  case 0: run<jint>(vm, env, 0, [](jvalue v) { return v.i; }); break;
  case 1: run<jlong>(vm, env, 0, [](jvalue v) { return v.j; }); break;
  case 2: run<jboolean>(vm, env, 0, [](jvalue v) { return v.z; }); break;
  case 3: run<jbyte>(vm, env, 0, [](jvalue v) { return v.b; }); break;
  case 4: run<jchar>(vm, env, 0, [](jvalue v) { return v.c; }); break;
  case 5: run<jshort>(vm, env, 0, [](jvalue v) { return v.s; }); break;
  case 6: run<jfloat>(vm, env, 0, [](jvalue v) { return v.f; }); break;
  case 7: run<jdouble>(vm, env, 0, [](jvalue v) { return v.d; }); break;
  case 8: other(vm, env); break;
  }
  sx_reach("end");
  return 0;
}
