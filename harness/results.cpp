// C32: objects C++ code hands out keep their identity and have the class of their own.
#include "common.h"
#include <fake-jni/fake-jni.h>
using namespace jnivm;
struct I : public Extends<Object> {};
struct A : public Extends<Object> { jint a = 1; };
struct K : public Extends<A, I> { jint k = 2; };
struct U : public K { jint u = 3; }; // C++ code may derive further
struct L : public Extends<Object> {};
static ENV *e;
static JNIEnv *env;
static std::shared_ptr<K> kept;
static jint val;
// one way to hand out an object: declared type, JNI type and whether a copy is made
template <class T> static std::shared_ptr<T> as() { return std::dynamic_pointer_cast<T>(std::shared_ptr<Object>(kept)); }
struct H : public Extends<Object> {
  std::shared_ptr<A> fa;
  std::shared_ptr<I> fi;
  std::shared_ptr<K> fk;
  std::shared_ptr<Object> fo;
  static std::shared_ptr<A> sa;
};
std::shared_ptr<A> H::sa;
static jobject callS(jclass c, const char *sig) { return env->CallStaticObjectMethod(c, env->GetStaticMethodID(c, "f", sig)); }
static jobject callI(jobject o, jclass c, const char *sig) { return env->CallObjectMethod(o, env->GetMethodID(c, "f", sig)); }
int main() {
  FakeJni::Jvm vm;
  FakeJni::LocalFrame frame(vm);
  env = &frame.getJniEnv();
  e = ENV::FromJNIEnv(env);
  auto ac = e->GetClass<A>("p/A");
  auto ic = e->GetClass<I>("p/I");
  auto kc = e->GetClass<K>("p/K");
  e->GetClass<L>("p/L");
  auto hc = e->GetClass<H>("p/H");
  jclass jh = env->FindClass("p/H"), jk = env->FindClass("p/K"), ja = env->FindClass("p/A");
  ac->HookInstanceFunction(e, "who", [](ENV *, Object *) -> jint { return 1; });
  kc->HookInstanceFunction(e, "who", [](ENV *, Object *) -> jint { return 2; });
  bool derived = sx_choose(2, "derived");
  kept = derived ? std::make_shared<U>() : std::make_shared<K>();
  kept->k = val = sx_any<jint>("k");
  auto h = std::make_shared<H>();
  jobject jho = JNITypes<std::shared_ptr<H>>::ToJNIType(e, h);
  bool null = sx_choose(2, "null");
  std::shared_ptr<K> orig = kept;
  if (null) kept = nullptr;
  int before = sx_choose(3, "before"); // handed out before under another type
  if (before == 1) JNITypes<std::shared_ptr<A>>::ToJNIType(e, orig);
  if (before == 2) JNITypes<std::shared_ptr<Object>>::ToJNIType(e, orig);
  jobject r = nullptr;
  bool copy = false;
  int way = sx_choose(22, "way");
  switch (way) {
  case 0: hc->Hook(e, "f", [](ENV *, Class *) -> std::shared_ptr<K> { return kept; }); r = callS(jh, "()Lp/K;"); break;
  case 1: hc->Hook(e, "f", [](ENV *, Class *) -> std::shared_ptr<A> { return kept; }); r = callS(jh, "()Lp/A;"); break;
  case 2: hc->Hook(e, "f", [](ENV *, Class *) -> std::shared_ptr<I> { return kept; }); r = callS(jh, "()Lp/I;"); break;
  case 3: hc->Hook(e, "f", [](ENV *, Class *) -> std::shared_ptr<Object> { return kept; }); r = callS(jh, "()Ljava/lang/Object;"); break;
  case 5: hc->HookInstanceFunction(e, "f", [](ENV *, Object *) -> std::shared_ptr<A> { return kept; }); r = callI(jho, jh, "()Lp/A;"); break;
  case 6: sx_assume(!null); hc->HookInstanceFunction(e, "f", [](ENV *, Object *) -> K { return *kept; }); r = callI(jho, jh, "()Lp/K;"); copy = true; break;
  case 7: hc->Hook(e, "f", &H::sa); H::sa = kept; r = env->GetStaticObjectField(jh, env->GetStaticFieldID(jh, "f", "Lp/A;")); break;
  case 8: hc->Hook(e, "f", &H::fa); h->fa = kept; r = env->GetObjectField(jho, env->GetFieldID(jh, "f", "Lp/A;")); break;
  case 9: hc->Hook(e, "f", &H::fi); h->fi = kept; r = env->GetObjectField(jho, env->GetFieldID(jh, "f", "Lp/I;")); break;
  case 10: hc->Hook(e, "f", &H::fk); h->fk = kept; r = env->GetObjectField(jho, env->GetFieldID(jh, "f", "Lp/K;")); break;
  case 11: hc->Hook(e, "f", &H::fo); h->fo = kept; r = env->GetObjectField(jho, env->GetFieldID(jh, "f", "Ljava/lang/Object;")); break;
  case 12: hc->HookInstanceGetterFunction(e, "f", [](ENV *) -> std::shared_ptr<A> { return kept; }); r = env->GetObjectField(jho, env->GetFieldID(jh, "f", "Lp/A;")); break;
  case 13: { // elements of arrays
    auto arr = std::make_shared<Array<A>>(2);
    (*arr)[1] = as<A>();
    r = env->GetObjectArrayElement((jobjectArray)JNITypes<std::shared_ptr<Array<A>>>::ToJNIType(e, arr), 1);
    break;
  }
  case 14: {
    auto arr = std::make_shared<Array<Object>>(2);
    (*arr)[0] = as<Object>();
    r = env->GetObjectArrayElement((jobjectArray)JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(e, arr), 0);
    break;
  }
  case 15: { // constructors
    sx_assume(!null);
    kc->Hook(e, "<init>", [](ENV *, Class *) -> std::shared_ptr<Object> { return kept; });
    jmethodID m = env->GetMethodID(jk, "<init>", "()V");
    sx_assume(m != nullptr);
    kc->Hook(e, "<init>", [](ENV *, Class *) -> std::shared_ptr<K> { return kept; });
    r = env->NewObject(jk, m);
    break;
  }
  case 4: case 16: { // arguments of native code
    static jobject arg;
    arg = nullptr;
    JNINativeMethod m{(char *)"g", (char *)"(Lp/A;)V", (void *)(void (*)(JNIEnv *, jclass, jobject))[](JNIEnv *, jclass, jobject o) { arg = o; }};
    env->RegisterNatives(jh, &m, 1);
    auto mid = hc->getMethod("(Lp/A;)V", "g");
    SX_ASSERT(mid, "native");
    if (way == 4) mid.invoke(*env, hc.get(), (A *)kept.get());
    else mid.invoke(*env, hc.get(), as<A>());
    r = arg;
    break;
  }
  case 17: r = JNITypes<std::shared_ptr<I>>::ToJNIType(e, as<I>()); break;
  case 18: { // an argument that C++ code passes on
    hc->Hook(e, "f", [](ENV *, Class *, std::shared_ptr<A> a) -> std::shared_ptr<A> { return a; });
    jvalue v;
    v.l = null ? nullptr : JNITypes<std::shared_ptr<Object>>::ToJNIType(e, kept);
    r = env->CallStaticObjectMethodA(jh, env->GetStaticMethodID(jh, "f", "(Lp/A;)Lp/A;"), &v);
    break;
  }
  case 19: { A *const p = kept.get(); if (!null) orig = nullptr; r = JNITypes<std::shared_ptr<A>>::ToJNIType(e, p); orig = kept; break; }
  case 20: sx_assume(!null); { K &ref = *kept; r = JNITypes<std::shared_ptr<K>>::ToJNIType(e, ref); break; }
  default: hc->HookInstanceGetterFunction(e, "f", [](ENV *, Object *) -> std::shared_ptr<I> { return kept; }); r = env->GetObjectField(jho, env->GetFieldID(jh, "f", "Lp/I;")); break;
  }
  SX_ASSERT(!env->ExceptionCheck(), "no exception");
  if (null) {
    SX_ASSERT(!r, "null stays null");
    sx_reach("null");
  } else {
    SX_ASSERT(r, "a reference");
    auto back = JNITypes<std::shared_ptr<K>>::JNICast(e, r);
    SX_ASSERT(copy || back == orig, "the same object");
    if (copy) SX_ASSERT(back != orig, "a copy");
    SX_ASSERT(back->k == val && back->a == 1, "its content");
    SX_ASSERT(env->GetObjectRefType(r) == JNILocalRefType, "a local reference");
    SX_ASSERT(env->GetObjectClass(r), "a class");
    // of a type nobody registered the declaration tells
    bool known = !derived || copy || ((way == 0 || way == 10) && !before) || (way == 15 && !before);
    if (known) SX_ASSERT(env->IsSameObject(env->GetObjectClass(r), jk), "the class of its own, not that of the C++ declaration");
    if (known) SX_ASSERT(env->IsInstanceOf(r, jk) && env->IsInstanceOf(r, ja) && env->IsInstanceOf(r, env->FindClass("p/I")) && !env->IsInstanceOf(r, env->FindClass("p/L")), "an instance of its classes");
    if (known) SX_ASSERT(env->CallIntMethod(r, env->GetMethodID(ja, "who", "()I")) == 2, "its own implementation");
    sx_reach(copy ? "copy" : "same");
    // it lives as long as the reference
    std::weak_ptr<K> w = orig;
    kept = orig = nullptr;
    h = nullptr;
    H::sa = nullptr;
    SX_ASSERT((!known || env->IsInstanceOf(r, jk)) && back->k == val, "alive");
  }
  H::sa = nullptr;
  kept = nullptr;
  sx_reach("end");
  return 0;
}
