// C22: reflected methods and fields lead back to the id they were made from.
#include "common.h"
using namespace jnivm;
struct B : public Extends<Object> { jint bf = 1; };
struct K : public Extends<B> { jint kf = 2; };
static JNIEnv *env;
static jobject via(jobject o, const char *name = "ref") {
  switch (sx_choose(4, name)) {
  case 0: return o;
  case 1: return env->NewLocalRef(o);
  case 2: return env->NewGlobalRef(o);
  default: return env->NewWeakGlobalRef(o);
  }
}
struct M { bool field, st; void *id; };
static jobject reflect(jclass c, const M &m, jboolean st) {
  return m.field ? env->ToReflectedField(c, (jfieldID)m.id, st) : env->ToReflectedMethod(c, (jmethodID)m.id, st);
}
static jint JNICALL nat(JNIEnv *, jobject, jint a) { return a; }
int main() {
  VM vm;
  env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  auto b = e->GetClass<B>("p/B");
  auto k = e->GetClass<K>("p/K");
  b->HookInstanceFunction(e, "im", [](ENV *, Object *, jint a) -> jint { return a + 1; });
  k->Hook(e, "sm", [](ENV *, Class *, jint a) -> jint { return a + 2; });
  k->Hook(e, "<init>", [](ENV *, Class *) { return std::make_shared<K>(); });
  b->Hook(e, "bf", &B::bf);
  k->HookGetterFunction(e, "sf", [](ENV *, Class *) -> jint { return 9; });
  jclass K_ = env->FindClass("p/K"), B_ = env->FindClass("p/B");
  JNINativeMethod nm{(char *)"nm", (char *)"(I)I", (void *)&nat};
  env->RegisterNatives(K_, &nm, 1);
  M m[9] = {
      {false, false, env->GetMethodID(K_, "im", "(I)I")}, {false, true, env->GetStaticMethodID(K_, "sm", "(I)I")}, {false, true, env->GetMethodID(K_, "<init>", "()V")},
      {false, false, env->GetMethodID(K_, "um", "(J)V")}, {false, true, env->GetStaticMethodID(B_, "us", "()V")},
      {true, false, env->GetFieldID(K_, "bf", "I")},      {true, true, env->GetStaticFieldID(K_, "sf", "I")},      {true, false, env->GetFieldID(B_, "uf", "J")},
      {true, true, env->GetStaticFieldID(K_, "uf", "J")}};
  const int n = 9;
  jclass MC = env->FindClass("java/lang/reflect/Method"), FC = env->FindClass("java/lang/reflect/Field");
  const M &x = m[sx_choose(n, "member")];
  SX_ASSERT(x.id, "id");
  jclass c = (jclass)via(sx_choose(2, "class") ? K_ : B_, "class-ref");
  bool frame = sx_choose(2, "frame");
  if (frame) env->PushLocalFrame(4);
  jboolean flag = sx_any<jboolean>("flag");
  sx_assume(flag <= 1);
  jobject r = reflect(c, x, flag);
  if (flag != x.st) {
    SX_ASSERT(!r, "a member of the other kind is not reflected");
    sx_reach("other-kind");
    sx_reach("end");
    return 0;
  }
  SX_ASSERT(r, "reflected");
  SX_ASSERT(env->GetObjectRefType(r) == JNILocalRefType, "a local reference");
  SX_ASSERT(env->IsSameObject(env->GetObjectClass(r), x.field ? FC : MC) && env->IsInstanceOf(r, x.field ? FC : MC), "class of the reflected member");
  SX_ASSERT(!env->IsInstanceOf(r, x.field ? MC : FC), "class of the reflected member");
  jobject q = via(r);
  SX_ASSERT((void *)env->FromReflectedMethod(q) == (x.field ? nullptr : x.id), "back to the method id");
  SX_ASSERT((void *)env->FromReflectedField(q) == (x.field ? x.id : nullptr), "back to the field id");
  const M &y = m[sx_choose(n, "other")];
  jobject s = reflect(K_, y, y.st);
  SX_ASSERT(s && (bool)env->IsSameObject(q, s) == (x.id == y.id), "one reflected object per member");
  SX_ASSERT((void *)(y.field ? (void *)env->FromReflectedField(s) : (void *)env->FromReflectedMethod(s)) == y.id, "back to the id");
  env->DeleteLocalRef(s);
  if (frame) { env->PopLocalFrame(nullptr); sx_reach("frame"); }
  // the ids stay valid without any reference to the reflected object
  jint a = sx_any<jint>("a");
  sx_assume(a < 100 && a > -100);
  jobject o = env->NewObject(K_, (jmethodID)m[2].id);
  SX_ASSERT(env->CallIntMethod(o, (jmethodID)m[0].id, a) == a + 1 && env->CallStaticIntMethod(K_, (jmethodID)m[1].id, a) == a + 2, "ids stay valid");
  SX_ASSERT(env->GetIntField(o, (jfieldID)m[5].id) == 1 && env->GetStaticIntField(K_, (jfieldID)m[6].id) == 9, "ids stay valid");
  // what is no reflected member
  SX_ASSERT(!env->FromReflectedMethod(nullptr) && !env->FromReflectedField(nullptr), "null is no member");
  jobject z = via(sx_choose(2, "z") ? o : (jobject)K_, "zref");
  SX_ASSERT(!env->FromReflectedMethod(z) && !env->FromReflectedField(z), "other objects are no members");
  SX_ASSERT(!env->ToReflectedMethod(nullptr, (jmethodID)m[0].id, false) && !env->ToReflectedMethod(K_, nullptr, flag) && !env->ToReflectedField(nullptr, (jfieldID)m[5].id, false) && !env->ToReflectedField(K_, nullptr, flag), "null yields null");
  sx_reach("end");
  return 0;
}
