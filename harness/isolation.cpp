// C29: what happens in one VM does not show in another one.
#include "common.h"
using namespace jnivm;
struct B : public Extends<Object> { jint f = 1; };
struct K : public Extends<B> { std::shared_ptr<Object> ref; };
static jint JNICALL nat0(JNIEnv *, jclass, jint a) { return a + 10; }
static jint JNICALL nat1(JNIEnv *, jclass, jint a) { return a + 20; }
struct Side {
  int i;
  std::unique_ptr<VM> vm;
  JNIEnv *env;
  ENV *e;
  jclass c, bc;
  jobject obj, global, weak;
  jmethodID who, thrower, ref, arr;
  jfieldID f, rf;
  std::string sig, asig, rsig;
  jstring s;
  int depth;
  const char *name() { return i ? "q/K" : "p/K"; }
  void up() {
    vm = std::make_unique<VM>();
    env = vm->GetJNIEnv();
    e = vm->GetEnv().get();
    auto b = e->GetClass<B>(i ? "p/K" : "q/K"); // the names are swapped
    auto k = e->GetClass<K>(name());
    b->Hook(e, "f", &B::f);
    int n = 100 + i;
    k->Hook(e, "who", [n](ENV *e, Class *) -> jint { return n; });
    k->Hook(e, "thrower", [](ENV *, Class *) -> void { throw std::runtime_error("x"); });
    k->Hook(e, "<init>", [](ENV *, Class *) { return std::make_shared<K>(); });
    k->Hook(e, "ref", &K::ref);
    k->Hook(e, "refs", [](ENV *, Class *, std::shared_ptr<K> a, std::shared_ptr<B>) { return a; });
    k->Hook(e, "arrs", [](ENV *, Class *, std::shared_ptr<Array<B>> a, std::shared_ptr<Array<Array<K>>>) { return a; });
    std::string K_ = std::string("L") + name() + ";", B_ = i ? "Lp/K;" : "Lq/K;";
    sig = "(" + K_ + B_ + ")" + K_;
    asig = "([" + B_ + "[[" + K_ + ")[" + B_;
    SX_ASSERT(JNITypes<std::shared_ptr<K>>::GetJNISignature(e) == K_ && JNITypes<std::shared_ptr<B>>::GetJNISignature(e) == B_ && JNITypes<std::shared_ptr<Array<K>>>::GetJNISignature(e) == "[" + K_, "the names of a VM's classes are its own");
    c = env->FindClass(name());
    bc = env->FindClass(i ? "p/K" : "q/K");
    obj = env->NewObject(c, env->GetMethodID(c, "<init>", "()V"));
    global = env->NewGlobalRef(obj);
    weak = env->NewWeakGlobalRef(obj);
    who = env->GetStaticMethodID(c, "who", "()I");
    thrower = env->GetStaticMethodID(c, "thrower", "()V");
    f = env->GetFieldID(c, "f", "I");
    ref = env->GetStaticMethodID(c, "refs", sig.data());
    arr = env->GetStaticMethodID(c, "arrs", asig.data());
    rf = env->GetFieldID(c, "ref", "Ljava/lang/Object;");
    s = env->NewStringUTF(i ? "one" : "zero");
    depth = 0;
    SX_ASSERT(env->IsSameObject(env->CallStaticObjectMethod(c, ref, obj, nullptr), obj) && !env->CallStaticObjectMethod(c, arr, nullptr, nullptr), "bindings go by the names of their VM");
    env->SetObjectField(obj, rf, obj);
    SX_ASSERT(env->IsSameObject(env->GetObjectField(obj, rf), obj), "bindings go by the names of their VM");
    env->SetObjectField(obj, rf, nullptr);
    SX_ASSERT(who && thrower && f && global && weak, "set up");
  }
};
static Side side[2];
struct Print { uint64_t v[22]; };
static Print print(Side &s) { // everything one can see of a VM without changing it
  Print p;
  memset(&p, 0, sizeof p);
  int n = 0;
  JNIEnv *q = nullptr;
  p.v[n++] = s.vm->GetJavaVM()->GetEnv((void **)&q, JNI_VERSION_1_6) == JNI_OK && q == s.env;
  p.v[n++] = s.vm->GetJNIEnv() == s.env && s.vm->GetEnv().get() == s.e && ENV::FromJNIEnv(s.env) == s.e && s.e->GetVM() == s.vm.get() && VM::FromJavaVM(s.vm->GetJavaVM()) == s.vm.get();
  p.v[n++] = (uint64_t)s.env->ExceptionOccurred();
  p.v[n++] = s.env->GetObjectRefType(s.obj) + 10 * s.env->GetObjectRefType(s.global) + 100 * s.env->GetObjectRefType(s.weak);
  p.v[n++] = s.env->IsSameObject(s.obj, s.global) && s.env->IsSameObject(s.global, s.weak);
  p.v[n++] = s.env->IsInstanceOf(s.obj, s.c) && s.env->IsInstanceOf(s.obj, s.bc) && !s.env->IsAssignableFrom(s.bc, s.c);
  p.v[n++] = s.env->IsSameObject(s.env->GetObjectClass(s.obj), s.c);
  p.v[n++] = (uint64_t)s.env->FindClass(s.name()) + (uint64_t)s.env->FindClass("java/lang/String");
  p.v[n++] = s.vm->classes.size();
  auto k = s.vm->classes[s.name()];
  p.v[n++] = k->methods.size() * 100 + k->fields.size() * 10 + k->natives.size();
  p.v[n++] = (uint64_t)s.env->GetStaticMethodID(s.c, "who", "()I");
  p.v[n++] = (uint64_t)s.env->GetFieldID(s.c, "f", "I");
  p.v[n++] = (uint64_t)s.env->GetStaticMethodID(s.c, "refs", s.sig.data());
  p.v[n++] = (uint64_t)s.env->GetStaticMethodID(s.c, "arrs", s.asig.data());
  p.v[n++] = s.env->GetIntField(s.obj, s.f);
  p.v[n++] = s.env->GetStringUTFLength(s.s);
  if (!s.env->ExceptionCheck()) {
    p.v[n++] = s.env->CallStaticIntMethod(s.c, s.who);
    SX_ASSERT(p.v[n - 1] == 100u + s.i, "each VM has its own bindings");
  }
  p.v[n] = s.vm->typecheck.size() * 100 + s.vm->globals.size();
  SX_ASSERT(p.v[0] && p.v[1] && p.v[4] && p.v[5] && p.v[6], "a VM at work");
  return p;
}
static void op(Side &s) {
  JNIEnv *env = s.env;
  switch (sx_choose(16, "op")) {
  case 0: env->FindClass("new/C"); break;
  case 1: env->GetMethodID(s.c, "unknown", "(Lnew/D;)V"); env->GetStaticFieldID(s.c, "unknown", "I"); break;
  case 2: { auto h = s.vm->classes[s.name()]; h->Hook(s.e, "more", [](ENV *, Class *) -> void {}); break; }
  case 3: env->ThrowNew(env->FindClass("java/lang/Throwable"), "x"); break;
  case 4: env->ExceptionClear(); break;
  case 5: env->PushLocalFrame(2); env->NewStringUTF("x"); s.depth++; break;
  case 6: if (s.depth) { env->PopLocalFrame(nullptr); s.depth--; } break;
  case 7: env->NewLocalRef(s.obj); env->NewObjectArray(2, s.c, s.obj); env->NewIntArray(2); break;
  case 8: env->NewGlobalRef(s.obj); env->NewWeakGlobalRef(s.s); break;
  case 9: { jobject g = env->NewGlobalRef(s.obj); env->DeleteGlobalRef(g); break; }
  case 10: env->SetIntField(s.obj, s.f, sx_any<jint>("value")); break;
  case 11: {
    JNINativeMethod m{(char *)"nat", (char *)"(I)I", s.i ? (void *)&nat1 : (void *)&nat0};
    env->RegisterNatives(s.c, &m, 1);
    break;
  }
  case 12: env->CallStaticVoidMethod(s.c, s.thrower); break;
  case 13: s.vm->GetJavaVM()->AttachCurrentThread(&env, nullptr); SX_ASSERT(env == s.env, "attached"); break;
  case 14: env->ToReflectedField(s.c, s.f, false); env->MonitorEnter(s.obj); env->MonitorExit(s.obj); break;
  default: // a VM that ends, and another one in its place
    s.vm.reset();
    s.up();
    sx_reach("replaced");
  }
}
int main() {
  int N = sx_param("N", 2);
  for (int i = 0; i < 2; i++) {
    side[i].i = i;
    side[i].up();
  }
  SX_ASSERT(side[0].env != side[1].env && side[0].vm->GetJavaVM() != side[1].vm->GetJavaVM(), "each VM has its own tables");
  SX_ASSERT(!side[0].env->IsSameObject(side[0].c, side[1].c) && side[0].who != side[1].who, "each VM has its own classes");
  print(side[0]);
  print(side[1]);
  for (int n = 0; n < N; n++) {
    int w = sx_choose(2, "vm");
    Print before = print(side[!w]);
    op(side[w]);
    Print after = print(side[!w]);
    for (int i = 0; i < 22; i++) SX_ASSERT(before.v[i] == after.v[i], "another VM is as it was");
    if (!side[w].env->ExceptionCheck()) print(side[w]);
  }
  int first = sx_choose(2, "first");
  Print before = print(side[!first]);
  side[first].vm.reset();
  Print after = print(side[!first]);
  for (int i = 0; i < 22; i++) SX_ASSERT(before.v[i] == after.v[i], "another VM is as it was");
  side[!first].vm.reset();
  sx_reach("end");
  return 0;
}
