// C28: what a VM made is released with it, and repeating work does not use more and more memory.
#include "common.h"
using namespace jnivm;
static int alive;
struct Counted { Counted() { alive++; } Counted(const Counted &) { alive++; } ~Counted() { alive--; } };
struct B : public Extends<Object> { Counted c; jint f = 0; };
struct K : public Extends<B> { std::shared_ptr<Object> ref; };
static JNIEnv *env;
static ENV *e;
static jint JNICALL nat(JNIEnv *, jobject, jint a) { return a; }
static std::shared_ptr<Object> held;
enum { OPS = 25 };
static jobject object(jclass c) { return env->NewObject(c, env->GetMethodID(c, "<init>", "()V")); }
// one operation; what it leaves is owned by local references, classes or, for keep, by the VM
static void op(int k, bool keep) {
  jclass c = env->FindClass("p/K");
  switch (k) {
  case 0: env->FindClass("a/b/C$D"); env->FindClass("[Ljava/lang/String;"); break;
  case 1: { jstring s = env->NewStringUTF("x"); const char *p = env->GetStringUTFChars(s, nullptr); env->ReleaseStringUTFChars(s, p); const jchar *q = env->GetStringChars(s, nullptr); env->ReleaseStringChars(s, q); break; }
  case 2: { jobject g = env->NewGlobalRef(env->NewStringUTF("x")); if (!keep) env->DeleteGlobalRef(g); break; }
  case 3: { jobject g = env->NewWeakGlobalRef(env->NewStringUTF("x")); env->NewLocalRef(g); if (!keep) env->DeleteWeakGlobalRef(g); break; }
  case 4: env->GetMethodID(env->FindClass("a/U"), "m", "(Lx/Y;)Lx/Z;"); env->GetStaticFieldID(env->FindClass("a/U"), "f", "Lx/Y;"); break;
  case 5: env->CallStaticObjectMethod(env->FindClass("a/U"), env->GetStaticMethodID(env->FindClass("a/U"), "m", "()Lx/Z;")); break;
  case 6: env->ThrowNew(env->FindClass("java/lang/Throwable"), "x"); if (!keep) env->ExceptionClear(); break;
  case 7: { // an exception from a binding
    jmethodID m = env->GetStaticMethodID(c, "thrower", "()V");
    env->CallStaticVoidMethod(c, m);
    jthrowable t = env->ExceptionOccurred();
    SX_ASSERT(t, "exception");
    if (!keep) env->ExceptionClear();
    break;
  }
  case 8: env->PushLocalFrame(2); env->NewStringUTF("x"); env->NewIntArray(3); if (!keep) env->PopLocalFrame(nullptr); break;
  case 9: { env->PushLocalFrame(2); jobject r = env->PopLocalFrame(env->NewStringUTF("x")); env->DeleteLocalRef(r); break; }
  case 10: env->ToReflectedMethod(c, env->GetStaticMethodID(c, "make", "()Lp/K;"), true); env->ToReflectedField(c, env->GetFieldID(c, "f", "I"), false); break;
  case 11: env->NewObject(c, env->GetMethodID(c, "<init>", "()V")); break;
  case 12: { jobject o = env->CallStaticObjectMethod(c, env->GetStaticMethodID(c, "make", "()Lp/K;")); env->GetObjectClass(o); if (!env->ExceptionCheck()) SX_ASSERT(env->GetIntField(o, env->GetFieldID(c, "f", "I")) == 0, "field"); break; }
  case 13: { // an object that refers to another one
    jobject o = object(c), q = env->NewStringUTF("q");
    env->SetObjectField(o, env->GetFieldID(c, "ref", "Ljava/lang/Object;"), q);
    break;
  }
  case 14: { jobjectArray a = env->NewObjectArray(2, c, object(c)); env->SetObjectArrayElement(a, 0, nullptr); env->GetObjectArrayElement(a, 1); break; }
  case 15: { jintArray a = env->NewIntArray(2); jint *p = env->GetIntArrayElements(a, nullptr); env->ReleaseIntArrayElements(a, p, 0); jbyteArray b = env->NewByteArray(0); break; }
  case 16: { JNINativeMethod m{(char *)"nm", (char *)"(I)I", (void *)&nat}; env->RegisterNatives(c, &m, 1); if (!keep) env->UnregisterNatives(c); break; }
  case 17: { static char mem[4]; env->NewDirectByteBuffer(mem, 4); break; }
  case 18: { jobject o = object(c); env->MonitorEnter(o); env->MonitorExit(o); break; }
  case 19: e->GetClass<K>("p/K")->HookInstanceFunction(e, "again", [](ENV *, Object *) {}); break;
  case 20: { jobject o = object(c); env->DeleteLocalRef(o); break; }
  case 21: { // an object with a global reference to its own class and an array of itself
    jobject o = object(c);
    jobjectArray a = env->NewObjectArray(1, c, o);
    if (keep) env->NewGlobalRef(a), env->NewGlobalRef(env->GetObjectClass(o));
    break;
  }
  case 22: env->IsInstanceOf(object(c), env->FindClass("p/B")); env->GetSuperclass(c); env->IsAssignableFrom(c, env->FindClass("java/lang/Object")); break;
  case 23: { // arrays a binding takes and gives
    jmethodID m = env->GetStaticMethodID(c, "arrays", "([Lp/K;[[Lp/K;)[Lp/K;");
    SX_ASSERT(m, "bound");
    jobject r = env->CallStaticObjectMethod(c, m, env->NewObjectArray(1, c, object(c)), nullptr);
    if (!env->ExceptionCheck()) SX_ASSERT(r, "an array");
    break;
  }
  default: held = JNITypes<std::shared_ptr<Object>>::JNICast(e, object(c)); break; // kept by C++ code
  }
}
static void setup(VM &vm) {
  env = vm.GetJNIEnv();
  e = vm.GetEnv().get();
  auto b = e->GetClass<B>("p/B");
  auto k = e->GetClass<K>("p/K");
  b->Hook(e, "f", &B::f);
  k->Hook(e, "ref", &K::ref);
  k->Hook(e, "<init>", [](ENV *, Class *) { return std::make_shared<K>(); });
  auto cap = std::make_shared<Counted>(); // bindings own what they capture
  k->Hook(e, "make", [cap](ENV *, Class *) { return std::make_shared<K>(); });
  k->Hook(e, "arrays", [](ENV *, Class *, std::shared_ptr<Array<K>> a, std::shared_ptr<Array<Array<K>>>) { return a; });
  k->Hook(e, "thrower", [](ENV *, Class *) -> void { throw std::runtime_error("x"); });
}
static void other(void *p) {
  VM *vm = (VM *)p;
  JNIEnv *o = nullptr;
  vm->GetJavaVM()->AttachCurrentThread(&o, nullptr);
  JNIEnv *me = env;
  env = o;
  op(sx_choose(OPS, "thread-op"), false);
  env = me;
  vm->GetJavaVM()->DetachCurrentThread();
}
int main() {
  int N = sx_param("N", 2);
  if (sx_choose(2, "grow")) { // the same work again and again
    VM vm;
    setup(vm);
    int k[2] = {(int)sx_choose(OPS, "op"), (int)sx_choose(OPS, "op")};
    size_t n[4];
    int a[4];
    for (int r = 0; r < 4; r++) {
      env->PushLocalFrame(4);
      op(k[0], false);
      op(k[1], false);
      env->PopLocalFrame(nullptr);
      held = nullptr;
      n[r] = sx_heap_count();
      a[r] = alive;
    }
    SX_ASSERT(a[3] == a[0], "objects are released with their frame");
    SX_ASSERT(n[3] == n[2], "repeating work does not use more memory");
    sx_reach("steady");
  } else {
    {
      VM vm;
      vm.GetJNIEnv()->AllocObject(nullptr); // log buffers of the system
    }
    size_t n0 = sx_heap_count();
    int a0 = alive;
    {
      VM vm;
      setup(vm);
      for (int n = 0; n < N; n++) op(sx_choose(OPS, "op"), true);
      if (sx_choose(2, "thread")) {
        int t = sx_thread_create(other, &vm);
        sx_thread_join(t);
        sx_reach("thread");
      }
    }
    if (held) { // C++ code may outlive the VM
      SX_ASSERT(dynamic_cast<K *>(held.get()) && alive == a0 + 1, "objects held by C++ code stay");
      held = nullptr;
      sx_reach("held");
    }
    SX_ASSERT(alive == a0, "every object is released, once");
    SX_ASSERT(sx_heap_count() == n0, "nothing is left behind");
    sx_reach("torn-down");
  }
  sx_reach("end");
  return 0;
}
