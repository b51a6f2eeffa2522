// C21: concurrent lookups, references, calls and allocations of attached threads.
#include "common.h"
using namespace jnivm;
static VM *vm;
static jobject shared, text, wtext;
static jclass K;
struct P0 : public Extends<Object> {
  jint v = 0;
  P0() {}
  P0(jint a) : v(a) {}
};
struct KT : public Extends<P0> {
  KT() {}
};
static jint JNICALL native0(JNIEnv *, jobject, jint a) { return a + 1; }
struct Plan { int id, ops[2], name; };
static Plan plan[3];
static void *ids[3][2]; // what each thread saw
static jmethodID msingle, mget, minst, mctor;
static jfieldID fval;
static const char *NAME[2] = {"aa", "bb"};
static const char *CNAME[2] = {"q/Aa", "r/s/Bb$C"};
static jmethodID munk, mobj;
enum { OPS = 22 };
static void *op(JNIEnv *env, int o, Plan &p, int i) {
  const char *n = NAME[p.name];
  switch (o) {
  case 0: return env->FindClass(CNAME[p.name]);
  case 1: return env->GetMethodID(K, n, "(I)I");
  case 2: return env->GetStaticMethodID(K, n, "()V");
  case 3: return env->GetFieldID(K, n, "I");
  case 4: return env->GetStaticFieldID(K, n, "J");
  case 5: {
    SX_ASSERT(env->GetMethodID(K, "get", "(I)I") == minst, "known method");
    SX_ASSERT(env->GetFieldID(K, "v", "I") == fval, "known field");
    return nullptr;
  }
  case 6: {
    jobject g = env->NewGlobalRef(shared), w = env->NewWeakGlobalRef(shared);
    SX_ASSERT(env->IsSameObject(g, w) && env->IsSameObject(g, shared), "references to the shared object");
    SX_ASSERT(env->GetObjectRefType(g) == JNIGlobalRefType && env->GetObjectRefType(w) == JNIWeakGlobalRefType, "reference types");
    env->DeleteGlobalRef(g);
    env->DeleteWeakGlobalRef(w);
    return nullptr;
  }
  case 7: return env->NewGlobalRef(env->NewStringUTF(n)); // stays
  case 8: {
    jint a = 5 + p.id;
    SX_ASSERT(env->CallIntMethod(shared, minst, a) == a, "call on the shared object");
    SX_ASSERT(env->CallStaticIntMethod(K, mget, a) == a + 7, "static call");
    return nullptr;
  }
  case 9: {
    jintArray a = env->NewIntArray(2);
    jint v[2] = {p.id, 9}, r[2] = {0, 0};
    env->SetIntArrayRegion(a, 0, 2, v);
    env->GetIntArrayRegion(a, 0, 2, r);
    SX_ASSERT(r[0] == p.id && r[1] == 9, "array contents");
    jobjectArray oa = env->NewObjectArray(1, K, shared);
    SX_ASSERT(env->IsSameObject(env->GetObjectArrayElement(oa, 0), shared), "object array contents");
    return nullptr;
  }
  case 10: {
    jobject o = env->NewObject(K, mctor);
    env->SetIntField(o, fval, 40 + p.id);
    SX_ASSERT(env->GetIntField(o, fval) == 40 + p.id, "own object");
    SX_ASSERT(env->IsInstanceOf(o, K) && env->IsSameObject(env->GetObjectClass(o), K), "class of a new object");
    return nullptr;
  }
  case 11: {
    JNINativeMethod m{(char *)n, (char *)"(I)I", (void *)&native0};
    SX_ASSERT(env->RegisterNatives(K, &m, 1) == 0, "register");
    return nullptr;
  }
  case 12: {
    SX_ASSERT(env->IsSameObject(env->GetObjectClass(shared), K), "class of the shared object");
    SX_ASSERT(env->IsAssignableFrom(K, env->FindClass("p/P")) && !env->IsAssignableFrom(env->FindClass("p/P"), K), "subtype");
    SX_ASSERT(env->IsSameObject(env->GetSuperclass(K), env->FindClass("p/P")), "superclass");
    return nullptr;
  }
  case 13: {
    env->PushLocalFrame(4);
    jobject s = env->NewStringUTF("xyz");
    jobject r = env->PopLocalFrame(s);
    SX_ASSERT(env->GetStringLength((jstring)r) == 3, "string in a popped frame");
    return nullptr;
  }
  case 14: { // an object bindings share, seen by native code for the first time
    jobject o = env->CallStaticObjectMethod(K, msingle);
    SX_ASSERT(o && env->IsSameObject(env->GetObjectClass(o), env->FindClass("p/P")), "the shared object and its class");
    SX_ASSERT(env->GetIntField(o, fval) == 77, "contents of the shared object");
    return env->NewWeakGlobalRef(o);
  }
  case 15: {
    SX_ASSERT(!env->ExceptionCheck(), "nothing pending");
    env->ThrowNew(env->FindClass("java/lang/Throwable"), n);
    SX_ASSERT(env->ExceptionCheck(), "pending");
    jthrowable t = env->ExceptionOccurred();
    env->ExceptionClear();
    SX_ASSERT(t && !env->ExceptionCheck(), "cleared");
    return nullptr;
  }
  case 16: {
    const char *c = env->GetStringUTFChars((jstring)text, nullptr);
    SX_ASSERT(c && streq(c, "text"), "shared string");
    env->ReleaseStringUTFChars((jstring)text, c);
    jobject l = env->NewLocalRef(wtext);
    SX_ASSERT(env->IsSameObject(l, text), "weak reference to a live object");
    env->DeleteLocalRef(l);
    env->MonitorEnter(text);
    env->MonitorExit(wtext);
    return nullptr;
  }
  case 17: { // a member that names classes, first seen here
    const char *d = p.name ? "(Lq/Aa;[Lt/New;)V" : "([[Lt/New;)Lr/s/Bb$C;";
    jmethodID m = env->GetMethodID(K, "cls", d);
    SX_ASSERT(m && env->GetMethodID(K, "cls", d) == m, "a made up method");
    SX_ASSERT(env->GetFieldID(K, "fc", "Lt/New;") == env->GetFieldID(K, "fc", "Lt/New;"), "a made up field");
    return nullptr;
  }
  case 18: { // unimplemented members
    jobject r = env->CallObjectMethod(shared, munk);
    SX_ASSERT(env->CallIntMethod(shared, (jmethodID)mobj) == 0, "an unimplemented method gives zero");
    if (r) SX_ASSERT(env->IsSameObject(env->GetObjectClass(r), env->FindClass("t/Res")), "class of a made up object");
    SX_ASSERT(!env->ExceptionCheck(), "nothing pending");
    return nullptr;
  }
  case 19: { // reflection, the first use of the method's and the field's objects
    jobject m = env->ToReflectedMethod(K, minst, JNI_FALSE), f = env->ToReflectedField(K, fval, JNI_FALSE);
    SX_ASSERT(m && env->FromReflectedMethod(m) == minst && f && env->FromReflectedField(f) == fval, "reflection");
    SX_ASSERT(env->IsInstanceOf(m, env->FindClass("java/lang/reflect/Method")), "class of a method object");
    return nullptr;
  }
  case 20: {
    JavaVM *j = nullptr;
    JNIEnv *again = nullptr;
    SX_ASSERT(env->GetJavaVM(&j) == 0 && j == vm->GetJavaVM(), "the VM of an environment");
    SX_ASSERT(j->GetEnv((void **)&again, JNI_VERSION_1_6) == 0 && again == env, "the environment of the thread");
    SX_ASSERT(vm->GetJNIEnv() == env && vm->GetEnv()->GetJNIEnv() == env, "the environment of the thread");
    return nullptr;
  }
  case 21: {
    jobject b = env->NewDirectByteBuffer(&plan[p.id], 4);
    SX_ASSERT(env->GetDirectBufferAddress(b) == &plan[p.id] && env->GetDirectBufferCapacity(b) == 4, "buffer");
    jobjectArray a = env->NewObjectArray(1, env->FindClass("t/El"), nullptr);
    SX_ASSERT(env->IsSameObject(env->GetObjectClass(a), env->FindClass("[Lt/El;")), "class of an array");
    jchar c[2] = {'x', 0x100};
    jstring s = env->NewString(c, 2);
    const jchar *d = env->GetStringChars(s, nullptr);
    SX_ASSERT(d[0] == 'x' && d[1] == 0x100, "string contents");
    env->ReleaseStringChars(s, d);
    return nullptr;
  }
  }
  return nullptr;
}
static void body(void *a) {
  Plan &p = *(Plan *)a;
  JNIEnv *env;
  SX_ASSERT(vm->GetJavaVM()->AttachCurrentThread(&env, nullptr) == 0, "attach");
  for (int i = 0; i < 2; i++) if (p.ops[i] >= 0) ids[p.id][i] = op(env, p.ops[i], p, i);
  for (int i = 0; i < 2; i++) if (p.ops[i] >= 0 && p.ops[i] < 5) SX_ASSERT(op(env, p.ops[i], p, i) == ids[p.id][i], "a repeated lookup gives the same");
  vm->GetJavaVM()->DetachCurrentThread();
}
int main() {
  VM v;
  vm = &v;
  JNIEnv *env = v.GetJNIEnv();
  ENV *e = v.GetEnv().get();
  e->GetClass<P0>("p/P");
  auto k = e->GetClass<KT>("p/K");
  K = env->FindClass("p/K");
  auto base = e->GetClass("p/P");
  base->HookInstanceFunction(e, "get", [](ENV *, Object *, jint a) -> jint { return a; });
  k->Hook(e, "st", [](ENV *, Class *, jint a) -> jint { return a + 7; });
  k->Hook(e, "<init>", [](ENV *, Class *) -> std::shared_ptr<KT> { return std::make_shared<KT>(); });
  auto single = std::make_shared<P0>(77); // its class is determined when it is first converted
  k->Hook(e, "single", [&](ENV *, Class *) -> std::shared_ptr<P0> { return single; });
  base->Hook(e, "v", &P0::v);
  text = env->NewGlobalRef(env->NewStringUTF("text"));
  wtext = env->NewWeakGlobalRef(text);
  minst = env->GetMethodID(K, "get", "(I)I");
  msingle = env->GetStaticMethodID(K, "single", "()Lp/P;");
  mget = env->GetStaticMethodID(K, "st", "(I)I");
  mctor = env->GetMethodID(K, "<init>", "()V");
  fval = env->GetFieldID(K, "v", "I");
  shared = env->NewGlobalRef(env->NewObject(K, mctor));
  munk = env->GetMethodID(K, "unk", "()Lt/Res;");
  mobj = env->GetMethodID(K, "unki", "()I");
  int T = sx_param("T", 2), two = sx_param("TWO", 0);
  int t[3];
  bool same = sx_choose(2, "same-name");
  for (int i = 0; i < T; i++) {
    Plan &p = plan[i];
    p.id = i;
    p.name = same ? 0 : i & 1;
    p.ops[0] = sx_choose(OPS, "op");
    if (i == 1) sx_assume(p.ops[0] >= plan[0].ops[0]);
    if (i > 1) p.ops[0] = plan[0].ops[0];
    p.ops[1] = two ? (int)sx_choose(OPS, "op") : -1;
  }
  for (int i = 0; i < T; i++) t[i] = sx_thread_create(body, &plan[i]);
  for (int i = 0; i < T; i++) sx_thread_join(t[i]);
  for (int i = 0; i < T; i++)
    for (int x = 0; x < 2; x++) {
      int o = plan[i].ops[x];
      if (o >= 0 && o < 5) SX_ASSERT(op(env, o, plan[i], 0) == ids[i][x], "a later lookup gives what the thread got");
      if (o >= 0 && o < 5) SX_ASSERT(ids[i][x], "found");
      for (int j = 0; j < i; j++)
        for (int y = 0; y < 2; y++)
          if (o >= 0 && o == plan[j].ops[y] && o < 5) {
            SX_ASSERT((ids[i][x] == ids[j][y]) == (plan[i].name == plan[j].name), "one id per member, whoever asks first");
            sx_reach("same-lookup");
          }
      if (o == 14) {
        SX_ASSERT(env->IsSameObject((jobject)ids[i][x], env->CallStaticObjectMethod(K, msingle)), "the shared object");
        env->DeleteWeakGlobalRef((jobject)ids[i][x]);
      }
      if (o == 7) {
        SX_ASSERT(env->GetObjectRefType((jobject)ids[i][x]) == JNIGlobalRefType && env->GetStringUTFLength((jstring)ids[i][x]) == 2, "global references stay");
        env->DeleteGlobalRef((jobject)ids[i][x]);
        sx_reach("stays");
      }
    }
  // tables are intact
  SX_ASSERT(env->CallIntMethod(shared, minst, 3) == 3, "call on the shared object");
  env->DeleteGlobalRef(shared);
  sx_reach("end");
  return 0;
}
