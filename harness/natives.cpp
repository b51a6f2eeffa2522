// C17: registering, replacing and unregistering native methods.
#include "common.h"
#include <fake-jni/fake-jni.h>
using namespace jnivm;
struct B : public Extends<Object> {};
struct K : public Extends<B> {};
static int ran;
static void *self_;
static jint arg_;
template <int ID> static jint JNICALL nat0(JNIEnv *, jobject self) { ran = ID; self_ = self; return ID; }
template <int ID> static jint JNICALL nat1(JNIEnv *, jobject self, jint a) { ran = ID; self_ = self; arg_ = a; return a; }
template <int ID> static jint JNICALL nat2(JNIEnv *, jobject self, jlong a) { ran = ID; self_ = self; arg_ = (jint)a; return (jint)a; }
static const char *NAMES[] = {"f", "f", "f", "g"};
static const char *SIGS[] = {"()I", "(I)I", "(J)I", "()I"};
enum { KEYS = 4 };
static void *fn(int key, int impl) {
  static void *t[KEYS][2] = {{(void *)&nat0<1>, (void *)&nat0<2>}, {(void *)&nat1<1>, (void *)&nat1<2>}, {(void *)&nat2<1>, (void *)&nat2<2>}, {(void *)&nat0<1>, (void *)&nat0<2>}};
  return t[key][impl - 1];
}
int main() {
  FakeJni::Jvm vm;
  FakeJni::LocalFrame frame(vm);
  JNIEnv *env = &frame.getJniEnv();
  ENV *e = ENV::FromJNIEnv(env);
  std::shared_ptr<Class> cl[2];
  cl[0] = e->GetClass<B>("p/B");
  cl[1] = e->GetClass<K>("p/K");
  jclass jc[2] = {env->FindClass("p/B"), env->FindClass("p/K")};
  auto obj = std::make_shared<K>();
  obj->clazz = cl[1];
  int native[2][KEYS] = {}, bound[2][KEYS] = {}, sbound[2][KEYS] = {};
  int N = sx_param("N", 3);
  bool many = sx_choose(2, "many"); // classes with many other native methods
  if (many) {
    N--;
    for (char i = 'A'; i < 'M'; i++) {
      char nm[3] = {'n', i, 0};
      JNINativeMethod m{nm, (char *)"()I", (void *)&nat0<1>};
      SX_ASSERT(env->RegisterNatives(jc[1], &m, 1) == 0, "registration succeeds");
    }
  }
  bool others = many;
  for (int n = 0; n < N; n++) {
    int c = sx_choose(2, "class");
    switch (sx_choose(5, "op")) {
    case 0: { // one method
      int k = sx_choose(KEYS, "key"), i = 1 + sx_choose(2, "impl");
      char nm[2] = {NAMES[k][0], 0}, sg[5] = {};
      for (int j = 0; SIGS[k][j]; j++) sg[j] = SIGS[k][j];
      JNINativeMethod m{nm, sg, fn(k, i)};
      SX_ASSERT(env->RegisterNatives(jc[c], &m, 1) == 0, "registration succeeds");
      nm[0] = 'x'; // the texts belong to the caller
      native[c][k] = i;
      break;
    }
    case 1: { // two at once
      int k = sx_choose(KEYS, "key"), i = 1 + sx_choose(2, "impl");
      int l = (k + 1) % KEYS;
      JNINativeMethod m[2] = {{(char *)NAMES[k], (char *)SIGS[k], fn(k, i)}, {(char *)NAMES[l], (char *)SIGS[l], fn(l, 3 - i)}};
      SX_ASSERT(env->RegisterNatives(jc[c], m, 2) == 0, "registration succeeds");
      native[c][k] = i;
      native[c][l] = 3 - i;
      break;
    }
    case 2:
      SX_ASSERT(env->UnregisterNatives(jc[c]) == 0, "unregistration succeeds");
      if (c == 1) others = false;
      for (int k = 0; k < KEYS; k++) native[c][k] = 0;
      sx_reach("unregister");
      break;
    case 3: { // a method implemented in C++
      int k = sx_choose(KEYS, "key");
      if (k == 1) cl[c]->HookInstanceFunction(e, "f", [](ENV *, Object *o, jint a) -> jint { ran = 10; self_ = o; arg_ = a; return a; });
      else if (k == 2) cl[c]->HookInstanceFunction(e, "f", [](ENV *, Object *o, jlong a) -> jint { ran = 10; self_ = o; arg_ = (jint)a; return (jint)a; });
      else cl[c]->HookInstanceFunction(e, NAMES[k], [](ENV *, Object *o) -> jint { ran = 10; self_ = o; return 10; });
      bound[c][k] = 10;
      sx_reach("bound");
      break;
    }
    case 4: { // a static one
      int k = sx_choose(2, "key");
      if (k == 1) cl[c]->Hook(e, "f", [](ENV *, Class *o, jint a) -> jint { ran = 20; self_ = (Object *)o; arg_ = a; return a; });
      else cl[c]->Hook(e, "f", [](ENV *, Class *o) -> jint { ran = 20; self_ = (Object *)o; return 20; });
      sbound[c][k] = 20;
      break;
    }
    }
  }
  for (char i = 'A'; many && i < 'M'; i++) {
    char nm[3] = {'n', i, 0};
    SX_ASSERT((bool)cl[1]->getMethod("()I", nm) == others, "exactly the existing methods are found");
  }
  jint a = sx_any<jint>("a");
  for (int c = 0; c < 2; c++)
    for (int k = 0; k < KEYS; k++) {
      auto nearest = [&](int (*t)[KEYS]) { return c == 1 && t[1][k] ? t[1][k] : t[0][k]; };
      int nt = nearest(native), bd = nearest(bound), sb = nearest(sbound);
      int wi = bd ? bd : sb ? 0 : nt, ws = sb ? sb : bd ? 0 : nt; // implementations run for an object and for a class
      MethodProxy m = cl[c]->getMethod(SIGS[k], NAMES[k]);
      if (!(bd && sb)) SX_ASSERT((bool)m == (bd || sb || nt), "exactly the existing methods are found");
      for (int st = 0; st < 2; st++) {
        int want = st ? ws : wi;
        ran = 0;
        self_ = nullptr;
        arg_ = 0;
        jvalue r;
        r.i = 0;
        bool none = false;
        try {
          if (k == 2) r = st ? m.invoke(*env, cl[c].get(), (jlong)a) : m.invoke(*env, (Object *)obj.get(), (jlong)a);
          else if (st) r = k == 1 ? m.invoke(*env, cl[c].get(), a) : m.invoke(*env, cl[c].get());
          else r = k == 1 ? m.invoke(*env, (Object *)obj.get(), a) : m.invoke(*env, (Object *)obj.get());
        } catch (const std::runtime_error &) {
          none = true;
        }
        SX_ASSERT(none == !want, "a missing method is reported, an existing one is run");
        SX_ASSERT(ran == want, "the implementation registered last runs");
        if (!want) { sx_reach("missing"); continue; }
        SX_ASSERT(self_ == (st ? (void *)(Object *)cl[c].get() : (void *)(Object *)obj.get()), "receiver");
        SX_ASSERT(r.i == (k == 1 || k == 2 ? a : want) && (k != 1 && k != 2 || arg_ == a), "argument and result");
        if (want < 10) sx_reach("native");
      }
    }
  sx_reach("end");
  return 0;
}
