// C26: starting a VM calls one static main with the arguments.
#include "common.h"
#include <fake-jni/fake-jni.h>
#include <baron/baron.h>
using namespace FakeJni;
static int calls, which;
static JArray<JString> *expected;
static JClass *cls[2];
static bool threw;
static void ran(int i, JArray<JString> *a) {
  calls++;
  which = i;
  if (expected) SX_ASSERT(a == expected, "the arguments");
  else SX_ASSERT(a && a->getSize() == 1 && (*a)[0] && *(*a)[0] == "main", "the default arguments");
  if (threw) throw std::runtime_error("from main");
}
static void JNICALL nativeMain(JNIEnv *env, jclass c, jobjectArray args) {
  SX_ASSERT(env && env->GetArrayLength(args) == (expected ? expected->getSize() : 1), "the arguments");
  calls++;
  which = 0;
}
template <class V> static void run() {
  V v;
  LocalFrame frame(v);
  Env *env = &frame.getJniEnv();
  auto e = jnivm::ENV::FromJNIEnv(env);
  static const char *CN[2] = {"p/A", "q/B"};
  bool any = false, candidate[3] = {};
  bool nat = false;
  for (int i = 0; i < 2; i++) {
    auto c = e->GetClass(CN[i]);
    switch (sx_choose(i ? 4 : 5, "main")) {
    case 0: break;
    case 1: c->HookInstance(e, "main", [](jnivm::ENV *, JObject *, std::shared_ptr<JArray<JString>> a) -> void { sx_fail("an instance method"); }); break;
    case 2: c->Hook(e, "main", [](jnivm::ENV *, JClass *, std::shared_ptr<JArray<JString>> a) -> jint { sx_fail("another signature"); return 0; }); break;
    case 3:
      if (i) c->Hook(e, "main", [](jnivm::ENV *, JClass *c, std::shared_ptr<JArray<JString>> a) -> void { ran(1, a.get()); });
      else c->Hook(e, "main", [](jnivm::ENV *, JClass *c, std::shared_ptr<JArray<JString>> a) -> void { ran(0, a.get()); });
      candidate[i] = any = true;
      break;
    default: {
      JNINativeMethod m{(char *)"main", (char *)"([Ljava/lang/String;)V", (void *)&nativeMain};
      SX_ASSERT(env->RegisterNatives(env->FindClass(CN[i]), &m, 1) == JNI_OK, "register");
      candidate[i] = any = nat = true;
    }
    }
  }
  switch (sx_choose(3, "create")) {
  case 0: break;
  case 1: createMainMethod(v, [](std::shared_ptr<JArray<JString>> a) { ran(2, a.get()); }); candidate[2] = any = true; break;
  default: createMainMethod(v, [](JArray<JString> *a) { ran(2, a); }); candidate[2] = any = true; break;
  }
  threw = !nat && sx_choose(2, "throws");
  std::shared_ptr<JArray<JString>> args;
  if (int k = sx_choose(4, "args")) {
    args = std::make_shared<JArray<JString>>(k == 1 ? 2 : k == 2 ? 0 : 9);
    for (int i = 0; i < args->getSize() - 1; i++) (*args)[i] = std::make_shared<JString>("x");
    expected = args.get();
  }
  bool failed = false;
  try {
    if (args) v.start(args);
    else v.start();
  } catch (const std::exception &ex) { failed = true; }
  if (any) {
    SX_ASSERT(calls == 1 && candidate[which], "one main is called, once");
    if (!threw) SX_ASSERT(!failed, "main returned");
    sx_reach("called");
  } else {
    SX_ASSERT(failed && !calls, "no main is an error");
    sx_reach("nothing");
  }
  if (args) SX_ASSERT(args.use_count() == 1, "the arguments are released");
}
int main() {
  if (sx_choose(2, "baron")) run<Baron::Jvm>();
  else run<FakeJni::Jvm>();
  sx_reach("end");
  return 0;
}
