// C20: every attached thread has its own environment.
#include "common.h"
#include <stdexcept>
using namespace jnivm;
static VM *vm;
static jobject shared; // a global reference
static JNIEnv *seen[4];
static int T, live;
struct X : public Object {
  X() {}
};
struct Plan { int attach, ops[2], detach, again, id; };
static Plan plan[3];
static jobject published[3]; // global references made by the threads
static JavaVMAttachArgs attachArgs = {JNI_VERSION_1_6, (char *)"name", nullptr};
static JNIEnv *get(int how) {
  JNIEnv *e = nullptr;
  JavaVM *j = vm->GetJavaVM();
  switch (how) {
  case 0: SX_ASSERT(j->AttachCurrentThread(&e, nullptr) == JNI_OK, "attach"); break;
  case 1: SX_ASSERT(j->AttachCurrentThreadAsDaemon(&e, nullptr) == JNI_OK, "attach as daemon"); break;
  case 3: SX_ASSERT(j->AttachCurrentThread(&e, &attachArgs) == JNI_OK, "attach with arguments"); break;
  case 4: SX_ASSERT(j->AttachCurrentThreadAsDaemon(&e, &attachArgs) == JNI_OK, "attach as daemon with arguments"); break;
  default: SX_ASSERT(j->GetEnv((void **)&e, JNI_VERSION_1_6) == JNI_OK, "GetEnv"); break;
  }
  SX_ASSERT(e, "an environment");
  return e;
}
static void body(void *a) {
  Plan &p = *(Plan *)a;
  JNIEnv *env = get(p.attach);
  seen[p.id] = env;
  for (int i = 0; i < 5; i++) SX_ASSERT(get(i) == env, "a thread keeps its environment");
  SX_ASSERT(vm->GetJNIEnv() == env, "a thread keeps its environment");
  JavaVM *j = nullptr;
  SX_ASSERT(env->GetJavaVM(&j) == JNI_OK && j == vm->GetJavaVM(), "the VM of the environment");
  SX_ASSERT(!env->ExceptionCheck(), "a new thread has no pending exception");
  std::weak_ptr<Object> local;
  jobject l = nullptr;
  for (int i = 0; i < 2; i++) {
    switch (p.ops[i]) {
    case 0: env->ThrowNew(env->FindClass("java/lang/Throwable"), "x"); break;
    case 1: { // a local reference
      auto x = std::make_shared<X>();
      local = x;
      l = JNITypes<std::shared_ptr<X>>::ToJNIType(vm->GetEnv().get(), x);
      break;
    }
    case 2: published[p.id] = env->NewGlobalRef(shared); SX_ASSERT(env->IsSameObject(published[p.id], shared), "global references are shared"); break;
    case 3: SX_ASSERT(env->FindClass("p/C"), "class"); break;
    }
    sx_yield();
    bool thrown = p.ops[0] == 0 || (i == 1 && p.ops[1] == 0);
    SX_ASSERT(env->ExceptionCheck() == thrown, "exceptions are pending only in their thread");
    SX_ASSERT(!l || !local.expired(), "local references stay valid");
  }
  SX_ASSERT(get(2) == env, "a thread keeps its environment");
  if (p.detach) {
    SX_ASSERT(vm->GetJavaVM()->DetachCurrentThread() == JNI_OK, "detach");
    SX_ASSERT(local.expired(), "local references end with the attachment");
    SX_ASSERT(vm->GetJavaVM()->DetachCurrentThread() == JNI_OK, "detaching twice is harmless");
    if (p.again) {
      JNIEnv *e2 = get(p.ops[0] ? 0 : 4);
      SX_ASSERT(!e2->ExceptionCheck(), "a fresh attachment has no pending exception");
      SX_ASSERT(vm->GetJavaVM()->DetachCurrentThread() == JNI_OK, "detach");
      sx_reach("again");
    }
    sx_reach("detach");
  }
}
int main() {
  VM v;
  vm = &v;
  JNIEnv *env = v.GetJNIEnv();
  v.GetEnv()->GetClass<X>("p/X");
  shared = env->NewGlobalRef(env->NewStringUTF("s"));
  T = 2;
  int ops = 4;
  bool full = sx_param("FULL", 0), small = sx_param("SMALL", 0);
  int t[3];
  for (int i = 0; i < T; i++) {
    Plan &p = plan[i];
    p.id = i;
    p.attach = i ? (plan[0].attach + i) % 3 : full ? sx_choose(3, "attach") : 2 * sx_choose(2, "attach");
    p.ops[0] = sx_choose(ops, "op");
    p.ops[1] = (i && !full) || small ? (p.ops[0] + 1) % ops : sx_choose(ops, "op");
    p.detach = sx_choose(2, "detach");
    p.again = p.detach && (i == 0 || full) && sx_choose(2, "again");
  }
  bool mainThrows = full ? sx_choose(2, "main-throws") : plan[1].ops[0] == 1;
  if (mainThrows) env->ThrowNew(env->FindClass("java/lang/Throwable"), "m");
  for (int i = 0; i < T; i++) t[i] = sx_thread_create(body, &plan[i]);
  SX_ASSERT(v.GetJNIEnv() == env, "a thread keeps its environment");
  SX_ASSERT(env->ExceptionCheck() == mainThrows, "exceptions are pending only in their thread");
  for (int i = 0; i < T; i++) sx_thread_join(t[i]);
  SX_ASSERT(v.GetJNIEnv() == env && env->ExceptionCheck() == mainThrows, "other threads leave this one alone");
  for (int i = 0; i < T; i++) {
    SX_ASSERT(seen[i] != env, "environments of threads differ");
    if (!plan[i].detach) for (int k = 0; k < i; k++) if (!plan[k].detach) SX_ASSERT(seen[i] != seen[k], "environments of threads differ");
    if (published[i]) {
      SX_ASSERT(env->IsSameObject(published[i], shared), "global references outlive their thread");
      env->DeleteGlobalRef(published[i]);
      sx_reach("published");
    }
  }
  sx_reach("end");
  return 0;
}
