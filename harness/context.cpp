// C24: environment contexts and local frames of FakeJni nest, and end what they began.
#include "common.h"
#include <fake-jni/fake-jni.h>
using namespace FakeJni;
static FakeJni::Jvm *vm;
static bool attached;
static int DEPTH;
static std::weak_ptr<JObject> made[24];
static int nmade;
static jobject globals[24];
static int nglobals;
struct X : public JObject {};
static void scope(int d);
static void inside(JniEnvContext &c, Env *before, int d, std::weak_ptr<JObject> &w) {
  Env *e = &c.getJniEnv();
  SX_ASSERT(JniEnv::getCurrentEnv() == e && &e->getVM() == vm, "the environment of this thread");
  if (before) SX_ASSERT(e == before, "an attached thread keeps its environment");
  JNIEnv *je = nullptr;
  SX_ASSERT(((JavaVM *)vm)->GetEnv((void **)&je, JNI_VERSION_1_6) == JNI_OK && jnivm::ENV::FromJNIEnv(je) == jnivm::ENV::FromJNIEnv(e), "the environment of this thread");
  attached = true;
  auto o = std::make_shared<X>();
  w = o;
  jobject l = e->createLocalReference(o);
  SX_ASSERT(e->resolveReference(l).get() == (JObject *)o.get(), "references lead to their object");
  if (d == 0 && sx_choose(2, "global")) {
    globals[nglobals++] = vm->createGlobalReference(o);
    SX_ASSERT(e->IsSameObject(globals[nglobals - 1], l) && e->GetObjectRefType(globals[nglobals - 1]) == JNIGlobalRefType, "global reference");
  }
  o.reset();
  for (int n = d + 1 < DEPTH ? sx_choose(d ? 2 : 3, "children") : 0; n > 0; n--) {
    scope(d + 1);
    SX_ASSERT(!w.expired() && e->resolveReference(l) == w.lock(), "inner scopes leave the references of outer ones alone");
    SX_ASSERT(&c.getJniEnv() == e && JniEnv::getCurrentEnv() == e, "inner scopes leave the environment alone");
  }
  if (d < sx_param("PEND", 1) && sx_choose(2, "pending")) { // a scope may end with an exception pending
    e->ThrowNew(e->FindClass("java/lang/Throwable"), "t");
    sx_reach("pending");
  }
  if (sx_choose(2, "throw")) { sx_reach("throw"); throw 1; }
}
static void scope(int d) {
  bool was = attached;
  Env *before = JniEnv::getCurrentEnv();
  SX_ASSERT((before != nullptr) == was, "attached exactly when a context says so");
  std::weak_ptr<JObject> w;
  int g = nglobals, n0 = nmade;
  bool frame = false;
  try {
    switch (sx_choose(3, "scope")) {
    case 0: { JniEnvContext c(*vm); inside(c, before, d, w); break; }
    case 1: { LocalFrame c(*vm, sx_choose(2, "size") * 8); frame = true; inside(c, before, d, w); break; }
    default:
      if (was) { LocalFrame c; frame = true; inside(c, before, d, w); break; }
      try {
        LocalFrame c;
        sx_fail("a frame needs an environment");
      } catch (const std::runtime_error &) { sx_reach("no-env"); }
      SX_ASSERT(!JniEnv::getCurrentEnv(), "nothing changed");
      return;
    }
  } catch (int) {
    // left by an exception: scopes end alike
  }
  attached = was;
  if (before) before->ExceptionClear();
  SX_ASSERT(JniEnv::getCurrentEnv() == before, "a scope restores what it found");
  if (nglobals > g) SX_ASSERT(!w.expired(), "global references outlive scopes");
  else SX_ASSERT(w.expired() == (frame || !was), "a frame releases the references made in it, and nothing else does");
  if (frame || !was) {
    for (; nmade > n0; nmade--) SX_ASSERT(made[nmade - 1].expired(), "a frame releases what the scopes inside it made");
  } else {
    sx_assume(nmade < 24);
    made[nmade++] = w;
  }
  if (!was) sx_reach("detached");
}
static std::weak_ptr<Env> threadEnv;
static std::weak_ptr<JObject> threadObj;
static bool raw;
static void body(void *) {
  attached = false;
  nmade = 0;
  SX_ASSERT(!JniEnv::getCurrentEnv(), "a new thread has no environment");
  raw = sx_choose(2, "raw");
  if (raw) {
    SX_ASSERT(vm->AttachCurrentThread(nullptr, nullptr) == JNI_OK, "attach");
    attached = true;
    threadEnv = JniEnvContext::env.env;
    auto o = std::make_shared<X>();
    threadObj = o;
    JniEnv::getCurrentEnv()->createLocalReference(o);
  }
  scope(0);
  SX_ASSERT((JniEnv::getCurrentEnv() != nullptr) == raw, "scopes detach only what they attached");
  if (raw) {
    SX_ASSERT(!threadEnv.expired() && !threadObj.expired(), "an attached thread keeps its references");
    sx_reach("raw");
  }
}
// contexts that end in any order: the thread stays attached as long as the one that attached it, and not longer
static void anyOrder(void *) {
  static const int C = 4;
  JniEnvContext *c[C] = {};
  std::weak_ptr<JObject> w;
  Env *e = nullptr;
  int open = 1 + sx_choose(C, "contexts"), left = open;
  for (int i = 0; i < open; i++) {
    c[i] = new JniEnvContext(*vm);
    if (!i) {
      e = JniEnv::getCurrentEnv();
      auto o = std::make_shared<X>();
      w = o;
      e->createLocalReference(o);
    }
    SX_ASSERT(e && &c[i]->getJniEnv() == e, "the environment of this thread");
  }
  for (bool on = true; left; left--) {
    int k = sx_choose(open, "end");
    sx_assume(c[k] != nullptr);
    delete c[k];
    c[k] = nullptr;
    if (!k) on = false;
    if (!k && left > 1) sx_reach("early");
    if (on) SX_ASSERT(JniEnv::getCurrentEnv() == e && !w.expired(), "contexts that did not attach the thread do not detach it");
    // one that outlives the attaching one keeps the environment, but not the attachment
  }
  SX_ASSERT(!JniEnv::getCurrentEnv() && w.expired(), "the context that attached the thread detaches it");
  JniEnvContext again(*vm);
  SX_ASSERT(JniEnv::getCurrentEnv() == &again.getJniEnv(), "a thread can be attached again");
}
int main() {
  DEPTH = sx_param("DEPTH", 2);
  {
    FakeJni::Jvm v;
    vm = &v;
    Env *mine = JniEnv::getCurrentEnv();
    SX_ASSERT(mine, "creating a VM attaches its thread");
    attached = true;
    int mode = sx_choose(3, "thread");
    if (mode == 2) {
      int t = sx_thread_create(anyOrder, nullptr);
      sx_thread_join(t);
    } else if (mode) {
      int t = sx_thread_create(body, nullptr);
      sx_thread_join(t);
      SX_ASSERT(!raw || (threadEnv.expired() && threadObj.expired()), "a thread that ends is detached and its references are released");
    } else {
      scope(0);
      for (int i = 0; i < nmade; i++) SX_ASSERT(!made[i].expired(), "references made outside frames stay");
    }
    SX_ASSERT(JniEnv::getCurrentEnv() == mine, "the thread of the VM stays attached");
    for (int i = 0; i < nglobals; i++) {
      SX_ASSERT(mine->resolveReference(globals[i]) != nullptr, "global references stay");
      mine->DeleteGlobalRef(globals[i]);
    }
  }
  SX_ASSERT(!JniEnv::getCurrentEnv(), "destroying the VM ends the environment");
  for (int i = 0; i < nmade; i++) SX_ASSERT(made[i].expired(), "destroying the VM releases what is left");
  sx_reach("end");
  return 0;
}
