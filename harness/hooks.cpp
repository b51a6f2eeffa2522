// C35: functions replaced in the tables of functions are called where they apply, and only there.
#include "common.h"
#include <baron/baron.h>
#include <stdexcept>
using namespace jnivm;
static const int MAXH = 6;
// hooks: kind 0 replaces GetVersion, kind 1 wraps NewStringUTF, kind 2 wraps GetStringLength
struct Hook { int kind; jint value; };
static Hook hook[MAXH];
static int nhooks;
static int applied[MAXH];
static int calls[MAXH];
static decltype(JNINativeInterface::NewStringUTF) prevString[MAXH];
static decltype(JNINativeInterface::GetStringLength) prevLength[MAXH];
template <int I> static jint version(JNIEnv *) { calls[I]++; return hook[I].value; }
template <int I> static jstring newString(JNIEnv *env, const char *s) { calls[I]++; return prevString[I](env, s); }
template <int I> static jsize length(JNIEnv *env, jstring s) { calls[I]++; return prevLength[I](env, s) + hook[I].value; }
template <int I> static void apply(JNINativeInterface &t) {
  applied[I]++;
  switch (hook[I].kind) {
  case 0: t.GetVersion = version<I>; break;
  case 1: prevString[I] = t.NewStringUTF; t.NewStringUTF = newString<I>; break;
  default: prevLength[I] = t.GetStringLength; t.GetStringLength = length<I>;
  }
}
static void (*const APPLY[MAXH])(JNINativeInterface &) = {apply<0>, apply<1>, apply<2>, apply<3>, apply<4>, apply<5>};
struct MyEnv : public ENV {
  using ENV::ENV;
  using ENV::OverrideJNINativeInterface;
};
struct Access { // what the three kinds of VM have in common
  virtual ~Access() {}
  virtual void addHook(std::function<void(JNINativeInterface &)> &&h) = 0;
  virtual JavaVM *java() = 0;
  virtual JavaVM *java2() { return java(); } // FakeJni VMs and environments are handles themselves
  virtual JNIEnv *env2() { return nullptr; }
  virtual void overrideInvoke(const JNIInvokeInterface &i) = 0;
};
static void before(Access &a);
struct Plain : public VM, public Access {
  Plain() : VM(true) { before(*this); initialize(); }
  std::shared_ptr<ENV> CreateEnv() override {
    auto t = GetNativeInterfaceTemplate();
    for (auto &&h : jnienvhooks) h(t);
    return std::make_shared<MyEnv>(this, t);
  }
  void addHook(std::function<void(JNINativeInterface &)> &&h) override { AddHook(std::move(h)); }
  JavaVM *java() override { return GetJavaVM(); }
  void overrideInvoke(const JNIInvokeInterface &i) override { OverrideJNIInvokeInterface(i); }
};
struct Default : public VM, public Access { // environments made by the library
  Default() : VM(true) { before(*this); initialize(); }
  void addHook(std::function<void(JNINativeInterface &)> &&h) override { AddHook(std::move(h)); }
  JavaVM *java() override { return GetJavaVM(); }
  void overrideInvoke(const JNIInvokeInterface &i) override { OverrideJNIInvokeInterface(i); }
};
struct Fake : public FakeJni::Jvm, public Access {
  Fake() : FakeJni::Jvm(true, true) { before(*this); initialize(); }
  void addHook(std::function<void(JNINativeInterface &)> &&h) override { AddHook(std::move(h)); }
  JavaVM *java2() override { return this; }
  JNIEnv *env2() override { return FakeJni::JniEnv::getCurrentEnv(); }
  JavaVM *java() override { return GetJavaVM(); }
  void overrideInvoke(const JNIInvokeInterface &i) override { OverrideJNIInvokeInterface(i); }
};
struct Bar : public Baron::Jvm, public Access {
  Bar() : Baron::Jvm([this](Baron::Jvm *j) { first(j); }) {}
  static void first(Baron::Jvm *j);
  void addHook(std::function<void(JNINativeInterface &)> &&h) override { AddHook(std::move(h)); }
  JavaVM *java2() override { return this; }
  JNIEnv *env2() override { return FakeJni::JniEnv::getCurrentEnv(); }
  JavaVM *java() override { return GetJavaVM(); }
  void overrideInvoke(const JNIInvokeInterface &i) override { OverrideJNIInvokeInterface(i); }
};
static Access *acc;
static void add(std::function<void(std::function<void(JNINativeInterface &)> &&)> to) {
  sx_assume(nhooks < MAXH);
  int i = nhooks++;
  hook[i].kind = sx_choose(3, "hook");
  hook[i].value = sx_any<jint>("value");
  to(std::function<void(JNINativeInterface &)>(APPLY[i]));
}
static void before(Access &a) {
  for (int n = sx_choose(3, "before"); n > 0; n--) add([&](std::function<void(JNINativeInterface &)> &&h) { a.addHook(std::move(h)); });
}
void Bar::first(Baron::Jvm *j) {
  for (int n = sx_choose(3, "before"); n > 0; n--) add([&](std::function<void(JNINativeInterface &)> &&h) { j->AddHook(std::move(h)); });
}
// what an environment is expected to do
struct Expect { int hooks; bool over; jint version; };
static int invoked; // calls of the replaced GetEnv
static decltype(JNIInvokeInterface::GetEnv) prevGetEnv;
static bool wrapped;
static jint getEnv(JavaVM *vm, void **env, jint v) { invoked++; return prevGetEnv(vm, env, v); }
static jint overVersion(JNIEnv *) { return 77; }
static jstring text;
static void check(JNIEnv *env, const Expect &x) {
  for (int i = 0; i < MAXH; i++) calls[i] = 0;
  jint want = x.over ? 77 : JNI_VERSION_1_6;
  int winner = -1;
  if (!x.over) for (int i = 0; i < x.hooks; i++) if (hook[i].kind == 0) want = hook[i].value, winner = i;
  SX_ASSERT(env->GetVersion() == want, "the function replaced last is called");
  for (int i = 0; i < MAXH; i++) SX_ASSERT(hook[i].kind || calls[i] == (i == winner), "once, and no other");
  jstring s = env->NewStringUTF("ab");
  jint len = env->GetStringLength(s), add = 0;
  for (int i = 0; i < nhooks; i++) {
    if (!hook[i].kind) continue;
    if (hook[i].kind == 2 && i < x.hooks) add = (jint)((uint32_t)add + (uint32_t)hook[i].value);
    SX_ASSERT(calls[i] == (i < x.hooks), "wrapped functions are called through every hook once");
  }
  SX_ASSERT(len == (jint)((uint32_t)add + 2u), "and do what they did");
  char b[3] = {};
  env->GetStringUTFRegion(s, 0, 2, b);
  SX_ASSERT(streq(b, "ab"), "functions not replaced work as ever");
  JavaVM *j = nullptr;
  SX_ASSERT(env->GetJavaVM(&j) == JNI_OK && j == acc->java(), "the VM of the environment");
  SX_ASSERT(ENV::FromJNIEnv(env)->GetJNIEnv() == env && (void *)ENV::FromJNIEnv(env)->GetVM() == (void *)VM::FromJavaVM(j), "environment and VM lead to each other");
  JNIEnv *e2 = nullptr;
  int n = invoked;
  SX_ASSERT(j->GetEnv((void **)&e2, JNI_VERSION_1_6) == JNI_OK && e2 == env && invoked == n + wrapped, "the functions of the VM as replaced");
  n = invoked;
  SX_ASSERT(acc->java2()->GetEnv((void **)&e2, JNI_VERSION_1_6) == JNI_OK && e2 == env && invoked == n + wrapped, "the functions of the VM as replaced, through the other handle");
  if (JNIEnv *other = acc->env2()) {
    SX_ASSERT(other->GetVersion() == want && ENV::FromJNIEnv(other) == ENV::FromJNIEnv(env), "the other handle of the environment");
    sx_reach("handle");
  }
  SX_ASSERT(!env->ExceptionCheck(), "nothing pending");
}
static void body(void *) {
  JNIEnv *env = nullptr;
  SX_ASSERT(acc->java()->AttachCurrentThread(&env, nullptr) == JNI_OK && env, "attach");
  check(env, Expect{nhooks, false, 0});
  SX_ASSERT(acc->java()->DetachCurrentThread() == JNI_OK, "detach");
  sx_reach("thread");
}
template <class V> static void run(bool own) {
  V v;
  acc = &v;
  Expect x{nhooks, false, 0};
  JNIEnv *env = nullptr;
  SX_ASSERT(v.java()->GetEnv((void **)&env, JNI_VERSION_1_6) == JNI_OK, "environment");
  for (int i = 0; i < nhooks; i++) SX_ASSERT(applied[i] == 1, "hooks added before the VM is initialized apply to its first environment");
  check(env, x);
  int N = sx_param("N", 2), threads = 0;
  for (int step = 0; step < N; step++) {
    switch (sx_choose(own ? 6 : 5, "op")) {
    case 0: add([&](std::function<void(JNINativeInterface &)> &&h) { v.addHook(std::move(h)); }); break;
    case 1:
      SX_ASSERT(v.java()->DetachCurrentThread() == JNI_OK && v.java()->AttachCurrentThread(&env, nullptr) == JNI_OK, "attached again");
      x = Expect{nhooks, false, 0};
      sx_reach("again");
      break;
    case 2: {
      sx_assume(threads++ < 3);
      int t = sx_thread_create(body, nullptr);
      sx_thread_join(t);
      break;
    }
    case 3: { // the table of the VM
      sx_assume(!wrapped);
      JNIInvokeInterface i = *v.java()->functions;
      prevGetEnv = i.GetEnv;
      i.GetEnv = getEnv;
      if (sx_choose(2, "reserved0")) i.reserved0 = nullptr;
      v.overrideInvoke(i);
      wrapped = true;
      sx_reach("invoke");
      break;
    }
    case 4: { // refused
      JNIInvokeInterface i = *v.java()->functions;
      i.reserved0 = &i;
      i.GetEnv = getEnv;
      bool threw = false;
      try { v.overrideInvoke(i); } catch (const std::runtime_error &) { threw = true; }
      SX_ASSERT(threw, "the identity of the VM cannot be replaced");
      break;
    }
    default: { // the table of this environment
      JNINativeInterface i = *env->functions;
      i.GetVersion = overVersion;
      bool bad = false;
      switch (sx_choose(3, "reserved0")) {
      case 1: i.reserved0 = nullptr; break;
      case 2: i.reserved0 = &i; bad = true;
      }
      bool threw = false;
      try { static_cast<MyEnv *>(ENV::FromJNIEnv(env))->OverrideJNINativeInterface(i); } catch (const std::runtime_error &) { threw = true; }
      SX_ASSERT(threw == bad, "the identity of the environment cannot be replaced");
      if (!bad) x.over = true;
      sx_reach("override");
    }
    }
    check(env, x);
  }
  sx_reach("end");
}
int main() {
  switch (sx_choose(4, "vm")) {
  case 0: run<Plain>(true); break;
  case 1: run<Default>(false); break;
  case 2: run<Fake>(false); break;
  default: run<Bar>(false);
  }
  return 0;
}
