// C21: threads with FakeJni contexts that use classes with native descriptors.
#include "common.h"
#include <fake-jni/fake-jni.h>
using namespace FakeJni;
static FakeJni::Jvm *vm;
class Base : public JObject {
public:
  DEFINE_CLASS_NAME("p/Base")
  JInt v = 5;
  JInt plus(JInt a) { return v + a; }
  static JLong stat(JLong a, JInt b) { return a ^ b; }
  static JInt fails(JInt a) { throw std::runtime_error("x"); }
};
class Derived : public Base {
public:
  DEFINE_CLASS_NAME("p/q/Derived", Base)
  Derived(JInt a) { v = a; }
};
BEGIN_NATIVE_DESCRIPTOR(Base)
  { Field<&Base::v>{}, "v" },
  { Function<&Base::plus>{}, "plus" },
  { Function<&Base::stat>{}, "stat", JMethodID::PUBLIC | JMethodID::STATIC },
  { Function<&Base::fails>{}, "fails", JMethodID::PUBLIC | JMethodID::STATIC },
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(Derived)
  { Constructor<Derived, JInt>{} },
END_NATIVE_DESCRIPTOR
static std::shared_ptr<Derived> shared, fresh;
static jobject sharedG;
struct Plan { int id, op; bool frame; };
static Plan plan[3];
enum { OPS = 9 };
static void op(Env &env, Plan &p) {
  switch (p.op) {
  case 0: {
    SX_ASSERT(streq(shared->getClass().getName().c_str(), "p/q/Derived"), "class of an object");
    SX_ASSERT(env.IsSameObject(env.GetObjectClass(sharedG), env.FindClass("p/q/Derived")), "class of an object");
    break;
  }
  case 1: {
    auto c = vm->findClass("p/Base");
    SX_ASSERT(c && c->getName() == "p/Base" && !vm->findClass("p/None"), "registered classes are found");
    SX_ASSERT(!env.FindClass("p/None"), "nothing is made up");
    break;
  }
  case 2: {
    auto m = shared->getClass().getMethod("(I)I", "plus");
    jvalue r = m->invoke(env, shared.get(), (JInt)(10 + p.id));
    SX_ASSERT(r.i == 17 + p.id, "invoked method");
    break;
  }
  case 3: {
    jclass c = env.FindClass("p/q/Derived");
    jobject o = env.NewObject(c, env.GetMethodID(c, "<init>", "(I)V"), 30 + p.id);
    SX_ASSERT(o && env.GetIntField(o, env.GetFieldID(c, "v", "I")) == 30 + p.id, "own object");
    SX_ASSERT(env.CallIntMethod(o, env.GetMethodID(c, "plus", "(I)I"), 1) == 31 + p.id, "own object");
    break;
  }
  case 4: {
    jobject g = vm->createGlobalReference(shared);
    SX_ASSERT(env.GetObjectRefType(g) == JNIGlobalRefType && env.resolveReference(g).get() == (JObject *)shared.get(), "global reference");
    env.DeleteGlobalRef(g);
    break;
  }
  case 5: {
    std::weak_ptr<JObject> w;
    {
      LocalFrame f(*vm, 2);
      SX_ASSERT(&f.getJniEnv() == &env, "one environment in a thread");
      auto o = std::make_shared<Derived>(1);
      w = o;
      jobject l = env.createLocalReference(o);
      SX_ASSERT(env.resolveReference(l).get() == (JObject *)o.get(), "reference");
    }
    SX_ASSERT(w.expired(), "a frame releases its references");
    break;
  }
  case 6: {
    auto c = vm->findClass("p/Base");
    bool threw = false;
    try {
      c->getMethod("(I)I", "fails")->invoke(env, c.get(), (JInt)1);
    } catch (const std::runtime_error &e) { threw = streq(e.what(), "x"); }
    SX_ASSERT(threw && !env.ExceptionCheck(), "an exception reaches the caller");
    break;
  }
  case 7: { // an object no thread has converted before
    jobject l = env.createLocalReference(fresh);
    SX_ASSERT(env.IsSameObject(env.GetObjectClass(l), env.FindClass("p/q/Derived")), "class of an object");
    SX_ASSERT(env.IsInstanceOf(l, env.FindClass("p/Base")), "base of an object");
    break;
  }
  case 8: {
    size_t n = vm->getClasses().size();
    SX_ASSERT(n >= 2, "registered classes");
    jmethodID m = env.GetStaticMethodID(env.FindClass("p/q/Derived"), "stat", "(JI)J");
    SX_ASSERT(m && env.CallStaticLongMethod(env.FindClass("p/Base"), m, (jlong)0x500000000, (jint)p.id) == (0x500000000 ^ p.id), "static method");
    break;
  }
  }
}
static void body(void *a) {
  Plan &p = *(Plan *)a;
  SX_ASSERT(!JniEnv::getCurrentEnv(), "not attached");
  if (p.frame) {
    LocalFrame f(*vm);
    op(f.getJniEnv(), p);
  } else {
    JniEnvContext c(*vm);
    op(c.getJniEnv(), p);
    op(c.getJniEnv(), p);
  }
  SX_ASSERT(!JniEnv::getCurrentEnv(), "a context detaches");
}
int main() {
  {
    FakeJni::Jvm v;
    vm = &v;
    v.registerClass<Base>();
    v.registerClass<Derived>();
    LocalFrame frame(v);
    Env &env = frame.getJniEnv();
    shared = std::make_shared<Derived>(7);
    fresh = std::make_shared<Derived>(8);
    sharedG = v.createGlobalReference(shared);
    int T = sx_param("T", 2);
    int t[3];
    for (int i = 0; i < T; i++) {
      Plan &p = plan[i];
      p.id = i;
      p.op = sx_choose(OPS, "op");
      p.frame = sx_choose(2, "frame");
      if (i) sx_assume(p.op >= plan[i - 1].op);
    }
    for (int i = 0; i < T; i++) t[i] = sx_thread_create(body, &plan[i]);
    for (int i = 0; i < T; i++) sx_thread_join(t[i]);
    SX_ASSERT(JniEnv::getCurrentEnv() == &env, "the environment of the first thread");
    SX_ASSERT(env.CallIntMethod(sharedG, env.GetMethodID(env.GetObjectClass(sharedG), "plus", "(I)I"), 1) == 8, "still working");
    shared.reset();
    fresh.reset();
  }
  sx_reach("end");
  return 0;
}
