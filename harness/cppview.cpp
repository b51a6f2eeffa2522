// C36: what C++ code is told through FakeJni and Baron is what foreign code is told through JNI.
#include "common.h"
#include <baron/baron.h>
#include <stdexcept>
using namespace FakeJni;
class A : public JObject {
public:
  DEFINE_CLASS_NAME("p/A")
  JInt v = 3;
  JInt plus(JInt a) { return v + a; }
  static JLong stat(JLong a) { return ~a; }
  static void both() {}
  void bothi() {}
};
class B : public A {
public:
  DEFINE_CLASS_NAME("p/q/B", A)
};
BEGIN_NATIVE_DESCRIPTOR(A)
  { Function<&A::plus>{}, "plus" },
  { Function<&A::stat>{}, "stat", JMethodID::PUBLIC | JMethodID::STATIC },
  { Function<&A::both>{}, "both", JMethodID::STATIC },
  { Function<&A::bothi>{}, "both" },
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(B)
END_NATIVE_DESCRIPTOR
struct V : public Jvm {
  template <class T> void add() { registerClass<T>(); }
};
enum Know { NO, MAYBE, YES };
static const int NAMES = 7;
static const char *NAME[NAMES] = {"p/A", "p/q/B", "u", "u$i", "x/D", "[I", "[Lp/A;"};
static Know known[NAMES];
static Jvm *vm;
static Env *env;
static bool baron;
static void mentioned(int c) {
  if (known[c] == NO) known[c] = MAYBE;
  if (c == 1) mentioned(0);
  if (c == 3) mentioned(2);
  if (c == 6) mentioned(0);
}
static void yes(int c) { mentioned(c); known[c] = YES; }
static JClass *target(jclass c) { return dynamic_cast<JClass *>(env->resolveReference(c).get()); }
static void query(int c, int via) {
  JClass *r[2] = {};
  for (int k = 0; k < 2; k++) {
    if (k ^ via) {
      auto s = vm->findClass(NAME[c]);
      r[k] = s.get();
      SX_ASSERT(!s || streq(s->getName().c_str(), NAME[c]), "a class has the name it is found by");
    } else {
      jclass j = env->FindClass(NAME[c]);
      r[k] = target(j);
      SX_ASSERT(!j == !r[k], "FindClass gives class objects");
    }
  }
  SX_ASSERT(r[0] == r[1], "Jvm::findClass and FindClass give the same class");
  if (known[c] == YES) SX_ASSERT(r[0], "a known class is found");
  if (baron) SX_ASSERT((r[0] != nullptr) || (c == 4 && known[c] != YES), "Baron makes up what is not denied");
  if (known[c] == NO && (!baron || c == 4)) SX_ASSERT(!r[0], "an unknown class is not found");
  if (r[0]) { yes(c); sx_reach("found"); }
  else { SX_ASSERT(known[c] != YES, "found"); known[c] = NO; sx_reach("not-found"); }
}
static void all() {
  auto cs = vm->getClasses();
  int seen[NAMES] = {};
  for (size_t i = 0; i < cs.size(); i++) {
    SX_ASSERT(cs[i] && vm->findClass(cs[i]->getName().c_str()) == cs[i], "getClasses lists the classes which are found");
    for (size_t j = 0; j < i; j++) SX_ASSERT(cs[j] != cs[i], "each of them once");
    for (int c = 0; c < NAMES; c++) if (streq(cs[i]->getName().c_str(), NAME[c])) seen[c]++;
  }
  for (int c = 0; c < NAMES; c++) {
    SX_ASSERT(known[c] != YES || seen[c] == 1, "every known class is listed once");
    SX_ASSERT(known[c] != NO || seen[c] == 0, "no unknown class is listed");
    known[c] = seen[c] ? YES : NO;
  }
}
template <class F> static bool refuses(F f) {
  try { f(); } catch (const std::runtime_error &) { return true; }
  return false;
}
static void members(JClass &c, jobject o, JClass *self) {
  jclass jc = env->GetObjectClass(o);
  switch (sx_choose(5, "member")) {
  case 0: {
    auto m = c.getMethod("(I)I", "plus");
    SX_ASSERT((bool)m && !m.isStatic() && (jmethodID)(jnivm::Method *)m == env->GetMethodID(jc, "plus", "(I)I"), "an instance method");
    jint x = sx_any<jint>("x");
    SX_ASSERT(m.invoke(*env, env->resolveReference(o).get(), x).i == (jint)((uint32_t)x + 3u), "runs on the object");
    SX_ASSERT(refuses([&] { m.invoke(*env, self, x); }), "and not on a class");
    break;
  }
  case 1: {
    auto m = c.getMethod("(J)J", "stat");
    SX_ASSERT((bool)m && m.isStatic() && (jmethodID)(jnivm::Method *)m == env->GetStaticMethodID(jc, "stat", "(J)J"), "a static method");
    jlong x = sx_any<jlong>("y");
    SX_ASSERT(m.invoke(*env, self, x).j == ~x, "runs on the class");
    SX_ASSERT(refuses([&] { m.invoke(*env, env->resolveReference(o).get(), x); }), "and not on an object");
    break;
  }
  case 2: {
    auto m = c.getMethod("()V", "both");
    SX_ASSERT(refuses([&] { (void)(jnivm::Method *)m; }), "which of two methods is meant is not guessed");
    break;
  }
  case 3: {
    auto m = c.getMethod("(J)J", "plus");
    SX_ASSERT(!(bool)m && !m.isStatic() && !(jnivm::Method *)m, "no such method");
    break;
  }
  default: {
    auto m = c.getMethod("(I)I", "none");
    SX_ASSERT(!(bool)m && !m.isStatic() && !(jnivm::Method *)m, "no such method");
    SX_ASSERT(refuses([&] { m.invoke(*env, self, 1); }) && refuses([&] { m.invoke(*env, env->resolveReference(o).get(), 1); }), "cannot be run");
  }
  }
}
static void object() {
  std::shared_ptr<JObject> o;
  std::string name;
  env->PushLocalFrame(8);
  int kind = sx_choose(6, "object");
  switch (kind) {
  case 0: o = std::make_shared<A>(); name = "p/A"; yes(0); break;
  case 1: o = std::make_shared<B>(); name = "p/q/B"; yes(1); break;
  case 2: o = std::make_shared<JString>("s"); name = "java/lang/String"; break;
  case 3: o = env->resolveReference(env->NewIntArray(2)); name = "[I"; yes(5); break;
  case 4: {
    if (known[0] != YES) { env->PopLocalFrame(nullptr); return; }
    o = env->resolveReference(env->NewObjectArray(1, env->FindClass("p/A"), nullptr));
    name = "[Lp/A;";
    yes(6);
    break;
  }
  default: o = vm->findClass("java/lang/String"); name = "java/lang/Class";
  }
  SX_ASSERT(o != nullptr, "object");
  jobject l = env->createLocalReference(o), ref = l;
  int how = sx_choose(4, "reference");
  if (how == 1) ref = vm->createGlobalReference(o);
  if (how == 2) ref = env->NewWeakGlobalRef(l);
  if (how == 3) ref = env->NewGlobalRef(l);
  SX_ASSERT(l && ref && env->resolveReference(l) == o && env->resolveReference(ref) == o, "references lead to the object");
  SX_ASSERT(env->GetObjectRefType(ref) == (how == 0 ? JNILocalRefType : how == 2 ? JNIWeakGlobalRefType : JNIGlobalRefType), "type of the reference");
  JClass &c = o->getClass();
  SX_ASSERT(&c == target(env->GetObjectClass(ref)) && o->getClassInternal(jnivm::ENV::FromJNIEnv(env)).get() == &c, "Object::getClass and GetObjectClass give the same class");
  SX_ASSERT(streq(c.getName().c_str(), name.c_str()) && vm->findClass(name.c_str()).get() == &c, "the class of the object's type");
  if (kind == 0) members(c, ref, &c);
  std::weak_ptr<JObject> w = o;
  o.reset();
  SX_ASSERT(env->resolveReference(ref) == w.lock() && !w.expired(), "references keep the object");
  env->PopLocalFrame(nullptr);
  if (how) {
    if (how == 2 && kind < 5) { SX_ASSERT(w.expired() && !env->resolveReference(ref) && env->IsSameObject(ref, nullptr), "a weak reference does not"); sx_reach("weak"); }
    else SX_ASSERT(!w.expired() && env->resolveReference(ref) == w.lock(), "global references keep the object");
    if (how == 2) env->DeleteWeakGlobalRef((jweak)ref);
    else env->DeleteGlobalRef(ref);
  }
  SX_ASSERT(w.expired() == (kind < 5), "and release it");
  sx_reach("object");
}
static void steps() {
  JNIEnv *j = nullptr;
  SX_ASSERT(((JavaVM *)vm)->GetEnv((void **)&j, JNI_VERSION_1_6) == JNI_OK && jnivm::ENV::FromJNIEnv(j) == jnivm::ENV::FromJNIEnv(env), "the environment of the thread");
  SX_ASSERT(&env->getVM() == vm && JniEnv::getCurrentEnv() == env, "the VM of the environment");
  SX_ASSERT(!env->resolveReference(nullptr) && !env->createLocalReference(nullptr) && !vm->createGlobalReference(nullptr), "null stays null");
  known[5] = known[6] = MAYBE;
  int N = sx_param("N", 2);
  for (int i = 0; i < N; i++) {
    switch (sx_choose(5, "op")) {
    case 0: { int c = sx_choose(NAMES, "class"); query(c, sx_choose(2, "via")); break; }
    case 1: {
      int c = sx_choose(NAMES, "class");
      auto k = jnivm::ENV::FromJNIEnv(env)->GetClass(NAME[c]);
      SX_ASSERT(k != nullptr, "C++ code declares classes");
      yes(c);
      SX_ASSERT(vm->findClass(NAME[c]) == k, "which are found then");
      break;
    }
    case 2:
      if (sx_choose(2, "class")) { vm->registerClass<B>(); yes(1); } else { vm->registerClass<A>(); yes(0); }
      sx_reach("registered");
      break;
    case 3: object(); break;
    default: all(); sx_reach("all");
    }
    SX_ASSERT(!env->ExceptionCheck(), "nothing pending");
  }
  query(sx_choose(NAMES, "class"), sx_choose(2, "via"));
  all();
  sx_reach("end");
}
int main() {
  baron = sx_choose(2, "baron");
  if (baron) {
    Baron::Jvm v;
    v.denyClass("x/D");
    vm = &v;
    env = JniEnv::getCurrentEnv();
    steps();
  } else {
    Jvm v;
    vm = &v;
    env = JniEnv::getCurrentEnv();
    steps();
  }
  return 0;
}
