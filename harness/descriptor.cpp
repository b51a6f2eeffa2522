// C26: classes with native descriptors offer exactly what the descriptor lists, from their registration or first use on.
#include "common.h"
#include <fake-jni/fake-jni.h>
using namespace FakeJni;
static int constructed;
class Base : public JObject {
public:
  DEFINE_CLASS_NAME("p/Base")
  JInt v = 5;
  std::shared_ptr<JObject> ref;
  static JLong sv;
  JInt plus(JInt a) { return v + a; }
  static JLong stat(JLong a, JInt b) { return a ^ b; }
  std::shared_ptr<JObject> swap(std::shared_ptr<JObject> o) { std::swap(o, ref); return o; }
  static JDouble freeFn(Base *b, JDouble d) { b->v++; return d; }
};
JLong Base::sv = 0;
class Derived : public Base {
public:
  DEFINE_CLASS_NAME("p/q/Derived", Base)
  JByte d;
  Derived(JInt a, JByte b) : d(b) { v = a; constructed++; }
  JBoolean odd(JByte a) { return (a ^ d) & 1; }
};
BEGIN_NATIVE_DESCRIPTOR(Base)
  { Field<&Base::v>{}, "v" },
  { Field<&Base::ref>{}, "ref" },
  { Field<&Base::sv>{}, "sv", JFieldID::PUBLIC | JFieldID::STATIC },
  { Field<&Base::sv>{}, "svi" },
  { Function<&Base::plus>{}, "plus" },
  { Function<&Base::swap>{}, "swap" },
  { Function<&Base::stat>{}, "stat", JMethodID::PUBLIC | JMethodID::STATIC },
  { Function<&Base::stat>{}, "stati" },
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(Derived)
  { Constructor<Derived, JInt, JByte>{} },
  { Field<&Derived::d>{}, "d" },
  { Function<&Derived::odd>{}, "odd" },
END_NATIVE_DESCRIPTOR
static Env *env;
static bool regB, regD;
static void useObject(bool derived) {
  std::shared_ptr<Base> o = derived ? std::make_shared<Derived>(1, 2) : std::make_shared<Base>();
  jobject l;
  if (sx_choose(2, "getClass")) {
    auto &c = o->getClass();
    SX_ASSERT(streq(c.getName().c_str(), derived ? "p/q/Derived" : "p/Base"), "class of the object");
    l = env->createLocalReference(o);
  } else l = env->createLocalReference(o);
  (derived ? regD : regB) = true;
  jclass c = env->GetObjectClass(l);
  SX_ASSERT(c && env->IsSameObject(c, env->FindClass(derived ? "p/q/Derived" : "p/Base")), "class of the object");
  SX_ASSERT(env->resolveReference(l).get() == (JObject *)o.get(), "reference of the object");
}
static void checkBase(jclass c, jobject o, Base *b) {
  SX_ASSERT(b, "object");
  switch (sx_choose(8, "member")) {
  case 0: {
    jfieldID f = env->GetFieldID(c, "v", "I");
    jint x = sx_any<jint>("x"), before = b->v;
    SX_ASSERT(f && env->GetIntField(o, f) == before, "field v");
    env->SetIntField(o, f, x);
    SX_ASSERT(b->v == x && env->GetIntField(o, f) == x, "field v");
    break;
  }
  case 1: {
    jfieldID f = env->GetFieldID(c, "ref", "Ljava/lang/Object;");
    SX_ASSERT(f && !env->GetObjectField(o, f), "field ref");
    auto r = std::make_shared<JObject>();
    env->SetObjectField(o, f, env->createLocalReference(r));
    SX_ASSERT(b->ref == r && env->resolveReference(env->GetObjectField(o, f)) == r, "field ref");
    jmethodID m = env->GetMethodID(c, "swap", "(Ljava/lang/Object;)Ljava/lang/Object;");
    SX_ASSERT(m && env->resolveReference(env->CallObjectMethod(o, m, nullptr)) == r && !b->ref, "method swap");
    break;
  }
  case 2: case 3: {
    bool st = sx_choose(2, "static");
    jlong x = sx_any<jlong>("x"), y = sx_any<jlong>("y");
    Base::sv = x;
    jfieldID f = st ? env->GetStaticFieldID(c, "sv", "J") : env->GetFieldID(c, "svi", "J");
    SX_ASSERT(f && (st ? env->GetStaticLongField(c, f) : env->GetLongField(o, f)) == x, "static field");
    if (st) env->SetStaticLongField(c, f, y); else env->SetLongField(o, f, y);
    SX_ASSERT(Base::sv == y, "static field");
    SX_ASSERT(!env->GetStaticFieldID(c, "svi", "J") && !env->GetFieldID(c, "sv", "J"), "static only if said so");
    break;
  }
  case 4: {
    jmethodID m = env->GetMethodID(c, "plus", "(I)I");
    jint x = sx_any<jint>("x");
    sx_assume(x < 1000000 && x > -1000000 && b->v < 1000000 && b->v > -1000000);
    SX_ASSERT(m && env->CallIntMethod(o, m, x) == x + b->v, "method plus");
    SX_ASSERT(!env->GetStaticMethodID(c, "plus", "(I)I"), "static only if said so");
    break;
  }
  case 5: case 6: {
    bool st = sx_choose(2, "static");
    jlong x = sx_any<jlong>("x");
    jint y = sx_any<jint>("y");
    jmethodID m = st ? env->GetStaticMethodID(c, "stat", "(JI)J") : env->GetMethodID(c, "stati", "(JI)J");
    SX_ASSERT(m && (st ? env->CallStaticLongMethod(c, m, x, y) : env->CallLongMethod(o, m, x, y)) == (x ^ y), "static method");
    SX_ASSERT(!env->GetStaticMethodID(c, "stati", "(JI)J") && !env->GetMethodID(c, "stat", "(JI)J"), "static only if said so");
    break;
  }
  default:
    SX_ASSERT(!env->GetMethodID(c, "plus", "(J)I") && !env->GetFieldID(c, "v", "J") && !env->GetMethodID(c, "other", "()V"), "nothing else");
  }
}
static void round(int N) {
  FakeJni::Jvm v;
  regB = regD = false;
  LocalFrame frame(v);
  env = &frame.getJniEnv();
  for (int i = 0; i < N; i++)
    switch (sx_choose(4, "step")) {
    case 0: v.registerClass<Base>(); regB = true; break;
    case 1: v.registerClass<Derived>(); regD = true; break;
    case 2: useObject(false); break;
    default: useObject(true); break;
    }
  jclass B = env->FindClass("p/Base"), D = env->FindClass("p/q/Derived");
  SX_ASSERT((B != nullptr) == regB && (D != nullptr) == regD, "classes are there once they are registered or used");
  SX_ASSERT((v.findClass("p/Base") != nullptr) == regB, "classes are there once they are registered or used");
  if (regB && sx_choose(2, "base")) {
    auto b = std::make_shared<Base>();
    checkBase(B, env->createLocalReference(b), b.get());
    sx_reach("base");
  } else if (regB && regD) {
    jmethodID ctor = env->GetMethodID(D, "<init>", "(IB)V");
    SX_ASSERT(ctor && !env->GetMethodID(D, "<init>", "(I)V"), "constructor");
    jint x = sx_any<jint>("ix");
    jbyte y = sx_any<jbyte>("iy"), z = sx_any<jbyte>("iz");
    int before = constructed;
    jobject o = env->NewObject(D, ctor, x, y);
    auto d = std::dynamic_pointer_cast<Derived>(env->resolveReference(o));
    SX_ASSERT(d && constructed == before + 1 && d->v == x && d->d == y, "constructed");
    SX_ASSERT(env->IsInstanceOf(o, D) && env->IsInstanceOf(o, B) && env->IsAssignableFrom(D, B) && !env->IsAssignableFrom(B, D), "base class");
    SX_ASSERT(env->IsSameObject(env->GetObjectClass(o), D), "class");
    jmethodID m = env->GetMethodID(D, "odd", "(B)Z");
    jfieldID f = env->GetFieldID(D, "d", "B");
    SX_ASSERT(m && f && env->CallBooleanMethod(o, m, z) == ((z ^ y) & 1) && env->GetByteField(o, f) == y, "own members");
    SX_ASSERT(!env->GetMethodID(B, "odd", "(B)Z") && !env->GetFieldID(B, "d", "B"), "bases do not have members of derived classes");
    checkBase(D, o, d.get());
    sx_reach("derived");
  } else if (regD) {
    SX_ASSERT(env->GetMethodID(D, "odd", "(B)Z") && env->GetFieldID(D, "d", "B"), "own members");
    sx_reach("without-base");
  }
}
// any modifiers, or none
static void modifiers() {
  FakeJni::Jvm v;
  LocalFrame frame(v);
  env = &frame.getJniEnv();
  auto e = jnivm::ENV::FromJNIEnv(env);
  auto c = e->GetClass<Base>("p/Base");
  jclass jc = env->FindClass("p/Base");
  auto b = std::make_shared<Base>();
  jobject o = env->createLocalReference(b);
  int k = sx_choose(5, "what");
  bool given = sx_choose(2, "given");
  jint flags = sx_any<jint>("flags");
  bool inst = k == 0 || k == 2; // needs an object
#ifdef JNIVM_FAKE_JNI_MINECRAFT_LINUX_COMPAT
  bool st = given ? flags & 8 : !inst;
#else
  bool st = given && flags & 8;
#endif
  bool threw = false;
  try {
    Descriptor d = k == 0 ? given ? Descriptor(Function<&Base::plus>{}, "m", flags) : Descriptor(Function<&Base::plus>{}, "m")
                 : k == 1 ? given ? Descriptor(Function<&Base::stat>{}, "m", flags) : Descriptor(Function<&Base::stat>{}, "m")
                 : k == 2 ? given ? Descriptor(Field<&Base::v>{}, "m", flags) : Descriptor(Field<&Base::v>{}, "m")
                 : k == 3 ? given ? Descriptor(Field<&Base::sv>{}, "m", flags) : Descriptor(Field<&Base::sv>{}, "m")
                          : given ? Descriptor(&Base::stat, "m", flags) : Descriptor(&Base::stat, "m");
    d.registre(e, c.get());
  } catch (const std::runtime_error &) { threw = true; }
  SX_ASSERT(threw == (inst && st), "members of objects cannot be static");
  jmethodID m[2] = {};
  jfieldID f[2] = {};
  if (k == 2) f[0] = env->GetFieldID(jc, "m", "I"), f[1] = env->GetStaticFieldID(jc, "m", "I");
  else if (k == 3) f[0] = env->GetFieldID(jc, "m", "J"), f[1] = env->GetStaticFieldID(jc, "m", "J");
  else { const char *sig = k ? "(JI)J" : "(I)I"; m[0] = env->GetMethodID(jc, "m", sig), m[1] = env->GetStaticMethodID(jc, "m", sig); }
  bool fld = k == 2 || k == 3;
  SX_ASSERT((fld ? (void *)f[st] != nullptr : m[st] != nullptr) == !threw && !(fld ? (void *)f[!st] : (void *)m[!st]), "static exactly if marked static");
  if (threw) { sx_reach("refused"); return; }
  jint x = sx_any<jint>("x");
  jlong y = sx_any<jlong>("y");
  b->v = x;
  Base::sv = y;
  switch (k) {
  case 0: SX_ASSERT(env->CallIntMethod(o, m[0], 5) == (jint)((uint32_t)x + 5), "the method"); break;
  case 2: SX_ASSERT(env->GetIntField(o, f[0]) == x, "the field"); break;
  case 3: SX_ASSERT((st ? env->GetStaticLongField(jc, f[1]) : env->GetLongField(o, f[0])) == y, "the field"); break;
  default: SX_ASSERT((st ? env->CallStaticLongMethod(jc, m[1], y, x) : env->CallLongMethod(o, m[0], y, x)) == (y ^ x), "the method");
  }
  sx_reach("modifiers");
}
#ifdef JNIVM_FAKE_JNI_MINECRAFT_LINUX_COMPAT
int main() { // only what is not marked differs
  modifiers();
  sx_reach("end");
  return 0;
}
#else
int main() {
  if (sx_choose(2, "modifiers")) {
    modifiers();
    sx_reach("end");
    return 0;
  }
  int N = sx_param("N", 2);
  round(N);
  if (sx_choose(2, "again")) { sx_reach("again"); round(1); }
  sx_reach("end");
  return 0;
}
#endif
