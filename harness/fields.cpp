// C09: fields hold what was written to them, and nothing else changes.
#include "jni_types.h"
using namespace jnivm;
template <class T> struct Holder : public Extends<Object> {
  T f, g;
  static T s, s2;
};
template <class T> T Holder<T>::s;
template <class T> T Holder<T>::s2;
template <class T> struct Mid : public Extends<Holder<T>> {};
template <class T> struct Leaf : public Extends<Mid<T>> {};
template <class T> static T val(const char *n) { return sx_any<T>(n); }
template <class T> static void prim(VM &vm) {
  JNIEnv *env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  auto hc = e->GetClass<Holder<T>>("p/Holder");
  auto mc = e->GetClass<Mid<T>>("p/Mid");
  auto lc = e->GetClass<Leaf<T>>("p/Leaf");
  // o1 and o2 may be of the class itself or of a class derived from it
  unsigned depth = sx_choose(3, "depth");
  std::shared_ptr<Holder<T>> h1, h2;
  if (depth == 0) h1 = std::make_shared<Holder<T>>(), h2 = std::make_shared<Holder<T>>();
  else if (depth == 1) h1 = std::make_shared<Mid<T>>(), h2 = std::make_shared<Mid<T>>();
  else h1 = std::make_shared<Leaf<T>>(), h2 = std::make_shared<Leaf<T>>();
  const char *cn = depth == 0 ? "p/Holder" : depth == 1 ? "p/Mid" : "p/Leaf";
  h1->clazz = h2->clazz = depth == 0 ? hc : depth == 1 ? mc : lc;
  jobject o1 = JNITypes<std::shared_ptr<Object>>::ToJNIType(e, h1), o2 = JNITypes<std::shared_ptr<Object>>::ToJNIType(e, h2);
  jclass c = env->FindClass(cn);
  T a = val<T>("f1"), b = val<T>("g1"), a2 = val<T>("f2"), b2 = val<T>("g2"), v = val<T>("written"), s = val<T>("s1"), s2 = val<T>("s2"), w = val<T>("direct");
  h1->f = a; h1->g = b; h2->f = a2; h2->g = b2;
  Holder<T>::s = s; Holder<T>::s2 = s2;
  unsigned kind = sx_choose(5, "kind");
  switch (kind) {
  case 0: // members bound directly
    hc->Hook(e, "f", &Holder<T>::f);
    hc->Hook(e, "g", &Holder<T>::g);
    break;
  case 1: // static variables bound directly
    hc->Hook(e, "f", &Holder<T>::s);
    hc->Hook(e, "g", &Holder<T>::s2);
    break;
  case 2: // instance accessor functions, bound in either order
    if (sx_choose(2, "setterfirst")) {
      hc->HookInstanceSetterFunction(e, "f", [](ENV *, Holder<T> *o, T x) { o->f = x; });
      hc->HookInstanceGetterFunction(e, "f", [](ENV *, Holder<T> *o) -> T { return o->f; });
    } else {
      hc->HookInstanceGetterFunction(e, "f", [](Holder<T> *o) -> T { return o->f; });
      hc->HookInstanceSetterFunction(e, "f", [](Holder<T> *o, T x) { o->f = x; });
    }
    hc->HookInstanceGetterFunction(e, "g", [](ENV *, Holder<T> *o) -> T { return o->g; });
    hc->HookInstanceSetterFunction(e, "g", [](ENV *, Holder<T> *o, T x) { o->g = x; });
    break;
  case 3: // static accessor functions
    hc->HookSetterFunction(e, "f", [](ENV *, Class *, T x) { Holder<T>::s = x; });
    hc->HookGetterFunction(e, "f", [](ENV *, Class *) -> T { return Holder<T>::s; });
    hc->HookGetterFunction(e, "g", [](Class *) -> T { return Holder<T>::s2; });
    hc->HookSetterFunction(e, "g", [](Class *, T x) { Holder<T>::s2 = x; });
    break;
  case 4: // a static variable shown as an instance field
    hc->HookInstanceProperty(e, "f", &Holder<T>::s);
    hc->HookInstanceProperty(e, "g", &Holder<T>::s2);
    break;
  }
  bool st = kind == 1 || kind == 3, shared = st || kind == 4;
  // a field of the other staticness with the same name is a different field
  jfieldID f = st ? env->GetStaticFieldID(c, "f", Tr<T>::sig()) : env->GetFieldID(c, "f", Tr<T>::sig());
  jfieldID g = st ? env->GetStaticFieldID(c, "g", Tr<T>::sig()) : env->GetFieldID(c, "g", Tr<T>::sig());
  SX_ASSERT(f && g && f != g, "bound fields are found");
  auto get = [&](jobject o, jfieldID i) { return st ? Tr<T>::get(env, c, i) : Tr<T>::get(env, o, i); };
  auto set = [&](jobject o, jfieldID i, T x) { if (st) Tr<T>::set(env, c, i, x); else Tr<T>::set(env, o, i, x); };
  SX_ASSERT(same(get(o1, f), shared ? s : a) && same(get(o1, g), shared ? s2 : b), "a read sees the bound variable");
  SX_ASSERT(same(get(o2, f), shared ? s : a2), "a read sees the bound variable of its own object");
  set(o1, f, v);
  SX_ASSERT(!env->ExceptionCheck(), "nothing is pending");
  SX_ASSERT(same(get(o1, f), v), "a read returns the value last written");
  SX_ASSERT(same(get(o1, g), shared ? s2 : b) && same(get(o2, g), shared ? s2 : b2), "other fields keep their value");
  SX_ASSERT(same(get(o2, f), shared ? v : a2), "the same field of another object keeps its value");
  SX_ASSERT(same(shared ? Holder<T>::s : h1->f, v), "the program sees what was written");
  SX_ASSERT(same(h1->g, b) && same(h2->f, a2) && same(h2->g, b2) && same(Holder<T>::s2, s2), "nothing else is written");
  (shared ? Holder<T>::s : h1->f) = w;
  SX_ASSERT(same(get(o1, f), w), "a read sees what the program wrote");
  sx_obs("r", get(o1, f));
  sx_reach(st ? "static" : "instance");
  if (depth) sx_reach("inherited");
}
struct Flag : public Extends<Object> { bool f = false; jint after = 7; };
static void boolean(VM &vm) {
  JNIEnv *env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  auto c = e->GetClass<Flag>("p/Flag");
  c->Hook(e, "f", &Flag::f);
  auto h = std::make_shared<Flag>();
  jobject o = JNITypes<std::shared_ptr<Flag>>::ToJNIType(e, h);
  jfieldID f = env->GetFieldID(env->FindClass("p/Flag"), "f", "Z");
  jboolean v = sx_any<jboolean>("v");
  env->SetBooleanField(o, f, v);
  SX_ASSERT(env->GetBooleanField(o, f) == (v ? 1 : 0) && h->f == (v != 0) && h->after == 7, "a truth value survives as one");
  sx_reach("bool");
}
// reference fields
static int live;
struct Val : public Extends<Object> { Val() { live++; } ~Val() { live--; } };
struct RefHolder : public Extends<Object> { std::shared_ptr<Val> f, g; std::shared_ptr<String> t; jint n = 4; std::shared_ptr<Array<Val>> a; static std::shared_ptr<Val> s; };
std::shared_ptr<Val> RefHolder::s;
static void refs(VM &vm) {
  JNIEnv *env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  e->GetClass<Val>("p/Val");
  auto c = e->GetClass<RefHolder>("p/RefHolder");
  RefHolder::s = nullptr;
  live = 0;
  bool fn = sx_choose(2, "functions"), st = sx_choose(2, "static");
  if (!fn) { c->Hook(e, "f", &RefHolder::f); c->Hook(e, "g", &RefHolder::g); c->Hook(e, "s", &RefHolder::s); c->Hook(e, "t", &RefHolder::t); }
  else {
    c->HookInstanceGetterFunction(e, "f", [](RefHolder *o) { return o->f; });
    c->HookInstanceSetterFunction(e, "f", [](RefHolder *o, std::shared_ptr<Val> v) { o->f = v; });
    c->Hook(e, "g", &RefHolder::g);
    c->Hook(e, "t", &RefHolder::t);
    c->HookGetterFunction(e, "s", [](Class *) { return RefHolder::s; });
    c->HookSetterFunction(e, "s", [](Class *, std::shared_ptr<Val> v) { RefHolder::s = v; });
  }
  // other fields of the same name
  c->Hook(e, "f", &RefHolder::t);
  c->Hook(e, "f", &RefHolder::n);
  c->Hook(e, "f", &RefHolder::a);
  auto h = std::make_shared<RefHolder>();
  jclass cl = env->FindClass("p/RefHolder");
  jobject o = JNITypes<std::shared_ptr<RefHolder>>::ToJNIType(e, h);
  jfieldID f = st ? env->GetStaticFieldID(cl, "s", "Lp/Val;") : env->GetFieldID(cl, "f", "Lp/Val;");
  jfieldID g = env->GetFieldID(cl, "g", "Lp/Val;");
  SX_ASSERT(f && g, "reference fields are found by their type");
  auto get = [&] { return st ? env->GetStaticObjectField(cl, f) : env->GetObjectField(o, f); };
  auto set = [&](jobject v) { st ? env->SetStaticObjectField(cl, f, v) : env->SetObjectField(o, f, v); };
  SX_ASSERT(get() == nullptr, "an empty field reads null");
  env->PushLocalFrame(4);
  auto v = std::make_shared<Val>();
  Val *raw = v.get();
  jobject l = JNITypes<std::shared_ptr<Val>>::ToJNIType(e, v);
  jobject ref = l;
  unsigned rk = sx_choose(3, "reference"); // any kind of reference to the object
  if (rk == 1) ref = env->NewGlobalRef(l);
  if (rk == 2) ref = env->NewWeakGlobalRef(l);
  set(ref);
  if (rk == 1) env->DeleteGlobalRef(ref);
  if (rk == 2) env->DeleteWeakGlobalRef(ref);
  v = nullptr;
  env->PopLocalFrame(nullptr);
  SX_ASSERT(live == 1, "a field keeps its object alive");
  env->PushLocalFrame(4);
  jobject r = get();
  SX_ASSERT(r == (jobject)(Object *)raw, "a field reads back the object written to it");
  SX_ASSERT((st ? RefHolder::s : h->f).get() == raw && !h->g, "the object itself is stored, in that field");
  SX_ASSERT(env->GetObjectRefType(r) == JNILocalRefType, "a read gives a local reference");
  env->PopLocalFrame(nullptr);
  SX_ASSERT(live == 1, "a field keeps its object alive");
  if (sx_choose(2, "overwrite")) {
    env->PushLocalFrame(4);
    jobject l2 = JNITypes<std::shared_ptr<Val>>::ToJNIType(e, std::make_shared<Val>());
    set(l2);
    SX_ASSERT(env->IsSameObject(get(), l2), "a field reads back the object last written");
    env->PopLocalFrame(nullptr);
    SX_ASSERT(live == 1, "a replaced object is released");
    sx_reach("overwrite");
  } else {
    set(nullptr);
    SX_ASSERT(get() == nullptr && live == 0, "a cleared field reads null and releases its object");
    sx_reach("clear");
  }
  // a string field, and more fields of that name
  jfieldID t = env->GetFieldID(cl, sx_choose(2, "samename") ? "f" : "t", "Ljava/lang/String;"), fint = env->GetFieldID(cl, "f", "I"), fa = env->GetFieldID(cl, "f", "[Lp/Val;");
  SX_ASSERT(t && fint && fa && t != f && fint != f && fa != f && !env->GetObjectField(o, t) && env->GetIntField(o, fint) == 4 && !env->GetObjectField(o, fa), "fields of one name and other types are other fields");
  char buf[3] = {sx_any<char>("t0"), sx_any<char>("t1"), 0};
  sx_assume(buf[0] > 0 && buf[1] > 0);
  env->SetObjectField(o, t, env->NewStringUTF(buf));
  SX_ASSERT(h->t && h->t->size() == 2 && (*h->t)[0] == buf[0] && (*h->t)[1] == buf[1], "a string written to a field is the string the program sees");
  SX_ASSERT(h->n == 4 && !h->a && !h->g, "other fields keep their value");
  jint n = sx_any<jint>("n");
  env->SetIntField(o, fint, n);
  jobjectArray arr = env->NewObjectArray(1, env->FindClass("p/Val"), nullptr);
  env->SetObjectField(o, fa, arr);
  SX_ASSERT(h->n == n && (Object *)h->a.get() == (Object *)JNITypes<std::shared_ptr<Object>>::JNICast(e, arr).get() && env->GetIntField(o, fint) == n && env->GetObjectField(o, fa) == (jobject)arr && h->t && h->t->size() == 2, "fields of one name and other types are other fields");
  RefHolder::s = nullptr;
  sx_reach("refs");
}
int main() {
  VM vm(false, sx_choose(2, "lookuponly"));
  switch (sx_choose(10, "type")) {
  case 0: prim<jboolean>(vm); break;
  case 1: prim<jbyte>(vm); break;
  case 2: prim<jchar>(vm); break;
  case 3: prim<jshort>(vm); break;
  case 4: prim<jint>(vm); break;
  case 5: prim<jlong>(vm); break;
  case 6: prim<jfloat>(vm); break;
  case 7: prim<jdouble>(vm); break;
  case 8: boolean(vm); break;
  case 9: refs(vm); break;
  }
  sx_reach("end");
  return 0;
}
