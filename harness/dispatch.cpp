// C05: which implementation a call selects.
#include "jni_types.h"
using namespace jnivm;
struct I1 : public Extends<Object> {};
struct A : public Extends<Object> {};
struct B : public Extends<A, I1> {};
struct C : public Extends<B> {};
struct D : public Extends<C> {};
static int which = -1;
static void *self;
static const char *names[] = {"p/A", "p/B", "p/C", "p/D", "p/I1"};
template <int K> static void hook(ENV *e, Class *c) {
  c->HookInstanceFunction(e, "m", [](ENV *, Object *o, jint v) -> jint { which = K; self = o; return v + K; });
}
template <int K> static void hookS(ENV *e, Class *c) {
  c->Hook(e, "m", [](ENV *, Class *o, jint v) -> jint { which = K + 100; return v + K; });
}
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  e->GetClass<I1>("p/I1");
  std::shared_ptr<Class> cl[5] = {e->GetClass<A>("p/A"), e->GetClass<B>("p/B"), e->GetClass<C>("p/C"), e->GetClass<D>("p/D"), e->GetClass("p/I1")};
  unsigned mask = sx_choose(32, "defines"); // which of A,B,C,D,I1 implement m(I)I
  if (mask & 1) hook<0>(e, cl[0].get());
  if (mask & 2) hook<1>(e, cl[1].get());
  if (mask & 4) hook<2>(e, cl[2].get());
  if (mask & 8) hook<3>(e, cl[3].get());
  if (mask & 16) hook<4>(e, cl[4].get());
  bool decoy = sx_choose(2, "decoy"); // static methods of the same name and signature never interfere
  if (decoy) { hookS<0>(e, cl[0].get()); hookS<1>(e, cl[1].get()); hookS<2>(e, cl[2].get()); hookS<3>(e, cl[3].get()); }
  // the implementation a class has: its own, else its first base's (searched in order)
  auto impl = [&](int k) -> int {
    if (k == 4) return mask & 16 ? 4 : -1;
    for (int i = k; i >= 0; i--) {
      if (mask >> i & 1) return i;
      if (i == 1) { // bases of B are A then I1
        if (mask & 1) return 0;
        return mask & 16 ? 4 : -1;
      }
    }
    return -1;
  };
  unsigned oc = sx_choose(4, "objclass");
  std::shared_ptr<Object> o;
  switch (oc) {
  case 0: o = std::make_shared<A>(); break;
  case 1: o = std::make_shared<B>(); break;
  case 2: o = std::make_shared<C>(); break;
  case 3: o = std::make_shared<D>(); break;
  }
  o->clazz = cl[oc];
  jobject jo = JNITypes<std::shared_ptr<Object>>::ToJNIType(e, o);
  unsigned lc = sx_choose(5, "lookupclass"); // the method id comes from a class the object is an instance of
  sx_assume(lc <= oc || (lc == 4 && oc >= 1));
  jint v = sx_any<jint>("v");
  jclass jl = env->FindClass(names[lc]);
  jmethodID m = env->GetMethodID(jl, "m", "(I)I");
  SX_ASSERT(m != nullptr, "the method is found");
  jvalue jv;
  jv.i = v;
  bool vir = sx_choose(2, "nonvirtual") == 0;
  jint r;
  int want;
  if (vir) {
    r = sx_choose(2, "array") ? env->CallIntMethodA(jo, m, &jv) : env->CallIntMethod(jo, m, v);
    want = impl(oc);
    SX_ASSERT(which == want, "a virtual call runs the implementation of the object's own class, or the nearest inherited one");
    sx_reach("virtual");
  } else {
    unsigned nc = sx_choose(5, "namedclass"); // any class of the object that has an implementation
    sx_assume(nc <= oc || (nc == 4 && oc >= 1));
    sx_assume(impl(nc) >= 0 || impl(lc) < 0);
    jclass jn = env->FindClass(names[nc]);
    r = sx_choose(2, "array") ? env->CallNonvirtualIntMethodA(jo, jn, m, &jv) : env->CallNonvirtualIntMethod(jo, jn, m, v);
    want = impl(nc);
    SX_ASSERT(which == want, "a non-virtual call runs the implementation the named class has or inherits");
    sx_reach("nonvirtual");
  }
  SX_ASSERT(!env->ExceptionCheck(), "no exception");
  if (impl(lc) < 0) sx_reach(want < 0 ? "nowhere" : "abstract"); // the id itself has no implementation
  if (want >= 0) {
    SX_ASSERT(r == (jint)((uint32_t)v + want), "result of the selected implementation");
    SX_ASSERT(self == o.get(), "receiver");
  } else SX_ASSERT(r == 0, "nothing implements it");
  // an overload with another signature is a different method
  sx_reach("end");
  return 0;
}
