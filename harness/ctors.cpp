// C07: constructors belong to their own class.
#include "jni_types.h"
using namespace jnivm;
struct A : public Extends<Object> { jint v = 0; };
struct B : public Extends<A> {};
struct C : public Extends<B> {};
template <class T, class P, int K> static void ctor(ENV *e, Class *c) {
  c->Hook(e, "<init>", [](ENV *, Class *, P p) { auto r = std::make_shared<T>(); r->v = K + (p == 7 ? 1 : 0); return r; });
}
int main() {
  bool lookup = sx_choose(2, "lookuponly");
  VM vm(false, lookup);
  JNIEnv *env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  static const char *cn[] = {"p/A", "p/B", "p/Outer$C"};
  std::shared_ptr<Class> cl[3] = {e->GetClass<A>(cn[0]), e->GetClass<B>(cn[1]), e->GetClass<C>(cn[2])};
  unsigned mi = sx_choose(8, "intctor"), mj = sx_choose(8, "longctor");
  if (mi & 1) ctor<A, jint, 100>(e, cl[0].get());
  if (mj & 1) ctor<A, jlong, 110>(e, cl[0].get());
  if (mi & 2) ctor<B, jint, 200>(e, cl[1].get());
  if (mj & 2) ctor<B, jlong, 210>(e, cl[1].get());
  if (mi & 4) ctor<C, jint, 300>(e, cl[2].get());
  if (mj & 4) ctor<C, jlong, 310>(e, cl[2].get());
  unsigned k = sx_choose(3, "class");
  bool wide = sx_choose(2, "wide");
  // the return part of a constructor descriptor is void, as the interface demands
  jclass c = env->FindClass(cn[k]);
  jmethodID m = env->GetMethodID(c, "<init>", wide ? "(J)V" : "(I)V");
  bool has = (wide ? mj : mi) >> k & 1;
  if (lookup) SX_ASSERT((m != nullptr) == has, "exactly the constructors of the class itself are found");
  else SX_ASSERT(m != nullptr, "a constructor lookup gives an id");
  SX_ASSERT(env->GetMethodID(c, "<init>", wide ? "(J)V" : "(I)V") == m, "the same lookup gives the same id");
  if (m) {
    jlong a = sx_any<jlong>("a");
    jobject o = wide ? env->NewObject(c, m, a) : env->NewObject(c, m, (jint)a);
    SX_ASSERT(!env->ExceptionCheck(), "nothing is pending");
    if (has) {
      auto p = JNITypes<std::shared_ptr<A>>::JNICast(e, o);
      bool seven = wide ? a == 7 : (jint)a == 7;
      SX_ASSERT(p && p->v == (jint)((k + 1) * 100 + (wide ? 10 : 0)) + (seven ? 1 : 0), "the constructor of the class runs with the arguments given");
      SX_ASSERT(env->IsSameObject(env->GetObjectClass(o), c), "a constructed object is of the class constructed");
      sx_reach("constructed");
    } else sx_reach("unknown");
  } else sx_reach("none");
  sx_reach("end");
  return 0;
}
