// C12: subtype queries agree with the declared inheritance.
#include "jni_types.h"
using namespace jnivm;
struct I1 : public Extends<Object> {};
struct I2 : public Extends<I1> {};
struct A : public Extends<Object> {};
struct B : public Extends<A, I1> {};
struct C : public Extends<B> {};
struct D : public Extends<A, I2> {};
struct X : public Extends<Throwable> {};
enum { OBJ, THR, cI1, cI2, cA, cB, cC, cD, cX, cF, cG, cH, cJ, cL, cM, N };
static const char *names[N] = {"java/lang/Object", "java/lang/Throwable", "p/I1", "p/I2", "p/A", "p/B", "p/Outer$C", "D", "p/X", "p/Fab", "p/Outer$Fab", "q/B", "q/Outer$C", "B", "p/Throwable"};
static const int bases[N][2] = {{-1, -1}, {-1, -1}, {OBJ, -1}, {cI1, -1}, {OBJ, -1}, {cA, cI1}, {cB, -1}, {cA, cI2}, {THR, -1}, {-1, -1}, {-1, -1}, {-1, -1}, {-1, -1}, {-1, -1}, {-1, -1}};
static bool sub(int a, int b) {
  if (a == b) return true;
  for (int k = 0; k < 2; k++) if (bases[a][k] >= 0 && sub(bases[a][k], b)) return true;
  return false;
}
static void reg(ENV *e, int k) {
  switch (k) {
  case cI1: e->GetClass<I1>(names[k]); break;
  case cI2: e->GetClass<I2>(names[k]); break;
  case cA: e->GetClass<A>(names[k]); break;
  case cB: e->GetClass<B>(names[k]); break;
  case cC: e->GetClass<C>(names[k]); break;
  case cD: e->GetClass<D>(names[k]); break;
  case cX: e->GetClass<X>(names[k]); break;
  }
}
static jobject make(ENV *e, JNIEnv *env, int k) {
  switch (k) {
  case cI1: return JNITypes<std::shared_ptr<I1>>::ToJNIType(e, std::make_shared<I1>());
  case cI2: return JNITypes<std::shared_ptr<I2>>::ToJNIType(e, std::make_shared<I2>());
  case cA: return JNITypes<std::shared_ptr<A>>::ToJNIType(e, std::make_shared<A>());
  case cB: return JNITypes<std::shared_ptr<B>>::ToJNIType(e, std::make_shared<B>());
  case cC: return JNITypes<std::shared_ptr<C>>::ToJNIType(e, std::make_shared<C>());
  case cD: return JNITypes<std::shared_ptr<D>>::ToJNIType(e, std::make_shared<D>());
  case cX: return JNITypes<std::shared_ptr<X>>::ToJNIType(e, std::make_shared<X>());
  case OBJ: return JNITypes<std::shared_ptr<Object>>::ToJNIType(e, std::make_shared<Object>());
  case THR: return JNITypes<std::shared_ptr<Throwable>>::ToJNIType(e, std::make_shared<Throwable>());
  default: { auto o = std::make_shared<Object>(); o->clazz = e->GetClass(names[k]); return JNITypes<std::shared_ptr<Object>>::ToJNIType(e, o); }
  }
}
static jobject refd(JNIEnv *env, jobject o, const char *n) { // the same reference as local, global or weak global reference
  switch (sx_choose(3, n)) {
  case 1: return env->NewGlobalRef(o);
  case 2: return env->NewWeakGlobalRef(o);
  }
  return o;
}
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  // registration order does not matter, and native code may see a class first
  int rot = sx_choose(7, "order"), first = sx_choose(2, "seenfirst");
  if (first) for (int k = 0; k < N; k++) env->FindClass(names[k]);
  bool rev = sx_choose(2, "reverse");
  for (int i = 0; i < 7; i++) { int k = (i + rot) % 7; reg(e, cI1 + (rev ? 6 - k : k)); }
  int a = sx_choose(N, "class");
  jclass ca = env->FindClass(names[a]);
  jclass ra = (jclass)refd(env, ca, "refa");
  jclass sc = env->GetSuperclass(ra);
  if (bases[a][0] >= 0) SX_ASSERT(env->IsSameObject(sc, env->FindClass(names[bases[a][0]])), "the superclass is the first declared base");
  else SX_ASSERT(!sc, "a class without declared bases has no superclass");
  jobject o = make(e, env, a);
  SX_ASSERT(env->IsSameObject(env->GetObjectClass(o), ca), "the class of an object");
  jobject ro = refd(env, o, "refo");
  SX_ASSERT(env->IsSameObject(env->GetObjectClass(ro), ca), "the class of an object does not depend on the reference used");
  for (int b = 0; b < N; b++) {
    jclass cb = env->FindClass(names[b]);
    SX_ASSERT((bool)env->IsAssignableFrom(ra, cb) == sub(a, b), "assignable exactly to the class itself and the declared bases of its bases");
    SX_ASSERT((bool)env->IsAssignableFrom(cb, ra) == sub(b, a), "assignable exactly from the class itself and its heirs");
    SX_ASSERT((bool)env->IsInstanceOf(ro, cb) == sub(a, b), "an object is an instance of exactly its class and the declared bases");
  }
  // array classes: related to no class that has another number of dimensions or a primitive element type of its own
  static const char *arrays[] = {"[I", "[J", "[[I", "[Lp/A;", "[[Lp/A;", "[LD;", "[[[Lp/A;"};
  int x = sx_choose(7, "array");
  jclass cx = env->FindClass(arrays[x]);
  SX_ASSERT(cx && env->IsAssignableFrom(cx, cx), "a class is assignable to itself");
  for (int y = 0; y < 7; y++) {
    jclass cy = env->FindClass(arrays[y]);
    if (x == y || (x == 5 && y == 3)) continue; // whether arrays of heirs are arrays of their ancestors is left open
    SX_ASSERT(!env->IsAssignableFrom(cx, cy), "arrays of different types are not assignable");
  }
  if (a != OBJ) SX_ASSERT(!env->IsAssignableFrom(cx, ca), "an array is no instance of a class");
  SX_ASSERT(!env->IsAssignableFrom(ca, cx) && !env->IsInstanceOf(ro, cx), "an object is no array");
  SX_ASSERT(!env->ExceptionCheck(), "nothing pending");
  sx_reach("end");
  return 0;
}
