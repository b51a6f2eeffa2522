// C31: references reach C++ code as the object they denote, or not at all.
#include "common.h"
using namespace jnivm;
struct I : public Extends<Object> {};
struct A : public Extends<Object> { jint pad = 5; };
struct K : public Extends<A, I> { jint self(jint x) { return x; } };
struct M : public Extends<A> {};
struct L : public Extends<Object> { jint pad[4]; };
static ENV *e;
static JNIEnv *env;
// what arrived
static int ran;
static void *got; // the Object
static bool gotNull;
template <class P> struct Obj { static void *of(P *p) { return dynamic_cast<void *>(p); } };
template <class P> static void record(P *p) {
  ran++;
  gotNull = !p;
  got = p ? dynamic_cast<void *>(p) : nullptr;
}
// the values passed
enum { VALUES = 13 };
static std::shared_ptr<Object> value[VALUES];
static jobject ref[VALUES];
template <class P> struct Ty;
#define TY(P, S, ...) template <> struct Ty<P> { static const char *sig() { return S; } static bool takes(int v) { static const int ok[] = {__VA_ARGS__}; for (int i : ok) if (i == v) return true; return false; } };
// 0 null 1 A 2 K 3 L 4 string 5 int[] 6 byte[] 7 A[] 8 M[] 9 class 10 throwable 11 Object 12 Object[]
TY(Object, "Ljava/lang/Object;", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)
TY(A, "Lp/A;", 1, 2)
TY(I, "Lp/I;", 2)
TY(K, "Lp/K;", 2)
TY(String, "Ljava/lang/String;", 4)
TY(Class, "Ljava/lang/Class;", 9)
TY(Throwable, "Ljava/lang/Throwable;", 10)
TY(Array<jint>, "[I", 5)
TY(Array<jbyte>, "[B", 6)
TY(Array<A>, "[Lp/A;", 7, 8)
TY(Array<M>, "[Lp/M;", 8)
TY(Array<Object>, "[Ljava/lang/Object;", 7, 8, 12)
static jclass jc;
static std::shared_ptr<Class> cl;
static std::shared_ptr<K> recv;
static jobject jrecv;
// refers to value v by some kind of reference; dead: a weak reference to a released object
static jobject refer(int v, bool &dead) {
  dead = false;
  if (!v) return nullptr;
  switch (sx_choose(4, "ref")) {
  case 0: return ref[v];
  case 1: return env->NewGlobalRef(ref[v]);
  case 2: return env->NewWeakGlobalRef(ref[v]);
  default: {
    env->PushLocalFrame(2);
    jobject w = env->NewWeakGlobalRef(env->NewObjectArray(0, jc, nullptr));
    env->PopLocalFrame(nullptr);
    dead = true;
    return w;
  }
  }
}
template <class P> static void run() {
  int v = sx_choose(VALUES, "value");
  bool dead;
  jobject r = refer(v, dead);
  bool null = !v || dead, refused;
  std::string sig = std::string("(") + Ty<P>::sig() + ")V";
  int form = std::is_base_of<Array<void>, P>::value ? 0 : /* arrays are passed as shared_ptr only */ sx_choose(4, "form");
  refused = !null && !Ty<P>::takes(v);
  auto call = [&](bool st) {
    jmethodID m = st ? env->GetStaticMethodID(jc, "f", sig.c_str()) : env->GetMethodID(jc, "f", sig.c_str());
    jvalue a;
    memset(&a, 0x5A, sizeof a);
    a.l = r;
    bool arr = sx_choose(2, "array");
    if (st) arr ? env->CallStaticVoidMethodA(jc, m, &a) : env->CallStaticVoidMethod(jc, m, r);
    else arr ? env->CallVoidMethodA(jrecv, m, &a) : env->CallVoidMethod(jrecv, m, r);
  };
  if (form == 0) {
    cl->Hook(e, "f", [](ENV *, Class *, std::shared_ptr<P> p) { record(p.get()); });
    call(true);
  }
  if constexpr (!std::is_base_of<Array<void>, P>::value) switch (form) {
  case 1: cl->HookInstanceFunction(e, "f", [](ENV *, Object *, P *p) { record(p); }); call(false); break;
  case 2:
    cl->Hook(e, "f", [](ENV *, Class *, P &p) { record(&p); });
    call(true);
    refused |= null;
    break;
  case 3:
    cl->HookInstanceFunction(e, "f", [](ENV *, Object *, const P &p) { record(const_cast<P *>(&p)); });
    call(false);
    refused |= null;
    break;
  }
  if (refused) {
    SX_ASSERT(!ran && env->ExceptionCheck(), "a reference to another type is refused");
    sx_reach("refused");
  } else {
    SX_ASSERT(ran == 1 && !env->ExceptionCheck(), "the implementation runs");
    SX_ASSERT(null ? gotNull : got == dynamic_cast<void *>(value[v].get()), "with the object");
    sx_reach(null ? "null" : "same");
  }
}
// fields, setters, receivers and constructors
struct F : public Extends<A> { std::shared_ptr<A> a; std::shared_ptr<String> s; std::shared_ptr<Array<jint>> n; static std::shared_ptr<A> sa; };
std::shared_ptr<A> F::sa;
static void places() {
  int v = sx_choose(VALUES, "value");
  bool dead;
  jobject r = refer(v, dead);
  bool null = !v || dead;
  auto fc = e->GetClass<F>("p/F");
  jclass jf = env->FindClass("p/F");
  auto o = std::make_shared<F>();
  jobject jo = JNITypes<std::shared_ptr<F>>::ToJNIType(e, o);
  auto ka = std::make_shared<K>();
  auto ks = std::make_shared<String>(std::string("x"));
  auto kn = std::make_shared<Array<jint>>(1);
  o->a = F::sa = ka;
  o->s = ks;
  o->n = kn;
  Object *now = nullptr, *before = nullptr;
  bool ok = null;
  int k = sx_choose(7, "place");
  switch (k) {
  case 0: fc->Hook(e, "a", &F::a); env->SetObjectField(jo, env->GetFieldID(jf, "a", "Lp/A;"), r); now = o->a.get(); before = ka.get(); ok |= Ty<A>::takes(v); break;
  case 1: fc->Hook(e, "s", &F::s); env->SetObjectField(jo, env->GetFieldID(jf, "s", "Ljava/lang/String;"), r); now = o->s.get(); before = ks.get(); ok |= Ty<String>::takes(v); break;
  case 2: fc->Hook(e, "n", &F::n); env->SetObjectField(jo, env->GetFieldID(jf, "n", "[I"), r); now = o->n.get(); before = kn.get(); ok |= Ty<Array<jint>>::takes(v); break;
  case 3: fc->Hook(e, "sa", &F::sa); env->SetStaticObjectField(jf, env->GetStaticFieldID(jf, "sa", "Lp/A;"), r); now = F::sa.get(); before = ka.get(); ok |= Ty<A>::takes(v); break;
  case 4: fc->HookInstanceSetterFunction(e, "a", [](ENV *, F *o, std::shared_ptr<A> a) { o->a = a; ran++; }); env->SetObjectField(jo, env->GetFieldID(jf, "a", "Lp/A;"), r); now = o->a.get(); before = ka.get(); ok |= Ty<A>::takes(v); SX_ASSERT(ran == ok, "the setter runs"); break;
  case 5: { // the receiver
    cl->Hook(e, "self", &K::self);
    jmethodID m = env->GetMethodID(jc, "self", "(I)I");
    sx_assume(!null);
    jint got = env->CallIntMethod(r, m, 9);
    ok = v == 2;
    SX_ASSERT(got == (ok ? 9 : 0) && env->ExceptionCheck() == !ok, "a member function runs on objects of its class");
    sx_reach("receiver");
    F::sa = nullptr;
    return;
  }
  default: { // constructor argument
    cl->Hook(e, "<init>", [](ENV *, Class *, std::shared_ptr<A> a) { record(a.get()); return std::make_shared<K>(); });
    jobject n = env->NewObject(jc, env->GetMethodID(jc, "<init>", "(Lp/A;)V"), r);
    ok |= Ty<A>::takes(v);
    SX_ASSERT(ok ? n && ran == 1 && !env->ExceptionCheck() && (null ? gotNull : got == dynamic_cast<void *>(value[v].get()))   : !ran && env->ExceptionCheck(), "a constructor takes objects of its parameter's class");
    sx_reach("constructor");
    F::sa = nullptr;
    return;
  }
  }
  SX_ASSERT(env->ExceptionCheck() == !ok, "a field refuses what is not of its type");
  SX_ASSERT(now == (!ok ? before : null ? nullptr : value[v].get()), "a field keeps its value then");
  sx_reach(ok ? "stored" : "kept");
  F::sa = nullptr;
}
int main() {
  VM vm;
  env = vm.GetJNIEnv();
  e = vm.GetEnv().get();
  e->GetClass<A>("p/A");
  e->GetClass<I>("p/I");
  cl = e->GetClass<K>("p/K");
  e->GetClass<L>("p/L");
  e->GetClass<M>("p/M");
  jc = env->FindClass("p/K");
  recv = std::make_shared<K>();
  jrecv = JNITypes<std::shared_ptr<K>>::ToJNIType(e, recv);
  value[1] = std::make_shared<A>();
  value[2] = std::make_shared<K>();
  value[3] = std::make_shared<L>();
  value[4] = std::make_shared<String>(std::string("y"));
  value[5] = std::make_shared<Array<jint>>(2);
  value[6] = std::make_shared<Array<jbyte>>(2);
  value[7] = std::make_shared<Array<A>>(2);
  value[8] = std::make_shared<Array<M>>(2);
  value[9] = e->GetClass("p/A");
  value[10] = std::make_shared<Throwable>();
  value[11] = std::make_shared<Object>();
  value[12] = std::make_shared<Array<Object>>(2);
  for (int v = 1; v < VALUES; v++) ref[v] = JNITypes<std::shared_ptr<Object>>::ToJNIType(e, value[v]);
  if (sx_choose(2, "what")) places();
  else switch (sx_choose(12, "type")) {
    case 0: run<Object>(); break;
    case 1: run<A>(); break;
    case 2: run<I>(); break;
    case 3: run<K>(); break;
    case 4: run<String>(); break;
    case 5: run<Class>(); break;
    case 6: run<Throwable>(); break;
    case 7: run<Array<jint>>(); break;
    case 8: run<Array<jbyte>>(); break;
    case 9: run<Array<A>>(); break;
    case 10: run<Array<M>>(); break;
    default: run<Array<Object>>(); break;
    }
  env->ExceptionClear();
  SX_ASSERT(dynamic_cast<A *>(value[1].get())->pad == 5, "nothing else changes");
  sx_reach("end");
  return 0;
}
