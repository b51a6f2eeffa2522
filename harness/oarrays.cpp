// C16: object arrays.
#include "jni_types.h"
using namespace jnivm;
static int live[24];
static int nextId;
struct A : public Extends<Object> {
  int id; jint a = 11;
  A() { id = nextId++; live[id]++; }
  A(const A &o) : a(o.a) { id = nextId++; live[id]++; }
  ~A() { live[id]--; }
};
struct B : public Extends<A> { jint b = 22; };
struct C : public Extends<B> { jint c = 33; };
struct D : public Extends<A> { jint d = 44; };
static const char *names[] = {"p/A", "p/B", "p/C", "p/D"};
static ENV *e;
static JNIEnv *env;
struct Item { jobject ref; Object *obj; int cls, id; };
template <class T> static Item item(int cls) {
  auto p = std::make_shared<T>();
  Item i{JNITypes<std::shared_ptr<T>>::ToJNIType(e, p), (Object *)p.get(), cls, p->id};
  return i;
}
static Item make(int cls) { return cls == 0 ? item<A>(0) : cls == 1 ? item<B>(1) : cls == 2 ? item<C>(2) : item<D>(3); }
static bool isA(int cls, int base) { return cls == base || base == 0 || (cls == 2 && base == 1) || base < 0; }
static jobject refd(jobject o, const char *n) {
  switch (sx_choose(3, n)) {
  case 1: return env->NewGlobalRef(o);
  case 2: return env->NewWeakGlobalRef(o);
  }
  return o;
}
static void intact(Object *o, int cls) { // the object still looks like itself through every one of its types
  auto a = dynamic_cast<A *>(o);
  SX_ASSERT(a && a->a == 11, "object intact");
  if (cls == 1 || cls == 2) SX_ASSERT(dynamic_cast<B *>(o) && dynamic_cast<B *>(o)->b == 22, "object intact");
  if (cls == 2) SX_ASSERT(dynamic_cast<C *>(o) && dynamic_cast<C *>(o)->c == 33, "object intact");
}
// arrays made by native code; typed ones keep to their element type
static void viaInterface() {
  e->GetClass("p/Plain");
  // a method taking B[] makes the typed array of B known
  e->GetClass<B>("p/B")->HookInstanceFunction(e, "take", [](ENV *, Object *, std::shared_ptr<Array<B>> a) -> jint { return a ? a->getSize() : -1; });
  env->PushLocalFrame(32);
  int n = sx_choose(4, "length");
  if (n == 3) n = 19;
  int cls = (int)sx_choose(3, "elementclass") - 1; // -1: java.lang.Object, 0: A (no typed array known), 1: B (typed)
  bool typed = cls == 1;
  int icls = 1 + sx_choose(2, "initclass"); // B or C
  Item init = make(icls), other = make(sx_choose(4, "otherclass"));
  bool noinit = sx_choose(2, "noinit");
  jclass jc = env->FindClass(cls < 0 ? "java/lang/Object" : names[cls]);
  jobjectArray a = env->NewObjectArray(n, jc, noinit ? nullptr : refd(init.ref, "initref"));
  SX_ASSERT(a && env->GetArrayLength(a) == n, "the length asked for");
  std::string an = std::string("[L") + (cls < 0 ? "java/lang/Object" : names[cls]) + ";";
  SX_ASSERT(env->IsSameObject(env->GetObjectClass(a), env->FindClass(an.c_str())), "the class of an array");
  Object *model[19] = {};
  int mcls[19];
  for (int &m : mcls) m = icls;
  for (int i = 0; i < n; i++) model[i] = noinit ? nullptr : init.obj;
  int stores = sx_param("STORES", 1);
  for (int s = 0; n && s < stores; s++) {
    int i = n > 2 ? (sx_choose(2, "end") ? n - 1 : 8) : (int)sx_choose(n, "index");
    bool clear = sx_choose(2, "clear");
    bool ok = clear || !typed || isA(other.cls, 1);
    bool threw = false;
    try { env->SetObjectArrayElement(a, i, clear ? nullptr : refd(other.ref, "otherref")); } catch (...) { threw = true; }
    if (!ok) {
      SX_ASSERT(!threw && env->ExceptionCheck(), "an object of another type is refused with an exception");
      env->ExceptionClear();
      sx_reach("refused");
    } else {
      SX_ASSERT(!threw && !env->ExceptionCheck(), "an object of the element type, or null, is stored");
      model[i] = clear ? nullptr : other.obj;
      mcls[i] = other.cls;
      sx_reach("stored");
    }
  }
  for (int i = 0; i < n; i++) {
    jobject r = env->GetObjectArrayElement(a, i);
    SX_ASSERT((Object *)r == model[i], "an element read is the element stored");
    SX_ASSERT(env->GetObjectRefType(r) == (r ? JNILocalRefType : JNIInvalidRefType), "an element read is a local reference");
    if (r) intact((Object *)r, mcls[i]);
    env->DeleteLocalRef(r);
  }
  if (typed) {
    jmethodID m = env->GetMethodID(env->FindClass("p/B"), "take", "([Lp/B;)I");
    SX_ASSERT(m, "method");
    SX_ASSERT(env->CallIntMethod(make(1).ref, m, a) == n && !env->ExceptionCheck(), "an array of the declared type can be passed to a method");
    SX_ASSERT(env->CallIntMethod(make(1).ref, m, nullptr) == -1, "null array");
    sx_reach("typed");
  }
  jobject g = env->NewGlobalRef(a);
  env->PopLocalFrame(nullptr);
  bool hasInit = false, hasOther = false;
  for (int i = 0; i < n; i++) { hasInit |= model[i] == init.obj; hasOther |= model[i] == other.obj; }
  // global references made above may keep the objects too; only what nothing refers to must be gone
  SX_ASSERT(!hasInit || live[init.id] == 1, "an array keeps its elements alive");
  SX_ASSERT(!hasOther || live[other.id] == 1, "an array keeps its elements alive");
  env->DeleteGlobalRef(g);
}
// typed arrays of the C++ side seen through their base types
template <class V> static void view(std::shared_ptr<Array<C>> arr, int viewCls) {
  std::shared_ptr<Array<V>> v = arr;
  SX_ASSERT(v->getSize() == 2, "length through a base view");
  auto c0 = std::make_shared<C>();
  (*arr)[0] = c0;
  std::shared_ptr<V> got = (*v)[0];
  SX_ASSERT(got.get() == static_cast<V *>(c0.get()), "an element read through a base view is the same object");
  intact((Object *)got.get(), 2);
  const Array<V> &cv = *v;
  std::shared_ptr<V> got2 = cv[0];
  SX_ASSERT(got2.get() == got.get(), "an element read through a constant view is the same object");
  SX_ASSERT(!(*v)[1], "unset elements are null");
  // stores through the view
  Item o = make(sx_choose(4, "storedclass"));
  sx_assume(isA(o.cls, viewCls));
  auto p = std::dynamic_pointer_cast<V>(o.obj->shared_from_this());
  bool threw = false;
  int idx = sx_choose(2, "index");
  try { (*v)[idx] = p; } catch (const std::exception &) { threw = true; }
  SX_ASSERT(threw == !isA(o.cls, 2), "exactly objects of the element type can be stored through a base view");
  std::shared_ptr<C> back = (*arr)[idx];
  if (threw) {
    SX_ASSERT(back.get() == (idx == 0 ? c0.get() : nullptr), "a refused store changes nothing");
    sx_reach("view-refused");
  } else {
    SX_ASSERT((Object *)back.get() == o.obj && back->c == 33 && back->b == 22 && back->a == 11, "an element stored through a base view is the same object");
    sx_reach("view-stored");
  }
  (*v)[idx] = std::shared_ptr<V>();
  SX_ASSERT(!(*arr)[idx], "null stored through a base view");
  // copies are arrays of their own
  if (!sx_choose(2, "copy")) return;
  (*arr)[0] = c0;
  int assign = sx_choose(3, "assign");
  auto copy = assign == 0 ? std::make_shared<Array<V>>(*v) : std::make_shared<Array<V>>(assign == 1 ? 0 : 3);
  if (assign) { if (assign == 2) (*copy)[2] = std::make_shared<V>(); *copy = *v; *copy = *copy; }
  SX_ASSERT(copy->getSize() == 2, "length of a copy");
  SX_ASSERT(std::shared_ptr<V>((*copy)[0]).get() == static_cast<V *>(c0.get()) && !(*copy)[1], "elements of a copy");
  std::shared_ptr<Array<Object>> cb = copy;
  SX_ASSERT(std::shared_ptr<Object>((*cb)[0]).get() == static_cast<Object *>(c0.get()), "elements of a copy seen through a base view");
  (*copy)[1] = c0;
  (*copy)[0] = std::shared_ptr<V>();
  SX_ASSERT(!(*arr)[1] && std::shared_ptr<C>((*arr)[0]) == c0, "a copy has elements of its own");
  auto bigger = std::make_shared<Array<C>>(3);
  (*bigger)[2] = c0;
  std::shared_ptr<Array<V>> bv = bigger;
  *v = *bv; // assignment through a base view keeps the element type
  SX_ASSERT(arr->getSize() == 3 && !(*arr)[0] && std::shared_ptr<C>((*arr)[2]) == c0, "assigned through a base view");
  (*arr)[2] = std::shared_ptr<C>();
  // elements set by pointer and reference
  (*arr)[1] = c0.get();
  SX_ASSERT(std::shared_ptr<C>((*arr)[1]) == c0 && (C *)(*arr)[1] == c0.get() && &*(*arr)[1] == c0.get() && (*arr)[1]->c == 33, "an object stored by pointer");
  { // with one owner, as a base or as itself
    auto sole = std::make_shared<C>();
    sole->c = 66;
    switch (sx_choose(4, "sole")) {
    case 0: (*arr)[1] = sole.get(); break;
    case 1: (*arr)[1] = *sole; break;
    case 2: (*copy)[1] = sole.get(); break;
    default: (*copy)[1] = *sole;
    }
    bool own = std::shared_ptr<C>((*arr)[1]) == sole;
    SX_ASSERT(own || std::shared_ptr<V>((*copy)[1]).get() == static_cast<V *>(sole.get()), "an object with one owner is stored itself");
    SX_ASSERT(sole->c == 66 && sole.use_count() == 2, "and shared");
    C *raw = sole.get();
    int id = sole->id;
    sole = nullptr;
    SX_ASSERT(live[id] == 1 && raw->c == 66, "and kept alive");
  }
  (*bigger)[0] = *c0;
  SX_ASSERT(std::shared_ptr<C>((*bigger)[0]) == c0, "an object stored by reference");
  (*arr)[1] = (C *)nullptr;
  SX_ASSERT(!(*arr)[1], "null stored by pointer");
  C unmanaged;
  unmanaged.c = 55;
  (*arr)[1] = &unmanaged;
  (*bigger)[1] = unmanaged;
  SX_ASSERT((C *)(*arr)[1] && (C *)(*arr)[1] != &unmanaged && (*arr)[1]->c == 55 && (C *)(*bigger)[1] != &unmanaged && (*bigger)[1]->c == 55, "objects nobody shares are copied");
  (*arr)[1] = std::shared_ptr<C>();
  sx_reach("copied");
}
static void views() {
  auto arr = std::make_shared<Array<C>>(2);
  env->PushLocalFrame(8);
  int k = sx_choose(4, "view");
  switch (k) {
  case 0: view<Object>(arr, -1); break;
  case 1: view<A>(arr, 0); break;
  case 2: view<B>(arr, 1); break;
  case 3: view<C>(arr, 2); break;
  }
  env->PopLocalFrame(nullptr);
  auto last = std::make_shared<C>();
  int id = last->id;
  (*arr)[0] = last;
  last.reset();
  SX_ASSERT(live[id] == 1, "an array keeps its elements alive");
  (*arr)[0] = std::make_shared<C>();
  SX_ASSERT(live[id] == 0, "an overwritten element is released");
  arr.reset();
  for (int i = 0; i < nextId; i++) SX_ASSERT(live[i] == 0, "an array releases its elements");
}
// arrays of arrays
static void nested() {
  typedef Array<Array<A>> AA;
  e->GetClass<A>("p/A")->HookInstanceFunction(e, "sum", [](ENV *, Object *, std::shared_ptr<AA> x) -> jint {
    jint s = 0;
    for (jsize i = 0; i < x->getSize(); i++) {
      std::shared_ptr<Array<A>> row = (*x)[i];
      if (!row) continue;
      for (jsize k = 0; k < row->getSize(); k++) { std::shared_ptr<A> q = (*row)[k]; s += q ? q->a : 1000; }
    }
    return s;
  });
  int n = sx_choose(3, "rows"), m = sx_choose(3, "cols");
  jclass ca = env->FindClass("p/A"), car = env->FindClass("[Lp/A;");
  jobjectArray outer = env->NewObjectArray(n, car, nullptr);
  SX_ASSERT(env->IsSameObject(env->GetObjectClass(outer), env->FindClass("[[Lp/A;")), "the class of an array of arrays");
  jint want = 0;
  int hole = sx_choose(3, "hole");
  for (int i = 0; i < n; i++) {
    if (i == hole) continue;
    jobjectArray row = env->NewObjectArray(m, ca, nullptr);
    for (int k = 0; k < m; k++) if (k != i) { jint v = sx_any<jint>("v"); Item it = make(0); JNITypes<std::shared_ptr<A>>::JNICast(e, it.ref)->a = v; env->SetObjectArrayElement(row, k, it.ref); want = (jint)((uint32_t)want + (uint32_t)v); } else want = (jint)((uint32_t)want + 1000u);
    env->SetObjectArrayElement(outer, i, row);
  }
  jmethodID id = env->GetMethodID(ca, "sum", "([[Lp/A;)I");
  SX_ASSERT(id, "method");
  SX_ASSERT(env->CallIntMethod(make(0).ref, id, outer) == want && !env->ExceptionCheck(), "nested arrays arrive as built");
  sx_reach("nested");
}
int main() {
  VM vm;
  env = vm.GetJNIEnv();
  e = vm.GetEnv().get();
  e->GetClass<A>("p/A"); e->GetClass<B>("p/B"); e->GetClass<C>("p/C"); e->GetClass<D>("p/D");
  switch (sx_choose(3, "scenario")) {
  case 0: viaInterface(); break;
  case 1: views(); break;
  case 2: nested(); break;
  }
  SX_ASSERT(!env->ExceptionCheck(), "nothing pending");
  sx_reach("end");
  return 0;
}
