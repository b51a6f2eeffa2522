// C07: identity and inheritance of method and field ids.
#include "jni_types.h"
using namespace jnivm;
struct I1 : public Extends<Object> {};
struct A : public Extends<Object> {};
struct B : public Extends<A, I1> {};
struct C : public Extends<B> {};
static const char *cn[] = {"p/A", "p/I1", "p/B", "p/C"};
// every definition answers with its own number
template <int K> static void def(ENV *e, Class *c, bool field, bool st, const char *name, bool wide) {
  if (!field) {
    if (st) { if (wide) c->Hook(e, name, [](ENV *, Class *, jlong) -> jint { return K; }); else c->Hook(e, name, [](ENV *, Class *, jint) -> jint { return K; }); }
    else { if (wide) c->HookInstanceFunction(e, name, [](ENV *, Object *, jlong) -> jint { return K; }); else c->HookInstanceFunction(e, name, [](ENV *, Object *, jint) -> jint { return K; }); }
  } else {
    if (st) { if (wide) c->HookGetterFunction(e, name, [](ENV *, Class *) -> jlong { return K; }); else c->HookGetterFunction(e, name, [](ENV *, Class *) -> jint { return K; }); }
    else { if (wide) c->HookInstanceGetterFunction(e, name, [](ENV *, Object *) -> jlong { return K; }); else c->HookInstanceGetterFunction(e, name, [](ENV *, Object *) -> jint { return K; }); }
  }
}
static void defK(int k, ENV *e, Class *c, bool f, bool st, const char *n, bool w) {
  switch (k) {
  case 0: def<10>(e, c, f, st, n, w); break;
  case 1: def<11>(e, c, f, st, n, w); break;
  case 2: def<12>(e, c, f, st, n, w); break;
  case 3: def<13>(e, c, f, st, n, w); break;
  }
}
struct Key { bool st, wide; const char *name; };
static bool same(const Key &a, const Key &b) { return a.st == b.st && a.wide == b.wide && streq(a.name, b.name); }
static void *look(JNIEnv *env, bool f, int k, const Key &q) {
  jclass c = env->FindClass(cn[k]);
  if (f) { const char *t = q.wide ? "J" : "I"; return q.st ? (void *)env->GetStaticFieldID(c, q.name, t) : (void *)env->GetFieldID(c, q.name, t); }
  const char *t = q.wide ? "(J)I" : "(I)I";
  return q.st ? (void *)env->GetStaticMethodID(c, q.name, t) : (void *)env->GetMethodID(c, q.name, t);
}
static jint ask(JNIEnv *env, bool f, int k, const Key &q, void *id, jobject o) { // non-virtual, on the class it was found through
  jclass c = env->FindClass(cn[k]);
  jvalue v;
  v.j = 1;
  if (f) {
    if (q.wide) return (jint)(q.st ? env->GetStaticLongField(c, (jfieldID)id) : env->GetLongField(o, (jfieldID)id));
    return q.st ? env->GetStaticIntField(c, (jfieldID)id) : env->GetIntField(o, (jfieldID)id);
  }
  return q.st ? env->CallStaticIntMethodA(c, (jmethodID)id, &v) : env->CallNonvirtualIntMethodA(o, c, (jmethodID)id, &v);
}
static int order(int k, int i) { // classes a lookup on k searches, in order
  static const int t[4][4] = {{0, -1}, {1, -1}, {2, 0, 1, -1}, {3, 2, 0, 1}};
  return i < 4 ? t[k][i] : -1;
}
int main() {
  bool lookup = sx_choose(2, "lookuponly");
  VM vm(false, lookup);
  JNIEnv *env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  std::shared_ptr<Class> cl[4] = {e->GetClass<A>(cn[0]), e->GetClass<I1>(cn[1]), e->GetClass<B>(cn[2]), e->GetClass<C>(cn[3])};
  auto obj = std::make_shared<C>();
  obj->clazz = cl[3];
  jobject o = JNITypes<std::shared_ptr<Object>>::ToJNIType(e, obj);
  bool field = sx_choose(2, "field");
  // one member defined by any of the classes, and a second one by one class
  Key d{(bool)sx_choose(2, "static"), sx_param("FULL", 0) && sx_choose(2, "wide"), "m"};
  unsigned mask = sx_choose(16, "definedby");
  bool lite = sx_param("LITE", 0);
  if (lite) sx_assume(mask == 0 || mask == 1 || mask == 2 || mask == 7 || mask == 12);
  for (int k = 0; k < 4; k++) if (mask >> k & 1) defK(k, e, cl[k].get(), field, d.st, d.name, d.wide);
  int other = sx_choose(5, "seconddefinedby");
  Key d2{!d.st, d.wide, "m"};
  if (lite) sx_assume(other == 2 || other == 4);
  if (other < 4) { // differs from the first in one part of the key only
    switch (sx_choose(3, "differsin")) {
    case 0: break;
    case 1: d2 = {d.st, !d.wide, "m"}; break;
    case 2: d2 = {d.st, d.wide, "mm"}; break;
    }
    def<77>(e, cl[other].get(), field, d2.st, d2.name, d2.wide);
  }
  // the query: any name up to two characters, either staticness, either signature
  unsigned n = sx_choose(3, "len");
  if (lite) sx_assume(n == 1);
  char q[3] = {0, 0, 0};
  sx_symbolic(q, n, "query");
  for (unsigned i = 0; i < n; i++) sx_assume(q[i] != 0);
  Key qk{(bool)sx_choose(2, "qstatic"), (bool)sx_choose(2, "qwide"), q};
  int from = sx_choose(4, "queryclass");
  int want = -1;
  for (int i = 0; order(from, i) >= 0; i++) {
    int k = order(from, i);
    if (mask >> k & 1 && same(qk, d)) { want = 10 + k; break; }
    if (k == other && same(qk, d2)) { want = 77; break; }
  }
  size_t nm[4], nf[4], nc = vm.classes.size();
  for (int k = 0; k < 4; k++) nm[k] = cl[k]->methods.size(), nf[k] = cl[k]->fields.size();
  void *id = look(env, field, from, qk);
  if (lookup) {
    SX_ASSERT((id != nullptr) == (want >= 0), "exactly the members a class has or inherits are found");
    for (int k = 0; k < 4; k++) SX_ASSERT(cl[k]->methods.size() == nm[k] && cl[k]->fields.size() == nf[k], "a lookup declares nothing");
    SX_ASSERT(vm.classes.size() == nc, "a lookup declares nothing");
  } else SX_ASSERT(id != nullptr, "a member lookup gives an id");
  SX_ASSERT(!env->ExceptionCheck(), "nothing is pending");
  SX_ASSERT(look(env, field, from, qk) == id, "the same lookup gives the same id");
  if (want >= 0) {
    SX_ASSERT(ask(env, field, from, qk, id, o) == want, "an id stands for the nearest definition with the same name, type and staticness");
    sx_reach("found");
    int defc = want == 77 ? other : want - 10;
    SX_ASSERT(look(env, field, defc, qk) == id, "an inherited member has the id it has in the class defining it");
    sx_reach(defc == from ? "own" : "inherited");
  } else if (id) {
    SX_ASSERT(ask(env, field, from, qk, id, o) == 0, "a member nothing defines yields zero");
    sx_reach("fabricated");
  }
  // a different key never shares an id
  Key x = qk;
  switch (sx_choose(3, "vary")) {
  case 0: x.st = !x.st; break;
  case 1: x.wide = !x.wide; break;
  case 2: x.name = n == 0 ? "z" : ""; break;
  }
  void *id2 = look(env, field, from, x);
  SX_ASSERT(!id || id2 != id, "members that differ in name, type or staticness have different ids");
  if (want >= 0) SX_ASSERT(ask(env, field, from, qk, id, o) == want, "an id keeps its meaning");
  sx_reach("end");
  return 0;
}
