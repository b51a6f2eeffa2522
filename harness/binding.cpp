// C30: binding members again, before and after they were looked up.
#include "common.h"
#include <fake-jni/fake-jni.h>
using namespace jnivm;
struct B : public Extends<Object> { jint a = 1, b = 2; };
struct K : public Extends<B> {
  static jint s, t;
  jint mem1(jint x) { return x + 15; }
  jint mem2(ENV *, jint x) const { return x + 25; }
};
jint K::s, K::t;
static int alive; // captures of the implementations bound
struct Cap { int id; Cap(int i) : id(i) { alive++; } Cap(const Cap &c) : id(c.id) { alive++; } ~Cap() { alive--; } };
static jint free1(ENV *, Class *, jint x) { return x + 11; }
static jint free2(jint x) { return x + 21; }
static ENV *e;
static JNIEnv *env;
static std::shared_ptr<Class> cl[2];
static jclass jc[2];
// members: two names, static or instance, two signatures
struct Mem { Method *id; int impl; bool cap; };
static Mem mem[2][2][2][2]; // class, static, name, signature
static const char *NM[] = {"m", "n"};
static const char *SG[] = {"(I)I", "()I"};
static void bindMethod(int c, int st, int n, int sg, int impl) {
  auto k = cl[c];
  Mem &m = mem[c][st][n][sg];
  m.impl = impl;
  m.cap = false;
  if (sg) { // without parameters
    m.cap = true;
    Cap cap(impl);
    if (st) k->Hook(e, NM[n], [cap](ENV *) -> jint { return cap.id; });
    else k->HookInstanceFunction(e, NM[n], [cap](JNIEnv *) -> jint { return cap.id; });
    return;
  }
  if (st) {
    switch (impl) {
    case 10: m.cap = true; { Cap cap(10); k->Hook(e, NM[n], [cap](JNIEnv *, jint x) -> jint { return x + cap.id; }); } break;
    case 20: { int b = 20; std::function<jint(jint)> f = [b](jint x) -> jint { return x + b; }; k->Hook(e, NM[n], std::move(f)); break; }
    case 11: k->Hook(e, NM[n], free1); break;
    default: k->Hook(e, NM[n], &free2);
    }
  } else {
    switch (impl) {
    case 10: m.cap = true; { Cap cap(10); k->HookInstanceFunction(e, NM[n], [cap](ENV *, jint x) -> jint { return x + cap.id; }); } break;
    case 20: { int b = 20; std::function<jint(jint)> f = [b](jint x) -> jint { return x + b; }; k->HookInstance(e, NM[n], std::move(f)); break; }
    case 11: m.impl = 15; k->Hook(e, NM[n], &K::mem1); break;
    default: m.impl = 25; k->Hook(e, NM[n], &K::mem2);
    }
  }
}
struct Fld { jfieldID id; int get, set; };
static Fld fld[2][2]; // static, name
static const char *FN[] = {"f", "g"};
static K *obj;
static jint &store(int k) { // 1, 2: the C++ variables; 3: the functions
  static jint fnst;
  return k == 1 ? obj->a : k == 2 ? obj->b : k == 4 ? K::s : k == 5 ? K::t : fnst;
}
// implementations that replace themselves finish undisturbed
static void running(jobject o) {
  int k = sx_choose(5, "running");
  jint x = sx_any<jint>("x"), got = 0;
  auto cap = std::make_shared<Cap>(7);
  std::weak_ptr<Cap> w = cap;
  auto c = cl[1];
  jint r = 0;
  switch (k) {
  case 0: case 1: {
    if (k) c->HookInstanceFunction(e, "r", [cap, c](ENV *e, jint x) -> jint {
      c->HookInstanceFunction(e, "r", [](ENV *, jint x) -> jint { return x + 1; });
      return x + cap->id;
    });
    else c->Hook(e, "r", [cap, c](ENV *e, jint x) -> jint {
      c->Hook(e, "r", [](ENV *, jint x) -> jint { return x + 1; });
      return x + cap->id;
    });
    cap = nullptr;
    jmethodID m = k ? env->GetMethodID(jc[1], "r", "(I)I") : env->GetStaticMethodID(jc[1], "r", "(I)I");
    bool nv = k && sx_choose(2, "nonvirtual");
    for (int i = 0; i < 2; i++) {
      r = !k ? env->CallStaticIntMethod(jc[1], m, x) : nv ? env->CallNonvirtualIntMethod(o, jc[1], m, x) : env->CallIntMethod(o, m, x);
      SX_ASSERT(r == (jint)((uint32_t)x + (i ? 1 : 7)), "a running implementation finishes, the next call runs the new one");
    }
    break;
  }
  case 2: case 3: {
    if (k == 3) c->HookInstanceGetterFunction(e, "r", [cap, c](ENV *e) -> jint {
      c->HookInstanceGetterFunction(e, "r", [](ENV *) -> jint { return 1; });
      return cap->id;
    });
    else c->HookGetterFunction(e, "r", [cap, c](ENV *e) -> jint {
      c->HookGetterFunction(e, "r", [](ENV *) -> jint { return 1; });
      return cap->id;
    });
    cap = nullptr;
    for (int i = 0; i < 2; i++) {
      r = k == 3 ? env->GetIntField(o, env->GetFieldID(jc[1], "r", "I")) : env->GetStaticIntField(jc[1], env->GetStaticFieldID(jc[1], "r", "I"));
      SX_ASSERT(r == (i ? 1 : 7), "a running getter finishes, the next access runs the new one");
    }
    break;
  }
  default: {
    bool inst = sx_choose(2, "instance");
    if (inst) c->HookInstanceSetterFunction(e, "r", [cap, c, &got](ENV *e, jint x) {
      c->HookInstanceSetterFunction(e, "r", [&got](ENV *, jint x) { got = x + 1; });
      got = x + cap->id;
    });
    else c->HookSetterFunction(e, "r", [cap, c, &got](ENV *e, jint x) {
      c->HookSetterFunction(e, "r", [&got](ENV *, jint x) { got = x + 1; });
      got = x + cap->id;
    });
    cap = nullptr;
    for (int i = 0; i < 2; i++) {
      if (inst) env->SetIntField(o, env->GetFieldID(jc[1], "r", "I"), x);
      else env->SetStaticIntField(jc[1], env->GetStaticFieldID(jc[1], "r", "I"), x);
      SX_ASSERT(got == (jint)((uint32_t)x + (i ? 1 : 7)), "a running setter finishes, the next access runs the new one");
    }
  }
  }
  SX_ASSERT(!env->ExceptionCheck() && w.expired() && !alive, "and is released then");
  sx_reach("running");
  sx_reach("end");
}
// members of one name and different types are different members
struct X : public Extends<Object> {};
struct Y : public Extends<Object> {};
struct XY : public Extends<Object> {};
enum { TYPES = 7 };
static const char *TSIG[TYPES] = {"I", "J", "Lp/X;", "Lp/Y;", "Lp/XY;", "[Lp/X;", "[I"};
template <class T> struct Var { T i; static T s; };
template <class T> T Var<T>::s;
struct Many : public Extends<Object>, Var<jint>, Var<jlong>, Var<std::shared_ptr<X>>, Var<std::shared_ptr<Y>>, Var<std::shared_ptr<XY>>, Var<std::shared_ptr<Array<X>>>, Var<std::shared_ptr<Array<jint>>> {};
template <class T> static void bindTyped(std::shared_ptr<Class> c, bool method, bool st) {
  if (method) {
    if (st) c->Hook(e, "v", [](ENV *, Class *, T x) -> jint { Var<T>::s = x; return 1; });
    else c->HookInstanceFunction(e, "v", [](ENV *, Many *o, T x) -> jint { o->Var<T>::i = x; return 2; });
  } else {
    if (st) c->Hook(e, "v", &Var<T>::s);
    else c->HookInstanceGetterFunction(e, "v", [](Many *o) -> T { return o->Var<T>::i; }), c->HookInstanceSetterFunction(e, "v", [](Many *o, T x) { o->Var<T>::i = x; });
  }
}
template <class T> static void reset(Many *m) { Var<T>::s = T(); m->Var<T>::i = T(); }
static uint64_t digest(jint v) { return v; }
static uint64_t digest(jlong v) { return v; }
template <class T> static uint64_t digest(const std::shared_ptr<T> &v) { return (uint64_t)(Object *)v.get(); }
template <class T> static void look(Many *m, uint64_t *v) { v[0] = digest(Var<T>::s); v[1] = digest(m->Var<T>::i); }
static void snapshot(Many *m, uint64_t (*v)[2]) {
  look<jint>(m, v[0]); look<jlong>(m, v[1]); look<std::shared_ptr<X>>(m, v[2]); look<std::shared_ptr<Y>>(m, v[3]); look<std::shared_ptr<XY>>(m, v[4]); look<std::shared_ptr<Array<X>>>(m, v[5]); look<std::shared_ptr<Array<jint>>>(m, v[6]);
}
static void types() {
  e->GetClass<X>("p/X");
  e->GetClass<Y>("p/Y");
  e->GetClass<XY>("p/XY");
  auto c = e->GetClass<Many>("p/Many");
  jclass jcl = env->FindClass("p/Many");
  auto m = std::make_shared<Many>();
  jobject o = JNITypes<std::shared_ptr<Many>>::ToJNIType(e, m);
  struct { int t, method, st; void *id; } b[3];
  for (int i = 0; i < 3; i++) {
    auto &k = b[i];
    k.method = sx_choose(2, "method"), k.st = sx_choose(2, "st"), k.t = sx_choose(TYPES, "t");
    if (i && !sx_param("ALL", 0) && k.method != b[0].method) sx_assume(false);
    switch (k.t) {
    case 0: bindTyped<jint>(c, k.method, k.st); break;
    case 1: bindTyped<jlong>(c, k.method, k.st); break;
    case 2: bindTyped<std::shared_ptr<X>>(c, k.method, k.st); break;
    case 3: bindTyped<std::shared_ptr<Y>>(c, k.method, k.st); break;
    case 4: bindTyped<std::shared_ptr<XY>>(c, k.method, k.st); break;
    case 5: bindTyped<std::shared_ptr<Array<X>>>(c, k.method, k.st); break;
    default: bindTyped<std::shared_ptr<Array<jint>>>(c, k.method, k.st);
    }
  }
  std::shared_ptr<Object> val[TYPES] = {nullptr, nullptr, std::make_shared<X>(), std::make_shared<Y>(), std::make_shared<XY>(), std::make_shared<Array<X>>(1), std::make_shared<Array<jint>>(1)};
  jint x = sx_any<jint>("x");
  sx_assume(x != 0);
  for (int i = 0; i < 3; i++) {
    auto &k = b[i];
    std::string sig = std::string("(") + TSIG[k.t] + ")I";
    if (k.method) k.id = k.st ? env->GetStaticMethodID(jcl, "v", sig.data()) : env->GetMethodID(jcl, "v", sig.data());
    else k.id = k.st ? env->GetStaticFieldID(jcl, "v", TSIG[k.t]) : env->GetFieldID(jcl, "v", TSIG[k.t]);
    SX_ASSERT(k.id, "each is found");
    for (int j = 0; j < i; j++) SX_ASSERT((b[j].id == k.id) == (b[j].method == k.method && b[j].st == k.st && b[j].t == k.t), "members of different types are different members");
  }
  for (int i = 0; i < 3; i++) {
    auto &k = b[i];
    reset<jint>(m.get()); reset<jlong>(m.get()); reset<std::shared_ptr<X>>(m.get()); reset<std::shared_ptr<Y>>(m.get()); reset<std::shared_ptr<XY>>(m.get()); reset<std::shared_ptr<Array<X>>>(m.get()); reset<std::shared_ptr<Array<jint>>>(m.get());
    jobject a = val[k.t] ? JNITypes<std::shared_ptr<Object>>::ToJNIType(e, val[k.t]) : nullptr;
    jvalue v;
    if (k.t == 0) v.i = x;
    else if (k.t == 1) v.j = x;
    else v.l = a;
    uint64_t want = k.t < 2 ? (uint64_t)(jlong)x : (uint64_t)val[k.t].get();
    if (k.method) {
      jint r = k.st ? env->CallStaticIntMethodA(jcl, (jmethodID)k.id, &v) : env->CallIntMethodA(o, (jmethodID)k.id, &v);
      SX_ASSERT(r == (k.st ? 1 : 2), "the function bound");
    } else {
      jfieldID f = (jfieldID)k.id;
      if (k.t == 0) { k.st ? env->SetStaticIntField(jcl, f, x) : env->SetIntField(o, f, x); SX_ASSERT((k.st ? env->GetStaticIntField(jcl, f) : env->GetIntField(o, f)) == x, "a field of its type"); }
      else if (k.t == 1) { k.st ? env->SetStaticLongField(jcl, f, x) : env->SetLongField(o, f, x); SX_ASSERT((k.st ? env->GetStaticLongField(jcl, f) : env->GetLongField(o, f)) == x, "a field of its type"); }
      else { k.st ? env->SetStaticObjectField(jcl, f, a) : env->SetObjectField(o, f, a); SX_ASSERT((k.st ? env->GetStaticObjectField(jcl, f) : env->GetObjectField(o, f)) == a, "a field of its type"); }
    }
    SX_ASSERT(!env->ExceptionCheck(), "no exception");
    uint64_t got[TYPES][2];
    snapshot(m.get(), got);
    for (int t = 0; t < TYPES; t++)
      for (int s = 0; s < 2; s++) SX_ASSERT(got[t][s] == (t == k.t && s == !k.st ? want : 0), "what was bound to it, and nothing else");
  }
  sx_reach("types");
  sx_reach("end");
}
// callables held in variables that are gone when the member is used
template <class F> struct Held {
  F *f;
  Held(F x) : f(new F(x)) {}
  ~Held() { delete f; }
  F &operator*() { return *f; }
};
template <class F> static Held<F> hold(F f) { return Held<F>(f); }
static jint got3;
static jint get3(Class *) { return 7; }
static jint getk3(K *) { return 7; }
static void set3(ENV *, jint x) { got3 = x + 7; }
static void setk3(K *, jint x) { got3 = x + 7; }
static jint inst3(ENV *, K *, jint x) { return x + 7; }
static void variables(jobject o) {
  int k = sx_choose(11, "kind");
  auto c = cl[1];
  jint x = sx_any<jint>("x"), r = 0;
#define BIND(call, v) do { auto h = hold(v); using T = std::remove_reference_t<decltype(*h)>; c->call(e, "l", (const T &)*h); } while (0)
    switch (k) {
    case 0: BIND(Hook, &free1); break;
    case 1: BIND(HookInstanceFunction, &inst3); break;
    case 2: BIND(Hook, &free2); break;
    case 3: BIND(Hook, &K::mem1); break;
    case 4: BIND(HookInstance, &K::mem2); break;
    case 5: BIND(HookGetterFunction, &get3); break;
    case 6: BIND(HookInstanceGetterFunction, &getk3); break;
    case 7: BIND(HookSetterFunction, &set3); break;
    case 8: BIND(HookInstanceSetterFunction, &setk3); break;
    case 9: BIND(Hook, &K::a); break;
    default: BIND(Hook, &K::s);
    }
#undef BIND
  bool st = k == 0 || k == 2 || k == 5 || k == 7 || k == 10;
  if (k < 5) {
    jmethodID m = st ? env->GetStaticMethodID(jc[1], "l", "(I)I") : env->GetMethodID(jc[1], "l", "(I)I");
    SX_ASSERT(m, "found");
    r = st ? env->CallStaticIntMethod(jc[1], m, x) : env->CallIntMethod(o, m, x);
    SX_ASSERT(r == (jint)((uint32_t)x + (k == 0 ? 11 : k == 2 ? 21 : k == 3 ? 15 : k == 4 ? 25 : 7)), "the callable bound runs after its variable is gone");
  } else {
    jfieldID f = st ? env->GetStaticFieldID(jc[1], "l", "I") : env->GetFieldID(jc[1], "l", "I");
    SX_ASSERT(f, "found");
    if (k != 5 && k != 6) st ? env->SetStaticIntField(jc[1], f, x) : env->SetIntField(o, f, x);
    if (k == 7 || k == 8) SX_ASSERT(got3 == (jint)((uint32_t)x + 7), "the setter bound runs after its variable is gone");
    else {
      r = st ? env->GetStaticIntField(jc[1], f) : env->GetIntField(o, f);
      SX_ASSERT(r == (k == 5 || k == 6 ? 7 : x), "the field bound is used after its variable is gone");
    }
    if (k == 9) SX_ASSERT(obj->a == x, "the member");
    if (k == 10) SX_ASSERT(K::s == x, "the static variable");
  }
  SX_ASSERT(!env->ExceptionCheck(), "no exception");
  sx_reach("variables");
  sx_reach("end");
}
int main() {
  bool fake = sx_choose(2, "returnnull"); // lookups do not make up members
  std::unique_ptr<FakeJni::Jvm> fvm(fake ? new FakeJni::Jvm() : nullptr);
  std::unique_ptr<VM> nvm(fake ? nullptr : new VM());
  VM *vm = fake ? (VM *)fvm.get() : nvm.get();
  env = vm->GetJNIEnv();
  e = vm->GetEnv().get();
  cl[0] = e->GetClass<B>("p/B");
  cl[1] = e->GetClass<K>("p/K");
  jc[0] = env->FindClass("p/B");
  jc[1] = env->FindClass("p/K");
  auto so = std::make_shared<K>();
  obj = so.get();
  jobject o = JNITypes<std::shared_ptr<K>>::ToJNIType(e, so);
  int mode = sx_choose(4, "mode");
  if (mode == 1) running(o);
  if (mode == 2) types();
  if (mode == 3) variables(o);
  if (mode) return 0;
  int N = sx_param("N", 3);
  bool fields = sx_choose(2, "fields");
  for (int i = 0; i < N; i++) {
    if (!fields) {
      int c = sx_choose(2, "class"), st = sx_choose(2, "static"), n = sx_choose(2, "name"), sg = sx_choose(2, "sig");
      Mem &m = mem[c][st][n][sg];
      if (sx_choose(2, "op")) { // bind
        static const int IMPL[] = {10, 20, 11, 21};
        int impl = sg ? 1 + sx_choose(2, "impl") : IMPL[sx_choose(c ? 4 : st ? 4 : 2, "impl")];
        bool again = m.impl;
        bindMethod(c, st, n, sg, impl);
        if (again) sx_reach("again");
        else if (m.id) sx_reach("after-lookup");
        // found from now on
        Method *id = (Method *)(st ? env->GetStaticMethodID(jc[c], NM[n], SG[sg]) : env->GetMethodID(jc[c], NM[n], SG[sg]));
        SX_ASSERT(id && (!m.id || id == m.id), "binding keeps the identifier");
        m.id = id;
      } else {
        Method *id = (Method *)(st ? env->GetStaticMethodID(jc[c], NM[n], SG[sg]) : env->GetMethodID(jc[c], NM[n], SG[sg]));
        // the class's own, else the base's, else made up
        if (m.id) SX_ASSERT(id == m.id, "the same identifier");
        else if (c && mem[0][st][n][sg].id) SX_ASSERT(id == mem[0][st][n][sg].id, "inherited");
        else if (fake) SX_ASSERT(!id, "unknown");
        else {
          SX_ASSERT(id, "made up");
          m.id = id;
        }
      }
    } else {
      int st = sx_choose(2, "static"), n = sx_choose(2, "name");
      Fld &f = fld[st][n];
      int v = st ? 4 : 1; // which variable
      if (sx_choose(2, "second")) v++;
      switch (sx_choose(4, "op")) {
      case 0: // a variable
        if (st) cl[1]->Hook(e, FN[n], v == 4 ? &K::s : &K::t);
        else cl[1]->Hook(e, FN[n], v == 1 ? &K::a : &K::b);
        f.get = f.set = v;
        break;
      case 1: // a getter
        if (st) cl[1]->HookGetterFunction(e, FN[n], [v](ENV *) -> jint { return store(v) + 1; });
        else cl[1]->HookInstanceGetterFunction(e, FN[n], [v](K *o) -> jint { return store(v) + 1; });
        f.get = 10 + v;
        break;
      case 2: // a setter
        if (st) cl[1]->HookSetterFunction(e, FN[n], [v](Class *, jint x) { store(v) = x - 2; });
        else cl[1]->HookInstanceSetterFunction(e, FN[n], [v](ENV *, K *o, jint x) { store(v) = x - 2; });
        f.set = 10 + v;
        break;
      default: break;
      }
      jfieldID id = st ? env->GetStaticFieldID(jc[1], FN[n], "I") : env->GetFieldID(jc[1], FN[n], "I");
      if (fake && !f.get && !f.set && !f.id) SX_ASSERT(!id, "unknown");
      else {
        SX_ASSERT(id && (!f.id || f.id == id), "binding keeps the identifier");
        if (f.id && f.set) sx_reach("field-again");
        f.id = id;
      }
    }
  }
  // every identifier known now runs what was bound to it last, and nothing else
  jint x = sx_any<jint>("x");
  int caps = 0;
  for (int c = 0; c < 2; c++)
    for (int st = 0; st < 2; st++)
      for (int n = 0; n < 2; n++)
        for (int sg = 0; sg < 2; sg++) {
          Mem &m = mem[c][st][n][sg];
          caps += m.cap;
          if (!m.id) continue;
          int impl = m.impl;
          if (!st) impl = mem[1][st][n][sg].impl ? mem[1][st][n][sg].impl : mem[0][st][n][sg].impl; // the object's class decides
          jmethodID id = (jmethodID)m.id;
          if (st && c && !impl && mem[0][st][n][sg].impl) continue; // made up before the base got it
          jint r = st ? env->CallStaticIntMethod(jc[c], id, x) : env->CallIntMethod(o, id, x);
          SX_ASSERT(!env->ExceptionCheck(), "no exception");
          SX_ASSERT(r == (!impl ? 0 : sg ? impl : (jint)((uint32_t)x + impl)), "the implementation bound last runs");
        }
  SX_ASSERT(alive == caps, "replaced implementations are released");
  for (int st = 0; st < 2; st++)
    for (int n = 0; n < 2; n++) {
      Fld &f = fld[st][n];
      if (!f.id) continue;
      for (int v = 1; v < 6; v++) store(v) = v * 100;
      if (st) env->SetStaticIntField(jc[1], f.id, x);
      else env->SetIntField(o, f.id, x);
      for (int v = 1; v < 6; v++) SX_ASSERT(store(v) == (v == f.set ? x : v + 10 == f.set ? (jint)((uint32_t)x - 2) : v * 100), "the setter bound last runs");
      for (int v = 1; v < 6; v++) store(v) = (jint)((uint32_t)x + v);
      jint r = st ? env->GetStaticIntField(jc[1], f.id) : env->GetIntField(o, f.id);
      jint want = !f.get ? 0 : (jint)((uint32_t)x + (f.get > 10 ? f.get - 10 + 1 : f.get));
      SX_ASSERT(r == want, "the getter bound last runs");
    }
  sx_reach("end");
  return 0;
}
