// C14: global and weak global references.
#include "jni_types.h"
using namespace jnivm;
static const int O = 2, G = 2, W = 2;
static int live[O];
struct K : public Extends<Object> {
  int id;
  K(int id) : id(id) { live[id]++; }
  ~K() { live[id]--; }
};
static jobject loc[O];
static int nloc[O];
static jobject glo[G];
static int gobj[G];
static jweak wk[W];
static int wobj[W];
static bool alive(int o) {
  if (nloc[o]) return true;
  for (int g = 0; g < G; g++) if (glo[g] && gobj[g] == o) return true;
  return false;
}
static int gen[O]; // objects are replaced after they die: a weak reference to the old one stays empty
static int wgen[W];
static bool weakLive(int w) { return alive(wobj[w]) && wgen[w] == gen[wobj[w]]; }
static jobject pick(const char *n, int &o) {
  unsigned k = sx_choose(O + G + W + 1, n);
  if (k < O) { sx_assume(nloc[k] > 0); o = k; return loc[k]; }
  k -= O;
  if (k < G) { sx_assume(glo[k] != nullptr); o = gobj[k]; return glo[k]; }
  k -= G;
  if (k < W) { sx_assume(wk[k] != nullptr); o = weakLive(k) ? wobj[k] : -1; return wk[k]; }
  o = -1;
  return nullptr;
}
static void check(JNIEnv *env, ENV *e) {
  jobject all[O + G + W + 1];
  int to[O + G + W + 1], n = 0;
  for (int o = 0; o < O; o++) {
    SX_ASSERT(live[o] == (alive(o) ? 1 : 0), "an object lives exactly as long as local and global references to it");
    if (nloc[o]) { all[n] = loc[o]; to[n++] = o; SX_ASSERT(env->GetObjectRefType(loc[o]) == JNILocalRefType, "kind of a local reference"); }
  }
  for (int g = 0; g < G; g++) if (glo[g]) { all[n] = glo[g]; to[n++] = gobj[g]; SX_ASSERT(env->GetObjectRefType(glo[g]) == JNIGlobalRefType, "kind of a global reference"); }
  for (int w = 0; w < W; w++) if (wk[w]) { all[n] = wk[w]; to[n++] = weakLive(w) ? wobj[w] : -1; SX_ASSERT(env->GetObjectRefType(wk[w]) == JNIWeakGlobalRefType, "kind of a weak reference"); }
  all[n] = nullptr;
  to[n++] = -1;
  for (int i = 0; i < n; i++) {
    if (all[i]) {
      auto p = JNITypes<std::shared_ptr<K>>::JNICast(e, all[i]);
      SX_ASSERT(to[i] < 0 ? !p : p && p->id == to[i], "a reference names its object, a weak one nothing once the object is gone");
    }
    for (int j = 0; j < n; j++) SX_ASSERT((bool)env->IsSameObject(all[i], all[j]) == (to[i] == to[j]), "references are the same exactly when they name the same object");
  }
}
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  e->GetClass<K>("p/K");
  env->PushLocalFrame(32);
  int steps = sx_param("N", 3);
  size_t globals0 = vm.globals.size();
  for (int o = 0; o < sx_param("START", 1); o++) { loc[o] = JNITypes<std::shared_ptr<K>>::ToJNIType(e, std::make_shared<K>(o)); nloc[o] = 1; }
  for (int s = 0; s < steps; s++) {
    switch (sx_choose(7, "op")) {
    case 0: { // a new object
      int o = sx_choose(O, "o");
      sx_assume(!alive(o));
      gen[o]++;
      loc[o] = JNITypes<std::shared_ptr<K>>::ToJNIType(e, std::make_shared<K>(o));
      nloc[o] = 1;
      break;
    }
    case 1: { int o = sx_choose(O, "o"); sx_assume(nloc[o] > 0); env->DeleteLocalRef(loc[o]); nloc[o]--; sx_reach("delete-local"); break; }
    case 2: {
      int g = sx_choose(G, "g"), o;
      sx_assume(!glo[g]);
      jobject r = env->NewGlobalRef(pick("from", o));
      SX_ASSERT((r != nullptr) == (o >= 0), "a global reference can be made of exactly the references that name an object");
      glo[g] = r;
      gobj[g] = o;
      if (r) sx_reach("global"); else sx_reach("no-global");
      break;
    }
    case 3: { int g = sx_choose(G, "g"); sx_assume(glo[g] != nullptr); env->DeleteGlobalRef(glo[g]); glo[g] = nullptr; break; }
    case 4: {
      int w = sx_choose(W, "w"), o;
      sx_assume(!wk[w]);
      jweak r = env->NewWeakGlobalRef(pick("from", o));
      SX_ASSERT((r != nullptr) == (o >= 0), "a weak reference can be made of exactly the references that name an object");
      wk[w] = r;
      wobj[w] = o < 0 ? 0 : o;
      wgen[w] = gen[wobj[w]];
      if (r) sx_reach("weak");
      break;
    }
    case 5: { int w = sx_choose(W, "w"); sx_assume(wk[w] != nullptr); env->DeleteWeakGlobalRef(wk[w]); wk[w] = nullptr; break; }
    case 6: {
      int o;
      jobject r = env->NewLocalRef(pick("from", o));
      SX_ASSERT((r != nullptr) == (o >= 0), "a local reference can be made of exactly the references that name an object");
      if (r) { loc[o] = r; nloc[o]++; sx_reach("local"); }
      break;
    }
    }
    check(env, e);
  }
  SX_ASSERT(!env->ExceptionCheck(), "nothing pending");
  int left = 0;
  for (int g = 0; g < G; g++) left += glo[g] != nullptr;
  for (int w = 0; w < W; w++) left += wk[w] != nullptr;
  SX_ASSERT(vm.globals.size() == globals0 + left, "deleted references are gone");
  for (int w = 0; w < W; w++) if (wk[w]) sx_reach(weakLive(w) ? "weak-live" : "weak-dead");
  env->PopLocalFrame(nullptr);
  for (int o = 0; o < O; o++) nloc[o] = 0;
  check(env, e);
  sx_reach("end");
  return 0;
}
