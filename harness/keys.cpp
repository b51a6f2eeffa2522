// C07: two members have one id exactly if name, type and staticness are the same texts.
#include "common.h"
using namespace jnivm;
static const char *PRE[] = {"", "La;", "(La;)L"};
struct Key { bool st; char name[4], type[12]; };
static Key key(const char *n, unsigned px) {
  Key k;
  memset(&k, 0, sizeof k);
  k.st = sx_choose(2, "static");
  unsigned nn = 1 + sx_choose(2, "namelength"), nt = sx_choose(sx_param("N", 2) + 1, "typelength"), p = strlen(PRE[px]);
  sx_symbolic(k.name, nn, "name");
  for (unsigned i = 0; i < nn; i++) sx_assume(k.name[i] == 'a' || k.name[i] == ';' || k.name[i] == (char)0xe4);
  memcpy(k.type, PRE[px], p);
  sx_symbolic(k.type + p, nt, "type");
  for (unsigned i = p; i < p + nt; i++) sx_assume(k.type[i] == 'a' || k.type[i] == ';' || k.type[i] == 'I' || k.type[i] == '[');
  return k;
}
static bool text(const char *a, const char *b) {
  for (;; a++, b++) {
    if (*a != *b) return false;
    if (!*a) return true;
  }
}
static void *look(JNIEnv *env, bool field, const Key &k, jclass c) {
  if (field) return k.st ? (void *)env->GetStaticFieldID(c, k.name, k.type) : (void *)env->GetFieldID(c, k.name, k.type);
  return k.st ? (void *)env->GetStaticMethodID(c, k.name, k.type) : (void *)env->GetMethodID(c, k.name, k.type);
}
struct B : public Extends<Object> {};
struct K : public Extends<B> {};
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  e->GetClass<B>("p/B");
  e->GetClass<K>("p/K");
  jclass cb = env->FindClass("p/B"), ck = env->FindClass("p/K");
  bool field = sx_choose(2, "field");
  unsigned px = sx_choose(3, "prefix");
  Key a = key("a", px), b = key("b", px);
  bool eq = a.st == b.st && text(a.name, b.name) && text(a.type, b.type);
  int from = sx_choose(3, "classes"); // both in one class, or the first one in the base
  void *ia = look(env, field, a, from == 1 ? cb : ck);
  void *ib = look(env, field, b, ck);
  SX_ASSERT(ia && ib, "made up");
  SX_ASSERT((ia == ib) == eq, "one id exactly for the same name, type and staticness");
  if (from == 2) {
    void *ic = look(env, field, a, cb);
    SX_ASSERT(ic && ic != ia && ic != ib, "members of a base made up later are its own");
  }
  SX_ASSERT(look(env, field, a, from == 1 ? cb : ck) == ia && look(env, field, b, ck) == ib, "the same lookup gives the same id");
  sx_reach(eq ? "equal" : "different");
  sx_reach("end");
  return 0;
}
