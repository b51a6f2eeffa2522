// C06: class lookup identity.
#include "jni_types.h"
using namespace jnivm;
struct T1 : public Object {};
static Buf<char> *mk(unsigned N, const char *pre, const char *nm) {
  unsigned p = strlen(pre), n = p + 1 + sx_choose(N, nm);
  auto *b = new Buf<char>(n + 1);
  memcpy(b->p, pre, p);
  sx_symbolic(b->p + p, n - p, "name");
  for (unsigned i = p; i < n; i++) {
    char c = (*b)[i];
    // the characters lookup distinguishes, and two ordinary ones
    sx_assume(c == '/' || c == '$' || c == '[' || c == ';' || c == 'a' || c == 'L');
  }
  (*b)[n] = 0;
  return b;
}
// is x one of the classes that exist once y does: y itself, or an enclosing class of y
static bool encloses(const char *x, const char *y) {
  size_t nx = strlen(x), ny = strlen(y), base = 0;
  if (nx == ny) return !memcmp(x, y, nx);
#ifndef JNI_DEBUG
  return false; // enclosing classes exist for the generated code only
#endif
  if (y[0] == '[' || nx > ny || memcmp(x, y, nx)) return false;
  for (size_t i = 0; i < ny; i++) if (y[i] == '/') base = i + 1;
  return nx >= base && y[nx] == '$';
}
int main() {
  bool lookup = sx_choose(2, "lookuponly");
  VM vm(false, lookup);
  JNIEnv *env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  unsigned N = sx_param("N", 3);
  static const char *pre[] = {"", "java/lang/", "pkg/Outer$"};
  unsigned px = sx_choose(3, "prefix");
  auto *n1 = mk(N, pre[px], "len1"), *n2 = mk(N, pre[px], "len2");
  const char *a = *n1, *b = *n2;
  bool eq = streq(a, b);
  if (!lookup) {
    unsigned how = sx_choose(3, "declaredby"); // the first one may come into existence in any way
    std::shared_ptr<Class> k;
    jclass c1;
    if (how == 0) c1 = env->FindClass(a);
    else if (how == 1) { k = e->GetClass<T1>(a); c1 = env->FindClass(a); }
    else { k = e->GetClass(a); c1 = env->FindClass(a); }
    SX_ASSERT(c1 != nullptr, "a lookup gives a class");
    auto k1 = JNITypes<std::shared_ptr<Class>>::JNICast(e, c1);
    SX_ASSERT(!k || k.get() == k1.get(), "the class known to the library is the class a lookup finds");
    jclass c2 = env->FindClass(b);
    SX_ASSERT(c2 != nullptr, "a lookup gives a class");
    auto k2 = JNITypes<std::shared_ptr<Class>>::JNICast(e, c2);
    SX_ASSERT((bool)env->IsSameObject(c1, c2) == eq, "two names give the same class exactly when they are the same name");
    SX_ASSERT((k1.get() == k2.get()) == eq, "two names give the same class exactly when they are the same name");
    SX_ASSERT(streq(k1->getName().c_str(), a) && streq(k2->getName().c_str(), b), "a class reports the name it was looked up by");
    SX_ASSERT(env->IsSameObject(env->FindClass(a), c1) && env->IsSameObject(env->FindClass(b), c2), "looking a name up again gives the same class");
    SX_ASSERT(vm.classes[a].get() == k1.get() && vm.classes[b].get() == k2.get(), "the list of classes names each class");
    if (how == 1) {
      auto o = std::make_shared<T1>();
      jobject r = JNITypes<std::shared_ptr<T1>>::ToJNIType(e, o);
      SX_ASSERT((bool)env->IsSameObject(env->GetObjectClass(r), c1), "an object's class is the class registered for its type");
      SX_ASSERT((bool)env->IsInstanceOf(r, c2) == eq, "an object is an instance of the class registered for its type only");
    }
    sx_reach(eq ? "equal" : "different");
  } else {
    size_t before0 = vm.classes.size();
    SX_ASSERT(env->FindClass(a) == nullptr, "without registration a lookup finds nothing");
    SX_ASSERT(vm.classes.size() == before0, "a failed lookup declares nothing");
    auto k = e->GetClass<T1>(a);
    SX_ASSERT(k && streq(k->getName().c_str(), a), "a registered class reports its name");
    size_t before = vm.classes.size();
    jclass c1 = env->FindClass(a), c2 = env->FindClass(b);
    SX_ASSERT(c1 && JNITypes<std::shared_ptr<Class>>::JNICast(e, c1).get() == k.get(), "a registered class is found");
    SX_ASSERT((c2 != nullptr) == encloses(b, a), "only registered classes are found");
    SX_ASSERT((bool)env->IsSameObject(c1, c2) == eq, "two names give the same class exactly when they are the same name");
    SX_ASSERT(vm.classes.size() == before, "a lookup declares nothing");
    SX_ASSERT(!env->ExceptionCheck(), "nothing is pending");
    if (c2) sx_reach("found"); else sx_reach("notfound");
  }
  delete n1;
  delete n2;
  sx_reach("end");
  return 0;
}
