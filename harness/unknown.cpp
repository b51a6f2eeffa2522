// C08: members nothing implements, and null arguments.
#include "jni_types.h"
using namespace jnivm;
struct Known : public Extends<Object> { jint n = 5; };
template <class T> static T va(JNIEnv *e, int form, int kind, jobject o, jclass c, jmethodID m, ...) {
  va_list l;
  va_start(l, m);
  jvalue v[2];
  v[0].j = 3;
  v[1].j = 4;
  struct End { va_list &l; ~End() { va_end(l); } } end{l};
  if (form == 1) return kind == 0 ? Tr<T>::callL(e, c, m, l) : kind == 1 ? Tr<T>::callL(e, o, m, l) : Tr<T>::callL(e, o, c, m, l);
  return kind == 0 ? Tr<T>::callA(e, c, m, v) : kind == 1 ? Tr<T>::callA(e, o, m, v) : Tr<T>::callA(e, o, c, m, v);
}
template <class T> static T call(JNIEnv *e, int form, int kind, jobject o, jclass c, jmethodID m) {
  if (form == 0) return kind == 0 ? Tr<T>::callV(e, c, m, (jint)3, (jlong)4) : kind == 1 ? Tr<T>::callV(e, o, m, (jint)3, (jlong)4) : Tr<T>::callV(e, o, c, m, (jint)3, (jlong)4);
  return va<T>(e, form, kind, o, c, m, (jint)3, (jlong)4);
}
template <class T> static bool zero(T t) { T z; memset(&z, 0, sizeof z); return same(t, z); }
struct Env { VM &vm; JNIEnv *env; bool lookup; };
static bool dflt(JNIEnv *env, const char *sig, bool known, jobject r); // below
template <class T> static void method(Env &x, bool nullId) {
  JNIEnv *env = x.env;
  auto obj = std::make_shared<Known>();
  auto cl = x.vm.GetEnv()->GetClass<Known>("p/Known");
  cl->HookInstanceFunction(x.vm.GetEnv().get(), "other", [](ENV *, Object *) -> jint { return 1; });
  jobject o = JNITypes<std::shared_ptr<Known>>::ToJNIType(x.vm.GetEnv().get(), obj);
  jclass c = env->FindClass("p/Known");
  int kind = sx_choose(3, "kind"), form = sx_choose(3, "form");
  std::string sig = std::string("(IJ)") + Tr<T>::sig();
  jmethodID m = nullptr;
  size_t nm = cl->methods.size(), nc = x.vm.classes.size();
  if (!nullId) m = kind == 0 ? env->GetStaticMethodID(c, "gone", sig.c_str()) : env->GetMethodID(c, "gone", sig.c_str());
  if (x.lookup) {
    SX_ASSERT(!m, "an unknown method is not found in lookup-only mode");
    SX_ASSERT(cl->methods.size() == nm && x.vm.classes.size() == nc, "a failed lookup declares nothing");
  } else if (!nullId) SX_ASSERT(m, "an unknown method gets an id");
  bool nullRecv = sx_choose(2, "nullreceiver");
  if (nullRecv) { if (kind == 0) c = nullptr; else o = nullptr; }
  T r = call<T>(env, form, kind, o, c, m);
  SX_ASSERT(!env->ExceptionCheck(), "a call nothing implements leaves nothing pending");
  SX_ASSERT(std::is_same<T, jobject>::value || zero(r), "a call nothing implements returns zero");
  if (x.lookup) SX_ASSERT(zero(r), "a call nothing implements returns null");
  SX_ASSERT(obj->n == 5, "a call nothing implements changes nothing");
  sx_reach(m ? "unknown-method" : "null-method");
}
template <> void method<void>(Env &x, bool nullId) {
  JNIEnv *env = x.env;
  jclass c = env->FindClass("java/lang/Object");
  jstring o = env->NewStringUTF("x");
  int kind = sx_choose(3, "kind"), form = sx_choose(3, "form");
  jmethodID m = nullptr;
  if (!nullId) m = kind == 0 ? env->GetStaticMethodID(c, "gone", "(IJ)V") : env->GetMethodID(c, "gone", "(IJ)V");
  call<void>(env, form, kind, o, c, m);
  SX_ASSERT(!env->ExceptionCheck(), "a call nothing implements leaves nothing pending");
  SX_ASSERT(env->GetStringLength(o) == 1, "a call nothing implements changes nothing");
}
template <class T> static void field(Env &x, bool nullId) {
  JNIEnv *env = x.env;
  ENV *e = x.vm.GetEnv().get();
  auto obj = std::make_shared<Known>();
  auto cl = e->GetClass<Known>("p/Known");
  static jint seen;
  seen = 0;
  cl->HookInstanceSetterFunction(e, "sink", [](ENV *, Object *, jint v) { seen++; });
  cl->HookInstanceGetterFunction(e, "source", [](ENV *, Object *) -> jint { return 9; });
  jobject o = JNITypes<std::shared_ptr<Known>>::ToJNIType(e, obj);
  jclass c = env->FindClass("p/Known");
  bool st = sx_choose(2, "static");
  size_t nf = cl->fields.size(), nc = x.vm.classes.size();
  jfieldID f = nullptr;
  if (!nullId) f = st ? env->GetStaticFieldID(c, "gone", Tr<T>::sig()) : env->GetFieldID(c, "gone", Tr<T>::sig());
  if (x.lookup) {
    SX_ASSERT(!f, "an unknown field is not found in lookup-only mode");
    SX_ASSERT(cl->fields.size() == nf && x.vm.classes.size() == nc, "a failed lookup declares nothing");
  } else if (!nullId) SX_ASSERT(f, "an unknown field gets an id");
  bool nullRecv = sx_choose(2, "nullreceiver");
  if (nullRecv) { c = nullptr; o = nullptr; }
  T v;
  memset(&v, 0, sizeof v);
  if (!std::is_same<T, jobject>::value) v = sx_any<T>("v");
  if (st) Tr<T>::set(env, c, f, v); else Tr<T>::set(env, o, f, v);
  T r = st ? Tr<T>::get(env, c, f) : Tr<T>::get(env, o, f);
  SX_ASSERT(std::is_same<T, jobject>::value || zero(r), "a field nothing implements reads zero, whatever was written to it");
  if (x.lookup) SX_ASSERT(zero(r), "a field nothing implements reads null");
  SX_ASSERT(!env->ExceptionCheck(), "using a field nothing implements leaves nothing pending");
  // half-implemented fields: a missing getter or setter is an unknown member too
  c = env->FindClass("p/Known");
  o = JNITypes<std::shared_ptr<Known>>::ToJNIType(e, obj);
  jfieldID snk = env->GetFieldID(c, "sink", "I"), src = env->GetFieldID(c, "source", "I");
  SX_ASSERT(env->GetIntField(o, snk) == 0, "a field without a getter reads zero");
  env->SetIntField(o, src, 77);
  SX_ASSERT(env->GetIntField(o, src) == 9 && seen == 0, "writing a field without a setter changes nothing");
  SX_ASSERT(!env->ExceptionCheck(), "using half a field leaves nothing pending");
  sx_reach(f ? "unknown-field" : "null-field");
}
template <class T> static void both(Env &x) {
  bool nullId = sx_choose(2, "nullid");
  method<T>(x, nullId);
}
struct NoCtor : public Extends<Object> { NoCtor(int) {} };
// results of unknown object-returning members
static void objects(Env &x) {
  JNIEnv *env = x.env;
  ENV *e = x.vm.GetEnv().get();
  e->GetClass<Known>("p/Known");
  e->GetClass<NoCtor>("p/NoCtor");
  static const char *sigs[] = {"Ljava/lang/String;", "Lp/Known;", "Lp/NoCtor;", "Lp/Unseen;", "[I", "[D", "[J", "[F", "[S", "[C", "[B", "[Z", "[Ljava/lang/String;", "[Lp/Unseen;", "[[I", "[[Lp/Known;"};
  const char *s = sigs[sx_choose(16, "type")];
  jclass c = env->FindClass("java/lang/Object");
  jobject r;
  jstring recv = env->NewStringUTF("");
  switch (sx_choose(4, "member")) {
  case 0: { jmethodID m = env->GetStaticMethodID(c, "gone", (std::string("(I)") + s).c_str()); r = env->CallStaticObjectMethod(c, m, 1); break; }
  case 1: { jmethodID m = env->GetMethodID(c, "gone", (std::string("()") + s).c_str()); r = env->CallObjectMethod(recv, m); break; }
  case 2: { jfieldID f = env->GetStaticFieldID(c, "gone", s); r = env->GetStaticObjectField(c, f); break; }
  case 3: { jfieldID f = env->GetFieldID(c, "gone", s); r = env->GetObjectField(recv, f); break; }
  }
  SX_ASSERT(!env->ExceptionCheck(), "using an unknown member leaves nothing pending");
#ifndef JNI_RETURN_NON_ZERO
  SX_ASSERT(!r, "an unknown object member yields null");
#else
  if (x.lookup) { SX_ASSERT(!r, "an unknown object member yields null in lookup-only mode"); return; }
  if (r) {
    std::string cls = s[0] == 'L' ? std::string(s + 1, s + strlen(s) - 1) : s;
    SX_ASSERT(env->IsSameObject(env->GetObjectClass(r), env->FindClass(cls.c_str())), "a fabricated result is of the declared type");
    if (s[0] == '[') SX_ASSERT(env->GetArrayLength((jarray)r) == 0, "a fabricated array is empty");
    if (streq(s, "Ljava/lang/String;")) SX_ASSERT(env->GetStringLength((jstring)r) == 0, "a fabricated string is empty");
    if (streq(s, "Lp/Known;")) SX_ASSERT((JNITypes<std::shared_ptr<Known>>::JNICast(e, r))->n == 5, "a fabricated object is default constructed");
    sx_reach("fabricated");
  } else {
    SX_ASSERT(streq(s, "Lp/NoCtor;"), "only types that cannot be constructed yield null");
    sx_reach("null-object");
  }
#endif
}
template <class T> static void one(Env &x) {
  bool nullId = sx_choose(2, "nullid");
  if (sx_choose(2, "field")) field<T>(x, nullId); else method<T>(x, nullId);
}
// null classes
static void nulls(Env &x) {
  JNIEnv *env = x.env;
  switch (sx_choose(9, "which")) {
  case 0: { jmethodID m = env->GetMethodID(nullptr, "a", "()V"); SX_ASSERT((m == nullptr) == x.lookup, "lookup on no class"); break; }
  case 1: { jmethodID m = env->GetStaticMethodID(nullptr, "a", "()V"); SX_ASSERT((m == nullptr) == x.lookup, "lookup on no class"); break; }
  case 2: { jfieldID m = env->GetFieldID(nullptr, "a", "I"); SX_ASSERT((m == nullptr) == x.lookup, "lookup on no class"); break; }
  case 3: { jfieldID m = env->GetStaticFieldID(nullptr, "a", "I"); SX_ASSERT((m == nullptr) == x.lookup, "lookup on no class"); break; }
  case 4: { jmethodID m = env->GetMethodID(nullptr, "<init>", "()V"); SX_ASSERT((m == nullptr) == x.lookup, "lookup on no class"); break; }
  case 5: SX_ASSERT(env->GetArrayLength(nullptr) == 0 && env->GetIntArrayElements(nullptr, nullptr) == nullptr, "no array has no elements"); break;
  case 6: SX_ASSERT(env->NewGlobalRef(nullptr) == nullptr && env->NewLocalRef(nullptr) == nullptr && env->NewWeakGlobalRef(nullptr) == nullptr, "no reference to nothing"); break;
  case 7: env->DeleteLocalRef(nullptr); env->DeleteGlobalRef(nullptr); env->DeleteWeakGlobalRef(nullptr); break;
  case 8: { JNINativeMethod n = {(char *)"m", (char *)"()V", (void *)&nulls}; env->RegisterNatives(nullptr, &n, 1); env->UnregisterNatives(nullptr); break; }
  }
  SX_ASSERT(!env->ExceptionCheck(), "nothing is pending");
  sx_reach("nulls");
}
int main() {
  bool lookup = sx_choose(2, "lookuponly");
  VM vm(false, lookup);
  Env x{vm, vm.GetJNIEnv(), lookup};
  switch (sx_choose(12, "type")) {
  case 0: one<jboolean>(x); break;
  case 1: one<jbyte>(x); break;
  case 2: one<jchar>(x); break;
  case 3: one<jshort>(x); break;
  case 4: one<jint>(x); break;
  case 5: one<jlong>(x); break;
  case 6: one<jfloat>(x); break;
  case 7: one<jdouble>(x); break;
  case 8: one<jobject>(x); break;
  case 9: method<void>(x, sx_choose(2, "nullid")); break;
  case 10: objects(x); break;
  case 11: nulls(x); break;
  }
  sx_reach("end");
  return 0;
}
