// C13: local references and frames keep exactly the objects they should alive.
#include "jni_types.h"
using namespace jnivm;
static const int O = 2;
static int live[O], made[O];
struct K : public Extends<Object> {
  int id;
  jint v;
  K(int id, jint v) : id(id), v(v) { live[id]++; }
  ~K() { live[id]--; }
};
static const int MAXF = 6;
static int cnt[MAXF][O], depth = 1; // references per frame; frame 0 is the thread's own
static jobject ref[O];
static jint val[O];
static int others; // objects alive besides
struct F : public Extends<Object> {
  F() { others++; }
  ~F() { others--; }
};
static int fill[MAXF];
static void unref(JNIEnv *env, jobject r, int via) {
  if (via == 1) env->DeleteGlobalRef(r);
  if (via == 2) env->DeleteWeakGlobalRef(r);
}
// the object by its local reference, a global or a weak one
static jobject by(JNIEnv *env, int o, int &via) {
  via = sx_choose(3, "via");
  return via == 0 ? ref[o] : via == 1 ? env->NewGlobalRef(ref[o]) : env->NewWeakGlobalRef(ref[o]);
}
static int total(int o) { int s = 0; for (int f = 0; f < depth; f++) s += cnt[f][o]; return s; }
static void check(JNIEnv *env, ENV *e) {
  int f = 0;
  for (int i = 0; i < depth; i++) f += fill[i];
  SX_ASSERT(others == f, "a frame holds every reference made in it");
  for (int o = 0; o < O; o++) {
    SX_ASSERT(live[o] == (total(o) > 0), "an object lives exactly as long as references to it");
    if (total(o) > 0) {
      auto p = JNITypes<std::shared_ptr<K>>::JNICast(e, ref[o]);
      SX_ASSERT(p && p->id == o && p->v == val[o], "a reference keeps naming its object");
      SX_ASSERT(env->GetObjectRefType(ref[o]) == JNILocalRefType, "kind of reference");
    }
  }
}
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  ENV *e = vm.GetEnv().get();
  e->GetClass<K>("p/K");
  e->GetClass<F>("p/F");
  int n = sx_param("N", 4);
  for (int step = 0; step < n; step++) {
    int op = sx_choose(8, "op"), via;
    int o = op == 0 || op == 1 || op >= 6 ? 0 : sx_choose(O, "obj");
    switch (op) {
    case 0: {
      sx_assume(depth < MAXF);
      static const jint caps[] = {0, 1, 16};
      SX_ASSERT(env->PushLocalFrame(caps[sx_choose(3, "cap")]) == 0, "push");
      for (int k = 0; k < O; k++) cnt[depth][k] = 0;
      fill[depth] = 0;
      depth++;
      break;
    }
    case 1: {
      SX_ASSERT(env->PopLocalFrame(nullptr) == nullptr, "popping without a result gives null");
      for (int k = 0; k < O; k++) cnt[depth - 1][k] = 0;
      fill[depth - 1] = 0;
      if (depth > 1) depth--;
      sx_reach("pop");
      break;
    }
    case 2: { // pop, carrying a result
      sx_assume(total(o) > 0);
      jobject src = by(env, o, via), r = env->PopLocalFrame(src);
      SX_ASSERT(r && (!via || env->IsSameObject(r, src)), "the result of a popped frame stays the same object");
      for (int k = 0; k < O; k++) cnt[depth - 1][k] = 0;
      fill[depth - 1] = 0;
      if (depth > 1) depth--;
      cnt[depth - 1][o]++;
      ref[o] = r;
      unref(env, src, via);
      sx_reach("pop-result");
      break;
    }
    case 3: { // a new object
      sx_assume(total(o) == 0);
      val[o] = sx_any<jint>("v");
      ref[o] = JNITypes<std::shared_ptr<K>>::ToJNIType(e, std::make_shared<K>(o, val[o]));
      cnt[depth - 1][o]++;
      break;
    }
    case 4: {
      sx_assume(total(o) > 0);
      jobject src = by(env, o, via), r = env->NewLocalRef(src);
      SX_ASSERT(r && env->IsSameObject(r, ref[o]), "a new local reference names the same object");
      cnt[depth - 1][o]++;
      ref[o] = r;
      unref(env, src, via);
      break;
    }
    case 5: { // the innermost reference is deleted
      sx_assume(total(o) > 0);
      env->DeleteLocalRef(ref[o]);
      for (int f = depth - 1; f >= 0; f--) if (cnt[f][o]) { cnt[f][o]--; break; }
      sx_reach("delete");
      break;
    }
    case 6: // other calls made meanwhile
      SX_ASSERT(env->EnsureLocalCapacity(9) == 0, "capacity");
      SX_ASSERT(env->NewLocalRef(nullptr) == nullptr, "no reference to nothing");
      env->DeleteLocalRef(nullptr);
      SX_ASSERT(env->FindClass("p/K"), "class");
      break;
    case 7: // many references at once
      for (int i = 0; i < 4; i++) JNITypes<std::shared_ptr<F>>::ToJNIType(e, std::make_shared<F>());
      fill[depth - 1] += 4;
      break;
    }
    check(env, e);
  }
  SX_ASSERT(!env->ExceptionCheck(), "nothing pending");
  while (depth > 0) { // the frames are unwound
    env->PopLocalFrame(nullptr);
    for (int k = 0; k < O; k++) cnt[depth - 1][k] = 0;
    fill[depth - 1] = 0;
    depth--;
    for (int o = 0; o < O; o++) SX_ASSERT(live[o] == (total(o) > 0), "a popped frame releases its objects, and no others");
  }
  sx_reach("end");
  return 0;
}
