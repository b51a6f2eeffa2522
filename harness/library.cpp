// C23: every library that is loaded is initialized once, finalized once and closed once.
#include "common.h"
#include <fake-jni/fake-jni.h>
static FakeJni::Jvm *vm;
static const char *PATH[3] = {"lib/a.so", "stat", "a.so"};
enum { PATHS = 3, MAXH = 12 };
static int syms[PATHS];   // bit 0: JNI_OnLoad, bit 1: JNI_OnUnload
struct Handle { int path; bool st, open, loaded, unloaded; } hs[MAXH];
static int nh, current = -1; // path being attached
static bool owned[PATHS], busy[PATHS], finalizing[PATHS], ending;
static int attempts, failed, nest, opens[PATHS];
// What entry points do: libraries 0 and 2 attach and remove each other or themselves.
enum { NONE, OTHER, SELF, PAIR, CYCLE, SELF_REMOVE, LATE, MODES };
static JNIEnv *theEnv;
static Handle &H(void *h) {
  int i = (int)(intptr_t)h - 1;
  SX_ASSERT(i >= 0 && i < nh, "a handle the loader gave out");
  SX_ASSERT(hs[i].open, "a handle that is open");
  return hs[i];
}
static int live(int p) {
  int r = 0;
  for (int i = 0; i < nh; i++) if (hs[i].open && (p < 0 || hs[i].path == p)) r++;
  return r;
}
static void attach(int p);
static void remove_(int p);
static void useVm(JavaVM *j, void *reserved) {
  SX_ASSERT(j == (JavaVM *)vm && !reserved, "arguments of the entry point");
  JNIEnv *env = nullptr;
  SX_ASSERT(j->GetEnv((void **)&env, JNI_VERSION_1_6) == JNI_OK && jnivm::ENV::FromJNIEnv(env) == jnivm::ENV::FromJNIEnv(theEnv), "the VM is usable");
  SX_ASSERT(env->FindClass("java/lang/String"), "the VM is usable");
}
template <int I> static jint JNICALL onload(JavaVM *j, void *r) {
  SX_ASSERT(hs[I].open && !hs[I].loaded, "initialized once, while open");
  hs[I].loaded = true;
  useVm(j, r);
  int p = hs[I].path;
  if (p == 0 && nest != NONE && nest != SELF_REMOVE && nest != LATE) attach(nest == SELF ? 0 : 2);
  if (p == 2 && nest == CYCLE) attach(0);
  SX_ASSERT(hs[I].open && !hs[I].unloaded, "open while it is initialized");
  return JNI_VERSION_1_6;
}
template <int I> static void JNICALL onunload(JavaVM *j, void *r) {
  SX_ASSERT(hs[I].open && !hs[I].unloaded, "finalized once, while open");
  hs[I].unloaded = true;
  useVm(j, r);
  int p = hs[I].path;
  finalizing[p] = true;
  if (p == 0 && nest == PAIR) remove_(2);
  if (p == 0 && nest == SELF_REMOVE) remove_(0);
  if (p == 0 && nest == LATE) attach(2);
  finalizing[p] = false;
  SX_ASSERT(hs[I].open, "open while it is finalized");
}
template <int... I> struct Tab { static void *load(int i) { static void *t[] = {(void *)&onload<I>...}; return t[i]; } static void *unload(int i) { static void *t[] = {(void *)&onunload<I>...}; return t[i]; } };
typedef Tab<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11> F;
static void *open_(const char *n, int) {
  SX_ASSERT(current >= 0, "libraries are opened only when attached");
  attempts++;
  if (n) SX_ASSERT(streq(n, PATH[current]), "the library asked for is opened");
  else SX_ASSERT(current == 1 && attempts == 2, "only plain names fall back to the program itself");
  if (!sx_choose(2, "opens")) { failed++; return nullptr; }
  SX_ASSERT(nh < MAXH, "handles");
  hs[nh] = Handle{current, !n, true, false, false};
  opens[current]++;
  return (void *)(intptr_t)++nh;
}
static bool sameSuffix(const char *s, const char *base, const char *suffix) { // s == base [ "_" suffix ]
  size_t i = 0;
  for (; base[i]; i++) if (s[i] != base[i]) return false;
  if (!suffix) return !s[i];
  return s[i] == '_' && streq(s + i + 1, suffix);
}
static void *sym_(void *h, const char *n) {
  Handle &x = H(h);
  const char *suf = x.st ? PATH[x.path] : nullptr;
  if (sameSuffix(n, "JNI_OnLoad", suf)) return syms[x.path] & 1 ? F::load(&x - hs) : nullptr;
  SX_ASSERT(sameSuffix(n, "JNI_OnUnload", suf), "entry points are looked up by their name");
  return syms[x.path] & 2 ? F::unload(&x - hs) : nullptr;
}
static int close_(void *h) {
  Handle &x = H(h);
  SX_ASSERT(x.loaded == (bool)(syms[x.path] & 1), "initialized before it is closed");
  SX_ASSERT(x.unloaded == (bool)(syms[x.path] & 2), "finalized before it is closed");
  x.open = false;
  return 0;
}
static void attach(int p) {
  int c = current, at = attempts, f = failed;
  bool was = ending ? live(p) > 0 : owned[p], loading = busy[p];
  int before = opens[p];
  current = p;
  attempts = failed = 0;
  busy[p] = true;
  if (c >= 0 || finalizing[0]) sx_reach("nested");
  vm->attachLibrary(PATH[p], "", FakeJni::LibraryOptions(open_, sym_, close_));
  busy[p] = loading;
  if (was || loading) {
    SX_ASSERT(opens[p] == before && live(p) == 1, "an attached library is not loaded again");
    sx_reach(loading ? "own" : "again");
  } else {
    SX_ASSERT(attempts >= 1 && opens[p] - before == (failed < attempts), "the library is opened once");
    SX_ASSERT(attempts == (p == 1 && failed ? 2 : 1), "fallback for plain names only, after a failure only");
    owned[p] = opens[p] > before;
    if (owned[p]) {
      for (int i = 0; i < nh; i++) {
        Handle &h = hs[i];
        if (h.path != p || !h.open) continue;
        SX_ASSERT(!h.unloaded && h.loaded == (bool)(syms[p] & 1), "initialized when attached, and kept");
        if (h.st) sx_reach("static");
      }
      SX_ASSERT(live(p) == 1, "initialized when attached, and kept");
    } else sx_reach("failed");
  }
  current = c, attempts = at, failed = f;
}
static void remove_(int p) {
  owned[p] = false;
  vm->removeLibrary(PATH[p]);
  SX_ASSERT(live(p) == (finalizing[p] ? 1 : 0), "a removed library is closed");
  sx_reach("remove");
}
int main() {
  int N = sx_param("N", 3);
  {
    FakeJni::Jvm v;
    vm = &v;
    {
      FakeJni::LocalFrame frame(v);
      theEnv = &frame.getJniEnv();
      nest = sx_choose(MODES, "nest");
      for (int p = 0; p < PATHS; p++) syms[p] = p == 2 || nest ? 3 : sx_choose(4, "symbols");
      for (int n = 0; n < N; n++) {
        int p = nest ? 2 * sx_choose(2, "path") : sx_choose(PATHS, "path");
        if (sx_choose(2, "op")) attach(p);
        else remove_(p);
        for (int q = 0; q < PATHS; q++) SX_ASSERT(live(q) == (owned[q] ? 1 : 0), "other libraries stay as they are");
      }
    }
    if (live(-1)) sx_reach("open-at-exit");
    ending = true;
  }
  SX_ASSERT(live(-1) == 0, "destroying the VM closes what is left");
  sx_reach("end");
  return 0;
}
