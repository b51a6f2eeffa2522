// C25: what is denied is never made up, everything else is as if nothing was denied.
#include "common.h"
#include <baron/baron.h>
using namespace FakeJni;
struct A : public JObject {};
static Baron::Jvm *vm;
static JNIEnv *env;
static const char *CN[3] = {"a", "ab", "a$i"}, *HN[2] = {"h/H", "h/Hx"};
static const char *MS[3] = {"()V", "(La;)V", "()La$i;"}, *FS[3] = {"I", "La;", "La$i;"};
enum Know { NO, MAYBE, YES };
static Know have[3];     // classes that exist
static bool denied[3];
static bool isDenied(int c) { return denied[c] || (c == 2 && denied[0]); }
struct Rule { int len; char name; int sig, cls; } rules[8];
static int nrules;
struct Known { char name; int sig, cls; bool st; void *id; } known[8];
static int nknown;
static bool fields;
static const char *sigOf(int i) { return i < 0 ? "" : fields ? FS[i] : MS[i]; }
static void mention(int c) {
  if (isDenied(c)) return;
  if (have[c] == NO) have[c] = MAYBE;
  if (c == 2) mention(0);
}
static void classQuery() {
  int c = sx_choose(3, "which");
  jclass r;
  if (sx_choose(2, "cpp")) {
    auto s = vm->findClass(CN[c]);
    r = s ? (jclass)env->NewLocalRef((jobject)s.get()) : nullptr;
  } else r = env->FindClass(CN[c]);
  if (isDenied(c)) {
    if (have[c] == NO) { SX_ASSERT(!r, "a denied class is not made up"); sx_reach("class-denied"); }
    if (have[c] == YES) SX_ASSERT(r, "a known class stays");
  } else SX_ASSERT(r, "a class that is not denied is made up");
  if (r) {
    SX_ASSERT(env->IsSameObject(r, env->FindClass(CN[c])), "one class per name");
    if (have[c] != NO) sx_reach("class-known");
    have[c] = YES;
    if (c == 2) have[0] = YES;
  } else {
    SX_ASSERT(!env->FindClass(CN[c]) && !vm->findClass(CN[c]), "same answer again");
  }
}
static void *lookup(jclass h, bool st, const char *n, const char *s) {
  if (fields) return st ? (void *)env->GetStaticFieldID(h, n, s) : (void *)env->GetFieldID(h, n, s);
  return st ? (void *)env->GetStaticMethodID(h, n, s) : (void *)env->GetMethodID(h, n, s);
}
static void memberQuery() {
  int cls = sx_choose(2, "host"), sig = sx_choose(3, "signature");
  bool st = sx_choose(2, "static");
  char nm[2] = {sx_any<char>("name"), 0};
  sx_assume(nm[0] >= 'k' && nm[0] <= 'z');
  jclass h = env->FindClass(HN[cls]);
  SX_ASSERT(h, "host class");
  void *id = lookup(h, st, nm, sigOf(sig));
  bool den = false;
  for (int i = 0; i < nrules && !den; i++) {
    Rule &r = rules[i];
    den = (r.cls < 0 || r.cls == cls) && (r.sig < 0 || r.sig == sig) && (!r.len || r.name == nm[0]);
  }
  SX_ASSERT((fields ? vm->isFieldDenied(nm, sigOf(sig), HN[cls]) : vm->isMethodDenied(nm, sigOf(sig), HN[cls])) == den, "denied exactly by a matching rule");
  void *want = nullptr;
  for (int i = 0; i < nknown && !want; i++) {
    Known &k = known[i];
    if (k.cls == cls && k.st == st && k.sig == sig && k.name == nm[0]) want = k.id;
  }
  if (want) {
    SX_ASSERT(id == want, "a known member stays");
    if (den) sx_reach("member-known");
  } else if (den) {
    SX_ASSERT(!id, "a denied member is not made up");
    SX_ASSERT(!lookup(h, st, nm, sigOf(sig)), "same answer again");
    sx_reach("member-denied");
  } else {
    SX_ASSERT(id, "a member that is not denied is made up");
    for (int i = 0; i < nknown; i++) SX_ASSERT(known[i].id != id, "members are distinct");
    sx_assume(nknown < 8);
    known[nknown++] = Known{nm[0], sig, cls, st, id};
    if (sig == 1) mention(0);
    if (sig == 2) mention(2);
  }
  if (id && !fields && st && sig == 2) { // returns an object of a class that may be denied
    jobject o = env->CallStaticObjectMethod(h, (jmethodID)id);
    if (isDenied(2) && have[2] == NO) SX_ASSERT(!o, "no object of a denied class");
    else if (o) { mention(2); SX_ASSERT(have[2] != NO, "object of a class that exists"); }
    if (isDenied(2) && have[2] == NO) sx_reach("no-object");
  }
}
int main() {
  int N = sx_param("N", 3);
  {
    Baron::Jvm v;
    vm = &v;
    LocalFrame frame;
    env = &frame.getJniEnv();
    fields = sx_choose(2, "fields");
    if (sx_choose(2, "bound")) {
      jnivm::ENV::FromJNIEnv(env)->GetClass<A>("a");
      have[0] = YES;
    }
    auto h = jnivm::ENV::FromJNIEnv(env)->GetClass(HN[0]);
    if (sx_choose(2, "implemented")) {
      if (fields) h->HookGetterFunction(jnivm::ENV::FromJNIEnv(env), "m", [](jnivm::ENV *, jnivm::Class *) -> jint { return 7; });
      else h->Hook(jnivm::ENV::FromJNIEnv(env), "m", [](jnivm::ENV *, jnivm::Class *) -> void {});
      jclass H = env->FindClass(HN[0]);
      known[nknown++] = Known{'m', 0, 0, true, lookup(H, true, "m", sigOf(0))};
      SX_ASSERT(known[0].id, "bound member");
    }
    for (int n = 0; n < N; n++)
      switch (n == N - 1 ? 2 + sx_choose(2, "query") : sx_choose(4, "op")) {
      case 0: {
        int c = sx_choose(3, "deny");
        vm->denyClass(CN[c]);
        denied[c] = true;
        break;
      }
      case 1: {
        Rule r = {(int)sx_choose(2, "named"), 0, (int)sx_choose(4, "rule-signature") - 1, (int)sx_choose(3, "rule-class") - 1};
        char nm[2] = {0, 0};
        if (r.len) {
          nm[0] = sx_any<char>("rule-name");
          sx_assume(nm[0] >= 'k' && nm[0] <= 'z');
          r.name = nm[0];
        }
        if (fields) vm->denyField(nm, sigOf(r.sig), r.cls < 0 ? "" : HN[r.cls]);
        else vm->denyMethod(nm, sigOf(r.sig), r.cls < 0 ? "" : HN[r.cls]);
        rules[nrules++] = r;
        break;
      }
      case 2: classQuery(); break;
      default: memberQuery(); break;
      }
    void *nameless = fields ? nullptr : lookup(env->FindClass(HN[1]), true, nullptr, nullptr);
    if (!nrules && !fields) SX_ASSERT(nameless && nameless == lookup(env->FindClass(HN[1]), true, "", ""), "a missing name is an empty one");
  }
  sx_reach("end");
  return 0;
}
