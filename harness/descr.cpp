// C04: no descriptor or member name, however malformed, makes the library read
// or write outside the strings it was given.
#include "jni_types.h"
#include <jnivm/internal/jValuesfromValist.h>
#include <jnivm/field.h>
#include <jnivm/method.h>
#include <set>
using namespace jnivm;
static std::vector<jvalue> conv(const char *sig, ...) {
  va_list l;
  va_start(l, sig);
  struct End { va_list &l; ~End() { va_end(l); } } end{l};
  return JValuesfromValist(l, sig);
}
static size_t params(const char *s) { // number of parameters of a well-formed method descriptor, or -1
  if (*s++ != '(') return -1;
  size_t n = 0;
  while (*s != ')') {
    while (*s == '[') s++;
    if (*s == 'L') {
      if (s[1] == ';') return -1;
      while (*s && *s != ';') s++;
      if (!*s) return -1;
    } else if (!*s || !strchr("ZBCSIJFD", *s)) return -1;
    s++;
    n++;
  }
  s++;
  while (*s == '[') s++;
  if (*s == 'L') {
    if (s[1] == ';') return -1;
    while (*s && *s != ';') s++;
    if (!*s) return -1;
  } else if (!*s || !strchr("ZBCSIJFDV", *s)) return -1;
  return s[1] ? -1 : n;
}
static std::set<std::string> before; // the classes of the VM before the lookup
static std::vector<std::string> named(const char *s) { // the classes a well-formed descriptor names
  std::vector<std::string> r;
  for (; *s; s++)
    if (*s == 'L') {
      const char *b = ++s;
      while (*s != ';') s++;
      r.push_back(std::string(b, s));
    }
  return r;
}
// declaring a member declares the classes its descriptor names and their packages' no others
static void declares(VM &vm, const char *d, bool method) {
  bool wf = method ? params(d) != (size_t)-1 : d[0] != '(' && params((std::string("(") + d + ")V").c_str()) == 1;
  if (!wf) return;
  auto names = named(d);
  for (auto &n : names) if (n[0] == '/' || n.back() == '/' || n.find("//") != std::string::npos || n.find('(') != std::string::npos || n.find(')') != std::string::npos || n.find('[') != std::string::npos) return;
  for (auto &k : vm.classes) {
    bool known = before.count(k.first);
    for (auto &n : names) known = known || n == k.first;
    SX_ASSERT(known, "only classes the descriptor names are declared");
  }
  for (auto &n : names) SX_ASSERT(vm.classes.count(n), "the classes the descriptor names are declared");
  if (names.size()) sx_reach("declares");
}
// longer names, in well-formed descriptors
static void longer(VM &vm, JNIEnv *env) {
  unsigned n = 2 + sx_choose(sx_param("NAME", 5) - 1, "len");
  char name[16] = {};
  sx_symbolic(name, n, "name");
  for (unsigned i = 0; i < n; i++) {
    char c = name[i];
    sx_assume(c == 'V' || c == 'L' || c == '/' || c == 'x');
    if (c == '/') sx_assume(i && i + 1 < n && name[i - 1] != '/');
  }
  int form = sx_choose(4, "form");
  std::string k(name), d = form == 0 ? "L" + k + ";" : form == 1 ? "[[L" + k + ";" : form == 2 ? "(IL" + k + ";)V" : "([L" + k + ";J)Lr/" + k + ";";
  Buf<char> b(d.size() + 1);
  memcpy(b.p, d.c_str(), d.size() + 1);
  jclass c = env->FindClass("pkg/C");
  for (auto &k : vm.classes) before.insert(k.first);
  if (form < 2) {
    jfieldID f = env->GetFieldID(c, "f", b);
    SX_ASSERT(f && env->GetFieldID(c, "f", b) == f, "the same descriptor names the same field");
  } else {
    jmethodID m = env->GetMethodID(c, "m", b);
    SX_ASSERT(m && env->GetMethodID(c, "m", b) == m, "the same descriptor names the same method");
  }
  SX_ASSERT(!env->ExceptionCheck(), "nothing pending");
  declares(vm, b, form > 1);
  sx_reach("longer");
  sx_reach("end");
}
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  if (sx_choose(2, "longer")) {
    longer(vm, env);
    return 0;
  }
  unsigned N = sx_param("N", 4);
  unsigned pre = sx_choose(2, "open"); // descriptors that open like a method are where the parsers go deepest
  unsigned n = sx_choose(N + 1 - pre, "len");
  Buf<char> d(pre + n + 1);
  if (pre) d[0] = '(';
  sx_symbolic((char *)d + pre, n, "descriptor");
  for (unsigned i = 0; i < n; i++) {
    char c = d[pre + i];
    // every character a descriptor parser distinguishes, and 'x' for all others
    sx_assume(c == 'V' || c == 'I' || c == 'D' || c == 'L' || c == '[' || c == '(' || c == ')' || c == ';' || c == '/' || c == 'x');
  }
  d[pre + n] = 0;
  env->PushLocalFrame(8);
  jclass c = env->FindClass("pkg/C");
  bool threw = false;
  for (auto &k : vm.classes) before.insert(k.first);
  switch (sx_choose(7, "use")) {
  case 0: {
    try {
      jmethodID m = env->GetMethodID(c, "m", d);
      SX_ASSERT(env->GetMethodID(c, "m", d) == m, "the same descriptor names the same method");
      declares(vm, d, true);
      sx_reach("method");
    } catch (const std::exception &) { threw = true; }
    break;
  }
  case 1: {
    try {
      jfieldID f = env->GetStaticFieldID(c, "f", d);
      SX_ASSERT(env->GetStaticFieldID(c, "f", d) == f, "the same descriptor names the same field");
      declares(vm, d, false);
      sx_reach("field");
    } catch (const std::exception &) { threw = true; }
    break;
  }
  case 2: { // converting variable arguments by the descriptor
    size_t want = params(d), got = 0;
    try {
      got = conv(d, (jlong)1, (jlong)2, (jlong)3, (jlong)4, (jlong)5, (jlong)6, (jlong)7, (jlong)8, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0).size();
    } catch (const std::exception &) { threw = true; }
    if (want != (size_t)-1) {
      SX_ASSERT(!threw, "a well-formed descriptor is accepted");
      SX_ASSERT(got == want, "one argument per parameter of the descriptor");
      sx_reach("wellformed");
    } else sx_reach("malformed");
    break;
  }
  case 3: { // constructor lookup rewrites the descriptor
    try {
      jmethodID m = env->GetMethodID(c, "<init>", d);
      SX_ASSERT(env->GetMethodID(c, "<init>", d) == m, "the same descriptor names the same constructor");
    } catch (const std::exception &) { threw = true; }
    break;
  }
  case 4: { // the generated sources
    try {
      env->GetMethodID(c, "m", d);
      vm.np.GeneratePreDeclaration();
      auto cl = vm.classes["pkg/C"];
      for (auto &m : cl->methods) { m->GenerateHeader("C"); m->GenerateStubs("pkg::C", "C"); m->GenerateJNIBinding("pkg::C", "C"); }
      sx_reach("codegen-method");
    } catch (const std::exception &) { threw = true; }
    break;
  }
  case 5: {
    try {
      env->GetStaticFieldID(c, "f", d);
      auto cl = vm.classes["pkg/C"];
      for (auto &m : cl->fields) { m->GenerateHeader(); m->GenerateStubs("pkg::C", "C"); m->GenerateJNIBinding("pkg::C", "C"); }
      sx_reach("codegen-field");
    } catch (const std::exception &) { threw = true; }
    break;
  }
  case 6: { // a call through a method with this descriptor and no implementation
    try {
      jmethodID m = env->GetStaticMethodID(c, "m", d);
      jobject r = env->functions->CallStaticObjectMethod(env, c, m, (jlong)1, (jlong)2, (jlong)3, (jlong)4, (jlong)5, 1.0, 2.0, 3.0, 4.0, 5.0);
      (void)r;
      sx_reach("call");
    } catch (const std::exception &) { threw = true; }
    break;
  }
  }
  env->PopLocalFrame(nullptr);
  sx_obs("threw", threw);
  sx_reach("end");
  return 0;
}
