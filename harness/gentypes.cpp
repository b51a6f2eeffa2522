// C27: the generated C++ names the type each descriptor stands for.
#include "common.h"
#include <jnivm/field.h>
#include <jnivm/method.h>
using namespace jnivm;
#if JNIVM_FAKE_JNI_SYNTAX
enum { FAKE = 1 };
#else
enum { FAKE = 0 };
#endif
static std::string strip(const std::string &s) {
  std::string r;
  for (char c : s) if (c != ' ' && c != '\n' && c != '\t') r.push_back(c);
  return r;
}
static bool isName(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '/' || c == '$'; }
// what a descriptor stands for, read from the descriptor alone
static std::string cxxType(const char *&p, bool element = false) {
  struct P { char c; const char *j, *f; };
  static const P prims[] = {{'Z', "jboolean", "Boolean"}, {'B', "jbyte", "Byte"}, {'S', "jshort", "Short"}, {'C', "jchar", "Char"}, {'I', "jint", "Int"}, {'J', "jlong", "Long"}, {'F', "jfloat", "Float"}, {'D', "jdouble", "Double"}};
  for (auto &x : prims)
    if (*p == x.c) {
      p++;
      return FAKE ? std::string("FakeJni::J") + x.f : std::string(x.j);
    }
  std::string t;
  if (*p == '[') {
    p++;
    bool prim = *p != '[' && *p != 'L';
    std::string e = cxxType(p, true);
    t = FAKE ? prim ? e + "Array" : "FakeJni::JArray<" + e + ">" : "jnivm::Array<" + e + ">";
  } else {
    sx_assume(*p == 'L');
    const char *b = ++p;
    while (*p != ';') {
      sx_assume(isName(*p));
      if (*p == '/' || *p == '$') sx_assume(p != b && p[1] != '/' && p[1] != '$' && p[1] != ';');
      p++;
    }
    sx_assume(p != b);
    std::string n(b, p);
    p++;
    if (FAKE && n == "java/lang/String") t = "FakeJni::JString";
    else if (FAKE && n == "java/lang/Object") t = "FakeJni::JObject";
    else if (FAKE && n == "java/lang/Throwable") t = "FakeJni::JThrowable";
    else if (FAKE && n == "java/lang/Class") t = "FakeJni::JClass";
    else if (FAKE && n == "java/lang/ref/WeakReference") t = "FakeJni::JWeak";
    else {
      t = "jnivm::";
      for (char c : n) if (c == '/' || c == '$') t += "::"; else t.push_back(c);
    }
  }
  return element ? t : "std::shared_ptr<" + t + ">";
}
static unsigned fill(char *d, unsigned N) { // an arbitrary descriptor
  static const char *special[] = {"java/lang/String", "java/lang/Object", "java/lang/Throwable", "java/lang/Class", "java/lang/ref/WeakReference"};
  unsigned s = sx_choose(8, "special");
  if (s < 5) {
    unsigned n = 0, l = strlen(special[s]);
    if (sx_choose(2, "array")) d[n++] = '[';
    d[n++] = 'L';
    memcpy(d + n, special[s], l);
    unsigned k = sx_choose(l + 1, "change");
    if (k < l && d[n + k] != '/') {
      d[n + k] = sx_any<char>("letter");
      sx_assume(d[n + k] >= 'A' && d[n + k] <= 'z' && (d[n + k] <= 'Z' || d[n + k] >= 'a'));
    }
    n += l;
    switch (k < l ? 0 : sx_choose(4, "end")) { // names that are longer or shorter
    case 1: d[n++] = 's'; break;
    case 2: d[n++] = '$', d[n++] = 'I'; break;
    case 3: n--; break;
    }
    d[n++] = ';';
    return n;
  }
  if (s > 5) { // long ones
    static const char *longer[] = {"IJZ[DLp/C;IFBSC[[Lq$r;S", "Lsome/rather/long/package/with/ManyParts/AndNames/AbcdefghijklmnopqrstuvwxyzAbcdefghijklmnopqrstuvwxyz$Nested$Again;"};
    unsigned l = strlen(longer[s - 6]);
    memcpy(d, longer[s - 6], l);
    if (s == 7) return l;
    d[l] = sx_any<char>("last");
    sx_assume(d[l] != '[' && d[l] != 'L');
    sx_reach("many");
    return l + 1;
  }
  unsigned n = 1 + sx_choose(N, "length");
  sx_symbolic(d, n, "descriptor");
  return n;
}
int main() {
  unsigned N = sx_param("N", 5);
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  jclass c = env->FindClass("p/C");
  auto cl = vm.classes["p/C"];
  char d[160] = {0};
  unsigned n = fill(d, N);
  const char *p = d;
  int member = sx_choose(4, "member");
  switch (member) {
  case 0: { // a field
    std::string t = cxxType(p);
    sx_assume(p == d + n);
    bool st = sx_choose(2, "static");
    jfieldID f = st ? env->GetStaticFieldID(c, "fld", d) : env->GetFieldID(c, "fld", d);
    SX_ASSERT(f && cl->fields.size() == 1, "field");
    SX_ASSERT(strip(cl->fields[0]->GenerateHeader()) == (st ? "static" : "") + t + "fld;", "declaration of a field");
    SX_ASSERT(strip(cl->fields[0]->GenerateStubs("jnivm::p::C", "C")) == (st ? t + "jnivm::p::C::fld={};" : ""), "definition of a static field");
    sx_reach("field");
    break;
  }
  default: { // a method or constructor with any parameters and result
    bool ctor = member == 3, result = !ctor && sx_choose(2, "result");
    std::string params, named, list, rt = "void";
    int k = 0;
    while (p < d + n) {
      std::string t = cxxType(p);
      if (result) { rt = t; break; }
      if (k) params += ",", named += ",";
      params += t;
      named += t + "arg" + std::to_string(k), list += ",arg" + std::to_string(k);
      k++;
    }
    sx_assume(p == d + n);
    std::string full = result ? std::string("()") + d : std::string("(") + d + ")V";
    if (ctor) {
      SX_ASSERT(env->GetMethodID(c, "<init>", full.c_str()) && cl->methods.size() == 1, "constructor");
      auto &m = cl->methods[0];
      std::string sep = k ? "," : "", e = FAKE ? "" : "jnivm::ENV*env,jnivm::Class*cl" + sep, e2 = FAKE ? "" : "jnivm::ENV*,jnivm::Class*cl" + sep;
      SX_ASSERT(strip(m->GenerateHeader("C")) == "C(" + e + params + ");", "declaration of a constructor");
      SX_ASSERT(strip(m->GenerateStubs("jnivm::p::C", "C")) == "jnivm::p::C::C(" + e2 + named + "){}", "definition of a constructor");
      SX_ASSERT(strip(m->GenerateJNIBinding("jnivm::p::C", "C")) == (FAKE ? "{FakeJni::Constructor<C" + sep + params + ">{}}," : "c->Hook(env,\"<init>\",[](jnivm::ENV*env,jnivm::Class*cl" + sep + named + "){returnstd::make_shared<jnivm::p::C>(env,cl" + list + ");});"), "binding of a constructor");
      sx_reach("constructor");
      break;
    }
    bool st = sx_choose(2, "static");
    jmethodID m = st ? env->GetStaticMethodID(c, "mth", full.c_str()) : env->GetMethodID(c, "mth", full.c_str());
    SX_ASSERT(m && cl->methods.size() == 1, "method");
    std::string first = FAKE ? "" : st ? "jnivm::ENV*env,jnivm::Class*cl" : "jnivm::ENV*env", first2 = FAKE ? "" : st ? "jnivm::ENV*,jnivm::Class*cl" : "jnivm::ENV*";
    std::string sep = !first.empty() && k ? "," : "";
    SX_ASSERT(strip(cl->methods[0]->GenerateHeader("C")) == (st ? "static" : "") + rt + "mth(" + first + sep + params + ");", "declaration of a method");
    SX_ASSERT(strip(cl->methods[0]->GenerateStubs("jnivm::p::C", "C")) == rt + "jnivm::p::C::mth(" + first2 + sep + named + "){" + (result ? "return{};" : "") + "}", "definition of a method");
    if (result) sx_reach("result"); else sx_reach("params");
    if (k > 1) sx_reach("several");
  }
  }
  sx_reach("end");
  return 0;
}
