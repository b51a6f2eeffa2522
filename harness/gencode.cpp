// C27: the generated C++ declares, defines and binds every class and member once, where it belongs.
#include "common.h"
#include <jnivm/field.h>
#include <jnivm/method.h>
using namespace jnivm;
#if JNIVM_FAKE_JNI_SYNTAX
enum { FAKE = 1 };
#define J(T, F) "FakeJni::J" F
#else
enum { FAKE = 0 };
#define J(T, F) "j" T
#endif
typedef std::vector<std::string> Pieces;
static std::string strip(const std::string &s) {
  std::string r;
  for (char c : s) if (c != ' ' && c != '\n' && c != '\t') r.push_back(c);
  return r;
}
// text is exactly the pieces, in some order
static bool made(const std::string &t, size_t at, Pieces &ps, std::vector<bool> &used, size_t left) {
  if (!left) return at == t.size();
  for (size_t i = 0; i < ps.size(); i++)
    if (!used[i] && t.compare(at, ps[i].size(), ps[i]) == 0) {
      used[i] = true;
      if (made(t, at + ps[i].size(), ps, used, left - 1)) return true;
      used[i] = false;
    }
  return false;
}
static bool madeOf(const std::string &t, Pieces ps) {
  std::vector<bool> used(ps.size(), false);
  size_t n = 0;
  for (size_t i = 0; i < ps.size(); i++) {
    if (ps[i].empty()) used[i] = true;
    else n++;
  }
  return made(t, 0, ps, used, n);
}
static bool inside(const std::string &t, const std::string &pre, const std::string &post, std::string &mid) {
  if (t.size() < pre.size() + post.size() || t.compare(0, pre.size(), pre) || t.compare(t.size() - post.size(), post.size(), post)) return false;
  mid = t.substr(pre.size(), t.size() - pre.size() - post.size());
  return true;
}
enum { CLASSES = 5, MEMBERS = 6 };
static const char *JN[CLASSES] = {"p/A", "p/A$I", "B", "p/q/C", "java/lang/String"};
static const char *CN[CLASSES] = {"jnivm::p::A", "jnivm::p::A::I", "jnivm::B", "jnivm::p::q::C", ""};
static const char *LN[CLASSES] = {"A", "I", "B", "C", "String"};
static bool seen[CLASSES], member[CLASSES][MEMBERS];
static void see(int c) {
  seen[c] = true;
  if (c == 1) seen[0] = true;
}
static JNIEnv *env;
static void JNICALL nat(JNIEnv *, jobject) {}
static void look(int c, int m, bool twice) {
  jclass k = env->FindClass(JN[c]);
  see(c);
  for (int i = 0; i <= twice; i++)
    switch (m) {
    case 0: SX_ASSERT(env->GetFieldID(k, "f", "I"), "id"); break;
    case 1: SX_ASSERT(env->GetStaticFieldID(k, "g", "[Lp/A;"), "id"); see(0); break;
    case 2: SX_ASSERT(env->GetMethodID(k, "m", "(IJ)V"), "id"); break;
    case 3: SX_ASSERT(env->GetStaticMethodID(k, "s", "(Lp/q/C;)D"), "id"); see(3); break;
    case 4: SX_ASSERT(env->GetMethodID(k, "<init>", "(Z)V"), "id"); break;
    default: SX_ASSERT(env->GetMethodID(k, "o", "()Lp/A$I;"), "id"); see(1); break;
    }
  member[c][m] = true;
}
static std::string env1(bool st) { return FAKE ? "" : st ? "jnivm::ENV*env,jnivm::Class*cl" : "jnivm::ENV*env"; }
static std::string env2(bool st) { return FAKE ? "" : st ? "jnivm::ENV*,jnivm::Class*cl" : "jnivm::ENV*"; }
static std::string cat(std::string a, std::string b) { return a.empty() || b.empty() ? a + b : a + "," + b; }
static std::string declaration(int c, int m) {
  std::string I = J("int", "Int"), L = J("long", "Long"), D = J("double", "Double"), Z = J("boolean", "Boolean");
  switch (m) {
  case 0: return I + "f;";
  case 1: return std::string("staticstd::shared_ptr<") + (FAKE ? "FakeJni::JArray<" : "jnivm::Array<") + "jnivm::p::A>>g;";
  case 2: return "voidm(" + cat(env1(false), I + "," + L) + ");";
  case 3: return "static" + D + "s(" + cat(env1(true), "std::shared_ptr<jnivm::p::q::C>") + ");";
  case 4: return std::string(LN[c]) + "(" + cat(env1(true), Z) + ");";
  default: return "std::shared_ptr<jnivm::p::A::I>o(" + env1(false) + ");";
  }
}
static std::string definition(int c, int m) {
  std::string I = J("int", "Int"), L = J("long", "Long"), D = J("double", "Double"), Z = J("boolean", "Boolean"), S = std::string(CN[c]) + "::";
  switch (m) {
  case 0: return "";
  case 1: return std::string("std::shared_ptr<") + (FAKE ? "FakeJni::JArray<" : "jnivm::Array<") + "jnivm::p::A>>" + S + "g={};";
  case 2: return "void" + S + "m(" + cat(env2(false), I + "arg0," + L + "arg1") + "){}";
  case 3: return D + S + "s(" + cat(env2(true), "std::shared_ptr<jnivm::p::q::C>arg0") + "){return{};}";
  case 4: return S + LN[c] + "(" + cat(env2(true), Z + "arg0") + "){}";
  default: return "std::shared_ptr<jnivm::p::A::I>" + S + "o(" + env2(false) + "){return{};}";
  }
}
static std::string binding(int c, int m) {
  static const char *n[MEMBERS] = {"f", "g", "m", "s", "<init>", "o"};
  std::string Z = J("boolean", "Boolean"), S = CN[c], N = n[m], l = LN[c];
  if (m == 4)
    return FAKE ? "{FakeJni::Constructor<" + l + "," + Z + ">{}}," : "c->Hook(env,\"<init>\",[](jnivm::ENV*env,jnivm::Class*cl," + Z + "arg0){returnstd::make_shared<" + S + ">(env,cl,arg0);});";
  if (!FAKE) return "c->Hook(env,\"" + N + "\",&" + S + "::" + N + ");";
  std::string k = m < 2 ? "Field" : "Function", i = m < 2 ? "JFieldID" : "JMethodID";
  return "{FakeJni::" + k + "<&" + l + "::" + N + ">{},\"" + N + "\",FakeJni::" + i + "::PUBLIC" + (m == 1 || m == 3 ? "|FakeJni::" + i + "::STATIC" : "") + "},";
}
typedef std::string (*Piece)(int, int);
static Pieces members(int c, Piece f) {
  Pieces r;
  for (int m = 0; m < MEMBERS; m++) if (member[c][m]) r.push_back(f(c, m));
  return r;
}
// namespace text: namespaces and classes nested as the names say
static bool predeclared(const std::string &t) {
  std::string rest;
  Pieces p, q, r;
  if (!inside(t, FAKE ? "#include<fake-jni/fake-jni.h>" : "#include<jnivm.h>", "", rest)) return false;
  if (seen[0]) p.push_back("classA;");
  if (seen[3]) p.push_back("namespaceq{classC;}");
  if (seen[2]) r.push_back("classB;");
  std::string tries[2];
  for (int o = 0; o < 2; o++) {
    std::string s;
    for (size_t i = 0; i < p.size(); i++) s += p[o ? p.size() - 1 - i : i];
    tries[o] = s.empty() ? "" : "namespacep{" + s + "}";
  }
  if (rest.empty()) return r.empty() && p.empty();
  std::string mid;
  if (!inside(rest, "namespacejnivm{", "}", mid)) return false;
  Pieces a = r, b = r;
  a.push_back(tries[0]);
  b.push_back(tries[1]);
  return madeOf(mid, a) || madeOf(mid, b);
}
static std::string takeUntil(std::string &t, const std::string &start, const std::string &end) { // cuts the first block that starts at the beginning
  if (t.compare(0, start.size(), start)) return "";
  size_t e = t.find(end);
  if (e == std::string::npos) return "";
  std::string r = t.substr(start.size(), e - start.size());
  t = t.substr(e + end.size());
  return "!" + r;
}
static void check(VM &vm) {
  SX_ASSERT(predeclared(strip(vm.GeneratePreDeclaration())), "every class is declared once, in its namespace");
  std::string t = strip(vm.GenerateHeader());
  bool done[CLASSES] = {};
  for (int n = 0; n < 4 && !t.empty(); n++)
    for (int c = 0; c < 4; c++) {
      if (done[c]) continue;
      std::string head = std::string("class") + CN[c] + (FAKE ? ":publicFakeJni::JObject{public:DEFINE_CLASS_NAME(\"" : ":publicjnivm::Object{public:") + (FAKE ? std::string(JN[c]) + "\")" : "");
      std::string b = takeUntil(t, head, "};");
      if (b.empty()) continue;
      done[c] = true;
      Pieces p = members(c, declaration);
      if (c == 0 && seen[1]) p.push_back("classI;");
      SX_ASSERT(madeOf(b.substr(1), p), "a class declares its members, each once");
      if (c == 1) SX_ASSERT(done[0], "nested classes follow the class they are in");
    }
  SX_ASSERT(t.empty(), "nothing but classes");
  for (int c = 0; c < 4; c++) SX_ASSERT(done[c] == seen[c], "every class is defined once");
  Pieces defs, pre;
  for (int c = 0; c < 4; c++) {
    for (auto &s : members(c, definition)) defs.push_back(s);
    if (seen[c]) pre.push_back(FAKE ? std::string("vm->registerClass<") + CN[c] + ">();" : std::string("env->GetClass<") + CN[c] + ">(\"" + JN[c] + "\");");
  }
  SX_ASSERT(madeOf(strip(vm.GenerateStubs()), defs), "every function and static field is defined once");
  SX_ASSERT(madeOf(strip(vm.GenerateJNIPreDeclaration()), pre), "every class is registered once");
  t = strip(vm.GenerateJNIBinding());
  if (FAKE) {
    bool bound[CLASSES] = {};
    for (int n = 0; n < 4 && !t.empty(); n++)
      for (int c = 0; c < 4; c++) {
        if (bound[c]) continue;
        std::string b = takeUntil(t, std::string("BEGIN_NATIVE_DESCRIPTOR(") + CN[c] + ")", "END_NATIVE_DESCRIPTOR");
        if (b.empty()) continue;
        bound[c] = true;
        SX_ASSERT(madeOf(b.substr(1), members(c, binding)), "a class binds its members, each once");
      }
    SX_ASSERT(t.empty(), "nothing but descriptors");
    for (int c = 0; c < 4; c++) SX_ASSERT(bound[c] == seen[c], "every class is bound once");
  } else {
    Pieces all;
    std::string nested;
    for (int c = 0; c < 4; c++) {
      if (!seen[c]) continue;
      size_t at = t.find(std::string("{autoc=env->GetClass(\"") + JN[c] + "\");");
      SX_ASSERT(at != std::string::npos, "every class is bound");
    }
    // blocks, with the one of the nested class inside
    if (seen[1]) {
      std::string h = "{autoc=env->GetClass(\"p/A$I\");";
      size_t at = t.find(h), e = t.find("{autoc=env->GetClass(\"p/A\");");
      SX_ASSERT(e < at, "the block of a nested class is inside the one of its class");
      Pieces ps = members(1, binding);
      size_t len = 0;
      for (auto &p : ps) len += p.size();
      SX_ASSERT(madeOf(t.substr(at + h.size(), len), ps) && t[at + h.size() + len] == '}', "a class binds its members, each once");
      t = t.substr(0, at) + t.substr(at + h.size() + len + 1);
    }
    for (int c = 0; c < 4; c++) {
      if (!seen[c] || c == 1) continue;
      std::string h = std::string("{autoc=env->GetClass(\"") + JN[c] + "\");";
      size_t at = t.find(h);
      SX_ASSERT(at != std::string::npos, "every class is bound");
      Pieces ps = members(c, binding);
      size_t len = 0;
      for (auto &p : ps) len += p.size();
      SX_ASSERT(madeOf(t.substr(at + h.size(), len), ps) && t[at + h.size() + len] == '}', "a class binds its members, each once");
      t = t.substr(0, at) + t.substr(at + h.size() + len + 1);
    }
    SX_ASSERT(t.empty(), "nothing is bound twice");
  }
}
int main() {
  int N = sx_param("N", 2);
  VM vm;
  env = vm.GetJNIEnv();
  for (int n = 0; n < N; n++) {
    int c = sx_choose(CLASSES, "class"), m = sx_choose(MEMBERS + 2, "member");
    if (m < MEMBERS) look(c, m, n == 0 && sx_choose(2, "twice"));
    else {
      jclass k = env->FindClass(JN[c]);
      see(c);
      if (m == MEMBERS) {
        JNINativeMethod nm{(char *)"n", (char *)"()V", (void *)&nat};
        env->RegisterNatives(k, &nm, 1);
        sx_reach("native");
      }
    }
  }
  check(vm);
  sx_reach("end");
  return 0;
}
