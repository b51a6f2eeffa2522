#include "solver.h"
#include <algorithm>
#include <chrono>
#include <fstream>
#include <set>
#include <unistd.h>
#include <z3++.h>

SolverStats solverStats;
unsigned solverRlimit = 20000000;
std::string smtDumpDir;
int smtDumpEvery = 0;

namespace {
struct Ctx {
  z3::context c;
  z3::solver s;
  std::unordered_map<ExprP, z3::expr> tr;
  std::unordered_map<uint32_t, z3::expr> vars;
  unsigned used = 0;
  Ctx() : s(c, z3::solver::simple()) {
    z3::params p(c);
    p.set("rlimit", solverRlimit);
    s.set(p);
  }
};
Ctx *ctx = nullptr;
Ctx &C() { if (!ctx) ctx = new Ctx; return *ctx; }

z3::expr boolOf(const z3::expr &bv) { return bv == bv.ctx().bv_val(1, 1); }
z3::expr bvOf(const z3::expr &b) { return z3::ite(b, b.ctx().bv_val(1, 1), b.ctx().bv_val(0, 1)); }

z3::expr T(ExprP e);
z3::expr TB(ExprP e) { // as boolean (width 1)
  Ctx &x = C();
  switch (e->op) {
  case Op::Const: return x.c.bool_val(e->c != 0);
  case Op::Eq: if (e->a->width == 1) return TB(e->a) == TB(e->b); return T(e->a) == T(e->b);
  case Op::Ult: return z3::ult(T(e->a), T(e->b));
  case Op::Ule: return z3::ule(T(e->a), T(e->b));
  case Op::Slt: return z3::slt(T(e->a), T(e->b));
  case Op::Sle: return z3::sle(T(e->a), T(e->b));
  case Op::And: return TB(e->a) && TB(e->b);
  case Op::Or: return TB(e->a) || TB(e->b);
  case Op::Xor: if (isConst(e->a) && e->a->c == 1) return !TB(e->b); return TB(e->a) != TB(e->b);
  case Op::Ite: return z3::ite(TB(e->a), TB(e->b), TB(e->d));
  default: return boolOf(T(e));
  }
}
z3::expr T(ExprP e) {
  Ctx &x = C();
  auto it = x.tr.find(e);
  if (it != x.tr.end()) return it->second;
  z3::expr r(x.c);
  switch (e->op) {
  case Op::Const: r = x.c.bv_val((uint64_t)e->c, e->width); break;
  case Op::Var: {
    std::string n = "v" + std::to_string(e->c);
    r = x.c.bv_const(n.c_str(), 8);
    break;
  }
  case Op::Add: r = T(e->a) + T(e->b); break;
  case Op::Sub: r = T(e->a) - T(e->b); break;
  case Op::Mul: r = T(e->a) * T(e->b); break;
  case Op::UDiv: r = z3::udiv(T(e->a), T(e->b)); break;
  case Op::SDiv: r = T(e->a) / T(e->b); break;
  case Op::URem: r = z3::urem(T(e->a), T(e->b)); break;
  case Op::SRem: r = z3::srem(T(e->a), T(e->b)); break;
  case Op::And: r = e->width == 1 ? bvOf(TB(e)) : (T(e->a) & T(e->b)); break;
  case Op::Or: r = e->width == 1 ? bvOf(TB(e)) : (T(e->a) | T(e->b)); break;
  case Op::Xor: r = e->width == 1 ? bvOf(TB(e)) : (T(e->a) ^ T(e->b)); break;
  case Op::Shl: r = z3::shl(T(e->a), T(e->b)); break;
  case Op::LShr: r = z3::lshr(T(e->a), T(e->b)); break;
  case Op::AShr: r = z3::ashr(T(e->a), T(e->b)); break;
  case Op::Concat: r = z3::concat(T(e->a), T(e->b)); break;
  case Op::Extract: r = T(e->a).extract(e->off + e->width - 1, e->off); break;
  case Op::ZExt: r = z3::zext(T(e->a), e->width - e->a->width); break;
  case Op::SExt: r = z3::sext(T(e->a), e->width - e->a->width); break;
  case Op::Ite: r = z3::ite(TB(e->a), T(e->b), T(e->d)); break;
  case Op::FPExt: case Op::FPTrunc: {
    Z3_sort from = e->op == Op::FPExt ? Z3_mk_fpa_sort_32(x.c) : Z3_mk_fpa_sort_64(x.c);
    Z3_sort to = e->op == Op::FPExt ? Z3_mk_fpa_sort_64(x.c) : Z3_mk_fpa_sort_32(x.c);
    z3::expr f(x.c, Z3_mk_fpa_to_fp_bv(x.c, T(e->a), from));
    z3::expr rm(x.c, Z3_mk_fpa_rne(x.c));
    z3::expr g(x.c, Z3_mk_fpa_to_fp_float(x.c, rm, f, to));
    r = z3::expr(x.c, Z3_mk_fpa_to_ieee_bv(x.c, g));
    break;
  }
  default: r = bvOf(TB(e)); break; // comparisons
  }
  x.tr.emplace(e, r);
  return r;
}

struct CacheEntry { Res r; std::vector<std::pair<uint32_t, uint8_t>> model; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const {
  size_t h = v.size(); for (auto x : v) h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h; } };
std::unordered_map<std::vector<uint32_t>, CacheEntry, VH> cache;
} // namespace

void solverAfterFork() { /* the copied context stays valid in the child: no solver threads exist */ }

std::string smt2Of(const std::vector<ExprP> &cons, ExprP q) {
  Ctx &x = C();
  z3::solver s(x.c);
  for (auto e : cons) s.add(TB(e));
  if (q) s.add(TB(q));
  return s.to_smt2();
}

Res solve(const std::vector<ExprP> &cons, ExprP q, const Model &base, Model &out) {
  if (isConst(q) && !q->c) return Res::Unsat;
  // slice: constraints transitively sharing variables with q
  std::vector<ExprP> sl;
  std::set<uint32_t> vs(q->vars->begin(), q->vars->end());
  std::vector<char> used(cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cons.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (auto v : *cons[i]->vars) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; sl.push_back(cons[i]); vs.insert(cons[i]->vars->begin(), cons[i]->vars->end()); ch = true; }
    }
  }
  std::vector<uint32_t> key;
  for (auto e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.push_back(q->id);
  auto it = cache.find(key);
  CacheEntry ce;
  if (it != cache.end()) { solverStats.cacheHits++; ce = it->second; }
  else {
    auto t0 = std::chrono::steady_clock::now();
    Ctx &x = C();
    if (++x.used > 20000) { delete ctx; ctx = nullptr; }
    Ctx &y = C();
    y.s.push();
    for (auto e : sl) y.s.add(TB(e));
    y.s.add(TB(q));
    if (!smtDumpDir.empty() && smtDumpEvery > 0 && solverStats.queries % smtDumpEvery == 0) {
      std::ofstream f(smtDumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(solverStats.queries) + ".smt2");
      z3::solver s2(y.c);
      for (auto e : sl) s2.add(TB(e));
      s2.add(TB(q));
      f << s2.to_smt2();
    }
    z3::check_result r = z3::unknown;
    try { r = y.s.check(); } catch (z3::exception &) { r = z3::unknown; }
    solverStats.queries++;
    if (r == z3::sat) {
      solverStats.sat++;
      ce.r = Res::Sat;
      z3::model m = y.s.get_model();
      for (auto v : vs) {
        z3::expr val = m.eval(T(mkVar(v)), true);
        ce.model.push_back({v, (uint8_t)val.get_numeral_uint()});
      }
    } else if (r == z3::unsat) { solverStats.unsat++; ce.r = Res::Unsat; }
    else { solverStats.unknown++; ce.r = Res::Unknown; }
    y.s.pop();
    solverStats.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (cache.size() > 400000) cache.clear();
    cache.emplace(key, ce);
    if (ce.r == Res::Sat) {
      // check the model against our own evaluator (guards the translation)
      Model chk = base;
      for (auto &p : ce.model) { if (chk.size() <= p.first) chk.resize(p.first + 1, 0); chk[p.first] = p.second; }
      bool ok = evalExpr(q, chk) == 1;
      for (auto e : sl) ok = ok && evalExpr(e, chk) == 1;
      if (!ok) { fprintf(stderr, "solver: model does not satisfy the query by direct evaluation: %s\n", exprStr(q, 20).c_str()); _exit(70); }
    }
  }
  if (ce.r == Res::Sat) {
    out = base;
    for (auto &p : ce.model) { if (out.size() <= p.first) out.resize(p.first + 1, 0); out[p.first] = p.second; }
  }
  return ce.r;
}
