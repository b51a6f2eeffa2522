// Bit-vector expressions: hash-consed, simplified on construction, evaluated
// under an assignment, translated to Z3 only when a query is needed.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

enum class Op : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Concat, Extract, ZExt, SExt, Ite, FPExt, FPTrunc
};

struct Expr {
  Op op;
  uint8_t width;   // 1..64
  uint8_t off;     // Extract offset
  uint32_t id;
  uint64_t c;      // Const value / Var id
  const Expr *a, *b, *d;
  const std::vector<uint32_t> *vars; // sorted var ids occurring in it
};
typedef const Expr *ExprP;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

ExprP mkConst(uint64_t v, unsigned w);
ExprP mkVar(uint32_t id); // 8 bit
ExprP mkBin(Op op, ExprP a, ExprP b);
ExprP mkExtract(ExprP a, unsigned off, unsigned w);
ExprP mkConcat(ExprP hi, ExprP lo);
ExprP mkZExt(ExprP a, unsigned w);
ExprP mkSExt(ExprP a, unsigned w);
ExprP mkIte(ExprP c, ExprP a, ExprP b);
ExprP mkFP(Op op, ExprP a);
ExprP mkNot(ExprP a); // bitwise not; logical not for width 1
uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w);
static inline bool isConst(ExprP e) { return e->op == Op::Const; }
std::string exprStr(ExprP e, int depth = 6);

// assignment: value per var id (missing = 0)
typedef std::vector<uint8_t> Model;
typedef std::shared_ptr<const Model> ModelP;
uint64_t evalExpr(ExprP e, const Model &m);
size_t exprCount();
