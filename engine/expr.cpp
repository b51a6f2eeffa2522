#include "expr.h"
#include <algorithm>
#include <deque>

namespace {
struct Key {
  Op op; uint8_t w, off; uint64_t c; ExprP a, b, d;
  bool operator==(const Key &o) const {
    return op == o.op && w == o.w && off == o.off && c == o.c && a == o.a && b == o.b && d == o.d;
  }
};
struct KH {
  size_t operator()(const Key &k) const {
    uint64_t h = (uint64_t)k.op * 0x9E3779B97F4A7C15ull + k.w * 131 + k.off * 7919;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    mix(k.c); mix((uint64_t)k.a >> 4); mix((uint64_t)k.b >> 4); mix((uint64_t)k.d >> 4);
    return h;
  }
};
std::deque<Expr> arena;
std::unordered_map<Key, ExprP, KH> table;
std::deque<std::vector<uint32_t>> varArena;
const std::vector<uint32_t> *emptyVars = nullptr;

const std::vector<uint32_t> *unionVars(const std::vector<uint32_t> *x, const std::vector<uint32_t> *y) {
  if (x == y || y->empty()) return x;
  if (x->empty()) return y;
  if (std::includes(x->begin(), x->end(), y->begin(), y->end())) return x;
  if (std::includes(y->begin(), y->end(), x->begin(), x->end())) return y;
  std::vector<uint32_t> r;
  std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
  varArena.push_back(std::move(r));
  return &varArena.back();
}

ExprP intern(Op op, unsigned w, unsigned off, uint64_t c, ExprP a, ExprP b, ExprP d) {
  Key k{op, (uint8_t)w, (uint8_t)off, c, a, b, d};
  auto it = table.find(k);
  if (it != table.end()) return it->second;
  if (!emptyVars) { varArena.emplace_back(); emptyVars = &varArena.back(); }
  const std::vector<uint32_t> *vs = emptyVars;
  if (op == Op::Var) { varArena.push_back({(uint32_t)c}); vs = &varArena.back(); }
  if (a) vs = unionVars(vs, a->vars);
  if (b) vs = unionVars(vs, b->vars);
  if (d) vs = unionVars(vs, d->vars);
  arena.push_back(Expr{op, (uint8_t)w, (uint8_t)off, (uint32_t)arena.size(), c, a, b, d, vs});
  ExprP e = &arena.back();
  table.emplace(k, e);
  return e;
}
} // namespace

size_t exprCount() { return arena.size(); }

ExprP mkConst(uint64_t v, unsigned w) { return intern(Op::Const, w, 0, v & maskw(w), nullptr, nullptr, nullptr); }
ExprP mkVar(uint32_t id) { return intern(Op::Var, 8, 0, id, nullptr, nullptr, nullptr); }

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  a &= m; b &= m;
  switch (op) {
  case Op::Add: return (a + b) & m;
  case Op::Sub: return (a - b) & m;
  case Op::Mul: return (a * b) & m;
  case Op::UDiv: return b ? a / b : m;
  case Op::URem: return b ? a % b : a;
  case Op::SDiv: {
    int64_t x = sextw(a, w), y = sextw(b, w);
    if (!y) return x < 0 ? 1 : m;
    if (y == -1) return (0 - (uint64_t)x) & m;
    return (uint64_t)(x / y) & m;
  }
  case Op::SRem: {
    int64_t x = sextw(a, w), y = sextw(b, w);
    if (!y) return a;
    if (y == -1) return 0;
    return (uint64_t)(x % y) & m;
  }
  case Op::And: return a & b;
  case Op::Or: return a | b;
  case Op::Xor: return a ^ b;
  case Op::Shl: return b >= w ? 0 : (a << b) & m;
  case Op::LShr: return b >= w ? 0 : a >> b;
  case Op::AShr: return (uint64_t)(sextw(a, w) >> (b >= w ? w - 1 : b)) & m;
  case Op::Eq: return a == b;
  case Op::Ult: return a < b;
  case Op::Ule: return a <= b;
  case Op::Slt: return sextw(a, w) < sextw(b, w);
  case Op::Sle: return sextw(a, w) <= sextw(b, w);
  default: abort();
  }
}

static bool isCmp(Op op) { return op >= Op::Eq && op <= Op::Sle; }
static bool isComm(Op op) {
  return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
}

ExprP mkNot(ExprP a) {
  if (isConst(a)) return mkConst(~a->c, a->width);
  return mkBin(Op::Xor, mkConst(~0ull, a->width), a);
}

ExprP mkBin(Op op, ExprP a, ExprP b) {
  unsigned w = a->width;
  if (a->width != b->width) abort();
  if (isConst(a) && isConst(b)) return mkConst(foldBin(op, a->c, b->c, w), isCmp(op) ? 1 : w);
  if (isComm(op) && (isConst(b) || (!isConst(a) && a->id > b->id))) std::swap(a, b); // const goes to a
  uint64_t m = maskw(w);
  switch (op) {
  case Op::Add:
    if (isConst(a) && a->c == 0) return b;
    if (isConst(a) && b->op == Op::Add && isConst(b->a)) return mkBin(Op::Add, mkConst(a->c + b->a->c, w), b->b);
    break;
  case Op::Sub:
    if (a == b) return mkConst(0, w);
    if (isConst(b)) return mkBin(Op::Add, mkConst(0 - b->c, w), a);
    break;
  case Op::Mul:
    if (isConst(a) && a->c == 0) return a;
    if (isConst(a) && a->c == 1) return b;
    break;
  case Op::And:
    if (a == b) return a;
    if (isConst(a)) {
      if (a->c == 0) return a;
      if (a->c == m) return b;
      // low mask -> zext(extract)
      if ((a->c & (a->c + 1)) == 0) {
        unsigned k = 0; uint64_t t = a->c; while (t) { k++; t >>= 1; }
        if (k < w) return mkZExt(mkExtract(b, 0, k), w);
      }
    }
    break;
  case Op::Or:
    if (a == b) return a;
    if (isConst(a)) {
      if (a->c == 0) return b;
      if (a->c == m) return a;
    }
    break;
  case Op::Xor:
    if (a == b) return mkConst(0, w);
    if (isConst(a)) {
      if (a->c == 0) return b;
      if (b->op == Op::Xor && isConst(b->a)) return mkBin(Op::Xor, mkConst(a->c ^ b->a->c, w), b->b);
    }
    break;
  case Op::Shl: case Op::LShr: case Op::AShr:
    if (isConst(b)) {
      if (b->c == 0) return a;
      if (b->c >= w) { if (op != Op::AShr) return mkConst(0, w); }
      else if (op == Op::LShr) return mkZExt(mkExtract(a, b->c, w - b->c), w);
      else if (op == Op::Shl) return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c));
    }
    if (isConst(a) && a->c == 0) return a;
    break;
  case Op::UDiv: case Op::SDiv:
    if (isConst(b) && b->c == 1 && w > 1) return a;
    break;
  case Op::Eq:
    if (a == b) return mkConst(1, 1);
    if (isConst(a)) {
      if (w == 1) return a->c ? b : mkNot(b);
      if (b->op == Op::ZExt) {
        unsigned iw = b->a->width;
        if (a->c & ~maskw(iw)) return mkConst(0, 1);
        return mkBin(Op::Eq, mkConst(a->c, iw), b->a);
      }
      if (b->op == Op::SExt) {
        unsigned iw = b->a->width;
        if ((uint64_t)(sextw(a->c, iw)) % 1 || (((uint64_t)sextw(a->c, iw)) & m) != a->c) return mkConst(0, 1);
        return mkBin(Op::Eq, mkConst(a->c, iw), b->a);
      }
      if (b->op == Op::Add && isConst(b->a)) return mkBin(Op::Eq, mkConst(a->c - b->a->c, w), b->b);
      if (b->op == Op::Xor && isConst(b->a)) return mkBin(Op::Eq, mkConst(a->c ^ b->a->c, w), b->b);
      if (b->op == Op::Ite) {
        if (isConst(b->b) || isConst(b->d))
          return mkIte(b->a, mkBin(Op::Eq, a, b->b), mkBin(Op::Eq, a, b->d));
      }
      if (b->op == Op::Concat) {
        unsigned lw = b->b->width;
        return mkBin(Op::And, mkBin(Op::Eq, mkConst(a->c >> lw, b->a->width), b->a), mkBin(Op::Eq, mkConst(a->c, lw), b->b));
      }
    } else if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width) return mkBin(Op::Eq, a->a, b->a);
    else if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width) return mkBin(Op::Eq, a->a, b->a);
    else if (a->op == Op::Concat && b->op == Op::Concat && a->b->width == b->b->width)
      return mkBin(Op::And, mkBin(Op::Eq, a->a, b->a), mkBin(Op::Eq, a->b, b->b));
    break;
  case Op::Ult: case Op::Ule: {
    if (a == b) return mkConst(op == Op::Ule, 1);
    if (op == Op::Ult && isConst(b) && b->c == 0) return mkConst(0, 1);
    if (op == Op::Ult && isConst(b) && b->c == 1) return mkBin(Op::Eq, mkConst(0, w), a);
    if (op == Op::Ule && isConst(a) && a->c == 0) return mkConst(1, 1);
    if (op == Op::Ult && isConst(a) && a->c == m) return mkConst(0, 1);
    if (op == Op::Ule && isConst(b) && b->c == m) return mkConst(1, 1);
    if (a->op == Op::ZExt && isConst(b)) {
      unsigned iw = a->a->width;
      if (b->c > maskw(iw)) return mkConst(1, 1);
      return mkBin(op, a->a, mkConst(b->c, iw));
    }
    if (b->op == Op::ZExt && isConst(a)) {
      unsigned iw = b->a->width;
      if (a->c > maskw(iw)) return mkConst(0, 1);
      return mkBin(op, mkConst(a->c, iw), b->a);
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width) return mkBin(op, a->a, b->a);
    break;
  }
  case Op::Slt: case Op::Sle: {
    if (a == b) return mkConst(op == Op::Sle, 1);
    // zext operands are non-negative
    bool an = a->op == Op::ZExt || (isConst(a) && sextw(a->c, w) >= 0);
    bool bn = b->op == Op::ZExt || (isConst(b) && sextw(b->c, w) >= 0);
    if (an && bn) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
    if (a->op == Op::ZExt && isConst(b) && sextw(b->c, w) < 0) return mkConst(0, 1);
    if (b->op == Op::ZExt && isConst(a) && sextw(a->c, w) < 0) return mkConst(1, 1);
    break;
  }
  default: break;
  }
  // distribute over constant ite to keep table look-ups cheap
  if (isCmp(op) && op != Op::Eq) {
    if (isConst(a) && b->op == Op::Ite && isConst(b->b) && isConst(b->d))
      return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->d));
    if (isConst(b) && a->op == Op::Ite && isConst(a->b) && isConst(a->d))
      return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
  }
  return intern(op, isCmp(op) ? 1 : w, 0, 0, a, b, nullptr);
}

ExprP mkExtract(ExprP a, unsigned off, unsigned w) {
  if (off == 0 && w == a->width) return a;
  if (off + w > a->width) abort();
  switch (a->op) {
  case Op::Const: return mkConst(a->c >> off, w);
  case Op::Extract: return mkExtract(a->a, a->off + off, w);
  case Op::Concat: {
    unsigned lw = a->b->width;
    if (off + w <= lw) return mkExtract(a->b, off, w);
    if (off >= lw) return mkExtract(a->a, off - lw, w);
    return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
  }
  case Op::ZExt: {
    unsigned iw = a->a->width;
    if (off >= iw) return mkConst(0, w);
    if (off + w <= iw) return mkExtract(a->a, off, w);
    return mkZExt(mkExtract(a->a, off, iw - off), w);
  }
  case Op::SExt: {
    unsigned iw = a->a->width;
    if (off + w <= iw) return mkExtract(a->a, off, w);
    if (off == 0) return mkSExt(a->a, w);
    break;
  }
  case Op::Ite:
    if (isConst(a->b) || isConst(a->d)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->d, off, w));
    break;
  case Op::And: case Op::Or: case Op::Xor:
    return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
  case Op::Add: case Op::Sub: case Op::Mul:
    if (off == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  default: break;
  }
  return intern(Op::Extract, w, off, 0, a, nullptr, nullptr);
}

ExprP mkConcat(ExprP hi, ExprP lo) {
  unsigned w = hi->width + lo->width;
  if (w > 64) abort();
  if (isConst(hi) && isConst(lo)) return mkConst((hi->c << lo->width) | lo->c, w);
  if (isConst(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->off == lo->off + lo->width)
    return mkExtract(hi->a, lo->off, w);
  if (hi->op == Op::Extract && hi->a == lo && hi->off == lo->width)
    return mkExtract(hi->a, 0, w);
  // hi = extract(X, k, n), lo = concat(extract(X, j, k-j), rest)
  if (hi->op == Op::Extract && lo->op == Op::Concat && lo->a->op == Op::Extract && lo->a->a == hi->a &&
      hi->off == lo->a->off + lo->a->width)
    return mkConcat(mkExtract(hi->a, lo->a->off, lo->a->width + hi->width), lo->b);
  return intern(Op::Concat, w, 0, 0, hi, lo, nullptr);
}

ExprP mkZExt(ExprP a, unsigned w) {
  if (a->width == w) return a;
  if (isConst(a)) return mkConst(a->c, w);
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  if (a->op == Op::Ite && isConst(a->b) && isConst(a->d)) return mkIte(a->a, mkConst(a->b->c, w), mkConst(a->d->c, w));
  return intern(Op::ZExt, w, 0, 0, a, nullptr, nullptr);
}
ExprP mkSExt(ExprP a, unsigned w) {
  if (a->width == w) return a;
  if (isConst(a)) return mkConst((uint64_t)sextw(a->c, a->width), w);
  if (a->op == Op::SExt) return mkSExt(a->a, w);
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  return intern(Op::SExt, w, 0, 0, a, nullptr, nullptr);
}
ExprP mkIte(ExprP c, ExprP a, ExprP b) {
  if (isConst(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->width == 1) {
    if (isConst(a) && isConst(b)) return a->c ? c : mkNot(c);
    if (isConst(a)) return a->c ? mkBin(Op::Or, c, b) : mkBin(Op::And, mkNot(c), b);
    if (isConst(b)) return b->c ? mkBin(Op::Or, mkNot(c), a) : mkBin(Op::And, c, a);
  }
  if (c->op == Op::Xor && isConst(c->a)) return mkIte(c->b, b, a); // not(x)
  if (a->op == Op::Ite && a->a == c) a = a->b;
  if (b->op == Op::Ite && b->a == c) b = b->d;
  if (a == b) return a;
  return intern(Op::Ite, a->width, 0, 0, c, a, b);
}

static uint64_t fpConv(Op op, uint64_t v) {
  if (op == Op::FPExt) {
    uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4);
    volatile double d = f; double dd = d; uint64_t r; memcpy(&r, &dd, 8); return r;
  }
  double d; memcpy(&d, &v, 8); volatile float f = (float)d; float ff = f; uint32_t r; memcpy(&r, &ff, 4); return r;
}
ExprP mkFP(Op op, ExprP a) {
  unsigned w = op == Op::FPExt ? 64 : 32;
  if (isConst(a)) return mkConst(fpConv(op, a->c), w);
  if (op == Op::FPTrunc && a->op == Op::FPExt) return a->a; // exact except for signalling NaNs
  return intern(op, w, 0, 0, a, nullptr, nullptr);
}

static std::vector<uint64_t> memo;
static std::vector<uint32_t> stamp;
static uint32_t epoch = 0;
static uint64_t evalRec(ExprP e, const Model &m) {
  if (e->op == Op::Const) return e->c;
  if (e->op == Op::Var) return e->c < m.size() ? m[e->c] : 0;
  if (stamp[e->id] == epoch) return memo[e->id];
  uint64_t r = 0;
  switch (e->op) {
  case Op::Concat: r = (evalRec(e->a, m) << e->b->width) | evalRec(e->b, m); break;
  case Op::Extract: r = (evalRec(e->a, m) >> e->off) & maskw(e->width); break;
  case Op::ZExt: r = evalRec(e->a, m); break;
  case Op::SExt: r = (uint64_t)sextw(evalRec(e->a, m), e->a->width) & maskw(e->width); break;
  case Op::Ite: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
  case Op::FPExt: case Op::FPTrunc: r = fpConv(e->op, evalRec(e->a, m)); break;
  default: r = foldBin(e->op, evalRec(e->a, m), evalRec(e->b, m), e->a->width);
  }
  stamp[e->id] = epoch;
  memo[e->id] = r;
  return r;
}
uint64_t evalExpr(ExprP e, const Model &m) {
  if (e->op == Op::Const) return e->c;
  if (stamp.size() < arena.size()) { stamp.resize(arena.size() + 4096, 0); memo.resize(arena.size() + 4096); }
  if (++epoch == 0) { std::fill(stamp.begin(), stamp.end(), 0); epoch = 1; }
  return evalRec(e, m);
}

std::string exprStr(ExprP e, int depth) {
  static const char *n[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
    "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "concat", "extract", "zext", "sext", "ite", "fpext", "fptrunc"};
  if (e->op == Op::Const) return std::to_string(e->c) + ":" + std::to_string(e->width);
  if (e->op == Op::Var) return "v" + std::to_string(e->c);
  if (depth <= 0) return "...";
  std::string s = std::string("(") + n[(int)e->op];
  if (e->op == Op::Extract) s += " " + std::to_string(e->off) + "+" + std::to_string(e->width);
  for (ExprP x : {e->a, e->b, e->d}) if (x) s += " " + exprStr(x, depth - 1);
  return s + ")";
}
