// The symbolic interpreter.
#include "engine.h"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <chrono>
#include <cstdio>
#include <fcntl.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

// ------------------------------------------------------------------ options
struct Options {
  std::string bc, out, repo = "/repo/";
  double deadline = 600;
  uint64_t maxSteps = 30000000;
  int jobs = 8, preempt = 2, maxViol = 40, samples = 60;
  bool raceCheck = true, atomics = false, verbose = false;
  std::map<std::string, int64_t> params;
} opt;

struct Shared {
  std::atomic<int> idle, violations, stop;
  std::atomic<uint64_t> paths, pathsExit, pathsAssume, pathsViol, pathsUnsup, dropped, steps, forks, unknownBr, queries, cacheHits, sat, unsat, unknown, solverNs, symBranches, schedPoints, samples;
  std::atomic<uint64_t> maxPathSteps;
  uint8_t blocks[1]; // bitmap by byte
};
Shared *sh;
static double t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

const char *kindName(Kind k) {
  switch (k) {
  case Kind::Global: return "global"; case Kind::Stack: return "stack"; case Kind::Malloc: return "malloc";
  case Kind::New: return "new"; case Kind::NewArr: return "new[]"; case Kind::Exc: return "exception"; default: return "lib";
  }
}

// ------------------------------------------------------------------ state
State::State(const State &o)
    : th(o.th), cur(o.cur), heap(o.heap), glob(o.glob), heapSlots(o.heapSlots), spawnSlots(o.spawnSlots), cons(o.cons), model(o.model), nvars(o.nvars),
      inputs(o.inputs), obs(o.obs), mtx(o.mtx), sync(o.sync), steps(o.steps), forks(o.forks), preempt(o.preempt),
      switches(o.switches), liveHeap(o.liveHeap), liveBytes(o.liveBytes), lastSched(o.lastSched) {
  for (auto *c : heap) if (c) c->ref++;
  for (auto *c : glob) if (c) c->ref++;
  for (auto &t : th) for (auto *p : t.stack) if (p) p->ref++;
}
static void unrefChunk(Chunk *c) {
  if (c && --c->ref == 0) { for (auto *p : c->o) unref(p); delete c; }
}
State::~State() {
  for (auto *c : heap) unrefChunk(c);
  for (auto *c : glob) unrefChunk(c);
  for (auto &t : th) for (auto *p : t.stack) unref(p);
}

struct EndPath { enum K { Exit, Viol, Assume, Unsup, Budget } k; std::string msg; };

static State *S;
static Thread *T;
static Frame *F;
static std::vector<State *> pending;
static FILE *outf;
static std::set<std::string> seenViol;
static std::map<std::string, uint64_t> reached;
static std::map<std::string, uint64_t> unsup;
static uint64_t nSamples = 0;
static std::string curMsg;

static void refresh() { T = &S->th[S->cur]; F = T->frames.empty() ? nullptr : &T->frames.back(); }

// ------------------------------------------------------------------ reporting
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string locOf(const Instruction *i) {
  if (!i) return "?";
  std::string fn = demangle(i->getFunction()->getName().str());
  if (const DILocation *l = i->getDebugLoc().get())
    return (l->getScope()->getSubprogram() ? fn : fn) + " @ " + l->getFilename().str() + ":" + std::to_string(l->getLine());
  return fn;
}
static std::string inputsJson(const Model &m) {
  std::string r = "[";
  bool first = true;
  for (auto &i : S->inputs) {
    if (!first) r += ",";
    first = false;
    r += "[" + jstr(i.name) + ",\"";
    for (uint32_t k = 0; k < i.len; k++) { char b[4]; snprintf(b, 4, "%02x", i.start + k < m.size() ? m[i.start + k] : 0); r += b; }
    r += "\"]";
  }
  return r + "]";
}
static std::string obsJson(const Model &m) {
  std::string r = "[";
  bool first = true;
  for (auto &o : S->obs) {
    if (!first) r += ",";
    first = false;
    r += "[" + jstr(o.name) + ",\"";
    for (auto &p : o.bytes) { char b[4]; snprintf(b, 4, "%02x", (unsigned)(p.first ? evalExpr(p.first, m) : p.second)); r += b; }
    r += "\"]";
  }
  return r + "]";
}
static std::string stackJson() {
  std::string r = "[";
  bool first = true;
  if (T) for (int k = (int)T->frames.size() - 1; k >= 0; k--) {
    if (!first) r += ",";
    first = false;
    auto *in = T->frames[k].pc;
    r += jstr(in && in->src ? locOf(in->src) : T->frames[k].f->name);
  }
  return r + "]";
}
// innermost frame whose code comes from the repository (or harness)
static std::string siteOf() {
  for (int k = (int)T->frames.size() - 1; k >= 0; k--) {
    auto *in = T->frames[k].pc;
    if (!in || !in->src) continue;
    for (const DILocation *l = in->src->getDebugLoc().get(); l; l = l->getInlinedAt())
      if (l->getFilename().str().find(opt.repo) == 0 || l->getDirectory().str().find(opt.repo) == 0) {
        std::string fn = l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getName().str() : "?";
        return fn + " @ " + l->getFilename().str() + ":" + std::to_string(l->getLine());
      }
  }
  return "?";
}
static void violation(const std::string &msg, const Model &m) {
  std::string key = msg + "|" + siteOf();
  sh->pathsViol++;
  if (!seenViol.insert(key).second) return;
  sh->violations++;
  fprintf(outf, "{\"t\":\"violation\",\"msg\":%s,\"site\":%s,\"stack\":%s,\"inputs\":%s,\"obs\":%s}\n", jstr(msg).c_str(), jstr(siteOf()).c_str(), stackJson().c_str(), inputsJson(m).c_str(), obsJson(m).c_str());
  fflush(outf);
  if (opt.verbose) fprintf(stderr, "VIOLATION %s\n  %s\n  %s\n", msg.c_str(), stackJson().c_str(), inputsJson(m).c_str());
  if (sh->violations >= opt.maxViol) sh->stop = 1;
}
[[noreturn]] static void fail(const std::string &msg) { // error on this path, for the current model
  throw EndPath{EndPath::Viol, msg};
}
[[noreturn]] static void unsupported(const std::string &msg) { throw EndPath{EndPath::Unsup, msg}; }

// ------------------------------------------------------------------ branching
static void addCons(ExprP c) {
  if (isConst(c)) return;
  S->cons.push_back(c);
}
static bool decide(ExprP c) {
  if (isConst(c)) return c->c;
  ExprP n = mkNot(c);
  for (auto it = S->cons.rbegin(); it != S->cons.rend(); ++it) {
    if (*it == c) return true;
    if (*it == n) return false;
  }
  bool v = evalExpr(c, *S->model);
  ExprP other = v ? n : c;
  Model m;
  sh->symBranches++;
  Res r = solve(S->cons, other, *S->model, m);
  if (r == Res::Sat) {
    State *o = new State(*S);
    o->cons.push_back(other);
    o->model = std::make_shared<const Model>(std::move(m));
    o->forks++;
    pending.push_back(o);
    sh->forks++;
    addCons(v ? c : n);
  } else if (r == Res::Unknown) {
    sh->unknownBr++;
    addCons(v ? c : n);
  }
  return v;
}
static uint64_t conc(const Val &v, unsigned w) {
  if (!v.e) return v.c;
  for (;;) {
    uint64_t mv = evalExpr(v.e, *S->model);
    if (decide(mkBin(Op::Eq, mkConst(mv, w), v.e))) return mv;
  }
}
static ExprP ex(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static Val mkv(ExprP e) { return isConst(e) ? Val{e->c, nullptr} : Val{0, e}; }

// ------------------------------------------------------------------ memory
static Obj *findIn(const std::vector<Chunk *> &t, uint64_t idx) {
  uint64_t c = idx >> 6;
  if (c >= t.size() || !t[c]) return nullptr;
  return t[c]->o[idx & 63];
}
static Obj *findObj(uint64_t a) {
  if (a >= HEAP_BASE && a < HEAP_END) return findIn(S->heap, (a - HEAP_BASE) / SLOT);
  if (a >= STACK_BASE) {
    uint64_t t = (a - STACK_BASE) / STACK_STRIDE, s = ((a - STACK_BASE) % STACK_STRIDE) / SLOT;
    if (t >= S->th.size() || s >= S->th[t].stack.size()) return nullptr;
    return S->th[t].stack[s];
  }
  if (a >= GLOB_BASE && a < HEAP_BASE) return findIn(S->glob, (a - GLOB_BASE) / SLOT);
  return nullptr;
}
static uint64_t slotsFor(uint64_t size) { return size / SLOT + 1; }
static Obj **entry(std::vector<Chunk *> &t, uint64_t idx) {
  uint64_t c = idx >> 6;
  if (c >= t.size()) t.resize(c + 1, nullptr);
  if (!t[c]) t[c] = new Chunk;
  else if (t[c]->ref > 1) {
    Chunk *n = new Chunk;
    memcpy(n->o, t[c]->o, sizeof n->o);
    for (auto *p : n->o) if (p) p->ref++;
    t[c]->ref--;
    t[c] = n;
  }
  return &t[c]->o[idx & 63];
}
static Obj *unshare(Obj *o) {
  uint64_t n = slotsFor(o->size);
  if (o->base >= STACK_BASE) {
    if (o->ref <= n) return o;
    uint64_t t = (o->base - STACK_BASE) / STACK_STRIDE, s = ((o->base - STACK_BASE) % STACK_STRIDE) / SLOT;
    Obj *c = new Obj(*o);
    c->ref = n;
    for (uint64_t k = 0; k < n; k++) { S->th[t].stack[s + k] = c; }
    for (uint64_t k = 0; k < n; k++) unref(o);
    return c;
  }
  auto &tab = o->base >= HEAP_BASE ? S->heap : S->glob;
  uint64_t b = (o->base - (o->base >= HEAP_BASE ? HEAP_BASE : GLOB_BASE)) / SLOT;
  Obj **e = entry(tab, b); // unshare chunk(s)
  for (uint64_t k = 1; k < n; k++) entry(tab, b + k);
  if (o->ref <= n) return o;
  Obj *c = new Obj(*o);
  c->ref = n;
  *e = c;
  for (uint64_t k = 1; k < n; k++) *entry(tab, b + k) = c;
  for (uint64_t k = 0; k < n; k++) unref(o);
  return c;
}
static Obj *allocIn(std::vector<Chunk *> &t, uint64_t base0, uint64_t &next, uint64_t size, Kind k) {
  uint64_t n = slotsFor(size);
  Obj *o = new Obj(base0 + next * SLOT, size, k);
  o->ref = n;
  for (uint64_t i = 0; i < n; i++) *entry(t, next + i) = o;
  next += n;
  return o;
}
static bool isHeap(Kind k) { return k == Kind::Malloc || k == Kind::New || k == Kind::NewArr; }
static Obj *heapAlloc(uint64_t size, Kind k) {
  if (size > (1ull << 28)) unsupported("huge allocation");
  Obj *o = allocIn(S->heap, HEAP_BASE, S->heapSlots, size, k);
  memset(o->data, 0xBE, size);
  o->allocSite = F ? F->pc->src : nullptr;
  if (isHeap(k)) { S->liveHeap++; S->liveBytes += size; }
  return o;
}
static Obj *stackAlloc(uint64_t size) {
  uint64_t n = slotsFor(size);
  uint64_t s = T->stack.size();
  Obj *o = new Obj(STACK_BASE + S->cur * STACK_STRIDE + s * SLOT, size, Kind::Stack);
  memset(o->data, 0xBE, size);
  o->ref = n;
  for (uint64_t i = 0; i < n; i++) T->stack.push_back(o);
  return o;
}
static void popStack(uint32_t mark) {
  while (T->stack.size() > mark) { unref(T->stack.back()); T->stack.pop_back(); }
}

static std::string hexs(uint64_t v) { char b[32]; snprintf(b, 32, "0x%lx", v); return b; }

static void race(Obj *o, uint64_t off, uint64_t n, bool write, bool atomic) {
  uint32_t me = S->cur;
  if (me >= 4) return;
  if (!o->shadow) o->shadow = new std::vector<ShadowCell>(o->size);
  auto &vc = T->vc;
  auto before = [&](uint32_t clk, uint32_t t) { return clk == 0 || t == me || (t < vc.size() && vc[t] >= clk); };
  for (uint64_t i = off; i < off + n; i++) {
    auto &c = (*o->shadow)[i];
    if (!(atomic && c.watomic) && !before(c.wclk, c.wtid)) fail(std::string("data race: ") + (write ? "write" : "read") + " of " + kindName(o->kind) + " memory written by another thread without ordering");
    if (write) {
      for (uint32_t t = 0; t < 4; t++) {
        if (!before(c.rclk[t], t)) fail(std::string("data race: write of ") + kindName(o->kind) + " memory read by another thread without ordering");
        if (!atomic && !before(c.raclk[t], t)) fail(std::string("data race: write of ") + kindName(o->kind) + " memory accessed atomically by another thread without ordering");
      }
      c.wclk = vc[me]; c.wtid = me; c.watomic = atomic;
    } else if (atomic) c.raclk[me] = vc[me];
    else c.rclk[me] = vc[me];
  }
}

static Obj *access(uint64_t a, uint64_t n, bool write, bool atomic = false) {
  Obj *o = findObj(a);
  const char *what = write ? "write" : "read";
  if (!o) {
    if (a < 0x10000) fail(std::string("memory: null pointer ") + what);
    if (a >= FUNC_BASE && a < FUNC_END) fail(std::string("memory: ") + what + " of code");
    fail(std::string("memory: invalid address ") + what);
  }
  if (!o->alive) fail(std::string("memory: use after free (") + what + ")");
  if (a < o->base || a - o->base + n > o->size)
    fail(std::string("memory: out-of-bounds ") + what + " (" + kindName(o->kind) + " object of " + std::to_string(o->size) + " bytes)");
  if (write) {
    if (o->ro) fail("memory: write to constant");
    o = unshare(o);
  }
  if (S->th.size() > 1 && opt.raceCheck && !o->ro && !o->lib) {
    if (!write) o = unshare(o);
    race(o, a - o->base, n, write, atomic);
  }
  return o;
}
static inline Val rd(const Obj *o, uint64_t off, unsigned w) {
  unsigned nb = (w + 7) / 8;
  if (o->sym) {
    bool any = false;
    for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { any = true; break; }
    if (any) {
      auto byte = [&](unsigned i) { return o->sym[off + i] ? o->sym[off + i] : mkConst(o->data[off + i], 8); };
      ExprP e = byte(0);
      for (unsigned i = 1; i < nb; i++) e = mkConcat(byte(i), e);
      if (w & 7) e = mkExtract(e, 0, w);
      return mkv(e);
    }
  }
  uint64_t v = 0;
  memcpy(&v, o->data + off, nb);
  return Val{v & maskw(w), nullptr};
}
static inline void wr(Obj *o, uint64_t off, const Val &v, unsigned w) {
  unsigned nb = (w + 7) / 8;
  if (!v.e) {
    memcpy(o->data + off, &v.c, nb);
    if (o->sym) for (unsigned i = 0; i < nb; i++) o->sym[off + i] = nullptr;
    return;
  }
  if (!o->sym) o->sym = (ExprP *)calloc(o->size ? o->size : 1, sizeof(ExprP));
  ExprP e = v.e;
  if (w & 7) e = mkZExt(e, nb * 8);
  for (unsigned i = 0; i < nb; i++) {
    ExprP b = mkExtract(e, i * 8, 8);
    if (isConst(b)) { o->sym[off + i] = nullptr; o->data[off + i] = b->c; }
    else o->sym[off + i] = b;
  }
}
// resolve a possibly symbolic address to one object; returns concrete address
// unless the object is a small constant table, in which case *tab is set.
static uint64_t resolve(const Val &av, uint64_t n, bool write, Obj **tab) {
  if (!av.e) return av.c;
  uint64_t a = evalExpr(av.e, *S->model);
  Obj *o = findObj(a);
  if (!o || !o->alive || a - o->base + n > o->size) {
    access(a, n, write); // reports for the current model
    fail("memory: invalid symbolic address");
  }
  ExprP lo = mkBin(Op::Ule, mkConst(o->base, 64), av.e);
  ExprP hi = mkBin(Op::Ule, av.e, mkConst(o->base + o->size - n, 64));
  if (!decide(lo) || !decide(hi)) unsupported("address resolution"); // both hold in the model
  if (tab && !write && o->size <= 2048 && n <= 8) {
    ExprP off = mkBin(Op::Sub, av.e, mkConst(o->base, 64));
    if (n == 1 || decide(mkBin(Op::Eq, mkConst((a - o->base) & (n - 1), 64), mkBin(Op::And, off, mkConst(n - 1, 64))))) {
      *tab = o;
      return (a - o->base) & (n - 1);
    }
  }
  return conc(av, 64);
}
static Val loadSym(Obj *o, const Val &av, uint64_t phase, unsigned w) {
  unsigned nb = (w + 7) / 8;
  ExprP off = mkBin(Op::Sub, av.e, mkConst(o->base, 64));
  ExprP r = nullptr;
  for (uint64_t k = phase; k + nb <= o->size; k += nb) {
    ExprP v = ex(rd(o, k, w), w);
    r = r ? mkIte(mkBin(Op::Eq, mkConst(k, 64), off), v, r) : v;
  }
  return mkv(r);
}
static uint64_t rd64(uint64_t a) {
  Obj *o = access(a, 8, false);
  Val v = rd(o, a - o->base, 64);
  return conc(v, 64);
}
static void copyBytes(uint64_t d, uint64_t s, uint64_t n) {
  if (!n || d == s) { if (n) { access(s, n, false); access(d, n, true); } return; }
  access(s, n, false);
  Obj *dst = access(d, n, true);
  Obj *src = access(s, n, false);
  uint64_t so = s - src->base, dof = d - dst->base;
  memmove(dst->data + dof, src->data + so, n);
  if (src->sym) {
    bool any = false;
    for (uint64_t i = 0; i < n; i++) if (src->sym[so + i]) { any = true; break; }
    if (any && !dst->sym) dst->sym = (ExprP *)calloc(dst->size, sizeof(ExprP));
    if (dst->sym) memmove(dst->sym + dof, src->sym + so, n * sizeof(ExprP));
  } else if (dst->sym) memset(dst->sym + dof, 0, n * sizeof(ExprP));
}
static ExprP byteAt(Obj *o, uint64_t off) { return o->sym && o->sym[off] ? o->sym[off] : mkConst(o->data[off], 8); }
static std::string cstr(uint64_t a) { // concrete C string (labels, messages)
  std::string r;
  for (;; a++) {
    Obj *o = access(a, 1, false);
    if (o->sym && o->sym[a - o->base]) return r;
    char c = o->data[a - o->base];
    if (!c) return r;
    r += c;
  }
}
static void heapFree(uint64_t a, Kind k) {
  if (!a) return;
  Obj *o = findObj(a);
  if (!o || !(isHeap(o->kind)) || o->base != a) fail("memory: invalid free");
  if (!o->alive) fail("memory: double free");
  if (o->kind != k) fail(std::string("memory: allocation kind mismatch (allocated with ") + kindName(o->kind) + ", freed as " + kindName(k) + ")");
  access(a, o->size, o->size > 0);
  o = unshare(findObj(a));
  o->alive = false;
  S->liveHeap--;
  S->liveBytes -= o->size;
  o->release();
}

// ------------------------------------------------------------------ registers, frames
static inline Val get(int32_t op) { return op >= 0 ? T->regs[F->base + op] : P.pool[-op - 1]; }
static inline void set(int32_t s, const Val &v) { T->regs[F->base + s] = v; }

static void go(const Edge &e) {
  if (!e.moves.empty()) {
    static thread_local std::vector<Val> tmp;
    tmp.clear();
    for (auto &m : e.moves) tmp.push_back(get(m.second));
    for (size_t i = 0; i < tmp.size(); i++) set(e.moves[i].first, tmp[i]);
  }
  sh->blocks[F->f->blockBase + e.block] = 1;
  F->pc = &F->f->code[e.target];
}
static void advance(const Inst *in) {
  if (in->aux && in->aux->invoke) go(in->aux->edges[0]);
  else F->pc = in + 1;
}
static void pushFrame(Func *f, const std::vector<Val> &args, uint8_t special) {
  if (!f->compiled || f->code.empty()) unsupported("call of function without body: " + f->name);
  if (T->frames.size() > 1500) fail("stack overflow (unbounded recursion)");
  Frame n;
  n.f = f;
  n.pc = &f->code[0];
  n.base = T->regs.size();
  n.stackMark = T->stack.size();
  n.special = special;
  T->regs.resize(T->regs.size() + f->nslots, Val{0, nullptr});
  for (size_t i = 0; i < args.size() && i < f->nargs; i++) T->regs[n.base + i] = args[i];
  T->frames.push_back(std::move(n));
  F = &T->frames.back();
  sh->blocks[f->blockBase] = 1;
}
static void popFrame() {
  T->regs.resize(F->base);
  popStack(F->stackMark);
  T->frames.pop_back();
  F = T->frames.empty() ? nullptr : &T->frames.back();
}
static void setRet(const Inst *in, const Val &v) {
  if (in->dst >= 0) set(in->dst, v);
  advance(in);
}

// ------------------------------------------------------------------ threads
static void vcJoin(VC &a, const VC &b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
static Val newSym(const std::string &name, unsigned bytes) {
  SymInput si{name, S->nvars, bytes};
  S->nvars += bytes;
  S->inputs.push_back(si);
  ExprP e = mkVar(si.start);
  for (unsigned i = 1; i < bytes; i++) e = mkConcat(mkVar(si.start + i), e);
  return Val{0, e};
}
static unsigned choose(unsigned n) {
  if (n <= 1) return 0;
  if (!T->choice) {
    T->choice = newSym("sched", 1).e;
    addCons(mkBin(Op::Ult, T->choice, mkConst(n, 8)));
    sh->schedPoints++;
  }
  for (unsigned k = 0; k + 1 < n; k++)
    if (decide(mkBin(Op::Eq, mkConst(k, 8), T->choice))) { T->choice = nullptr; return k; }
  T->choice = nullptr;
  return n - 1;
}
static void switchTo(uint32_t t) { S->cur = t; refresh(); }
// the current thread cannot continue (blocked or done): pick another
static void schedBlocked() {
  std::vector<uint32_t> c;
  for (uint32_t i = 0; i < S->th.size(); i++) if (S->th[i].st == Thread::Run) c.push_back(i);
  if (c.empty()) fail("deadlock: no thread can run");
  S->switches++;
  unsigned k = choose(c.size());
  switchTo(c[k]);
}
// returns true when the current thread should go on with its operation
static bool schedPoint() {
  if (S->th.size() < 2 || T->schedDone) return true;
  std::vector<uint32_t> c{S->cur};
  if (S->preempt < (uint32_t)opt.preempt)
    for (uint32_t i = 0; i < S->th.size(); i++) if (i != S->cur && S->th[i].st == Thread::Run) c.push_back(i);
  unsigned k = choose(c.size());
  T->schedDone = true;
  if (k == 0) return true;
  S->preempt++;
  S->switches++;
  switchTo(c[k]);
  return false;
}

// ------------------------------------------------------------------ C++ RTTI and exceptions
static uint64_t tiSI, tiVMI, tiPtr;
static uint64_t gaddrByName(const char *n) {
  auto *g = P.m->getNamedValue(n);
  if (!g) return 0;
  auto it = P.gaddr.find(g);
  return it == P.gaddr.end() ? 0 : it->second;
}
static std::string tiName(uint64_t ti) { return cstr(rd64(ti + 8)); }
static bool sameTi(uint64_t a, uint64_t b) { return a == b || (a && b && tiName(a) == tiName(b)); }
struct Sub { uint64_t ti, addr; bool pub; };
static void subobjects(uint64_t ti, uint64_t addr, bool haveObj, bool pub, std::vector<Sub> &out) {
  out.push_back({ti, addr, pub});
  uint64_t vt = rd64(ti);
  if (vt == tiSI) subobjects(rd64(ti + 16), addr, haveObj, pub, out);
  else if (vt == tiVMI) {
    uint32_t n = rd64(ti + 16) >> 32;
    for (uint32_t i = 0; i < n; i++) {
      uint64_t bt = rd64(ti + 24 + 16 * i);
      int64_t fl = rd64(ti + 32 + 16 * i);
      int64_t off = fl >> 8;
      if (fl & 1) off = haveObj ? (int64_t)rd64(rd64(addr) + off) : 0; // virtual base: offset is in the vtable
      subobjects(bt, addr + off, haveObj, pub && (fl & 2), out);
    }
  }
}
static uint64_t dynCast(uint64_t src, uint64_t srcTi, uint64_t dstTi) {
  uint64_t vt = rd64(src);
  uint64_t whole = src + rd64(vt - 16), wti = rd64(vt - 8);
  std::vector<Sub> subs;
  subobjects(wti, whole, true, true, subs);
  // downcast: dst subobjects that have this very src subobject as a public base
  std::set<uint64_t> down, cross;
  bool srcPub = false;
  for (auto &s : subs) {
    if (sameTi(s.ti, dstTi)) {
      std::vector<Sub> in;
      subobjects(s.ti, s.addr, true, true, in);
      for (auto &x : in) if (x.pub && x.addr == src && sameTi(x.ti, srcTi)) down.insert(s.addr);
      if (s.pub) cross.insert(s.addr);
    }
    if (s.pub && s.addr == src && sameTi(s.ti, srcTi)) srcPub = true;
  }
  if (down.size() == 1) return *down.begin();
  if (srcPub && cross.size() == 1) return *cross.begin();
  return 0;
}
static bool catches(uint64_t cti, uint64_t tti, uint64_t obj, uint64_t &adj) {
  adj = obj;
  if (!cti) return true;
  if (sameTi(cti, tti)) return true;
  uint64_t vt = rd64(tti);
  if (vt != tiSI && vt != tiVMI) return false;
  std::vector<Sub> subs;
  subobjects(tti, obj, true, true, subs);
  std::set<uint64_t> m;
  for (auto &s : subs) if (s.pub && sameTi(s.ti, cti)) m.insert(s.addr);
  if (m.size() == 1) { adj = *m.begin(); return true; }
  return false;
}
static uint32_t typeId(uint64_t ti) { return ti ? (uint32_t)((ti - GLOB_BASE) / SLOT) + 2 : 1; }

// exception header layout is shared with shim/rt.cpp: [0] adjusted, [8] type info, [16] object
static void unwind(uint64_t exc) {
  uint64_t tti = rd64(exc + 8), obj = rd64(exc + 16);
  auto pad = [&](Frame &f, bool &match, uint64_t &adj, uint32_t &sel) -> const Inst * {
    match = false;
    const Inst *in = f.pc;
    if (in->op != I::Call || !in->aux->invoke) return nullptr;
    const Inst *lp = &f.f->code[in->aux->edges[1].target];
    if (lp->op != I::LandingPad) unsupported("unwind destination without landing pad");
    for (auto c : lp->aux->catches)
      if (catches(c, tti, obj, adj)) { match = true; sel = typeId(c); return lp; }
    sel = 0;
    adj = obj;
    return lp->aux->cleanup ? lp : nullptr;
  };
  bool found = false;
  for (int k = (int)T->frames.size() - 1; k >= 0 && !found; k--) {
    bool m;
    uint64_t adj;
    uint32_t sel;
    pad(T->frames[k], m, adj, sel);
    if (m) found = true;
    if (T->frames[k].special) break;
  }
  if (!found) fail("uncaught C++ exception of type " + demangle("_ZTS" + tiName(tti)));
  for (;;) {
    bool m;
    uint64_t adj;
    uint32_t sel = 0;
    const Inst *lp = pad(*F, m, adj, sel);
    if (lp) {
      Obj *h = access(exc, 8, true);
      wr(h, exc - h->base, Val{adj, nullptr}, 64);
      go(F->pc->aux->edges[1]);
      set(lp->dst, Val{exc, nullptr});
      set(lp->dst + 1, Val{sel, nullptr});
      F->pc = lp + 1;
      return;
    }
    popFrame();
  }
}

// ------------------------------------------------------------------ builtins
enum BI {
  B_none, B_malloc, B_calloc, B_free, B_new, B_newarr, B_del, B_delarr, B_memcpy, B_memset, B_memcmp, B_strlen, B_strcmp, B_strncmp,
  B_strchr, B_strrchr, B_memchr, B_ret0, B_abort, B_terminate, B_purevirt, B_lock, B_trylock, B_unlock, B_self, B_symbolic, B_assume,
  B_assert, B_reach, B_observe, B_param, B_heapcount, B_spawn, B_join, B_raise, B_dyncast, B_guardacq, B_guardrel, B_fail, B_exit, B_havoc, B_choose, B_isnative,
  B_tid, B_heapbytes, B_debug, B_preempt, B_mutexinit, B_nop, B_issym, B_yield
};
static const std::pair<const char *, int> btab[] = {
  {"malloc", B_malloc}, {"calloc", B_calloc}, {"free", B_free}, {"_Znwm", B_new}, {"_Znam", B_newarr}, {"_ZnwmRKSt9nothrow_t", B_new}, {"_ZnamRKSt9nothrow_t", B_newarr},
  {"_ZdlPv", B_del}, {"_ZdaPv", B_delarr}, {"_ZdlPvm", B_del}, {"_ZdaPvm", B_delarr}, {"_ZdlPvRKSt9nothrow_t", B_del}, {"_ZdaPvRKSt9nothrow_t", B_delarr},
  {"memcpy", B_memcpy}, {"memmove", B_memcpy}, {"memset", B_memset}, {"memcmp", B_memcmp}, {"bcmp", B_memcmp}, {"strlen", B_strlen},
  {"strcmp", B_strcmp}, {"strncmp", B_strncmp}, {"strchr", B_strchr}, {"strrchr", B_strrchr}, {"memchr", B_memchr},
  {"printf", B_ret0}, {"puts", B_ret0}, {"putchar", B_ret0}, {"fprintf", B_ret0}, {"fputs", B_ret0}, {"fwrite", B_ret0}, {"fflush", B_ret0}, {"vprintf", B_ret0},
  {"__cxa_atexit", B_ret0}, {"_ZSt21ios_base_library_initv", B_nop},
  {"abort", B_abort}, {"_ZSt9terminatev", B_terminate}, {"__cxa_pure_virtual", B_purevirt}, {"__assert_fail", B_abort}, {"exit", B_exit}, {"_exit", B_exit},
  {"pthread_mutex_lock", B_lock}, {"pthread_mutex_trylock", B_trylock}, {"pthread_mutex_unlock", B_unlock}, {"pthread_self", B_self},
  {"pthread_mutex_destroy", B_ret0}, {"sched_yield", B_ret0},
  {"sx_symbolic", B_symbolic}, {"sx_assume", B_assume}, {"sx_assert_", B_assert}, {"sx_reach", B_reach}, {"sx_observe", B_observe},
  {"sx_param", B_param}, {"sx_heap_count", B_heapcount}, {"sx_heap_bytes", B_heapbytes}, {"__sx_spawn", B_spawn}, {"sx_thread_join", B_join}, {"__sx_raise", B_raise},
  {"__dynamic_cast", B_dyncast}, {"__cxa_guard_acquire", B_guardacq}, {"__cxa_guard_release", B_guardrel}, {"sx_fail", B_fail},
  {"sx_choose", B_choose}, {"sx_is_native", B_isnative}, {"sx_debug", B_debug}, {"sx_concretize", B_issym}, {"sx_yield", B_yield},
};
int builtinIndex(const std::string &n) {
  static std::unordered_map<std::string, int> m;
  if (m.empty()) for (auto &p : btab) m[p.first] = p.second;
  auto it = m.find(n);
  return it == m.end() ? -1 : it->second;
}

static bool tryLock(uint64_t a, bool &owned) {
  access(a, 40, false, true); // the mutex must be live memory
  auto &m = S->mtx[a];
  Obj *o = access(a, 40, false, true);
  uint32_t kind = rd(o, a - o->base + 16, 32).c;
  owned = m.owner == (int)S->cur;
  if (m.owner < 0 || (owned && kind == 1)) {
    if (m.owner < 0) vcJoin(T->vc, m.vc);
    m.owner = S->cur;
    m.count++;
    return true;
  }
  return false;
}

static void builtin(int id, const Inst *in, std::vector<Val> &a) {
  auto *aux = in->aux;
  auto A = [&](unsigned i) { return conc(a[i], aux->argw[i]); };
  switch (id) {
  case B_malloc: { auto n = A(0); setRet(in, Val{heapAlloc(n, Kind::Malloc)->base, nullptr}); return; }
  case B_calloc: { auto n = A(0) * A(1); Obj *o = heapAlloc(n, Kind::Malloc); memset(o->data, 0, n); setRet(in, Val{o->base, nullptr}); return; }
  case B_new: { auto n = A(0); setRet(in, Val{heapAlloc(n, Kind::New)->base, nullptr}); return; }
  case B_newarr: { auto n = A(0); setRet(in, Val{heapAlloc(n, Kind::NewArr)->base, nullptr}); return; }
  case B_free: heapFree(A(0), Kind::Malloc); advance(in); return;
  case B_del: heapFree(A(0), Kind::New); advance(in); return;
  case B_delarr: heapFree(A(0), Kind::NewArr); advance(in); return;
  case B_memcpy: { auto d = A(0), s = A(1), n = A(2); copyBytes(d, s, n); setRet(in, Val{d, nullptr}); return; }
  case B_memset: {
    auto d = A(0), n = A(2);
    if (n) {
      Obj *o = access(d, n, true);
      Val v = a[1];
      if (v.e) { ExprP b = mkExtract(v.e, 0, 8); for (uint64_t i = 0; i < n; i++) wr(o, d - o->base + i, mkv(b), 8); }
      else { memset(o->data + (d - o->base), (int)v.c, n); if (o->sym) memset(o->sym + (d - o->base), 0, n * sizeof(ExprP)); }
    }
    setRet(in, Val{d, nullptr});
    return;
  }
  case B_memcmp: {
    auto x = A(0), y = A(1), n = A(2);
    if (!n) { setRet(in, Val{0, nullptr}); return; }
    Obj *p = access(x, n, false), *q = access(y, n, false);
    p = findObj(x);
    uint64_t po = x - p->base, qo = y - q->base;
    if (!p->sym && !q->sym) { int r = memcmp(p->data + po, q->data + qo, n); setRet(in, Val{(uint64_t)(uint32_t)(r < 0 ? -1 : r > 0), nullptr}); return; }
    ExprP r = mkConst(0, 32);
    for (int64_t i = n - 1; i >= 0; i--) {
      ExprP b = byteAt(p, po + i), c = byteAt(q, qo + i);
      r = mkIte(mkBin(Op::Eq, b, c), r, mkIte(mkBin(Op::Ult, b, c), mkConst(~0ull, 32), mkConst(1, 32)));
    }
    setRet(in, mkv(r));
    return;
  }
  case B_strlen: {
    auto s = A(0);
    uint64_t i = 0;
    for (;; i++) {
      Obj *o = access(s + i, 1, false);
      if (decide(mkBin(Op::Eq, mkConst(0, 8), byteAt(o, s + i - o->base)))) break;
    }
    setRet(in, Val{i, nullptr});
    return;
  }
  case B_strcmp: case B_strncmp: {
    auto x = A(0), y = A(1);
    uint64_t n = id == B_strncmp ? A(2) : ~0ull;
    for (uint64_t i = 0; i < n; i++) {
      Obj *p = access(x + i, 1, false), *q = access(y + i, 1, false);
      p = findObj(x + i);
      ExprP b = byteAt(p, x + i - p->base), c = byteAt(q, y + i - q->base);
      if (!decide(mkBin(Op::Eq, b, c))) { setRet(in, mkv(mkIte(mkBin(Op::Ult, b, c), mkConst(~0ull, 32), mkConst(1, 32)))); return; }
      if (decide(mkBin(Op::Eq, mkConst(0, 8), b))) break;
    }
    setRet(in, Val{0, nullptr});
    return;
  }
  case B_strchr: case B_strrchr: case B_memchr: {
    auto s = A(0);
    ExprP c = mkExtract(ex(a[1], 32), 0, 8);
    uint64_t n = id == B_memchr ? A(2) : ~0ull, last = 0;
    for (uint64_t i = 0; i < n; i++) {
      Obj *o = access(s + i, 1, false);
      ExprP b = byteAt(o, s + i - o->base);
      if (decide(mkBin(Op::Eq, b, c))) { last = s + i; if (id != B_strrchr) break; }
      if (id != B_memchr && decide(mkBin(Op::Eq, mkConst(0, 8), b))) break;
    }
    setRet(in, Val{last, nullptr});
    return;
  }
  case B_ret0: setRet(in, Val{0, nullptr}); return;
  case B_nop: advance(in); return;
  case B_abort: fail("abort() called");
  case B_terminate: fail("std::terminate() called");
  case B_purevirt: fail("pure virtual function called");
  case B_exit: throw EndPath{EndPath::Exit, ""};
  case B_self: setRet(in, Val{0x5000 + S->cur, nullptr}); return;
  case B_tid: setRet(in, Val{S->cur, nullptr}); return;
  case B_lock: {
    auto m = A(0);
    if (!schedPoint()) return;
    bool owned;
    if (tryLock(m, owned)) { T->schedDone = false; setRet(in, Val{0, nullptr}); return; }
    if (owned) fail("deadlock: thread locks a non-recursive mutex it already holds");
    T->st = Thread::BlockedMutex;
    T->waitOn = m;
    schedBlocked();
    return;
  }
  case B_trylock: {
    auto m = A(0);
    if (!schedPoint()) return;
    bool owned;
    bool ok = tryLock(m, owned);
    T->schedDone = false;
    setRet(in, Val{ok ? 0u : 16u, nullptr});
    return;
  }
  case B_unlock: {
    auto ma = A(0);
    if (!schedPoint()) return;
    T->schedDone = false;
    access(ma, 40, false, true);
    auto &m = S->mtx[ma];
    if (m.owner != (int)S->cur) {
      Obj *o = access(ma, 40, false, true);
      uint32_t kind = rd(o, ma - o->base + 16, 32).c;
      if (kind == 1) { setRet(in, Val{1, nullptr}); return; } // EPERM
      fail("unlock of a mutex not held by this thread");
    }
    if (--m.count == 0) {
      m.owner = -1;
      m.vc = T->vc;
      if (T->vc.size() > S->cur) T->vc[S->cur]++;
      for (auto &t : S->th) if (t.st == Thread::BlockedMutex && t.waitOn == ma) t.st = Thread::Run;
    }
    setRet(in, Val{0, nullptr});
    return;
  }
  case B_symbolic: {
    auto p = A(0), n = A(1);
    std::string name = cstr(A(2));
    Obj *o = access(p, n, true);
    SymInput si{name, S->nvars, (uint32_t)n};
    S->nvars += n;
    S->inputs.push_back(si);
    for (uint64_t i = 0; i < n; i++) wr(o, p - o->base + i, Val{0, mkVar(si.start + i)}, 8);
    advance(in);
    return;
  }
  case B_choose: {
    auto n = A(0);
    std::string name = cstr(A(1));
    if (n <= 1) { setRet(in, Val{0, nullptr}); return; }
    if (!T->choice) {
      T->choice = newSym(name, 1).e;
      addCons(mkBin(Op::Ult, T->choice, mkConst(n, 8)));
    }
    uint64_t r = n - 1;
    for (unsigned k = 0; k + 1 < n; k++)
      if (decide(mkBin(Op::Eq, mkConst(k, 8), T->choice))) { r = k; break; }
    T->choice = nullptr;
    setRet(in, Val{r, nullptr});
    return;
  }
  case B_issym: setRet(in, Val{A(0), nullptr}); return;
  case B_assume: {
    ExprP c = mkBin(Op::Xor, mkConst(1, 1), mkBin(Op::Eq, mkConst(0, aux->argw[0]), ex(a[0], aux->argw[0])));
    if (isConst(c)) { if (!c->c) throw EndPath{EndPath::Assume, ""}; }
    else {
      if (!evalExpr(c, *S->model)) {
        Model m;
        Res r = solve(S->cons, c, *S->model, m);
        if (r == Res::Unsat) throw EndPath{EndPath::Assume, ""};
        if (r == Res::Unknown) { sh->unknownBr++; throw EndPath{EndPath::Budget, "assume undecided"}; }
        S->model = std::make_shared<const Model>(std::move(m));
      }
      addCons(c);
    }
    advance(in);
    return;
  }
  case B_assert: {
    ExprP c = mkBin(Op::Xor, mkConst(1, 1), mkBin(Op::Eq, mkConst(0, aux->argw[0]), ex(a[0], aux->argw[0])));
    std::string msg = "assert: " + cstr(A(1));
    if (isConst(c)) { if (!c->c) fail(msg); advance(in); return; }
    Model m;
    sh->symBranches++;
    bool v = evalExpr(c, *S->model);
    if (!v) { violation(msg, *S->model); }
    else {
      Res r = solve(S->cons, mkNot(c), *S->model, m);
      if (r == Res::Sat) violation(msg, m);
      else if (r == Res::Unknown) sh->unknownBr++;
      else { advance(in); return; }
    }
    if (!v) {
      Res r = solve(S->cons, c, *S->model, m);
      if (r != Res::Sat) throw EndPath{EndPath::Assume, ""};
      S->model = std::make_shared<const Model>(std::move(m));
    }
    addCons(c);
    advance(in);
    return;
  }
  case B_fail: fail("assert: " + cstr(A(0)));
  case B_reach: reached[cstr(A(0))]++; advance(in); return;
  case B_observe: {
    std::string name = cstr(A(0));
    auto p = A(1), n = A(2);
    Obs ob;
    ob.name = name;
    if (n) {
      Obj *o = access(p, n, false);
      for (uint64_t i = 0; i < n; i++) { uint64_t f = p - o->base + i; ob.bytes.push_back({o->sym ? o->sym[f] : nullptr, o->data[f]}); }
    }
    S->obs.push_back(ob);
    advance(in);
    return;
  }
  case B_param: {
    std::string name = cstr(A(0));
    auto it = opt.params.find(name);
    setRet(in, Val{(uint64_t)(it == opt.params.end() ? (int64_t)(int32_t)A(1) : it->second) & maskw(32), nullptr});
    return;
  }
  case B_debug: {
    std::string name = cstr(A(0));
    fprintf(stderr, "[debug] %s = %s (model %lx)\n", name.c_str(), a[1].e ? exprStr(a[1].e).c_str() : hexs(a[1].c).c_str(), a[1].e ? evalExpr(a[1].e, *S->model) : a[1].c);
    advance(in);
    return;
  }
  case B_heapcount: setRet(in, Val{S->liveHeap, nullptr}); return;
  case B_heapbytes: setRet(in, Val{S->liveBytes, nullptr}); return;
  case B_isnative: setRet(in, Val{0, nullptr}); return;
  case B_yield: {
    if (!schedPoint()) return;
    T->schedDone = false;
    advance(in);
    return;
  }
  case B_spawn: {
    if (S->th.size() >= 4) unsupported("more than 4 threads");
    auto fnp = a[0], arg = a[1];
    auto *mf = P.m->getFunction("__sx_thread_main");
    if (!mf) unsupported("no thread entry in shim");
    uint32_t me = S->cur, c = S->th.size();
    if (T->vc.empty()) T->vc.assign(1, 1);
    if (S->th.size() == 1) S->spawnSlots = S->heapSlots;
    setRet(in, Val{c, nullptr});
    S->th.emplace_back();
    refresh();
    Thread &n = S->th[c];
    n.vc = T->vc;
    n.vc.resize(c + 1, 0);
    n.vc[c] = 1;
    T->vc[me]++;
    S->cur = c;
    refresh();
    pushFrame(P.fn(mf), {fnp, arg}, 1);
    S->cur = me;
    refresh();
    return;
  }
  case B_join: {
    auto t = A(0);
    if (t >= S->th.size()) fail("join of unknown thread");
    if (S->th[t].st != Thread::Done) {
      T->st = Thread::BlockedJoin;
      T->waitOn = t;
      schedBlocked();
      return;
    }
    vcJoin(T->vc, S->th[t].vc);
    advance(in);
    return;
  }
  case B_raise: unwind(A(0)); return;
  case B_dyncast: {
    auto s = A(0), st = A(1), dt = A(2);
    setRet(in, Val{dynCast(s, st, dt), nullptr});
    return;
  }
  case B_guardacq: {
    auto g = A(0);
    Obj *o = access(g, 8, true, true);
    if (o->data[g - o->base]) {
      if (S->th.size() > 1) vcJoin(T->vc, S->sync[g]);
      setRet(in, Val{0, nullptr});
      return;
    }
    auto &m = S->mtx[g];
    if (m.owner >= 0 && m.owner != (int)S->cur) {
      T->st = Thread::BlockedMutex;
      T->waitOn = g;
      schedBlocked();
      return;
    }
    m.owner = S->cur;
    setRet(in, Val{1, nullptr});
    return;
  }
  case B_guardrel: {
    auto g = A(0);
    Obj *o = access(g, 8, true, true);
    wr(o, g - o->base, Val{1, nullptr}, 8);
    S->mtx[g].owner = -1;
    if (S->th.size() > 1) { S->sync[g] = T->vc; T->vc[S->cur]++; }
    for (auto &t : S->th) if (t.st == Thread::BlockedMutex && t.waitOn == g) t.st = Thread::Run;
    advance(in);
    return;
  }
  }
  unsupported("builtin");
}

// ------------------------------------------------------------------ calls
static void intrinsic(const Inst *in, std::vector<Val> &a) {
  auto *aux = in->aux;
  auto id = (Intrinsic::ID)in->callee->intr;
  unsigned w = aux->pieces.empty() ? 0 : aux->pieces[0].w;
  auto E = [&](unsigned i) { return ex(a[i], aux->argw[i]); };
  bool symb = false;
  for (auto &v : a) if (v.e) symb = true;
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    auto d = conc(a[0], 64), s = conc(a[1], 64), n = conc(a[2], aux->argw[2]);
    copyBytes(d, s, n);
    advance(in);
    return;
  }
  case Intrinsic::memset: builtin(B_memset, in, a); return;
  case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
    bool sg = id == Intrinsic::smax || id == Intrinsic::smin, mx = id == Intrinsic::umax || id == Intrinsic::smax;
    ExprP lt = mkBin(sg ? Op::Slt : Op::Ult, E(0), E(1));
    setRet(in, mkv(mx ? mkIte(lt, E(1), E(0)) : mkIte(lt, E(0), E(1))));
    return;
  }
  case Intrinsic::abs: {
    ExprP x = E(0);
    setRet(in, mkv(mkIte(mkBin(Op::Slt, x, mkConst(0, w)), mkBin(Op::Sub, mkConst(0, w), x), x)));
    return;
  }
  case Intrinsic::usub_sat: setRet(in, mkv(mkIte(mkBin(Op::Ult, E(0), E(1)), mkConst(0, w), mkBin(Op::Sub, E(0), E(1))))); return;
  case Intrinsic::uadd_sat: { ExprP s = mkBin(Op::Add, E(0), E(1)); setRet(in, mkv(mkIte(mkBin(Op::Ult, s, E(0)), mkConst(~0ull, w), s))); return; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    ExprP x = E(0), y = E(1), r, o;
    if (id == Intrinsic::uadd_with_overflow) { r = mkBin(Op::Add, x, y); o = mkBin(Op::Ult, r, x); }
    else if (id == Intrinsic::usub_with_overflow) { r = mkBin(Op::Sub, x, y); o = mkBin(Op::Ult, x, y); }
    else if (w <= 32) {
      bool sg = id != Intrinsic::umul_with_overflow;
      ExprP X = sg ? mkSExt(x, 2 * w) : mkZExt(x, 2 * w), Y = sg ? mkSExt(y, 2 * w) : mkZExt(y, 2 * w);
      Op op = id == Intrinsic::sadd_with_overflow ? Op::Add : id == Intrinsic::ssub_with_overflow ? Op::Sub : Op::Mul;
      ExprP R = mkBin(op, X, Y);
      r = mkExtract(R, 0, w);
      o = mkNot(mkBin(Op::Eq, sg ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w), R));
    } else {
      if (symb) unsupported("64-bit overflow intrinsic on symbolic values");
      __int128 v, X, Y;
      bool sg = id != Intrinsic::umul_with_overflow;
      X = sg ? (__int128)(int64_t)a[0].c : (__int128)a[0].c; Y = sg ? (__int128)(int64_t)a[1].c : (__int128)a[1].c;
      if (id == Intrinsic::sadd_with_overflow) v = X + Y; else if (id == Intrinsic::ssub_with_overflow) v = X - Y;
      else if (sg) v = X * Y; else { unsigned __int128 u = (unsigned __int128)a[0].c * a[1].c; r = mkConst((uint64_t)u, 64); o = mkConst((u >> 64) != 0, 1); set(in->dst, mkv(r)); set(in->dst + 1, mkv(o)); advance(in); return; }
      r = mkConst((uint64_t)v, 64);
      o = mkConst(v != (__int128)(int64_t)v, 1);
    }
    set(in->dst, mkv(r));
    set(in->dst + 1, mkv(o));
    advance(in);
    return;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    uint64_t s = conc(a[2], w) % w;
    ExprP hi = E(0), lo = E(1), r;
    if (id == Intrinsic::fshl) r = s ? mkBin(Op::Or, mkBin(Op::Shl, hi, mkConst(s, w)), mkBin(Op::LShr, lo, mkConst(w - s, w))) : hi;
    else r = s ? mkBin(Op::Or, mkBin(Op::Shl, hi, mkConst(w - s, w)), mkBin(Op::LShr, lo, mkConst(s, w))) : lo;
    setRet(in, mkv(r));
    return;
  }
  case Intrinsic::bswap: {
    ExprP x = E(0), r = mkExtract(x, 0, 8);
    for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(x, i * 8, 8));
    setRet(in, mkv(r));
    return;
  }
  case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
    uint64_t v = conc(a[0], w), r = 0;
    if (id == Intrinsic::ctpop) r = __builtin_popcountll(v);
    else if (!v) r = w;
    else if (id == Intrinsic::ctlz) { r = 0; for (int i = w - 1; i >= 0 && !((v >> i) & 1); i--) r++; }
    else r = __builtin_ctzll(v);
    setRet(in, Val{r, nullptr});
    return;
  }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
  case Intrinsic::ssa_copy:
    setRet(in, a[0]);
    return;
  case Intrinsic::is_constant: setRet(in, Val{0, nullptr}); return;
  case Intrinsic::objectsize: setRet(in, Val{~0ull, nullptr}); return;
  case Intrinsic::trap: case Intrinsic::ubsantrap: fail("trap instruction reached");
  case Intrinsic::eh_typeid_for: setRet(in, Val{typeId(a[0].c), nullptr}); return;
  case Intrinsic::threadlocal_address: {
    uint64_t g = a[0].c;
    auto it = T->tls.find(g);
    if (it == T->tls.end()) {
      Obj *src = findObj(g);
      Obj *o = allocIn(S->heap, HEAP_BASE, S->heapSlots, src->size, Kind::Lib);
      memcpy(o->data, findObj(g)->data, src->size);
      it = T->tls.emplace(g, o->base).first;
    }
    setRet(in, Val{it->second, nullptr});
    return;
  }
  case Intrinsic::stacksave: setRet(in, Val{T->stack.size(), nullptr}); return;
  case Intrinsic::stackrestore: popStack(a[0].c); advance(in); return;
  case Intrinsic::vastart: {
    uint64_t ap = conc(a[0], 64);
    VaInfo *va = F->va.get();
    if (!va) unsupported("va_start without variadic call");
    unsigned gp = 0, fp = 0;
    std::vector<Val> ov;
    Obj *rs = stackAlloc(176);
    auto put = [&](VarArg &x, bool named) {
      if (x.fp && fp < 8) { wr(rs, 48 + 16 * fp, x.v, x.w); fp++; }
      else if (!x.fp && gp < 6) {
        Val v = x.v;
        if (x.w < 64) { // upper bits of an argument register are unspecified: keep what the callee may rely on (int promotion)
          v = mkv(mkZExt(ex(v, x.w), 64));
        }
        wr(rs, 8 * gp, v, 64);
        gp++;
      } else if (!named) ov.push_back(x.w < 64 ? mkv(mkZExt(ex(x.v, x.w), 64)) : x.v);
    };
    for (auto &x : va->named) put(x, true);
    unsigned g0 = gp, f0 = fp;
    for (auto &x : va->extra) put(x, false);
    Obj *oa = stackAlloc(8 * ov.size());
    for (size_t i = 0; i < ov.size(); i++) wr(oa, 8 * i, ov[i], 64);
    Obj *o = access(ap, 24, true);
    uint64_t b = ap - o->base;
    wr(o, b, Val{8 * g0, nullptr}, 32);
    wr(o, b + 4, Val{48 + 16 * f0, nullptr}, 32);
    wr(o, b + 8, Val{oa->base, nullptr}, 64);
    wr(o, b + 16, Val{rs->base, nullptr}, 64);
    advance(in);
    return;
  }
  case Intrinsic::vacopy: copyBytes(conc(a[0], 64), conc(a[1], 64), 24); advance(in); return;
  case Intrinsic::fabs: if (symb) unsupported("symbolic fabs"); setRet(in, Val{a[0].c & (w == 32 ? 0x7fffffffull : ~(1ull << 63)), nullptr}); return;
  default: unsupported("intrinsic " + in->callee->name);
  }
}

static void call(const Inst *in) {
  Aux *aux = in->aux;
  if (in->imm == 2) { advance(in); return; } // empty inline asm (compiler barriers)
  Func *f = in->callee;
  if (!f) {
    uint64_t fa = conc(get(in->a), 64);
    if (fa < 0x10000) fail("call of a null function pointer");
    if (fa < FUNC_BASE || fa >= FUNC_END || (fa & 15) || (fa - FUNC_BASE) / 16 >= P.byAddr.size()) {
      Obj *o = findObj(fa);
      fail(std::string("call through a bad function pointer") + (o ? std::string(" (into ") + kindName(o->kind) + " memory)" : ""));
    }
    f = P.byAddr[(fa - FUNC_BASE) / 16];
  }
  static thread_local std::vector<Val> a;
  std::vector<Val> args;
  args.reserve(aux->args.size());
  for (auto o : aux->args) args.push_back(get(o));
  if (f->builtin >= 0) { builtin(f->builtin, in, args); return; }
  if (f->intr) { intrinsic(in, args); return; }
  if (!f->compiled || f->code.empty()) {
    unsupported("call of external function " + f->name);
  }
  if (!f->vararg && (args.size() != f->nargs)) {
    if (args.size() < f->nargs) unsupported("call with too few arguments: " + f->name);
  }
  std::shared_ptr<VaInfo> va;
  if (f->vararg) {
    va = std::make_shared<VaInfo>();
    unsigned k = 0;
    for (unsigned i = 0; i < aux->argn.size(); i++)
      for (unsigned j = 0; j < aux->argn[i]; j++, k++) {
        VarArg x{args[k], aux->argw[k], (bool)aux->argfp[k]};
        if (k < f->nargs) va->named.push_back(x);
        else va->extra.push_back(x);
      }
  } else {
    for (unsigned k = 0; k < f->nargs; k++) {
      if (aux->argfp[k] != f->argfp[k]) unsupported("argument class mismatch calling " + f->name);
      if (aux->argw[k] != f->argw[k]) {
        ExprP e = ex(args[k], aux->argw[k]);
        args[k] = mkv(aux->argw[k] > f->argw[k] ? mkExtract(e, 0, f->argw[k]) : mkZExt(e, f->argw[k]));
      }
    }
  }
  uint32_t mark = T->stack.size();
  // by-value aggregates: callee gets its own copy
  unsigned k = 0;
  for (unsigned i = 0; i < aux->argbyval.size(); i++) {
    if (aux->argbyval[i]) {
      Obj *o = stackAlloc(aux->argbyval[i]);
      uint64_t src = conc(args[k], 64);
      copyBytes(o->base, src, aux->argbyval[i]);
      args[k] = Val{o->base, nullptr};
    }
    k += aux->argn[i];
  }
  pushFrame(f, args, 0);
  F->stackMark = mark;
  F->va = va;
}

static void ret(const Inst *in) {
  Val tmp[16];
  unsigned n = in->aux->srcs.size();
  std::vector<Val> big;
  Val *p = tmp;
  if (n > 16) { big.resize(n); p = big.data(); }
  for (unsigned i = 0; i < n; i++) p[i] = get(in->aux->srcs[i]);
  uint8_t sp = F->special;
  popFrame();
  if (sp == 2) return; // global constructor
  if (!F) { // thread finished
    if (S->cur == 0) throw EndPath{EndPath::Exit, ""};
    T->st = Thread::Done;
    for (auto &t : S->th) if (t.st == Thread::BlockedJoin && t.waitOn == S->cur) t.st = Thread::Run;
    return; // main loop picks another thread
  }
  const Inst *c = F->pc;
  if (c->dst >= 0) {
    unsigned m = c->aux->pieces.size();
    for (unsigned i = 0; i < m && i < n; i++) set(c->dst + i, p[i]);
    for (unsigned i = n; i < m; i++) set(c->dst + i, Val{0, nullptr});
  }
  advance(c);
}

// ------------------------------------------------------------------ main interpreter loop
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(uint64_t v) { float f; uint32_t u = v; memcpy(&f, &u, 4); return f; }
static uint64_t ofD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t ofF(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }

static void atomicSync(uint64_t a, AtomicOrdering ord, bool load, bool store) {
  if (S->th.size() < 2) return;
  if (load && isAcquireOrStronger(ord)) vcJoin(T->vc, S->sync[a]);
  if (store && isReleaseOrStronger(ord)) { vcJoin(S->sync[a], T->vc); T->vc[S->cur]++; }
}

// with --atomics, read-modify-write operations on heap memory older than the threads are scheduling points
static bool atomicPoint(uint64_t a, const Inst *in) {
  if (!opt.atomics || in->imm || S->th.size() < 2 || a < HEAP_BASE || a >= HEAP_END || (a - HEAP_BASE) / SLOT >= S->spawnSlots) return true;
  if (!schedPoint()) return false;
  T->schedDone = false;
  return true;
}

static void step() {
  const Inst *in = F->pc;
  switch (in->op) {
  case I::Bin: {
    Val a = get(in->a), b = get(in->b);
    Op op = (Op)in->sub;
    if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) {
      if (decide(mkBin(Op::Eq, mkConst(0, in->w), ex(b, in->w)))) fail("division by zero");
    }
    if (!a.e && !b.e) set(in->dst, Val{foldBin(op, a.c, b.c, in->w), nullptr});
    else set(in->dst, mkv(mkBin(op, ex(a, in->w), ex(b, in->w))));
    F->pc = in + 1;
    return;
  }
  case I::ICmp: {
    Val a = get(in->a), b = get(in->b);
    Op op;
    bool sw = false, neg = false;
    switch (in->sub) {
    case CmpInst::ICMP_EQ: op = Op::Eq; break;
    case CmpInst::ICMP_NE: op = Op::Eq; neg = true; break;
    case CmpInst::ICMP_ULT: op = Op::Ult; break;
    case CmpInst::ICMP_ULE: op = Op::Ule; break;
    case CmpInst::ICMP_UGT: op = Op::Ult; sw = true; break;
    case CmpInst::ICMP_UGE: op = Op::Ule; sw = true; break;
    case CmpInst::ICMP_SLT: op = Op::Slt; break;
    case CmpInst::ICMP_SLE: op = Op::Sle; break;
    case CmpInst::ICMP_SGT: op = Op::Slt; sw = true; break;
    default: op = Op::Sle; sw = true; break;
    }
    if (sw) std::swap(a, b);
    if (!a.e && !b.e) set(in->dst, Val{foldBin(op, a.c, b.c, in->w) ^ neg, nullptr});
    else {
      ExprP e = mkBin(op, ex(a, in->w), ex(b, in->w));
      set(in->dst, mkv(neg ? mkNot(e) : e));
    }
    F->pc = in + 1;
    return;
  }
  case I::Load: {
    Val av = get(in->a);
    uint64_t a;
    auto &ps = in->aux->pieces;
    uint64_t n = ps.empty() ? 0 : ps.back().off + (ps.back().w + 7) / 8;
    if (!n) { F->pc = in + 1; return; }
    if (av.e) {
      Obj *tab = nullptr;
      a = resolve(av, n, false, ps.size() == 1 ? &tab : nullptr);
      if (tab) { set(ps[0].slot, loadSym(tab, av, a, ps[0].w)); F->pc = in + 1; return; }
    } else a = av.c;
    Obj *o = access(a, n, false, in->imm);
    if (in->imm) atomicSync(a, cast<LoadInst>(in->src)->getOrdering(), true, false);
    for (auto &p : ps) set(p.slot, rd(o, a - o->base + p.off, p.w));
    F->pc = in + 1;
    return;
  }
  case I::Store: {
    Val av = get(in->a);
    auto &ps = in->aux->pieces;
    uint64_t n = ps.empty() ? 0 : ps.back().off + (ps.back().w + 7) / 8;
    if (!n) { F->pc = in + 1; return; }
    uint64_t a = resolve(av, n, true, nullptr);
    Obj *o = access(a, n, true, in->imm);
    if (in->imm) atomicSync(a, cast<StoreInst>(in->src)->getOrdering(), false, true);
    for (auto &p : ps) wr(o, a - o->base + p.off, get(p.slot), p.w);
    F->pc = in + 1;
    return;
  }
  case I::Gep: {
    Val b = get(in->a);
    if (!in->aux) {
      if (!b.e) set(in->dst, Val{b.c + in->imm, nullptr});
      else set(in->dst, mkv(mkBin(Op::Add, mkConst(in->imm, 64), b.e)));
      F->pc = in + 1;
      return;
    }
    uint64_t c = in->imm;
    ExprP e = nullptr;
    if (b.e) e = b.e;
    else c += b.c;
    for (auto &x : in->aux->idx) {
      Val v = get(x.op);
      if (!v.e) c += (uint64_t)(sextw(v.c, x.w) * x.scale);
      else {
        ExprP t = mkSExt(v.e, 64);
        if (x.scale != 1) {
          if (x.scale > 0 && !(x.scale & (x.scale - 1))) t = mkBin(Op::Shl, t, mkConst(__builtin_ctzll(x.scale), 64));
          else t = mkBin(Op::Mul, mkConst(x.scale, 64), t);
        }
        e = e ? mkBin(Op::Add, e, t) : t;
      }
    }
    if (e) set(in->dst, mkv(mkBin(Op::Add, mkConst(c, 64), e)));
    else set(in->dst, Val{c, nullptr});
    F->pc = in + 1;
    return;
  }
  case I::Alloca: {
    uint64_t n = conc(get(in->a), 64);
    Obj *o = stackAlloc(in->imm * n);
    set(in->dst, Val{o->base, nullptr});
    F->pc = in + 1;
    return;
  }
  case I::Br: go(in->aux->edges[0]); return;
  case I::CondBr: {
    Val c = get(in->a);
    bool v = c.e ? decide(c.e) : (c.c & 1);
    go(in->aux->edges[v ? 0 : 1]);
    return;
  }
  case I::Switch: {
    Val c = get(in->a);
    auto &cs = in->aux->cases;
    if (!c.e) {
      for (size_t i = 0; i < cs.size(); i++) if (cs[i] == c.c) { go(in->aux->edges[i + 1]); return; }
    } else {
      for (size_t i = 0; i < cs.size(); i++) if (decide(mkBin(Op::Eq, mkConst(cs[i], in->w), c.e))) { go(in->aux->edges[i + 1]); return; }
    }
    go(in->aux->edges[0]);
    return;
  }
  case I::Ret: ret(in); return;
  case I::Call: call(in); return;
  case I::Select: {
    Val c = get(in->a);
    auto *x = in->aux;
    if (c.e && !in->imm) {
      for (size_t i = 0; i < x->srcs.size(); i++) {
        unsigned w = x->pieces[i].w;
        set(in->dst + i, mkv(mkIte(c.e, ex(get(x->srcs[i]), w), ex(get(x->srcs2[i]), w))));
      }
    } else {
      bool v = c.e ? decide(c.e) : (c.c & 1);
      auto &s = v ? x->srcs : x->srcs2;
      for (size_t i = 0; i < s.size(); i++) set(in->dst + i, get(s[i]));
    }
    F->pc = in + 1;
    return;
  }
  case I::ZExt: {
    Val a = get(in->a);
    if (!a.e) set(in->dst, Val{a.c & maskw(in->w2), nullptr});
    else set(in->dst, mkv(mkZExt(a.e, in->w)));
    F->pc = in + 1;
    return;
  }
  case I::SExt: {
    Val a = get(in->a);
    if (!a.e) set(in->dst, Val{(uint64_t)sextw(a.c, in->w2) & maskw(in->w), nullptr});
    else set(in->dst, mkv(mkSExt(a.e, in->w)));
    F->pc = in + 1;
    return;
  }
  case I::Trunc: {
    Val a = get(in->a);
    if (!a.e) set(in->dst, Val{a.c & maskw(in->w), nullptr});
    else set(in->dst, mkv(mkExtract(a.e, 0, in->w)));
    F->pc = in + 1;
    return;
  }
  case I::FPExt: case I::FPTrunc: {
    Val a = get(in->a);
    set(in->dst, mkv(mkFP(in->op == I::FPExt ? Op::FPExt : Op::FPTrunc, ex(a, in->w2))));
    F->pc = in + 1;
    return;
  }
  case I::SIToFP: case I::UIToFP: {
    uint64_t v = conc(get(in->a), in->w2);
    double d = in->op == I::SIToFP ? (double)sextw(v, in->w2) : (double)v;
    float f = in->op == I::SIToFP ? (float)sextw(v, in->w2) : (float)v;
    set(in->dst, Val{in->w == 32 ? ofF(f) : ofD(d), nullptr});
    F->pc = in + 1;
    return;
  }
  case I::FPToSI: case I::FPToUI: {
    Val a = get(in->a);
    if (a.e) unsupported("symbolic float to int");
    double d = in->w2 == 32 ? asF(a.c) : asD(a.c);
    set(in->dst, Val{(in->op == I::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d) & maskw(in->w), nullptr});
    F->pc = in + 1;
    return;
  }
  case I::FNeg: {
    Val a = get(in->a);
    set(in->dst, mkv(mkBin(Op::Xor, mkConst(1ull << (in->w - 1), in->w), ex(a, in->w))));
    F->pc = in + 1;
    return;
  }
  case I::FBin: {
    Val a = get(in->a), b = get(in->b);
    if (a.e || b.e) unsupported("symbolic floating point arithmetic");
    double r, x = in->w == 32 ? asF(a.c) : asD(a.c), y = in->w == 32 ? asF(b.c) : asD(b.c);
    switch (in->sub) {
    case Instruction::FAdd: r = x + y; break;
    case Instruction::FSub: r = x - y; break;
    case Instruction::FMul: r = x * y; break;
    case Instruction::FDiv: r = x / y; break;
    default: r = fmod(x, y);
    }
    set(in->dst, Val{in->w == 32 ? ofF((float)r) : ofD(r), nullptr});
    F->pc = in + 1;
    return;
  }
  case I::FCmp: {
    Val a = get(in->a), b = get(in->b);
    if (a.e || b.e) unsupported("symbolic floating point comparison");
    double x = in->w == 32 ? asF(a.c) : asD(a.c), y = in->w == 32 ? asF(b.c) : asD(b.c);
    bool un = x != x || y != y, r = false;
    unsigned p = in->sub; // bits: 1 eq, 2 gt, 4 lt, 8 unordered
    if (un) r = p & 8; else if (x == y) r = p & 1; else if (x > y) r = p & 2; else r = p & 4;
    set(in->dst, Val{r, nullptr});
    F->pc = in + 1;
    return;
  }
  case I::Move: {
    auto &s = in->aux->srcs;
    if (s.size() == 1) set(in->dst, get(s[0]));
    else {
      std::vector<Val> t;
      for (auto o : s) t.push_back(get(o));
      for (size_t i = 0; i < t.size(); i++) set(in->dst + i, t[i]);
    }
    F->pc = in + 1;
    return;
  }
  case I::LandingPad: case I::Nop: F->pc = in + 1; return;
  case I::Resume: {
    uint64_t exc = conc(get(in->aux->srcs[0]), 64);
    popFrame();
    unwind(exc);
    return;
  }
  case I::AtomicRMW: {
    uint64_t a = conc(get(in->a), 64);
    if (!atomicPoint(a, in)) return;
    unsigned nb = (in->w + 7) / 8;
    Val nv = get(in->b);
    Obj *o = access(a, nb, true, true);
    atomicSync(a, cast<AtomicRMWInst>(in->src)->getOrdering(), true, true);
    Val old = rd(o, a - o->base, in->w);
    ExprP x = ex(old, in->w), y = ex(nv, in->w), r;
    switch (in->sub) {
    case AtomicRMWInst::Xchg: r = y; break;
    case AtomicRMWInst::Add: r = mkBin(Op::Add, x, y); break;
    case AtomicRMWInst::Sub: r = mkBin(Op::Sub, x, y); break;
    case AtomicRMWInst::And: r = mkBin(Op::And, x, y); break;
    case AtomicRMWInst::Or: r = mkBin(Op::Or, x, y); break;
    case AtomicRMWInst::Xor: r = mkBin(Op::Xor, x, y); break;
    default: unsupported("atomicrmw");
    }
    wr(o, a - o->base, mkv(r), in->w);
    set(in->dst, old);
    F->pc = in + 1;
    return;
  }
  case I::CmpXchg: {
    uint64_t a = conc(get(in->a), 64);
    if (!atomicPoint(a, in)) return;
    unsigned nb = (in->w + 7) / 8;
    Obj *o = access(a, nb, true, true);
    Val old = rd(o, a - o->base, in->w);
    bool eq = decide(mkBin(Op::Eq, ex(old, in->w), ex(get(in->b), in->w)));
    o = access(a, nb, true, true);
    atomicSync(a, cast<AtomicCmpXchgInst>(in->src)->getSuccessOrdering(), true, eq);
    if (eq) wr(o, a - o->base, get(in->c), in->w);
    set(in->dst, old);
    set(in->dst + 1, Val{eq, nullptr});
    F->pc = in + 1;
    return;
  }
  case I::Unreachable:
    if (in->imm) unsupported("wide cast");
    fail("unreachable code executed (undefined behaviour)");
  default: unsupported("opcode");
  }
}

static void runState(State *st) {
  S = st;
  refresh();
  uint64_t start = st->steps;
  EndPath end{EndPath::Exit, ""};
  try {
    for (;;) {
      if (T->st != Thread::Run) { schedBlocked(); continue; }
      step();
      if ((++S->steps & 0xfff) == 0) {
        if (S->steps > opt.maxSteps) { end = {EndPath::Viol, "hang: more than " + std::to_string(opt.maxSteps) + " instructions on one path"}; break; }
        if (now() - t0 > opt.deadline || sh->stop) { end = {EndPath::Budget, ""}; break; }
      }
    }
  } catch (EndPath &e) { end = e; }
  sh->paths++;
  sh->steps += S->steps - start;
  uint64_t mx = sh->maxPathSteps;
  while (mx < S->steps && !sh->maxPathSteps.compare_exchange_weak(mx, S->steps)) {}
  switch (end.k) {
  case EndPath::Exit:
    sh->pathsExit++;
    if (nSamples < (uint64_t)opt.samples) {
      nSamples++;
      fprintf(outf, "{\"t\":\"path\",\"inputs\":%s,\"obs\":%s,\"steps\":%lu,\"switches\":%u}\n", inputsJson(*S->model).c_str(), obsJson(*S->model).c_str(), S->steps, S->switches);
    }
    break;
  case EndPath::Viol: violation(end.msg, *S->model); break;
  case EndPath::Assume: sh->pathsAssume++; break;
  case EndPath::Budget: sh->dropped++; break;
  case EndPath::Unsup: {
    sh->pathsUnsup++;
    std::string k = end.msg + " at " + siteOf();
    if (!unsup[k]++ && opt.verbose) fprintf(stderr, "unsupported: %s\n %s\n", k.c_str(), stackJson().c_str());
    break;
  }
  }
  delete st;
}

static void openOut() {
  std::string n = opt.out + "/w" + std::to_string(getpid()) + ".jsonl";
  outf = fopen(n.c_str(), "w");
  if (!outf) { perror(n.c_str()); _exit(72); }
}
static void finish() {
  for (auto &r : reached) fprintf(outf, "{\"t\":\"reach\",\"label\":%s,\"n\":%lu}\n", jstr(r.first).c_str(), r.second);
  for (auto &r : unsup) fprintf(outf, "{\"t\":\"unsupported\",\"what\":%s,\"n\":%lu}\n", jstr(r.first).c_str(), r.second);
  fclose(outf);
  sh->queries += solverStats.queries;
  sh->cacheHits += solverStats.cacheHits;
  sh->sat += solverStats.sat;
  sh->unsat += solverStats.unsat;
  sh->unknown += solverStats.unknown;
  sh->solverNs += (uint64_t)(solverStats.seconds * 1e9);
}
static void work() {
  std::vector<pid_t> kids;
  while (!pending.empty()) {
    if (now() - t0 > opt.deadline || sh->stop) { sh->dropped += pending.size(); break; }
    if (pending.size() >= 2 && sh->idle > 0) {
      int i = sh->idle;
      if (i > 0 && sh->idle.compare_exchange_strong(i, i - 1)) {
        fflush(outf);
        pid_t p = fork();
        if (p == 0) {
          // child: every other state
          std::vector<State *> mine;
          for (size_t k = 0; k < pending.size(); k += 2) mine.push_back(pending[k]);
          pending.swap(mine);
          kids.clear();
          seenViol.clear(); reached.clear(); unsup.clear(); solverStats = SolverStats(); nSamples = opt.samples / 2;
          openOut();
        } else if (p > 0) {
          kids.push_back(p);
          std::vector<State *> mine;
          for (size_t k = 0; k < pending.size(); k++) { if (k % 2) mine.push_back(pending[k]); else delete pending[k]; }
          pending.swap(mine);
        } else sh->idle++;
        continue;
      }
    }
    State *s = pending.back();
    pending.pop_back();
    runState(s);
  }
  finish();
  sh->idle++;
  int rcx = 0;
  for (auto k : kids) { int st = 0; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rcx = 73; }
  if (getpid() != getpgrp() || kids.size()) {}
  if (rcx) { fprintf(stderr, "engine: a worker process failed\n"); _exit(rcx); }
}

static void layoutGlobals(State *st) {
  uint64_t next = 0;
  // functions first: addresses by order
  for (auto &f : *P.m) { Func *F2 = P.fn(&f); P.gaddr[&f] = F2->addr; }
  std::vector<std::pair<const GlobalVariable *, Obj *>> gs;
  S = st;
  for (auto &g : P.m->globals()) {
    uint64_t size = g.hasInitializer() ? (uint64_t)P.dl->getTypeAllocSize(g.getValueType()) : std::max<uint64_t>(P.dl->getTypeAllocSize(g.getValueType()), 256);
    Obj *o = allocIn(st->glob, GLOB_BASE, next, size, Kind::Global);
    P.gaddr[&g] = o->base;
    gs.push_back({&g, o});
  }
  for (auto &p : gs) {
    if (p.first->hasInitializer() && p.first->getName() != "llvm.global_ctors" && p.first->getName() != "llvm.used" && p.first->getName() != "llvm.compiler.used") writeInit(p.first->getInitializer(), p.second->data);
    // type descriptions of the fundamental types live in the C++ runtime: give them their names
    if (!p.first->hasInitializer() && p.first->getName().starts_with("_ZTI")) {
      std::string nm = p.first->getName().substr(4).str();
      Obj *n = allocIn(st->glob, GLOB_BASE, next, nm.size() + 1, Kind::Global);
      memcpy(n->data, nm.c_str(), nm.size() + 1);
      n->ro = true;
      uint64_t a = n->base;
      memcpy(p.second->data + 8, &a, 8);
    }
    p.second->ro = p.first->isConstant();
  }
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (s == "--out") opt.out = val();
    else if (s == "--deadline") opt.deadline = atof(val().c_str());
    else if (s == "--max-steps") opt.maxSteps = atoll(val().c_str());
    else if (s == "--jobs") opt.jobs = atoi(val().c_str());
    else if (s == "--preempt") opt.preempt = atoi(val().c_str());
    else if (s == "--samples") opt.samples = atoi(val().c_str());
    else if (s == "--max-viol") opt.maxViol = atoi(val().c_str());
    else if (s == "--repo") opt.repo = val();
    else if (s == "--atomics") opt.atomics = true;
    else if (s == "--no-race") opt.raceCheck = false;
    else if (s == "-v") opt.verbose = true;
    else if (s == "--smt-dump") { smtDumpDir = val(); smtDumpEvery = atoi(val().c_str()); }
    else if (s == "-D") { auto v = val(); auto e = v.find('='); opt.params[v.substr(0, e)] = atoll(v.c_str() + e + 1); }
    else opt.bc = s;
  }
  t0 = now();
  // the interpreter recurses on expressions only; give it room
  LLVMContext ctx;
  SMDiagnostic err;
  auto m = parseIRFile(opt.bc, err, ctx);
  if (!m) { err.print("engine", errs()); return 74; }
  P.m = m.get();
  lowerThreadLocals(*m);
  P.dl = &m->getDataLayout();
  State *st = new State;
  try { layoutGlobals(st); } catch (std::string &e) { fprintf(stderr, "engine: %s\n", e.c_str()); return 74; }
  for (auto &f : *m)
    if (!f.isDeclaration()) {
      Func *fn = P.fn(&f);
      if (fn->builtin >= 0) continue;
      try { compileFunc(fn); } catch (std::string &e) { fn->compiled = true; fn->code.clear(); fn->blockBase = 0; if (opt.verbose) fprintf(stderr, "not encoded: %s: %s\n", fn->name.c_str(), e.c_str()); }
    }
  size_t shsz = sizeof(Shared) + P.nblocks + 64;
  sh = (Shared *)mmap(nullptr, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->idle = opt.jobs - 1;
  tiSI = gaddrByName("_ZTVN10__cxxabiv120__si_class_type_infoE") + 16;
  tiVMI = gaddrByName("_ZTVN10__cxxabiv121__vmi_class_type_infoE") + 16;
  st->model = std::make_shared<const Model>();
  st->th.emplace_back();
  S = st;
  refresh();
  T->vc.assign(1, 1);
  auto *mainf = m->getFunction("main");
  if (!mainf) { fprintf(stderr, "engine: no main\n"); return 74; }
  std::vector<Val> margs(mainf->arg_size(), Val{0, nullptr});
  openOut();
  pushFrame(P.fn(mainf), margs, 1);
  if (auto *gc = m->getNamedGlobal("llvm.global_ctors")) {
    std::vector<std::pair<uint64_t, const Function *>> v;
    auto *arr = cast<Constant>(gc->getInitializer());
    for (unsigned i = 0; i < arr->getNumOperands(); i++) {
      auto *s = cast<Constant>(arr->getOperand(i));
      v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), cast<Function>(s->getOperand(1)->stripPointerCasts())});
    }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (size_t i = v.size(); i-- > 0;) pushFrame(P.fn(v[i].second), {}, 2);
  }
  pid_t root = getpid();
  pending.push_back(st);
  work();
  if (getpid() != root) _exit(0);
  // coverage of repository code
  FILE *cf = fopen((opt.out + "/summary.json").c_str(), "w");
  std::map<std::string, std::pair<std::set<unsigned>, std::set<unsigned>>> lines; // file -> (hit, all)
  std::map<std::string, std::pair<unsigned, unsigned>> funcs; // repo functions: blocks hit / total
  for (auto *fn : P.compiledOrder) {
    if (fn->code.empty()) continue;
    std::string file;
    if (auto *sp = fn->f->getSubprogram()) file = sp->getFilename().str();
    bool isRepo = file.find(opt.repo) == 0;
    unsigned hit = 0;
    for (size_t b = 0; b < fn->blockStart.size(); b++) {
      bool h = sh->blocks[fn->blockBase + b];
      hit += h;
      size_t e = b + 1 < fn->blockStart.size() ? fn->blockStart[b + 1] : fn->code.size();
      for (size_t k = fn->blockStart[b]; k < e; k++) {
        for (const DILocation *l = fn->code[k].src->getDebugLoc().get(); l; l = l->getInlinedAt()) {
          std::string lf = l->getFilename().str();
          if (lf.find(opt.repo) != 0 || !l->getLine()) continue;
          lines[lf].second.insert(l->getLine());
          if (h) lines[lf].first.insert(l->getLine());
        }
      }
    }
    if (isRepo && hit) { auto &x = funcs[demangle(fn->name)]; x.first = hit; x.second = fn->blockStart.size(); }
  }
  fprintf(cf, "{\"paths\":%lu,\"paths_completed\":%lu,\"paths_assume\":%lu,\"paths_violating\":%lu,\"paths_unsupported\":%lu,\"dropped\":%lu,\"instructions\":%lu,\"forks\":%lu,\"symbolic_branches\":%lu,\"schedule_points\":%lu,\"undecided\":%lu,\"queries\":%lu,\"cache_hits\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"solver_s\":%.3f,\"max_path_instructions\":%lu,\"violations\":%d,\"stopped\":%d,\"wall_s\":%.2f,\n",
    sh->paths.load(), sh->pathsExit.load(), sh->pathsAssume.load(), sh->pathsViol.load(), sh->pathsUnsup.load(), sh->dropped.load(), sh->steps.load(), sh->forks.load(), sh->symBranches.load(), sh->schedPoints.load(), sh->unknownBr.load(), sh->queries.load(), sh->cacheHits.load(), sh->sat.load(), sh->unsat.load(), sh->unknown.load(), sh->solverNs.load() / 1e9, sh->maxPathSteps.load(), sh->violations.load(), sh->stop.load(), now() - t0);
  fprintf(cf, "\"files\":{");
  bool first = true;
  for (auto &l : lines) {
    if (l.second.first.empty()) continue;
    fprintf(cf, "%s%s:[%zu,%zu]", first ? "" : ",", jstr(l.first).c_str(), l.second.first.size(), l.second.second.size());
    first = false;
  }
  fprintf(cf, "},\n\"functions\":[");
  first = true;
  for (auto &f : funcs) { fprintf(cf, "%s%s", first ? "" : ",", jstr(f.first).c_str()); first = false; }
  fprintf(cf, "]}\n");
  fclose(cf);
  if (opt.verbose) { std::string c = "cat " + opt.out + "/summary.json | head -1"; if (system(c.c_str())) {} }
  return 0;
}
