#pragma once
#include "ir.h"
#include "solver.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

// ---- address space layout (concrete, deterministic)
static const uint64_t SLOT = 4096;
static const uint64_t FUNC_BASE = 0x400000ull;          // 16 bytes per function
static const uint64_t FUNC_END = 0x4000000ull;
static const uint64_t GLOB_BASE = 0x100000000ull;
static const uint64_t HEAP_BASE = 0x100000000000ull;
static const uint64_t HEAP_END = 0x200000000000ull;
static const uint64_t STACK_BASE = 0x700000000000ull;
static const uint64_t STACK_STRIDE = 0x1000000000ull;   // per thread

enum class Kind : uint8_t { Global, Stack, Malloc, New, NewArr, Exc, Lib };
const char *kindName(Kind k);

struct ShadowCell { uint32_t wclk = 0; uint8_t wtid = 0; bool watomic = false; uint32_t rclk[4] = {0, 0, 0, 0}; uint32_t raclk[4] = {0, 0, 0, 0}; };
struct Obj {
  uint32_t ref = 1;
  Kind kind;
  bool alive = true, ro = false, lib = false;
  uint64_t base, size;
  uint8_t *data;
  ExprP *sym = nullptr; // per byte, null = concrete
  std::vector<ShadowCell> *shadow = nullptr;
  const llvm::Instruction *allocSite = nullptr;
  Obj(uint64_t b, uint64_t s, Kind k) : kind(k), base(b), size(s) { data = (uint8_t *)calloc(1, s ? s : 1); }
  Obj(const Obj &o) : kind(o.kind), alive(o.alive), ro(o.ro), lib(o.lib), base(o.base), size(o.size), allocSite(o.allocSite) {
    data = (uint8_t *)malloc(size ? size : 1);
    memcpy(data, o.data, size);
    if (o.sym) { sym = (ExprP *)malloc(sizeof(ExprP) * (size ? size : 1)); memcpy(sym, o.sym, sizeof(ExprP) * size); }
    if (o.shadow) shadow = new std::vector<ShadowCell>(*o.shadow);
  }
  ~Obj() { free(data); free(sym); delete shadow; }
  void release() { free(data); data = nullptr; free(sym); sym = nullptr; delete shadow; shadow = nullptr; }
};
static inline void unref(Obj *o) { if (o && --o->ref == 0) delete o; }

struct Chunk { uint32_t ref = 1; Obj *o[64]; Chunk() { memset(o, 0, sizeof o); } };

struct VarArg { Val v; uint8_t w; bool fp; };
typedef std::vector<VarArg> VarArgs;
struct VaInfo { VarArgs named, extra; std::vector<std::pair<uint64_t, uint32_t>> dummy; };

struct Frame {
  Func *f;
  const Inst *pc;
  uint32_t base;      // first register in Thread::regs
  uint32_t stackMark; // stack slots in use on entry
  std::shared_ptr<VaInfo> va;
  uint8_t special = 0; // 1: thread entry, 2: global ctor
};
typedef std::vector<uint32_t> VC;
struct Thread {
  std::vector<Frame> frames;
  std::vector<Val> regs;
  std::vector<Obj *> stack; // stack objects by slot (null = continuation of a larger one)
  std::map<uint64_t, uint64_t> tls;
  enum { Run, BlockedMutex, BlockedJoin, Done } st = Run;
  uint64_t waitOn = 0;
  bool schedDone = false;
  ExprP choice = nullptr;
  VC vc;
  uint64_t pending = 0; // exception in flight
};
struct MutexSt { int owner = -1; int count = 0; VC vc; };

struct SymInput { std::string name; uint32_t start, len; };
struct Obs { std::string name; std::vector<std::pair<ExprP, uint64_t>> bytes; };

struct State {
  std::vector<Thread> th;
  uint32_t cur = 0;
  std::vector<Chunk *> heap;   // chunked slot table
  std::vector<Chunk *> glob;
  uint64_t heapSlots = 0, spawnSlots = 0; // spawnSlots: heap size when the first thread was created
  std::vector<ExprP> cons;
  ModelP model;
  uint32_t nvars = 0;
  std::vector<SymInput> inputs;
  std::vector<Obs> obs;
  std::map<uint64_t, MutexSt> mtx;
  std::map<uint64_t, VC> sync;
  uint64_t steps = 0;
  uint32_t forks = 0, preempt = 0, switches = 0;
  uint64_t liveHeap = 0, liveBytes = 0;
  uint32_t lastSched = 0;
  State() {}
  State(const State &);
  ~State();
};

struct Program {
  const llvm::DataLayout *dl = nullptr;
  llvm::Module *m = nullptr;
  std::unordered_map<const llvm::GlobalValue *, uint64_t> gaddr;
  std::unordered_map<const llvm::Function *, Func *> funcs;
  std::vector<Func *> byAddr;
  std::vector<Func *> compiledOrder;
  std::vector<Val> pool;
  std::unordered_map<uint64_t, int32_t> poolIdx;
  uint32_t nblocks = 0;
  Func *fn(const llvm::Function *f);
};
extern Program P;
void flat(llvm::Type *t, std::vector<Piece> &out, uint32_t off = 0);
bool constScalar(const llvm::Constant *c, uint64_t &v);
void lowerThreadLocals(llvm::Module &m);
uint64_t addrOf(const llvm::GlobalValue *g);
void writeInit(const llvm::Constant *c, uint8_t *dst);
void compileFunc(Func *F);
int builtinIndex(const std::string &name);
