// Pre-compiled form of the LLVM IR: every scalar SSA value gets a register
// slot, every constant a pool index, so the interpreter never touches LLVM.
#pragma once
#include "expr.h"
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Module.h>
#include <map>
#include <vector>

struct Val { uint64_t c; ExprP e; };

enum class I : uint8_t {
  Bin, ICmp, FBin, FCmp, Load, Store, Gep, Alloca, Br, CondBr, Switch, Ret, Call, Select, ZExt, SExt, Trunc,
  FPExt, FPTrunc, SIToFP, UIToFP, FPToSI, FPToUI, FNeg, Move, LandingPad, Resume, Unreachable, AtomicRMW, CmpXchg, Fence, Nop
};

struct Piece { int32_t slot; uint32_t off; uint8_t w; }; // flattened scalar: slot/operand, byte offset, bit width
struct Func;
struct Inst;
struct Edge { int32_t target; uint32_t block; std::vector<std::pair<int32_t, int32_t>> moves; };
struct GepIdx { int32_t op; uint8_t w; int64_t scale; };
struct Aux {
  std::vector<Piece> pieces;      // load/store/ret/move/select
  std::vector<Edge> edges;        // br, switch, invoke(normal, unwind)
  std::vector<uint64_t> cases;    // switch
  std::vector<GepIdx> idx;        // gep
  std::vector<int32_t> args;      // call: flattened args
  std::vector<uint8_t> argw;      // widths
  std::vector<uint8_t> argfp;     // is floating point
  std::vector<uint32_t> argbyval; // byval size (0 = none)
  std::vector<uint32_t> argn;     // number of flattened slots per llvm argument
  std::vector<uint64_t> catches;  // landingpad catch clauses (type info addresses, 0 = all)
  std::vector<int32_t> srcs;      // move/select sources
  std::vector<int32_t> srcs2;
  bool cleanup = false, invoke = false;
  const llvm::CallBase *cb = nullptr;
};
struct Inst {
  I op;
  uint8_t sub;     // binop / predicate
  uint8_t w;       // width of operands / result
  uint8_t w2;
  uint32_t block;
  int32_t dst, a, b, c;
  Aux *aux;
  Func *callee;    // direct callee
  uint64_t imm;
  const llvm::Instruction *src;
};
struct Func {
  const llvm::Function *f = nullptr;
  std::string name;
  uint64_t addr = 0;
  int builtin = -1;          // engine-implemented function
  int intr = -1;             // llvm intrinsic id
  bool compiled = false, defined = false, vararg = false;
  uint32_t nslots = 0, nargs = 0; // nargs: flattened
  std::vector<uint8_t> argw;
  std::vector<uint32_t> argbyval;
  std::vector<uint8_t> argfp;
  std::vector<uint32_t> argn;
  std::vector<Inst> code;
  std::vector<uint32_t> blockStart;
  std::vector<uint8_t> retw;
  uint32_t blockBase = 0;    // first global block id
};
