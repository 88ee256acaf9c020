// Compact decoded form of LLVM IR, executed symbolically by exec.cpp.
#pragma once
#include "expr.h"
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

struct Ty {
  enum K : u8 { VOID, INT, PTR, FP, VEC, STRUCT, ARR } k = VOID;
  unsigned bits = 0;         // INT / PTR(64) / FP
  Ty* el = nullptr;          // VEC / ARR
  u64 n = 0;
  std::vector<Ty*> f;        // STRUCT
  std::vector<u64> off;
  u64 size = 0, align = 1;   // alloc size
  u64 store = 0;             // store size
};

struct Val;
typedef std::vector<Val> Agg;
struct Val {
  E* e = nullptr;
  std::shared_ptr<const Agg> g;
  Val() {}
  Val(E* x) : e(x) {}
  explicit Val(Agg a) : g(std::make_shared<const Agg>(std::move(a))) {}
};

struct Operand { Val c; int reg = -1; };

enum Opc : u8 {
  I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_ICMP, I_FCMP, I_BIN, I_SELECT, I_BR, I_CONDBR, I_SWITCH, I_RET,
  I_CALL, I_INVOKE, I_LANDINGPAD, I_RESUME, I_UNREACHABLE, I_EXTRACTVALUE, I_INSERTVALUE,
  I_ZEXT, I_SEXT, I_TRUNC, I_BITCAST, I_PTRINT, I_EXTRACTELT, I_INSERTELT, I_SHUFFLE, I_FREEZE,
  I_ATOMICRMW, I_CMPXCHG, I_FENCE, I_FPCONV, I_FNEG, I_FARITH, I_NOP, I_UNSUPPORTED
};

enum Pred : u8 { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

struct Func;
struct Inst {
  Opc opc = I_NOP;
  u8 sub = 0;               // Op for BIN, Pred for ICMP, fcmp predicate (LLVM numbering), rmw op
  bool flag = false;
  int dst = -1;
  Ty* ty = nullptr;         // result / accessed type
  std::vector<Operand> op;
  u64 imm = 0;              // alignment / constant offset
  std::vector<u64> scale;   // GEP scales; insert/extractvalue indices; shuffle mask (as u64 of int)
  std::vector<u64> bound;   // GEP: array bound for index (0 = none)
  int t1 = -1, t2 = -1;
  std::vector<std::pair<u64, int>> cases;
  Func* callee = nullptr;
  std::vector<std::pair<int, Operand>> clauses;  // landingpad: kind (0 catch,1 filter), typeinfo
  u32 line = 0, file = 0;
  u8 nsw = 0;
  std::string text;         // for unsupported
};

struct Block {
  std::vector<int> preds;
  std::vector<int> phiDst;
  std::vector<std::vector<Operand>> phiIn;  // per pred
  std::vector<Inst> ins;
};

struct Exec; struct State;
typedef int (*Handler)(Exec&, State&, const Inst&, std::vector<Val>&);

struct Func {
  std::string name, nice;
  bool decl = true, decoded = false, cov = false, vararg = false;
  int nargs = 0, nregs = 0;
  std::vector<Ty*> argTy;
  std::vector<u64> byval;   // size of byval args (0 = none)
  Ty* ret = nullptr;
  std::vector<Block> bb;
  u64 addr = 0;
  Handler h = nullptr;
  bool hResolved = false;
  void* llvm = nullptr;
  std::vector<u8> hit;      // block coverage
  u64 calls = 0;
  u32 id = 0;
};

struct Global {
  std::string name;
  u64 addr = 0, size = 0, align = 1;
  bool decl = false, constant = false;
  std::vector<std::pair<u64, Val>> init;  // (offset, scalar)
  std::vector<Ty*> initTy;
  void* llvm = nullptr;
  bool initDone = false;
};

struct Module {
  std::vector<Func*> funcs;
  std::vector<Global*> globals;
  std::unordered_map<std::string, Func*> fn;
  std::unordered_map<std::string, Global*> gl;
  std::vector<std::string> files;
  std::vector<Func*> ctors;
};
// Address map: functions at FN_BASE + 16*i; small objects in 1 MiB slots; big regions in 64 GiB slots.
constexpr u64 FN_BASE = 0x10000;
constexpr u64 GL_BASE = 0x100000000ull;       // globals
constexpr u64 ST_BASE = 0x10000000000ull;     // allocas
constexpr u64 HP_BASE = 0x20000000000ull;     // heap
constexpr u64 SLOT = 1ull << 20;
constexpr u64 BIG_BASE = 0x100000000000ull;   // symbolic-size regions
constexpr u64 BIG_SLOT = 1ull << 40;

Module* loadModule(const std::string& path);
void decodeFunc(Module* m, Func* f);
void decodeGlobal(Module* m, Global* g);
std::string demangle(const std::string&);
