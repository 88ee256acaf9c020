#pragma once
#include "ir.h"
#include "solver.h"
#include <atomic>
#include <set>

struct Cell { u32 id = 0; u8 idx = 0; u8 n = 0; };   // byte idx of an n-byte term; id 0 = uninitialised
enum ObjKind : u8 { O_GLOBAL, O_STACK, O_HEAP, O_BIG };
struct BigWrite { E* off; E* val; u32 n; };
struct Lazy { u64 off, len, fn, arg; };               // contents supplied by fn(arg) on first access
struct Obj {
  u64 base = 0, size = 0, align = 16;
  bool alive = true, ro = false, frozen = false, poisoned = false, ghostBorn = false;
  ObjKind kind = O_HEAP;
  u8 how = 0;             // 0 plain new, 1 aligned new, 2 array new, 3 malloc, 4 region
  E* symSize = nullptr;
  std::vector<Cell> cells;
  std::vector<BigWrite> big;
  std::vector<Lazy> lz;
  u64 tag = 0;
};
typedef std::shared_ptr<Obj> ObjP;

struct Frame {
  Func* f = nullptr;
  int bb = 0, ip = 0;
  std::vector<Val> regs;
  size_t stkBase = 0;
  bool ctor = false, ghost = false;
};

struct Input { const char* name; E* v; u64 val; u8 w; };

struct State {
  std::vector<Frame> st;
  std::vector<ObjP> gl, stk, heap, bigs;
  std::shared_ptr<PCData> pc;
  std::shared_ptr<std::vector<u64>> model;   // satisfies pc when modelOk
  bool modelOk = true;
  std::shared_ptr<std::vector<u8>> widths;
  std::shared_ptr<std::vector<Input>> inputs;
  std::shared_ptr<std::unordered_map<Func*, Func*>> redir;
  Func* realNext = nullptr;
  u64 steps = 0;
  u64 excObj = 0, excTI = 0;
  Val excVal;
  std::vector<std::pair<u64, u64>> excs;     // exception object -> typeinfo
  std::vector<u64> caught;
  int64_t allocCountdown = -1;               // -1: never fail
  u64 allocs = 0, liveHeap = 0;
  u64 ghost[16] = {0};
  u64 ghostDepth = 0;                        // >0: specification code (not counted, not framed)
  State() : pc(std::make_shared<PCData>()), model(std::make_shared<std::vector<u64>>()), widths(std::make_shared<std::vector<u8>>()), inputs(std::make_shared<std::vector<Input>>()) {}
};

struct ForkReq { E* cond; };
struct LazyReq { u64 addr; size_t idx; };
struct PathEnd {};

struct Shared {
  std::atomic<int> active, stop;
  std::atomic<u64> nviol, nerr;
  std::atomic<double> violAt;                // time of the first violation, 0: none
  std::atomic<u64> seen[4096];
};

enum HRes { H_RET, H_THROW, H_DONE };
struct Exec {
  Module* M = nullptr;
  Solver sol;
  Shared* sh = nullptr;
  std::string out;
  int maxJobs = 1;
  int procs = 0;
  u64 maxSteps = 20000000;
  double deadline = 0, grace = 12;           // grace: exploration continues this long after the first violation
  bool overtime();
  std::vector<std::unique_ptr<State>> work;
  std::vector<int> kids;
  Val rv;
  // statistics
  u64 paths = 0, killed = 0, instrs = 0, forks = 0;
  u64 obFold = 0, obGraph = 0, obZ3 = 0, obFail = 0, obImplicit = 0;
  std::map<std::string, u64> labels, covers, errors, missing;
  int violPerLabel = 1;
  bool trace = false;

  void run(const std::string& entry);
  void initState(State& s);
  bool step(State& s);
  void exploreOne(std::unique_ptr<State> s);
  void maybeSplit();
  void finish();
  // terms
  E* freshVar(State& s, unsigned w, const char* name, bool input);
  int decide(State& s, E* c);               // 1/0, else throws ForkReq
  E* concretize(State& s, E* e);
  void addPC(State& s, E* c);
  bool feasible(State& s, E* c);            // PC && c satisfiable
  u64 modelEval(State& s, E* e);
  void obligation(State& s, E* c, const char* kind, const std::string& label);
  void implicitOb(State& s, E* c, const char* kind, const std::string& what);
  [[noreturn]] void violate(State& s, const char* kind, const std::string& what);
  void record(State& s, const char* kind, const std::string& what, E* extra);
  [[noreturn]] void unsupported(State& s, const std::string& what);
  // memory
  ObjP* find(State& s, u64 addr);
  Obj& wr(ObjP& p) { if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p; }
  struct Loc { ObjP* o; u64 off; E* soff; };
  Loc resolve(State& s, E* addr, u64 size, bool write, u64 align);
  Loc resolveRange(State& s, E* addr, E* size, bool write);
  Val load(State& s, E* addr, Ty* t, u64 align);
  void store(State& s, E* addr, const Val& v, Ty* t, u64 align);
  E* loadBits(State& s, E* addr, unsigned bits, u64 align);
  void storeBits(State& s, E* addr, E* v, u64 align);
  E* loadAt(State& s, Loc l, u64 n, unsigned bits);
  void storeAt(State& s, Loc l, E* v);
  u64 newObj(State& s, u64 size, u64 align, ObjKind k, u8 how);
  u64 newBig(State& s, E* size, u64 align);
  void freeObj(State& s, u64 addr, const char* what, int how, E* size, E* align);
  void copyMem(State& s, E* d, E* sr, E* n, bool mv);
  void setMem(State& s, E* d, E* v, E* n);
  std::string cstr(State& s, E* p);
  // control
  void jump(State& s, int bb);
  void pushFrame(State& s, Func* f, std::vector<Val>& args);
  void doReturn(State& s, Val v);
  void doThrow(State& s);
  bool tiMatch(State& s, u64 thrown, u64 clause);
  void throwNamed(State& s, const std::string& tiName);
  std::string where(State& s);
  Handler lookup(Func* f);
};
