#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

#include "expr.h"
#include "solver.h"

#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"

// ---------------------------------------------------------------- memory ----
struct Obj {
  uint32_t rc = 0;
  uint8_t kind = 0;  // 0 heap, 1 stack, 2 global
  bool readonly = false;
  uint64_t base = 0, size = 0;
  uint8_t* data = nullptr;
  Expr** sym = nullptr;      // nullptr: no symbolic byte
  uint64_t* ib = nullptr;    // initialised bytes, nullptr: all initialised
  Obj(uint64_t b, uint64_t n, uint8_t k, bool uninit);
  Obj(const Obj& o);
  ~Obj();
  void ensureSym();
  bool isInit(uint64_t i) const {
    return !ib || ((ib[i >> 6] >> (i & 63)) & 1);
  }
  void setInit(uint64_t i) {
    if (ib) ib[i >> 6] |= 1ull << (i & 63);
  }
  void clearInit(uint64_t i);
};
struct ObjRef {
  Obj* p = nullptr;
  ObjRef() {}
  ObjRef(Obj* o) : p(o) { if (p) p->rc++; }
  ObjRef(const ObjRef& o) : p(o.p) { if (p) p->rc++; }
  ObjRef(ObjRef&& o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef& operator=(ObjRef o) noexcept { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->rc == 0) delete p; }
};
struct Mem {
  std::vector<std::pair<uint64_t, ObjRef>> objs;  // sorted by base
  size_t dead = 0;
  uint64_t next = 0x100000000ull;
  size_t lastHit = 0;
  Obj* find(uint64_t addr);            // object containing addr, or null
  Obj* findW(uint64_t addr);           // same, made writable (unshared)
  uint64_t alloc(uint64_t size, uint8_t kind, bool uninit, uint64_t align = 16);
  bool release(uint64_t base);
};

// ------------------------------------------------------------- functions ----
enum class K : uint8_t {
  Bin, FBin, FNeg, ICmp, FCmp, Trunc, ZExt, SExt, FPExt, FPTrunc, FPToUI,
  FPToSI, UIToFP, SIToFP, Bitcast, Load, Store, Gep, Alloca, Br, CBr, Switch,
  Ret, Call, Invoke, Select, ExtractVal, InsertVal, LandingPad, Resume,
  Unreachable, CmpXchg, AtomicRMW, Fence, Freeze, ExtElt, InsElt, Shuffle
};
struct Edge {
  uint32_t pc = 0;
  std::vector<std::pair<int, int>> copies;
};
struct GepTerm {
  int ref;
  uint64_t scale;
  uint8_t w;
};
struct Func;
typedef std::vector<Val> Args;
struct FInst {
  K k;
  uint8_t sub = 0;   // Op / predicate / rmw op
  uint16_t w = 0;    // result width (scalars)
  uint16_t sw = 0;   // source operand width
  int dst = -1;
  int a = -1, b = -1, c = -1;
  uint64_t imm = 0;
  std::vector<int> ops;
  std::vector<GepTerm> gep;
  std::vector<Edge> edges;
  std::vector<std::pair<uint64_t, int>> cases;
  llvm::Type* ty = nullptr;
  llvm::Function* callee = nullptr;
  Func* fcallee = nullptr;
  int handler = -2;  // -2 unresolved, -1 none
  bool vec = false;
  std::vector<unsigned> idx;
  const llvm::Instruction* I = nullptr;
};
struct Func {
  llvm::Function* F = nullptr;
  std::string name;
  std::vector<FInst> code;
  std::vector<Val> consts;
  int nregs = 0;
  int nargs = 0;
  bool vararg = false;
  uint64_t execs = 0;
};

// ---------------------------------------------------------------- states ----
struct Frame {
  Func* f = nullptr;
  uint32_t pc = 0;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  uint64_t varargs = 0;
};
enum class TS : uint8_t { Run, BlockMutex, BlockCond, BlockJoin, BlockFutex, Done };
struct Thread {
  std::vector<Frame> st;
  TS ts = TS::Run;
  uint64_t waitOn = 0;
  bool signaled = false;
  bool granted = false;
  std::map<const llvm::GlobalVariable*, uint64_t> tls;
  uint64_t retval = 0;
};
struct State {
  std::vector<Thread> th;
  int cur = 0;
  Mem mem;
  std::vector<Expr*> cons;
  ModelPtr model;
  std::vector<uint64_t> dec;
  size_t cursor = 0;
  size_t instDec = 0, instCons = 0, instInputs = 0;
  uint32_t instVars = 0;
  uint32_t nvars = 0;
  std::vector<Expr*> inputs;
  std::vector<std::string> inputNames;
  std::vector<Val> observed;
  std::vector<char> fixed;  // variables determined by an equality
  uint64_t steps = 0;
  uint32_t forks = 0;
  int preempts = 0;
  bool needSched = false;
  bool donated = false;
  bool allocFailArmed = false;
  std::map<uint64_t, int> mutexOwner;  // address -> thread+1
  std::map<uint64_t, uint64_t> extra;
  std::vector<uint32_t> schedTrace;
};

struct Opts {
  std::string entry = "harness";
  std::string out;
  int workers = 1;
  double maxTime = 60;
  uint64_t maxSteps = 200000000;
  uint64_t hang = 0;  // report a path with more steps as a violation
  unsigned solverMs = 20000;
  int maxPreempt = 2;
  bool delays = false;
  int samples = 4;
  bool stopFirst = true;
  bool verbose = false;
  bool leakCheck = false;
  bool atomicSched = false;
  bool forkSelect = false;
  uint64_t memMB = 2500;
  std::map<std::string, uint64_t> params;
};
