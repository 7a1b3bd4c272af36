#pragma once
#include <deque>

#include "exec.h"

enum class R { Next, Jumped, End, Redo };

struct Shared;

struct StateEnd {};  // thrown to end the current path

struct Exec {
  llvm::Module* M = nullptr;
  const llvm::DataLayout* DL = nullptr;
  Opts opt;
  Solver solver;
  std::unordered_map<const llvm::Function*, Func*> funcs;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
  std::unordered_map<uint64_t, llvm::Function*> fnAt;
  Mem cmem;  // read-only globals, shared by all states
  std::deque<State*> work;
  State* S = nullptr;  // current
  Shared* sh = nullptr;
  int workerId = 0;
  double startTime = 0;
  FILE* log = nullptr;

  struct Stat {
    uint64_t paths = 0, killed = 0, infeasible = 0, unsupported = 0, steps = 0,
             forks = 0, replays = 0, unknown = 0, maxDepth = 0, stepLimit = 0,
             uninitReads = 0, schedPoints = 0;
  } stat;
  std::map<std::string, uint64_t> covers, unsup, ends;
  std::map<std::string, uint64_t> assertCount;
  uint64_t samplesLeft = 0;
  uint64_t nviol = 0;
  bool inCtors = false;

  typedef R (Exec::*HandlerFn)(FInst&, Args&, Val&);
  std::vector<HandlerFn> handlers;
  std::unordered_map<std::string, int> handlerIdx;

  // setup
  void load(const std::string& file);
  void setupGlobals(State& s);
  void writeConst(Mem& m, Obj* o, uint64_t off, const llvm::Constant* c);
  Val constVal(const llvm::Constant* c);
  Func* getFunc(llvm::Function* F);
  void translate(Func* f);
  void registerHandlers();
  int handlerFor(const std::string& n);

  // values
  Expr* ex(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
  Val val(Expr* e) {
    Val v;
    if (e->op == Op::Const && e->w <= 64) v.c = (uint64_t)e->c;
    else v.e = e;
    return v;
  }
  Val mkAgg(std::vector<Val>&& vs);
  unsigned width(llvm::Type* t);
  Val zeroOf(llvm::Type* t, bool undef);

  // path
  bool branch(Expr* cond);
  uint64_t concretize(const Val& v, unsigned w);
  void addCons(Expr* e);
  Expr* freshVar(unsigned w, bool input, const std::string& name);
  void assume(Expr* c);
  void check(Expr* c, const std::string& msg);
  [[noreturn]] void violation(const std::string& kind, const std::string& msg);
  [[noreturn]] void unsupported(const std::string& msg);
  [[noreturn]] void endPath(const std::string& why);
  void report(const std::string& kind, const std::string& msg, ModelPtr m);
  State* cloneForSibling();
  void pushSibling(State* s2);
  std::string where();
  std::string readStr(uint64_t addr);

  // memory
  Obj* objAt(uint64_t addr, uint64_t size, bool write, const char* what);
  uint64_t resolve(const Val& p, uint64_t size, bool write, const char* what);
  Val loadScalar(const Val& p, unsigned w);
  Val loadConcrete(uint64_t addr, unsigned w);
  void storeScalar(const Val& p, const Val& v, unsigned w);
  void storeConcrete(uint64_t addr, const Val& v, unsigned w);
  Val loadTyped(const Val& p, llvm::Type* t);
  void storeTyped(const Val& p, const Val& v, llvm::Type* t);
  Expr* byteAt(Obj* o, uint64_t off);
  void copyMem(uint64_t dst, uint64_t src, uint64_t n);
  void setMem(uint64_t dst, const Val& v, uint64_t n);
  uint64_t load64(uint64_t a);

  // execution
  void runState();
  void step();
  R execCall(FInst& in, llvm::Function* callee, Args& args);
  void pushFrame(Func* f, Args& args, FInst* call);
  void returnFrom(const Val& v);
  void jump(const Edge& e);
  Val binop(Op op, const Val& a, const Val& b, unsigned w);
  Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w);
  Val fcmp(unsigned pred, const Val& a, const Val& b, unsigned w);
  Val castOp(FInst& in, const Val& a, unsigned sw, unsigned w);
  R intrinsic(FInst& in, llvm::Function* f, Args& args, Val& ret);
  void finishPath();

  // exceptions
  R unwind(uint64_t hdr, uint64_t obj, uint64_t ti);
  bool tiMatch(uint64_t thrown, uint64_t caught, uint64_t& adj, bool isPtr);
  bool tiBases(uint64_t ti, uint64_t target, int64_t off, int64_t& found);
  std::string tiName(uint64_t ti);
  uint64_t typeIdFor(uint64_t ti);
  std::map<uint64_t, uint64_t> typeIds;
  uint64_t pendingSel = 0;

  // threads
  bool schedPoint();
  void doSchedule();
  uint64_t choose(uint64_t n, const char* name);
  void blockOn(TS ts, uint64_t what);
  void wakeMutex(uint64_t m);
  bool multi() const { return S->th.size() > 1; }

  // driver
  void runCtors(State& s);
  void workerLoop();
  void donate();
  double now();
  bool timeUp();
  void writeWorker();

#define H(n) R n(FInst&, Args&, Val&);
#include "handlers.inc"
#undef H
};
