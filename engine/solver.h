// Satisfiability layer: independence slicing, model cache, z3.
#pragma once
#include <z3.h>

#include <memory>
#include <unordered_map>
#include <vector>

#include "expr.h"

typedef std::vector<u128> Model;  // indexed by variable id, missing = 0
typedef std::shared_ptr<const Model> ModelPtr;

enum class Sat { Yes, No, Unknown };

struct SolverStats {
  uint64_t queries = 0, cacheHits = 0, modelHits = 0, z3calls = 0, z3sat = 0,
           z3unsat = 0, unknown = 0, asserts = 0;
  double z3time = 0;
  double maxTime = 0;
};

u128 evalExpr(Expr* e, const Model& m, uint32_t gen);
uint32_t newEvalGen();
inline u128 evalIn(Expr* e, const Model& m) {
  return evalExpr(e, m, newEvalGen());
}

struct Solver {
  SolverStats st;
  unsigned timeoutMs = 20000;
  Z3_context ctx = nullptr;
  Z3_solver sBV = nullptr, sAll = nullptr, sInt = nullptr;
  void init();
  // Is constraints && cond satisfiable?  base: a model of constraints.
  Sat check(const std::vector<Expr*>& constraints, Expr* cond,
            const ModelPtr& base, ModelPtr* out);

 private:
  // the same query over the integers, for queries that only compare and count
  struct IntTerm {
    Z3_ast z = nullptr;
    u128 max = 0;
  };
  IntTerm intTerm(Expr* e);
  Z3_ast intBool(Expr* e);
  std::unordered_map<Expr*, IntTerm> intTerms;
  std::unordered_map<Expr*, Z3_ast> intBools;
  Z3_ast term(Expr* e);
  bool hasFp(Expr* e);
  Z3_ast toBool(Expr* e);
  Z3_ast fp(Expr* e, unsigned kind);
  Z3_ast fromBool(Z3_ast b);
  std::unordered_map<uint64_t, std::vector<std::pair<std::vector<Expr*>, std::pair<Sat, ModelPtr>>>> cache;
  std::vector<ModelPtr> recent;
  std::unordered_map<Expr*, bool> fpCache;
  size_t recentPos = 0;
};
