// Hash-consed bit-vector expressions (width 1..128) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Not, Shl,
  LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
  // floating point on bit patterns; aux = operand kind (32/64)
  FAdd, FSub, FMul, FDiv, FNeg, FAbs, FOeq, FOlt, FOle, FUno,
  FToF, FToU, FToS, UToF, SToF,
  Agg  // aggregate, never part of another expression
};

struct Expr;
struct Val {
  Expr* e = nullptr;  // nullptr: concrete value in c (width <= 64)
  uint64_t c = 0;
};

struct VarSet {
  std::vector<uint32_t> v;
};

struct Expr {
  Op op;
  uint8_t aux = 0;
  uint16_t w = 0;
  uint32_t lo = 0;  // Extract: low bit, Var: id
  uint32_t id = 0;
  uint32_t gen = 0;      // evaluation stamp
  uint64_t sh = 0;       // structural hash, independent of creation order
  u128 c = 0;            // constant
  Expr* k[3] = {nullptr, nullptr, nullptr};
  const VarSet* vars = nullptr;
  u128 ev = 0;  // cached evaluation
  void* z = nullptr;  // cached solver term
  std::vector<Val>* agg = nullptr;
};

inline u128 maskOf(unsigned w) {
  return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}
inline uint64_t mask64(unsigned w) {
  return w >= 64 ? ~0ull : ((1ull << w) - 1);
}
inline i128 sext128(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskOf(w);
  return (i128)((v ^ s) - s);
}

struct ExprHash {
  size_t operator()(const Expr* e) const {
    uint64_t h = (uint64_t)e->op * 0x9E3779B97F4A7C15ull;
    auto mix = [&h](uint64_t x) {
      h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
      h *= 0xff51afd7ed558ccdull;
    };
    mix(e->w);
    mix(e->lo);
    mix(e->aux);
    mix((uint64_t)e->c);
    mix((uint64_t)(e->c >> 64));
    for (auto* k : e->k) mix((uint64_t)k >> 4);
    return h ^ (h >> 32);
  }
};
struct ExprEq {
  bool operator()(const Expr* a, const Expr* b) const {
    return a->op == b->op && a->w == b->w && a->lo == b->lo &&
           a->aux == b->aux && a->c == b->c && a->k[0] == b->k[0] &&
           a->k[1] == b->k[1] && a->k[2] == b->k[2];
  }
};

struct ExprPool {
  std::unordered_set<Expr*, ExprHash, ExprEq> table;
  uint32_t nextId = 1;
  size_t numNodes = 0;
  VarSet emptySet;
  std::vector<Expr*> chunk;
  size_t chunkPos = 0;
  Expr* cur = nullptr;

  Expr* alloc() {
    if (!cur || chunkPos == 1024) {
      cur = new Expr[1024];
      chunkPos = 0;
    }
    numNodes++;
    return &cur[chunkPos++];
  }

  Expr* intern(const Expr& t) {
    auto it = table.find(const_cast<Expr*>(&t));
    if (it != table.end()) return *it;
    Expr* e = alloc();
    *e = t;
    e->id = nextId++;
    e->vars = computeVars(e);
    uint64_t h = (uint64_t)e->op * 1000003 + e->w * 8191 + e->lo * 131 + e->aux;
    h ^= (uint64_t)e->c * 0x9E3779B97F4A7C15ull ^ (uint64_t)(e->c >> 64);
    for (auto* k : e->k) {
      h = (h ^ (h >> 29)) * 0xbf58476d1ce4e5b9ull;
      if (k) h += k->sh;
    }
    e->sh = h ^ (h >> 32);
    table.insert(e);
    return e;
  }
  const VarSet* computeVars(Expr* e) {
    if (e->op == Op::Const) return &emptySet;
    if (e->op == Op::Var) {
      auto* s = new VarSet;
      s->v.push_back(e->lo);
      return s;
    }
    const VarSet* r = &emptySet;
    for (auto* k : e->k) {
      if (!k) continue;
      r = unite(r, k->vars);
    }
    return r;
  }
  struct PairHash {
    size_t operator()(const std::pair<const VarSet*, const VarSet*>& p) const {
      return ((uint64_t)p.first >> 4) * 0x9E3779B97F4A7C15ull ^
             ((uint64_t)p.second >> 4);
    }
  };
  std::unordered_map<std::pair<const VarSet*, const VarSet*>, const VarSet*,
                     PairHash>
      uniteCache;
  const VarSet* unite(const VarSet* a, const VarSet* b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    auto key = std::make_pair(a, b);
    auto it = uniteCache.find(key);
    if (it != uniteCache.end()) return it->second;
    auto* s = new VarSet;
    size_t i = 0, j = 0;
    while (i < a->v.size() || j < b->v.size()) {
      if (j == b->v.size() || (i < a->v.size() && a->v[i] < b->v[j]))
        s->v.push_back(a->v[i++]);
      else if (i == a->v.size() || b->v[j] < a->v[i])
        s->v.push_back(b->v[j++]);
      else {
        s->v.push_back(a->v[i++]);
        j++;
      }
    }
    const VarSet* r = s;
    if (s->v.size() == a->v.size()) {
      delete s;
      r = a;
    } else if (s->v.size() == b->v.size()) {
      delete s;
      r = b;
    }
    uniteCache[key] = r;
    return r;
  }
};
extern ExprPool pool;

inline bool isC(const Expr* e) { return e->op == Op::Const; }

inline Expr* mkConst(u128 v, unsigned w) {
  Expr t;
  t.op = Op::Const;
  t.w = w;
  t.c = v & maskOf(w);
  return pool.intern(t);
}
inline Expr* mkVar(uint32_t id, unsigned w) {
  Expr t;
  t.op = Op::Var;
  t.w = w;
  t.lo = id;
  return pool.intern(t);
}
inline Expr* raw(Op op, unsigned w, Expr* a, Expr* b = nullptr,
                 Expr* c = nullptr, uint32_t lo = 0, uint8_t aux = 0) {
  Expr t;
  t.op = op;
  t.w = w;
  t.k[0] = a;
  t.k[1] = b;
  t.k[2] = c;
  t.lo = lo;
  t.aux = aux;
  return pool.intern(t);
}

// ---- concrete semantics -----------------------------------------------------
inline double bitsToD(u128 v) {
  uint64_t b = (uint64_t)v;
  double d;
  memcpy(&d, &b, 8);
  return d;
}
inline float bitsToF(u128 v) {
  uint32_t b = (uint32_t)v;
  float d;
  memcpy(&d, &b, 4);
  return d;
}
inline u128 dToBits(double d) {
  uint64_t b;
  memcpy(&b, &d, 8);
  return b;
}
inline u128 fToBits(float d) {
  uint32_t b;
  memcpy(&b, &d, 4);
  return b;
}

u128 foldOp(Op op, unsigned w, uint8_t aux, uint32_t lo, unsigned kw, u128 a,
            u128 b, u128 c, unsigned k1w);

Expr* mkNot(Expr* a);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkFp(Op op, unsigned w, uint8_t aux, Expr* a, Expr* b = nullptr);
inline Expr* mkAnd1(Expr* a, Expr* b) { return mkBin(Op::And, a, b); }
inline Expr* mkOr1(Expr* a, Expr* b) { return mkBin(Op::Or, a, b); }
std::string show(const Expr* e, int depth = 6);
