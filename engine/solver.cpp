#include "solver.h"

#include <algorithm>
#include <chrono>

static uint32_t gGen = 0;
uint32_t newEvalGen() { return ++gGen; }

u128 evalExpr(Expr* e, const Model& m, uint32_t gen) {
  if (e->op == Op::Const) return e->c;
  if (e->op == Op::Var)
    return (e->lo < m.size() ? m[e->lo] : 0) & maskOf(e->w);
  if (e->gen == gen) return e->ev;
  u128 r;
  if (e->op == Op::Ite) {
    r = evalExpr(e->k[0], m, gen) ? evalExpr(e->k[1], m, gen)
                                  : evalExpr(e->k[2], m, gen);
  } else {
    u128 a = evalExpr(e->k[0], m, gen);
    u128 b = e->k[1] ? evalExpr(e->k[1], m, gen) : 0;
    r = foldOp(e->op, e->w, e->aux, e->lo, e->k[0]->w, a, b, 0,
               e->k[1] ? e->k[1]->w : 0);
  }
  e->gen = gen;
  e->ev = r;
  return r;
}

static void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
}

void Solver::init() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  auto mk = [&](const char* logic) {
    Z3_solver s =
        logic ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic))
              : Z3_mk_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    return s;
  };
  sBV = mk("QF_BV");
  sAll = mk(nullptr);
  sInt = mk(getenv("SYMX_INT") ? getenv("SYMX_INT") : "QF_LIA");
  recent.resize(24);
}

Z3_ast Solver::toBool(Expr* e) {
  // boolean-valued term for 1-bit expression
  switch (e->op) {
    case Op::Const: return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    case Op::Eq: {
      if (e->k[0]->w == 1)
        return Z3_mk_iff(ctx, toBool(e->k[0]), toBool(e->k[1]));
      return Z3_mk_eq(ctx, term(e->k[0]), term(e->k[1]));
    }
    case Op::Ult: return Z3_mk_bvult(ctx, term(e->k[0]), term(e->k[1]));
    case Op::Ule: return Z3_mk_bvule(ctx, term(e->k[0]), term(e->k[1]));
    case Op::Slt: return Z3_mk_bvslt(ctx, term(e->k[0]), term(e->k[1]));
    case Op::Sle: return Z3_mk_bvsle(ctx, term(e->k[0]), term(e->k[1]));
    case Op::Not: return Z3_mk_not(ctx, toBool(e->k[0]));
    case Op::And: {
      Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])};
      return Z3_mk_and(ctx, 2, a);
    }
    case Op::Or: {
      Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])};
      return Z3_mk_or(ctx, 2, a);
    }
    case Op::Xor: return Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1]));
    case Op::Ite:
      return Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2]));
    case Op::FOeq:
      return Z3_mk_fpa_eq(ctx, fp(e->k[0], e->aux), fp(e->k[1], e->aux));
    case Op::FOlt:
      return Z3_mk_fpa_lt(ctx, fp(e->k[0], e->aux), fp(e->k[1], e->aux));
    case Op::FOle:
      return Z3_mk_fpa_leq(ctx, fp(e->k[0], e->aux), fp(e->k[1], e->aux));
    case Op::FUno: {
      Z3_ast a[2] = {Z3_mk_fpa_is_nan(ctx, fp(e->k[0], e->aux)),
                     Z3_mk_fpa_is_nan(ctx, fp(e->k[1], e->aux))};
      return Z3_mk_or(ctx, 2, a);
    }
    default: {
      Z3_sort s = Z3_mk_bv_sort(ctx, 1);
      return Z3_mk_eq(ctx, term(e), Z3_mk_unsigned_int64(ctx, 1, s));
    }
  }
}

Z3_ast Solver::fromBool(Z3_ast b) {
  Z3_sort s = Z3_mk_bv_sort(ctx, 1);
  return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s),
                   Z3_mk_unsigned_int64(ctx, 0, s));
}

static Z3_sort fsort(Z3_context c, unsigned k) {
  return k == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c);
}
Z3_ast Solver::fp(Expr* e, unsigned kind) {
  return Z3_mk_fpa_to_fp_bv(ctx, term(e), fsort(ctx, kind));
}

Z3_ast Solver::term(Expr* e) {
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r = nullptr;
  auto A = [&](int i) { return term(e->k[i]); };
  switch (e->op) {
    case Op::Const: {
      if (e->w <= 64) {
        r = Z3_mk_unsigned_int64(ctx, (uint64_t)e->c, Z3_mk_bv_sort(ctx, e->w));
      } else {
        Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(e->c >> 64),
                                         Z3_mk_bv_sort(ctx, e->w - 64));
        Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)e->c,
                                         Z3_mk_bv_sort(ctx, 64));
        r = Z3_mk_concat(ctx, hi, lo);
      }
      break;
    }
    case Op::Var: {
      std::string n = "v" + std::to_string(e->lo) + "_" + std::to_string(e->w);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()),
                      Z3_mk_bv_sort(ctx, e->w));
      break;
    }
    case Op::Add: r = Z3_mk_bvadd(ctx, A(0), A(1)); break;
    case Op::Sub: r = Z3_mk_bvsub(ctx, A(0), A(1)); break;
    case Op::Mul: r = Z3_mk_bvmul(ctx, A(0), A(1)); break;
    case Op::UDiv: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break;
    case Op::URem: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
    case Op::SRem: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break;
    case Op::And:
      r = e->w == 1 ? fromBool(toBool(e)) : Z3_mk_bvand(ctx, A(0), A(1));
      break;
    case Op::Or:
      r = e->w == 1 ? fromBool(toBool(e)) : Z3_mk_bvor(ctx, A(0), A(1));
      break;
    case Op::Xor: r = Z3_mk_bvxor(ctx, A(0), A(1)); break;
    case Op::Not: r = Z3_mk_bvnot(ctx, A(0)); break;
    case Op::Shl: r = Z3_mk_bvshl(ctx, A(0), A(1)); break;
    case Op::LShr: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break;
    case Op::AShr: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
    case Op::Eq:
    case Op::Ult:
    case Op::Ule:
    case Op::Slt:
    case Op::Sle:
    case Op::FOeq:
    case Op::FOlt:
    case Op::FOle:
    case Op::FUno: r = fromBool(toBool(e)); break;
    case Op::Ite: r = Z3_mk_ite(ctx, toBool(e->k[0]), A(1), A(2)); break;
    case Op::Concat: r = Z3_mk_concat(ctx, A(0), A(1)); break;
    case Op::Extract:
      r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, A(0));
      break;
    case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, A(0)); break;
    case Op::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, A(0)); break;
    case Op::FAdd:
    case Op::FSub:
    case Op::FMul:
    case Op::FDiv: {
      Z3_ast rm = Z3_mk_fpa_rne(ctx);
      Z3_ast a = fp(e->k[0], e->aux), b = fp(e->k[1], e->aux), x;
      if (e->op == Op::FAdd) x = Z3_mk_fpa_add(ctx, rm, a, b);
      else if (e->op == Op::FSub) x = Z3_mk_fpa_sub(ctx, rm, a, b);
      else if (e->op == Op::FMul) x = Z3_mk_fpa_mul(ctx, rm, a, b);
      else x = Z3_mk_fpa_div(ctx, rm, a, b);
      r = Z3_mk_fpa_to_ieee_bv(ctx, x);
      break;
    }
    case Op::FNeg: {
      u128 sgn = (u128)1 << (e->w - 1);
      r = Z3_mk_bvxor(ctx, A(0), term(mkConst(sgn, e->w)));
      break;
    }
    case Op::FAbs: {
      u128 msk = maskOf(e->w) >> 1;
      r = Z3_mk_bvand(ctx, A(0), term(mkConst(msk, e->w)));
      break;
    }
    case Op::FToF:
      r = Z3_mk_fpa_to_ieee_bv(
          ctx, Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx),
                                     fp(e->k[0], e->aux), fsort(ctx, e->w)));
      break;
    case Op::FToU:
      r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->k[0], e->aux), e->w);
      break;
    case Op::FToS:
      r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->k[0], e->aux), e->w);
      break;
    case Op::UToF:
      r = Z3_mk_fpa_to_ieee_bv(
          ctx, Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), A(0),
                                        fsort(ctx, e->w)));
      break;
    case Op::SToF:
      r = Z3_mk_fpa_to_ieee_bv(
          ctx, Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), A(0),
                                      fsort(ctx, e->w)));
      break;
    default: fprintf(stderr, "term: bad op\n"); abort();
  }
  Z3_inc_ref(ctx, r);
  e->z = r;
  return r;
}

bool Solver::hasFp(Expr* e) {
  if (e->op == Op::Const || e->op == Op::Var) return false;
  if (e->op >= Op::FAdd && e->op <= Op::SToF) return true;
  auto it = fpCache.find(e);
  if (it != fpCache.end()) return it->second;
  bool r = false;
  for (auto* k : e->k)
    if (k && hasFp(k)) {
      r = true;
      break;
    }
  fpCache[e] = r;
  return r;
}

// Unsigned values as integers.  Only terms that provably do not wrap around
// are translated; a null result sends the query to the bit-vector solver.
Solver::IntTerm Solver::intTerm(Expr* e) {
  auto it = intTerms.find(e);
  if (it != intTerms.end()) return it->second;
  IntTerm r;
  Z3_sort is = Z3_mk_int_sort(ctx);
  auto num = [&](u128 v) {
    char b[48];
    int p = 47;
    b[p] = 0;
    do {
      b[--p] = (char)('0' + (int)(v % 10));
      v /= 10;
    } while (v);
    return Z3_mk_numeral(ctx, b + p, is);
  };
  switch (e->op) {
    case Op::Const:
      r.z = num(e->c);
      r.max = e->c;
      break;
    case Op::Var: {
      if (e->w > 64) break;
      char nm[32];
      snprintf(nm, sizeof nm, "v%u_%ui", e->lo, (unsigned)e->w);
      r.z = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), is);
      r.max = maskOf(e->w);
      break;
    }
    case Op::ZExt:
      if (e->k[0]->w == 1) {
        Z3_ast b = intBool(e->k[0]);
        if (b) {
          r.z = Z3_mk_ite(ctx, b, num(1), num(0));
          r.max = 1;
        }
      } else
        r = intTerm(e->k[0]);
      break;
    case Op::Add: {
      IntTerm a = intTerm(e->k[0]);
      if (!a.z) break;
      IntTerm b = intTerm(e->k[1]);
      if (!b.z || a.max > maskOf(e->w) - b.max) break;
      Z3_ast t[2] = {a.z, b.z};
      r.z = Z3_mk_add(ctx, 2, t);
      r.max = a.max + b.max;
      break;
    }
    case Op::Mul: {
      int ci = e->k[0]->op == Op::Const ? 0 : e->k[1]->op == Op::Const ? 1 : -1;
      if (ci < 0) break;
      IntTerm a = intTerm(e->k[1 - ci]);
      u128 f = e->k[ci]->c;
      if (!a.z || f == 0 || a.max > maskOf(e->w) / f) break;
      Z3_ast t[2] = {a.z, num(f)};
      r.z = Z3_mk_mul(ctx, 2, t);
      r.max = a.max * f;
      break;
    }
    case Op::Concat: {
      // k[0] high part, k[1] low part
      IntTerm a = intTerm(e->k[0]), b = intTerm(e->k[1]);
      if (!a.z || !b.z || e->w > 64) break;
      Z3_ast t[2] = {a.z, num((u128)1 << e->k[1]->w)};
      Z3_ast u[2] = {Z3_mk_mul(ctx, 2, t), b.z};
      if (e->k[0]->op == Op::Const && e->k[0]->c == 0) r.z = b.z;
      else if (e->k[1]->op == Op::Const) {
        if (e->k[1]->c == 0) r.z = u[0];
        else r.z = Z3_mk_add(ctx, 2, u);
      } else break;
      r.max = (a.max << e->k[1]->w) + b.max;
      break;
    }
    case Op::Extract: {
      if (e->lo || e->w == 1) break;
      IntTerm a = intTerm(e->k[0]);
      if (a.z && a.max <= maskOf(e->w)) r = a;
      break;
    }
    case Op::Ite: {
      if (e->w == 1) break;
      Z3_ast c = intBool(e->k[0]);
      if (!c) break;
      IntTerm a = intTerm(e->k[1]), b = intTerm(e->k[2]);
      if (!a.z || !b.z) break;
      r.z = Z3_mk_ite(ctx, c, a.z, b.z);
      r.max = a.max > b.max ? a.max : b.max;
      break;
    }
    default: break;
  }
  if (r.z) Z3_inc_ref(ctx, r.z);
  intTerms[e] = r;
  return r;
}
Z3_ast Solver::intBool(Expr* e) {
  auto it = intBools.find(e);
  if (it != intBools.end()) return it->second;
  Z3_ast r = nullptr;
  switch (e->op) {
    case Op::Const: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case Op::Eq:
    case Op::Ult:
    case Op::Ule: {
      if (e->k[0]->w == 1) {
        if (e->op != Op::Eq) break;
        Z3_ast a = intBool(e->k[0]), b = a ? intBool(e->k[1]) : nullptr;
        if (b) r = Z3_mk_iff(ctx, a, b);
        break;
      }
      IntTerm a = intTerm(e->k[0]);
      if (!a.z) break;
      IntTerm b = intTerm(e->k[1]);
      if (!b.z) break;
      r = e->op == Op::Eq ? Z3_mk_eq(ctx, a.z, b.z)
                          : e->op == Op::Ult ? Z3_mk_lt(ctx, a.z, b.z) : Z3_mk_le(ctx, a.z, b.z);
      break;
    }
    case Op::Not: {
      Z3_ast a = intBool(e->k[0]);
      if (a) r = Z3_mk_not(ctx, a);
      break;
    }
    case Op::And:
    case Op::Or:
    case Op::Xor: {
      Z3_ast a[2] = {intBool(e->k[0]), nullptr};
      if (!a[0]) break;
      a[1] = intBool(e->k[1]);
      if (!a[1]) break;
      r = e->op == Op::And ? Z3_mk_and(ctx, 2, a) : e->op == Op::Or ? Z3_mk_or(ctx, 2, a) : Z3_mk_xor(ctx, a[0], a[1]);
      break;
    }
    case Op::Ite: {
      Z3_ast a = intBool(e->k[0]), b = a ? intBool(e->k[1]) : nullptr, c = b ? intBool(e->k[2]) : nullptr;
      if (c) r = Z3_mk_ite(ctx, a, b, c);
      break;
    }
    default: break;
  }
  if (r) Z3_inc_ref(ctx, r);
  intBools[e] = r;
  return r;
}

Sat Solver::check(const std::vector<Expr*>& constraints, Expr* cond,
                  const ModelPtr& base, ModelPtr* out) {
  st.queries++;
  if (isC(cond)) {
    if (!cond->c) return Sat::No;
    if (out) *out = base;
    return Sat::Yes;
  }
  if (base && evalIn(cond, *base)) {
    st.modelHits++;
    if (out) *out = base;
    return Sat::Yes;
  }
  // slice: constraints sharing variables (transitively) with cond
  std::vector<Expr*> sl;
  const VarSet* vs = cond->vars;
  {
    std::vector<char> used(constraints.size(), 0);
    bool change = true;
    auto inter = [](const VarSet* a, const VarSet* b) {
      size_t i = 0, j = 0;
      while (i < a->v.size() && j < b->v.size()) {
        if (a->v[i] == b->v[j]) return true;
        if (a->v[i] < b->v[j]) i++;
        else j++;
      }
      return false;
    };
    while (change) {
      change = false;
      for (size_t i = 0; i < constraints.size(); i++) {
        if (used[i] || !inter(vs, constraints[i]->vars)) continue;
        used[i] = 1;
        change = true;
        vs = pool.unite(vs, constraints[i]->vars);
      }
    }
    for (size_t i = 0; i < constraints.size(); i++)
      if (used[i]) sl.push_back(constraints[i]);
  }
  std::vector<Expr*> key = sl;
  key.push_back(cond);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  uint64_t h = 1469598103934665603ull;
  for (auto* e : key) h = (h ^ e->id) * 1099511628211ull;
  auto merge = [&](const Model& from) {
    auto m = std::make_shared<Model>();
    if (base) *m = *base;
    for (auto v : vs->v) {
      if (v >= m->size()) m->resize(v + 1, 0);
      (*m)[v] = v < from.size() ? from[v] : 0;
    }
    return ModelPtr(m);
  };
  auto& bucket = cache[h];
  for (auto& ent : bucket) {
    if (ent.first == key) {
      st.cacheHits++;
      if (ent.second.first == Sat::Yes && out) *out = merge(*ent.second.second);
      return ent.second.first;
    }
  }
  // recent models
  for (auto& m : recent) {
    if (!m) continue;
    uint32_t g = newEvalGen();
    bool ok = evalExpr(cond, *m, g) != 0;
    for (size_t i = 0; ok && i < sl.size(); i++)
      ok = evalExpr(sl[i], *m, g) != 0;
    if (ok) {
      st.modelHits++;
      bucket.push_back({key, {Sat::Yes, m}});
      if (out) *out = merge(*m);
      return Sat::Yes;
    }
  }
  bool f = hasFp(cond);
  for (auto* c : sl) f = f || hasFp(c);
  Z3_solver s = f ? sAll : sBV;
  auto t0 = std::chrono::steady_clock::now();
  Z3_lbool r = Z3_L_UNDEF;
  bool asInt = !f && intBool(cond);
  for (size_t i = 0; asInt && i < sl.size(); i++) asInt = intBool(sl[i]) != nullptr;
  if (asInt) {
    Z3_solver_reset(ctx, sInt);
    std::unordered_set<Expr*> seen;
    std::vector<Expr*> todo = sl;
    todo.push_back(cond);
    Z3_ast zero = intTerm(mkConst(0, 64)).z;
    while (!todo.empty()) {
      Expr* e = todo.back();
      todo.pop_back();
      if (!seen.insert(e).second) continue;
      if (e->op == Op::Var) {
        Z3_ast t = intTerm(e).z;
        Z3_solver_assert(ctx, sInt, Z3_mk_le(ctx, zero, t));
        Z3_solver_assert(ctx, sInt, Z3_mk_le(ctx, t, intTerm(mkConst(maskOf(e->w), e->w)).z));
      }
      for (auto* k : e->k)
        if (k) todo.push_back(k);
    }
    for (auto* c : sl) Z3_solver_assert(ctx, sInt, intBool(c));
    Z3_solver_assert(ctx, sInt, intBool(cond));
    r = Z3_solver_check(ctx, sInt);
    if (r != Z3_L_UNDEF) s = sInt;
  }
  if (r == Z3_L_UNDEF) {
    Z3_solver_reset(ctx, s);
    for (auto* c : sl) Z3_solver_assert(ctx, s, toBool(c));
    Z3_solver_assert(ctx, s, toBool(cond));
    r = Z3_solver_check(ctx, s);
  }
  st.z3calls++;
  Sat res = r == Z3_L_TRUE ? Sat::Yes : r == Z3_L_FALSE ? Sat::No : Sat::Unknown;
  ModelPtr mp;
  if (res == Sat::Yes) {
    st.z3sat++;
    Z3_model zm = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, zm);
    auto m = std::make_shared<Model>();
    unsigned n = Z3_model_get_num_consts(ctx, zm);
    for (unsigned i = 0; i < n; i++) {
      Z3_func_decl d = Z3_model_get_const_decl(ctx, zm, i);
      std::string nm =
          Z3_get_symbol_string(ctx, Z3_get_decl_name(ctx, d));
      if (nm.empty() || nm[0] != 'v') continue;
      size_t us = nm.find('_');
      if (us == std::string::npos) continue;
      uint32_t id = (uint32_t)atol(nm.c_str() + 1);
      Z3_ast v = Z3_model_get_const_interp(ctx, zm, d);
      if (!v) continue;
      u128 val = 0;
      const char* dec = Z3_get_numeral_string(ctx, v);
      for (const char* p = dec; *p; p++)
        if (*p >= '0' && *p <= '9') val = val * 10 + (*p - '0');
      if (id >= m->size()) m->resize(id + 1, 0);
      (*m)[id] = val;
    }
    Z3_model_dec_ref(ctx, zm);
    mp = m;
    // validate the model against our own evaluator
    uint32_t g = newEvalGen();
    bool ok = evalExpr(cond, *mp, g) != 0;
    for (size_t i = 0; ok && i < sl.size(); i++)
      ok = evalExpr(sl[i], *mp, g) != 0;
    if (!ok) {
      fprintf(stderr, "symx: model does not satisfy query (fp=%d) %s\n", f,
              show(cond, 8).c_str());
      res = Sat::Unknown;
    } else {
      recent[recentPos++ % recent.size()] = mp;
      if (out) *out = merge(*mp);
    }
  } else if (res == Sat::No) {
    st.z3unsat++;
  }
  if (res == Sat::Unknown) st.unknown++;
  double dt =
      std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
          .count();
  if (getenv("SYMX_SLOW") && dt > 0.02)
    fprintf(stderr, "slow %.3f int=%d res=%d n=%zu cond=%s\n", dt, (int)asInt, (int)res, sl.size(), show(cond, 6).substr(0, 300).c_str());
  st.z3time += dt;
  if (dt > st.maxTime) st.maxTime = dt;
  if (res != Sat::Unknown) bucket.push_back({key, {res, mp}});
  return res;
}
