#include "symx.h"

#include <sys/mman.h>
#include <unistd.h>

#include <cmath>

#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Support/raw_ostream.h"
#include "shared.h"

using namespace llvm;

// ------------------------------------------------------------- reporting ----
std::string Exec::where() {
  std::string r;
  if (!S || S->th.empty()) return r;
  auto& st = S->th[S->cur].st;
  int n = 0;
  for (size_t i = st.size(); i-- > 0 && n < 12; n++) {
    if (n) r += " < ";
    std::string d = demangle(st[i].f->name);
    if (d.size() > 120) d = d.substr(0, 120) + "...";
    r += d;
    if (st[i].pc < st[i].f->code.size())
      if (auto& dl = st[i].f->code[st[i].pc].I->getDebugLoc())
        r += ":" + std::to_string(dl.getLine());
  }
  return r;
}

static std::string u128s(u128 v) {
  if (v == 0) return "0";
  std::string s;
  while (v) {
    s.insert(s.begin(), '0' + (int)(v % 10));
    v /= 10;
  }
  return s;
}

static std::string clean(std::string s) {
  for (auto& c : s)
    if (c == '\t' || c == '\n') c = ' ';
  return s;
}

void Exec::report(const std::string& kind, const std::string& msg, ModelPtr m) {
  nviol++;
  std::string v;
  for (size_t i = 0; i < S->inputs.size(); i++) {
    if (i) v += ",";
    v += S->inputNames[i] + "=" + u128s(evalIn(S->inputs[i], *m));
  }
  if (log) {
    fprintf(log, "viol\t%s\t%s\t%s\t%s\n", kind.c_str(), clean(msg).c_str(),
            clean(where()).c_str(), v.c_str());
    fflush(log);
  } else {
    fprintf(stderr, "VIOL %s %s at %s\n", kind.c_str(), msg.c_str(),
            where().c_str());
  }
  if (sh) {
    __sync_fetch_and_add(&sh->viols, 1);
    if (opt.stopFirst) sh->stop = 1;
  }
}

void Exec::violation(const std::string& kind, const std::string& msg) {
  report(kind, msg, S->model);
  ends["violation"]++;
  throw StateEnd();
}
void Exec::unsupported(const std::string& msg) {
  stat.unsupported++;
  std::string k = msg + " @ " + where();
  if (k.size() > 600) k = k.substr(0, 600);
  unsup[clean(k)]++;
  throw StateEnd();
}
void Exec::endPath(const std::string& why) {
  ends[why]++;
  throw StateEnd();
}

// ------------------------------------------------------------------ path ----
void Exec::addCons(Expr* e) {
  if (isC(e)) return;
  if (e->op == Op::And && e->w == 1) {
    addCons(e->k[0]);
    addCons(e->k[1]);
    return;
  }
  Expr* v = nullptr;
  if (e->op == Op::Eq && e->k[0]->op == Op::Var && isC(e->k[1])) v = e->k[0];
  else if (e->op == Op::Var) v = e;
  else if (e->op == Op::Not && e->k[0]->op == Op::Var) v = e->k[0];
  if (v) {
    if (S->fixed.size() <= v->lo) S->fixed.resize(v->lo + 1, 0);
    S->fixed[v->lo] = 1;
  }
  S->cons.push_back(e);
}

State* Exec::cloneForSibling() {
  State* t = new State(*S);
  t->cursor = t->instDec;
  t->cons.resize(t->instCons);
  t->nvars = t->instVars;
  t->inputs.resize(t->instInputs);
  t->inputNames.resize(t->instInputs);
  return t;
}
void Exec::pushSibling(State* t) {
  stat.forks++;
  t->forks++;
  work.push_back(t);
}

static bool allFixed(const State& s, Expr* e) {
  for (auto v : e->vars->v)
    if (v >= s.fixed.size() || !s.fixed[v]) return false;
  return true;
}

bool Exec::branch(Expr* cond) {
  if (isC(cond)) return cond->c != 0;
  if (S->cursor < S->dec.size()) {
    uint64_t d = S->dec[S->cursor++];
    if (!(d & 2)) addCons((d & 1) ? cond : mkNot(cond));
    return d & 1;
  }
  if (inCtors) unsupported("symbolic branch in global constructor");
  bool v = evalIn(cond, *S->model) != 0;
  if (allFixed(*S, cond)) {
    S->dec.push_back(v | 2);
    S->cursor++;
    return v;
  }
  Expr* other = v ? mkNot(cond) : cond;
  ModelPtr m2;
  Sat r = solver.check(S->cons, other, S->model, &m2);
  if (r == Sat::Unknown) {
    stat.unknown++;
    // keep going on the side known to be feasible; the run is incomplete
    S->dec.push_back(v | 0);
    S->cursor++;
    addCons(v ? cond : mkNot(cond));
    return v;
  }
  if (r == Sat::No) {
    S->dec.push_back(v | 2);
    S->cursor++;
    return v;
  }
  State* t = cloneForSibling();
  t->dec.push_back(!v);
  t->model = m2;
  pushSibling(t);
  S->dec.push_back(v);
  S->cursor++;
  addCons(v ? cond : mkNot(cond));
  return v;
}

uint64_t Exec::concretize(const Val& v, unsigned w) {
  if (!v.e) return v.c;
  if (isC(v.e)) return (uint64_t)v.e->c;
  if (v.e->op == Op::Agg) unsupported("concretize aggregate");
  // A number calculated from integers: split on the integers instead.
  if (v.e->op >= Op::FAdd && v.e->op <= Op::SToF && v.e->op != Op::FToU && v.e->op != Op::FToS) {
    std::vector<Expr*> todo{v.e}, leaves;
    bool ok = true;
    for (size_t i = 0; i < todo.size() && ok; i++) {
      Expr* x = todo[i];
      if (isC(x)) continue;
      if (x->op == Op::UToF || x->op == Op::SToF) leaves.push_back(x->k[0]);
      else if ((x->op >= Op::FAdd && x->op <= Op::FAbs) || x->op == Op::FToF)
        for (Expr* k : x->k) {
          if (k) todo.push_back(k);
        }
      else ok = false;
    }
    if (ok) {
      // A count of conditions: split on the conditions.
      for (size_t i = 0; i < leaves.size(); i++) {
        Expr* l = leaves[i];
        if (l->op == Op::Add) {
          leaves.push_back(l->k[0]);
          leaves.push_back(l->k[1]);
        } else if (l->op == Op::ZExt) {
          leaves.push_back(l->k[0]);
        } else {
          concretize(Val{l, 0}, l->w);
        }
      }
      return (uint64_t)evalIn(v.e, *S->model);
    }
  }
  while (true) {
    if (S->cursor < S->dec.size()) {
      uint64_t d = S->dec[S->cursor++];
      uint64_t x = S->dec[S->cursor++];
      Expr* eq = mkEq(v.e, mkConst(x, v.e->w));
      if (d & 1) {
        if (!(d & 2)) addCons(eq);
        return x;
      }
      addCons(mkNot(eq));
      continue;
    }
    if (inCtors) unsupported("symbolic value in global constructor");
    uint64_t x = (uint64_t)evalIn(v.e, *S->model);
    Expr* eq = mkEq(v.e, mkConst(x, v.e->w));
    ModelPtr m2;
    Sat r = allFixed(*S, v.e) ? Sat::No
                              : solver.check(S->cons, mkNot(eq), S->model, &m2);
    if (r == Sat::Unknown) stat.unknown++;
    if (r == Sat::Yes) {
      State* t = cloneForSibling();
      t->dec.push_back(0);
      t->dec.push_back(x);
      t->model = m2;
      pushSibling(t);
      S->dec.push_back(1);
      addCons(eq);
    } else {
      S->dec.push_back(r == Sat::No ? 3 : 1);
      if (r != Sat::No) addCons(eq);
    }
    S->dec.push_back(x);
    S->cursor += 2;
    return x;
  }
}

Expr* Exec::freshVar(unsigned w, bool input, const std::string& name) {
  uint32_t id = S->nvars++;
  Expr* e = mkVar(id, w);
  if (input) {
    S->inputs.push_back(e);
    S->inputNames.push_back(name);
  }
  return e;
}

static void setModel(State& s, uint32_t id, u128 v) {
  auto m = std::make_shared<Model>(*s.model);
  if (m->size() <= id) m->resize(id + 1, 0);
  (*m)[id] = v;
  s.model = m;
}

void Exec::assume(Expr* c) {
  if (isC(c)) {
    if (!c->c) {
      stat.infeasible++;
      endPath("assume");
    }
    return;
  }
  if (S->cursor < S->dec.size()) {
    S->cursor++;
    addCons(c);
    return;
  }
  ModelPtr m2;
  Sat r = solver.check(S->cons, c, S->model, &m2);
  if (r == Sat::Unknown) {
    stat.unknown++;
    endPath("unknown");
  }
  if (r == Sat::No) {
    stat.infeasible++;
    endPath("assume");
  }
  S->model = m2;
  addCons(c);
  S->dec.push_back(1);
  S->cursor++;
}

void Exec::check(Expr* c, const std::string& msg) {
  if (S->cursor < S->dec.size()) {
    S->cursor++;
    return;
  }
  assertCount[msg]++;
  solver.st.asserts++;
  if (isC(c)) {
    if (!c->c) violation("assert", msg);
    S->dec.push_back(3);
    S->cursor++;
    return;
  }
  ModelPtr m2;
  Sat r = solver.check(S->cons, mkNot(c), S->model, &m2);
  if (r == Sat::Unknown) {
    stat.unknown++;
    endPath("unknown");
  }
  if (r == Sat::Yes) {
    report("assert", msg, m2);
    ends["violation"]++;
    throw StateEnd();
  }
  // proven on this path; adding it keeps later queries simple
  S->dec.push_back(3);
  S->cursor++;
}

// ---------------------------------------------------------------- memory ----
static std::string hexs(uint64_t v) {
  char b[32];
  snprintf(b, sizeof b, "0x%llx", (unsigned long long)v);
  return b;
}

Obj* Exec::objAt(uint64_t addr, uint64_t size, bool write, const char* what) {
  Obj* o;
  if (addr >= 0x10000000 && addr < 0x40000000) {
    o = cmem.find(addr);
    if (o && write) violation("memory", std::string("write to constant in ") + what);
  } else {
    o = write ? S->mem.findW(addr) : S->mem.find(addr);
  }
  if (!o) {
    std::string d;
    // nearest object below for diagnosis
    for (auto& p : S->mem.objs)
      if (p.second.p && p.first <= addr && addr < p.first + p.second.p->size + 64)
        d = " (object of size " + std::to_string(p.second.p->size) +
            ", offset " + std::to_string(addr - p.first) + ")";
    if (S->cursor < S->dec.size()) endPath("replay divergence");
    violation("memory", std::string(what) + " of " + std::to_string(size) +
                            " bytes at invalid address " + hexs(addr) + d);
  }
  if (addr - o->base + size > o->size)
    violation("memory", std::string(what) + " of " + std::to_string(size) +
                            " bytes at offset " +
                            std::to_string(addr - o->base) +
                            " of object of size " + std::to_string(o->size));
  return o;
}

// make the address concrete, exploring all objects and offsets
uint64_t Exec::resolve(const Val& p, uint64_t size, bool write,
                       const char* what) {
  if (!p.e) return p.c;
  return concretize(p, 64);
}

Expr* Exec::byteAt(Obj* o, uint64_t i) {
  if (!o->isInit(i)) {
    // an uninitialised byte may hold anything
    stat.uninitReads++;
    Obj* w = o->rc > 1 && o->base >= 0x40000000 ? S->mem.findW(o->base) : o;
    w->ensureSym();
    w->sym[i] = freshVar(8, false, "uninit");
    w->setInit(i);
    return w->sym[i];
  }
  if (o->sym && o->sym[i]) return o->sym[i];
  return mkConst(o->data[i], 8);
}

Val Exec::loadConcrete(uint64_t addr, unsigned w) {
  unsigned n = (w + 7) / 8;
  Obj* o = objAt(addr, n, false, "read");
  uint64_t off = addr - o->base;
  bool plain = true;
  if (o->sym)
    for (unsigned i = 0; i < n; i++)
      if (o->sym[off + i]) {
        plain = false;
        break;
      }
  if (plain && o->ib)
    for (unsigned i = 0; i < n; i++)
      if (!o->isInit(off + i)) {
        plain = false;
        break;
      }
  if (plain) {
    if (n <= 8) {
      Val v;
      uint64_t x = 0;
      memcpy(&x, o->data + off, n);
      v.c = x & mask64(w);
      return v;
    }
    u128 x = 0;
    memcpy(&x, o->data + off, n);
    return val(mkConst(x, w));
  }
  Expr* e = byteAt(o, off);
  if (o->rc == 0 || true) o = S->mem.find(addr) ? S->mem.find(addr) : o;
  for (unsigned i = 1; i < n; i++) {
    Expr* b = byteAt(o, off + i);
    Obj* o2 = S->mem.find(addr);
    if (o2) o = o2;
    e = mkConcat(b, e);
  }
  if (w != n * 8) e = mkExtract(e, 0, w);
  return val(e);
}

void Exec::storeConcrete(uint64_t addr, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8;
  Obj* o = objAt(addr, n, true, "write");
  uint64_t off = addr - o->base;
  if (!v.e && n <= 8) {
    memcpy(o->data + off, &v.c, n);
    if (o->sym)
      for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
  } else if (isC(v.e)) {
    u128 x = v.e->c;
    memcpy(o->data + off, &x, n);
    if (o->sym)
      for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
  } else {
    o->ensureSym();
    Expr* e = v.e;
    if (e->w != n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) {
      Expr* b = mkExtract(e, i * 8, 8);
      if (isC(b)) {
        o->data[off + i] = (uint8_t)b->c;
        o->sym[off + i] = nullptr;
      } else
        o->sym[off + i] = b;
    }
  }
  if (o->ib)
    for (unsigned i = 0; i < n; i++) o->setInit(off + i);
}

// largest power of two dividing the variable part of a linear expression
static uint64_t pow2Stride(Expr* e, int depth = 0) {
  switch (e->op) {
    case Op::Const: {
      if (e->c == 0) return 1ull << 20;
      uint64_t x = (uint64_t)e->c;
      return x ? (x & (~x + 1)) : 1ull << 20;
    }
    case Op::Add:
    case Op::Sub:
      if (depth > 20) return 1;
      return std::min(pow2Stride(e->k[0], depth + 1), pow2Stride(e->k[1], depth + 1));
    case Op::Mul:
      if (depth > 20) return 1;
      return std::min<uint64_t>(1ull << 20, pow2Stride(e->k[0], depth + 1) *
                                                pow2Stride(e->k[1], depth + 1));
    case Op::Concat:
      if (isC(e->k[1]) && e->k[1]->c == 0 && e->k[1]->w < 20)
        return (1ull << e->k[1]->w);
      return 1;
    case Op::ZExt:
    case Op::SExt: return depth > 20 ? 1 : pow2Stride(e->k[0], depth + 1);
    case Op::Ite:
      if (depth > 20) return 1;
      return std::min(pow2Stride(e->k[1], depth + 1), pow2Stride(e->k[2], depth + 1));
    default: return 1;
  }
}

Val Exec::loadScalar(const Val& p, unsigned w) {
  if (!p.e) return loadConcrete(p.c, w);
  unsigned n = (w + 7) / 8;
  // find the object
  Obj* o = nullptr;
  uint64_t base = 0;
  while (true) {
    if (S->cursor < S->dec.size()) {
      base = S->dec[S->cursor++];
    } else {
      uint64_t a0 = (uint64_t)evalIn(p.e, *S->model);
      Obj* x = (a0 >= 0x10000000 && a0 < 0x40000000) ? cmem.find(a0) : S->mem.find(a0);
      if (!x || a0 - x->base + n > x->size) objAt(a0, n, false, "read");
      base = x->base;
      S->dec.push_back(base);
      S->cursor++;
    }
    o = (base >= 0x10000000 && base < 0x40000000) ? cmem.find(base) : S->mem.find(base);
    if (!o) unsupported("object lost in replay");
    Expr* off = mkBin(Op::Sub, p.e, mkConst(base, 64));
    if (branch(mkBin(Op::Ule, off, mkConst(o->size - n, 64)))) break;
  }
  Expr* off = mkBin(Op::Sub, p.e, mkConst(o->base, 64));
  uint64_t stride = pow2Stride(off);
  uint64_t r = 0;
  if (off->op == Op::Add && isC(off->k[1])) {
    stride = pow2Stride(off->k[0]);
    if (stride > 4096) stride = 4096;
    r = (uint64_t)off->k[1]->c % stride;
  } else if (stride > 4096)
    stride = 4096;
  uint64_t cnt = (o->size - n) / stride + 1;
  if (cnt > 600) return loadConcrete(concretize(p, 64), w);
  uint64_t base0 = o->base;
  Expr* res = nullptr;
  for (uint64_t x = r; x + n <= o->size; x += stride) {
    Expr* b = ex(loadConcrete(base0 + x, w), w);
    res = res ? mkIte(mkEq(off, mkConst(x, 64)), b, res) : b;
  }
  if (!res) unsupported("symbolic read: no candidate offset");
  return val(res);
}

void Exec::storeScalar(const Val& p, const Val& v, unsigned w) {
  uint64_t a = resolve(p, (w + 7) / 8, true, "write");
  storeConcrete(a, v, w);
}

Val Exec::loadTyped(const Val& p, Type* t) {
  unsigned w = width(t);
  if (w) return loadScalar(p, w);
  uint64_t a = resolve(p, DL->getTypeStoreSize(t), false, "read");
  std::vector<Val> vs;
  auto at = [&](uint64_t off, Type* et) {
    Val q;
    q.c = a + off;
    vs.push_back(loadTyped(q, et));
  };
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      at(sl->getElementOffset(i), st->getElementType(i));
  } else if (auto* ar = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(ar->getElementType());
    for (unsigned i = 0; i < ar->getNumElements(); i++) at(i * es, ar->getElementType());
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    unsigned ew = width(vt->getElementType());
    if (ew % 8) unsupported("vector of odd width");
    for (unsigned i = 0; i < vt->getNumElements(); i++) at(i * (ew / 8), vt->getElementType());
  } else
    unsupported("load of type");
  return mkAgg(std::move(vs));
}

void Exec::storeTyped(const Val& p, const Val& v, Type* t) {
  unsigned w = width(t);
  if (w) {
    storeScalar(p, v, w);
    return;
  }
  uint64_t a = resolve(p, DL->getTypeStoreSize(t), true, "write");
  if (!v.e || v.e->op != Op::Agg) unsupported("store of non-aggregate");
  auto& vs = *v.e->agg;
  auto at = [&](unsigned i, uint64_t off, Type* et) {
    Val q;
    q.c = a + off;
    storeTyped(q, vs[i], et);
  };
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      at(i, sl->getElementOffset(i), st->getElementType(i));
  } else if (auto* ar = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(ar->getElementType());
    for (unsigned i = 0; i < ar->getNumElements(); i++) at(i, i * es, ar->getElementType());
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    unsigned ew = width(vt->getElementType());
    if (ew % 8) unsupported("vector of odd width");
    for (unsigned i = 0; i < vt->getNumElements(); i++) at(i, i * (ew / 8), vt->getElementType());
  } else
    unsupported("store of type");
}

uint64_t Exec::load64(uint64_t a) {
  Val v = loadConcrete(a, 64);
  if (v.e) unsupported("symbolic runtime word");
  return v.c;
}

void Exec::copyMem(uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  Obj* so = objAt(src, n, false, "copy source read");
  // keep the source alive while the destination is unshared
  ObjRef keep(so);
  if (dst >= 0x10000000 && dst < 0x40000000) violation("memory", "copy to constant");
  Obj* d0 = S->mem.find(dst);
  bool same = d0 == so;
  Obj* o;
  if (same) {
    // overlapping move inside one object: work on a private copy of the source
    keep = ObjRef(new Obj(*so));
    o = objAt(dst, n, true, "copy destination write");
  } else {
    o = objAt(dst, n, true, "copy destination write");
  }
  Obj* s = keep.p;
  uint64_t so_ = src - s->base, do_ = dst - o->base;
  memcpy(o->data + do_, s->data + so_, n);
  if (s->sym) {
    o->ensureSym();
    memcpy(o->sym + do_, s->sym + so_, n * sizeof(Expr*));
  } else if (o->sym) {
    memset(o->sym + do_, 0, n * sizeof(Expr*));
  }
  if (s->ib || o->ib) {
    for (uint64_t i = 0; i < n; i++) {
      if (s->isInit(so_ + i)) o->setInit(do_ + i);
      else o->clearInit(do_ + i);
    }
  }
}

void Exec::setMem(uint64_t dst, const Val& v, uint64_t n) {
  if (!n) return;
  Obj* o = objAt(dst, n, true, "memset write");
  uint64_t off = dst - o->base;
  if (!v.e || isC(v.e)) {
    memset(o->data + off, (int)(v.e ? (uint64_t)v.e->c : v.c), n);
    if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr*));
  } else {
    o->ensureSym();
    Expr* b = mkExtract(v.e, 0, 8);
    for (uint64_t i = 0; i < n; i++) o->sym[off + i] = b;
  }
  if (o->ib)
    for (uint64_t i = 0; i < n; i++) o->setInit(off + i);
}

std::string Exec::readStr(uint64_t a) {
  std::string s;
  while (s.size() < 4096) {
    Val v = loadConcrete(a++, 8);
    if (v.e) {
      s += '?';
      continue;
    }
    if (!v.c) break;
    s += (char)v.c;
  }
  return s;
}

// ------------------------------------------------------------- execution ----
Val Exec::binop(Op op, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c, m = mask64(w);
    Val r;
    switch (op) {
      case Op::Add: r.c = (x + y) & m; return r;
      case Op::Sub: r.c = (x - y) & m; return r;
      case Op::Mul: r.c = (x * y) & m; return r;
      case Op::And: r.c = x & y; return r;
      case Op::Or: r.c = x | y; return r;
      case Op::Xor: r.c = x ^ y; return r;
      case Op::Shl: r.c = y >= w ? 0 : (x << y) & m; return r;
      case Op::LShr: r.c = y >= w ? 0 : (x >> y); return r;
      case Op::UDiv:
        if (!y) violation("arith", "division by zero");
        r.c = x / y;
        return r;
      case Op::URem:
        if (!y) violation("arith", "division by zero");
        r.c = x % y;
        return r;
      default: break;
    }
    if ((op == Op::SDiv || op == Op::SRem) && !y)
      violation("arith", "division by zero");
    r.c = (uint64_t)foldOp(op, w, 0, 0, w, x, y, 0, w);
    return r;
  }
  Expr *x = ex(a, w), *y = ex(b, w);
  if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) {
    Expr* z = mkEq(y, mkConst(0, w));
    if (isC(z) ? z->c != 0 : branch(z)) violation("arith", "division by zero");
  }
  return val(mkBin(op, x, y));
}

Val Exec::icmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  Val r;
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c;
    int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w);
    int64_t sy = (int64_t)(y << (64 - w)) >> (64 - w);
    switch (pred) {
      case CmpInst::ICMP_EQ: r.c = x == y; break;
      case CmpInst::ICMP_NE: r.c = x != y; break;
      case CmpInst::ICMP_UGT: r.c = x > y; break;
      case CmpInst::ICMP_UGE: r.c = x >= y; break;
      case CmpInst::ICMP_ULT: r.c = x < y; break;
      case CmpInst::ICMP_ULE: r.c = x <= y; break;
      case CmpInst::ICMP_SGT: r.c = sx > sy; break;
      case CmpInst::ICMP_SGE: r.c = sx >= sy; break;
      case CmpInst::ICMP_SLT: r.c = sx < sy; break;
      case CmpInst::ICMP_SLE: r.c = sx <= sy; break;
    }
    return r;
  }
  Expr *x = ex(a, w), *y = ex(b, w);
  Expr* e = nullptr;
  switch (pred) {
    case CmpInst::ICMP_EQ: e = mkEq(x, y); break;
    case CmpInst::ICMP_NE: e = mkNot(mkEq(x, y)); break;
    case CmpInst::ICMP_UGT: e = mkBin(Op::Ult, y, x); break;
    case CmpInst::ICMP_UGE: e = mkBin(Op::Ule, y, x); break;
    case CmpInst::ICMP_ULT: e = mkBin(Op::Ult, x, y); break;
    case CmpInst::ICMP_ULE: e = mkBin(Op::Ule, x, y); break;
    case CmpInst::ICMP_SGT: e = mkBin(Op::Slt, y, x); break;
    case CmpInst::ICMP_SGE: e = mkBin(Op::Sle, y, x); break;
    case CmpInst::ICMP_SLT: e = mkBin(Op::Slt, x, y); break;
    case CmpInst::ICMP_SLE: e = mkBin(Op::Sle, x, y); break;
  }
  return val(e);
}

Val Exec::fcmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  if (w > 64) unsupported("long double comparison");
  Expr *x = ex(a, w), *y = ex(b, w);
  uint8_t k = (uint8_t)w;
  auto oeq = [&] { return mkFp(Op::FOeq, 1, k, x, y); };
  auto olt = [&](Expr* p, Expr* q) { return mkFp(Op::FOlt, 1, k, p, q); };
  auto ole = [&](Expr* p, Expr* q) { return mkFp(Op::FOle, 1, k, p, q); };
  auto uno = [&] { return mkFp(Op::FUno, 1, k, x, y); };
  Expr* e = mkConst(0, 1);
  switch (pred) {
    case CmpInst::FCMP_FALSE: break;
    case CmpInst::FCMP_TRUE: e = mkConst(1, 1); break;
    case CmpInst::FCMP_OEQ: e = oeq(); break;
    case CmpInst::FCMP_OGT: e = olt(y, x); break;
    case CmpInst::FCMP_OGE: e = ole(y, x); break;
    case CmpInst::FCMP_OLT: e = olt(x, y); break;
    case CmpInst::FCMP_OLE: e = ole(x, y); break;
    case CmpInst::FCMP_ONE: e = mkNot(mkOr1(oeq(), uno())); break;
    case CmpInst::FCMP_ORD: e = mkNot(uno()); break;
    case CmpInst::FCMP_UNO: e = uno(); break;
    case CmpInst::FCMP_UEQ: e = mkOr1(oeq(), uno()); break;
    case CmpInst::FCMP_UGT: e = mkNot(ole(x, y)); break;
    case CmpInst::FCMP_UGE: e = mkNot(olt(x, y)); break;
    case CmpInst::FCMP_ULT: e = mkNot(ole(y, x)); break;
    case CmpInst::FCMP_ULE: e = mkNot(olt(y, x)); break;
    case CmpInst::FCMP_UNE: e = mkNot(oeq()); break;
  }
  return val(e);
}

Val Exec::castOp(FInst& in, const Val& a, unsigned sw, unsigned w) {
  Val r;
  switch (in.k) {
    case K::Trunc:
      if (!a.e) {
        r.c = a.c & mask64(w);
        return r;
      }
      return val(mkExtract(a.e, 0, w));
    case K::ZExt:
      if (!a.e && w <= 64) return a;
      return val(mkZExt(ex(a, sw), w));
    case K::SExt:
      if (!a.e && w <= 64) {
        r.c = (uint64_t)((int64_t)(a.c << (64 - sw)) >> (64 - sw)) & mask64(w);
        return r;
      }
      return val(mkSExt(ex(a, sw), w));
    case K::FPExt:
    case K::FPTrunc:
      if (w > 64 || sw > 64) unsupported("long double conversion");
      return val(mkFp(Op::FToF, w, (uint8_t)sw, ex(a, sw)));
    case K::FPToUI:
      if (sw > 64) unsupported("long double conversion");
      return val(mkFp(Op::FToU, w, (uint8_t)sw, ex(a, sw)));
    case K::FPToSI:
      if (sw > 64) unsupported("long double conversion");
      return val(mkFp(Op::FToS, w, (uint8_t)sw, ex(a, sw)));
    case K::UIToFP:
      if (w > 64) unsupported("long double conversion");
      return val(mkFp(Op::UToF, w, (uint8_t)w, mkZExt(ex(a, sw), std::max(64u, sw))));
    case K::SIToFP:
      if (w > 64) unsupported("long double conversion");
      return val(mkFp(Op::SToF, w, (uint8_t)w, mkSExt(ex(a, sw), std::max(64u, sw))));
    default: return a;
  }
}

void Exec::jump(const Edge& e) {
  Frame& fr = S->th[S->cur].st.back();
  if (!e.copies.empty()) {
    if (e.copies.size() == 1) {
      auto& c = e.copies[0];
      fr.regs[c.first] = c.second >= 0 ? fr.regs[c.second] : fr.f->consts[~c.second];
    } else {
      static std::vector<Val> tmp;
      tmp.clear();
      for (auto& c : e.copies)
        tmp.push_back(c.second >= 0 ? fr.regs[c.second] : fr.f->consts[~c.second]);
      for (size_t i = 0; i < e.copies.size(); i++) fr.regs[e.copies[i].first] = tmp[i];
    }
  }
  fr.pc = e.pc;
}

void Exec::pushFrame(Func* f, Args& args, FInst* call) {
  auto& st = S->th[S->cur].st;
  if (st.size() > 2000) violation("stack", "call depth exceeds 2000");
  st.emplace_back();
  Frame& fr = st.back();
  fr.f = f;
  f->execs++;
  fr.regs.resize(f->nregs);
  for (int i = 0; i < f->nargs && i < (int)args.size(); i++) fr.regs[i] = args[i];
  if (f->vararg) {
    // spill the variadic part
    size_t extra = args.size() > (size_t)f->nargs ? args.size() - f->nargs : 0;
    uint64_t a = S->mem.alloc(extra * 8 + 8, 1, false);
    fr.allocas.push_back(a);
    fr.varargs = a;
    for (size_t i = 0; i < extra; i++) storeConcrete(a + 8 * i, args[f->nargs + i], 64);
  }
  // byval arguments
  for (auto& A : f->F->args()) {
    if (!A.hasByValAttr()) continue;
    uint64_t sz = DL->getTypeAllocSize(A.getParamByValType());
    uint64_t a = S->mem.alloc(sz, 1, true, 16);
    S->th[S->cur].st.back().allocas.push_back(a);
    copyMem(a, concretize(args[A.getArgNo()], 64), sz);
    Val v;
    v.c = a;
    S->th[S->cur].st.back().regs[A.getArgNo()] = v;
  }
}

void Exec::returnFrom(const Val& v) {
  Thread& t = S->th[S->cur];
  for (auto a : t.st.back().allocas) S->mem.release(a);
  t.st.pop_back();
  if (t.st.empty()) {
    t.ts = TS::Done;
    if (S->cur == 0) {
      if (inCtors) throw StateEnd();
      finishPath();
      throw StateEnd();
    }
    for (size_t i = 0; i < S->th.size(); i++)
      if (S->th[i].ts == TS::BlockJoin && S->th[i].waitOn == (uint64_t)S->cur)
        S->th[i].ts = TS::Run;
    S->needSched = true;
    return;
  }
  Frame& fr = t.st.back();
  FInst& call = fr.f->code[fr.pc];
  if (call.dst >= 0) fr.regs[call.dst] = v;
  if (call.k == K::Invoke) jump(call.edges[0]);
  else fr.pc++;
}

void Exec::finishPath() {
  stat.paths++;
  ends["complete"]++;
  if (S->dec.size() > stat.maxDepth) stat.maxDepth = S->dec.size();
  if (samplesLeft && log) {
    samplesLeft--;
    std::string v, o;
    for (size_t i = 0; i < S->inputs.size(); i++) {
      if (i) v += ",";
      v += S->inputNames[i] + "=" + u128s(evalIn(S->inputs[i], *S->model));
    }
    bool uninit = false;
    for (auto& x : S->observed) {
      if (!o.empty()) o += ",";
      if (x.e)
        for (auto vv : x.e->vars->v) {
          bool isIn = false;
          for (auto* i : S->inputs)
            if (i->lo == vv) isIn = true;
          if (!isIn) uninit = true;
        }
      o += u128s(x.e ? evalIn(x.e, *S->model) : x.c);
    }
    if (!uninit) fprintf(log, "sample\t%s\t%s\n", v.c_str(), o.c_str());
  }
}

R Exec::execCall(FInst& in, Function* callee, Args& args) {
  Val ret;
  R r = R::Next;
  if (callee->isIntrinsic()) {
    r = intrinsic(in, callee, args, ret);
  } else {
    if (in.handler == -2 || !in.callee) {
      // resolve: symx handlers override, otherwise bodies win
      int h = handlerFor(callee->getName().str());
      if (!callee->isDeclaration() && !callee->getName().starts_with("symx_")) h = -1;
      if (in.callee) in.handler = h;
      if (h >= 0) {
        r = (this->*handlers[h])(in, args, ret);
        goto done;
      }
    } else if (in.handler >= 0) {
      r = (this->*handlers[in.handler])(in, args, ret);
      goto done;
    }
    if (callee->isDeclaration())
      unsupported("call to external function " + demangle(callee->getName().str()) +
                  " [" + callee->getName().str() + "]");
    Func* f;
    if (in.callee) {
      if (!in.fcallee) in.fcallee = getFunc(callee);
      f = in.fcallee;
    } else
      f = getFunc(callee);
    pushFrame(f, args, &in);
    return R::Jumped;
  }
done:
  if (r == R::Next) {
    Frame& fr = S->th[S->cur].st.back();
    if (in.dst >= 0) fr.regs[in.dst] = ret;
    if (in.k == K::Invoke) {
      jump(in.edges[0]);
      return R::Jumped;
    }
  }
  return r;
}

void Exec::step() {
  S->instDec = S->cursor;
  S->instCons = S->cons.size();
  S->instVars = S->nvars;
  S->instInputs = S->inputs.size();
  if (S->needSched) {
    doSchedule();
    return;
  }
  Thread* t = &S->th[S->cur];
  Frame* fr = &t->st.back();
  FInst& in = fr->f->code[fr->pc];
  S->steps++;
  stat.steps++;
  auto V = [&](int r) -> const Val& { return r >= 0 ? fr->regs[r] : fr->f->consts[~r]; };
  auto set = [&](const Val& v) {
    // frames may have been reallocated by nested activity
    Frame& f2 = S->th[S->cur].st.back();
    f2.regs[in.dst] = v;
    f2.pc++;
  };
  switch (in.k) {
    case K::Bin: {
      if (in.vec) {
        Val a = V(in.a), b = V(in.b);
        std::vector<Val> vs;
        for (size_t i = 0; i < a.e->agg->size(); i++)
          vs.push_back(binop((Op)in.sub, (*a.e->agg)[i], (*b.e->agg)[i], in.w));
        set(mkAgg(std::move(vs)));
        return;
      }
      set(binop((Op)in.sub, V(in.a), V(in.b), in.w));
      return;
    }
    case K::FBin: {
      if (in.sub == (uint8_t)Op::Agg) unsupported("frem");
      if (in.w > 64) unsupported("long double arithmetic");
      auto one = [&](const Val& a, const Val& b) {
        return val(mkFp((Op)in.sub, in.w, (uint8_t)in.w, ex(a, in.w), ex(b, in.w)));
      };
      if (in.vec) {
        Val a = V(in.a), b = V(in.b);
        std::vector<Val> vs;
        for (size_t i = 0; i < a.e->agg->size(); i++)
          vs.push_back(one((*a.e->agg)[i], (*b.e->agg)[i]));
        set(mkAgg(std::move(vs)));
        return;
      }
      set(one(V(in.a), V(in.b)));
      return;
    }
    case K::FNeg:
      if (in.vec || in.w > 64) unsupported("fneg");
      set(val(mkFp(Op::FNeg, in.w, (uint8_t)in.w, ex(V(in.a), in.w))));
      return;
    case K::ICmp:
      if (in.vec) {
        Val a = V(in.a), b = V(in.b);
        std::vector<Val> vs;
        for (size_t i = 0; i < a.e->agg->size(); i++)
          vs.push_back(icmp(in.sub, (*a.e->agg)[i], (*b.e->agg)[i], in.sw));
        set(mkAgg(std::move(vs)));
        return;
      }
      set(icmp(in.sub, V(in.a), V(in.b), in.sw));
      return;
    case K::FCmp:
      if (in.vec) unsupported("vector fcmp");
      set(fcmp(in.sub, V(in.a), V(in.b), in.sw));
      return;
    case K::Trunc:
    case K::ZExt:
    case K::SExt:
    case K::FPExt:
    case K::FPTrunc:
    case K::FPToUI:
    case K::FPToSI:
    case K::UIToFP:
    case K::SIToFP: {
      if (in.vec) {
        Val a = V(in.a);
        std::vector<Val> vs;
        for (auto& x : *a.e->agg) vs.push_back(castOp(in, x, in.sw, in.w));
        set(mkAgg(std::move(vs)));
        return;
      }
      set(castOp(in, V(in.a), in.sw, in.w));
      return;
    }
    case K::Bitcast: {
      Val a = V(in.a);
      if (in.vec) {
        // reassemble through a wide integer
        Type* ft = in.I->getOperand(0)->getType();
        Type* tt = in.ty;
        uint64_t bits = DL->getTypeSizeInBits(ft);
        if (bits > 128) unsupported("wide vector bitcast");
        Expr* e = nullptr;
        if (auto* vt = dyn_cast<FixedVectorType>(ft)) {
          unsigned ew = width(vt->getElementType());
          for (auto& x : *a.e->agg) e = e ? mkConcat(ex(x, ew), e) : ex(x, ew);
        } else
          e = ex(a, bits);
        if (auto* vt = dyn_cast<FixedVectorType>(tt)) {
          unsigned ew = width(vt->getElementType());
          std::vector<Val> vs;
          for (unsigned i = 0; i < vt->getNumElements(); i++)
            vs.push_back(val(mkExtract(e, i * ew, ew)));
          set(mkAgg(std::move(vs)));
        } else
          set(val(e));
        return;
      }
      set(a);
      return;
    }
    case K::Load: {
      Val v;
      if (in.w) v = loadScalar(V(in.a), in.w);
      else v = loadTyped(V(in.a), in.ty);
      set(v);
      return;
    }
    case K::Store: {
      if (in.w) storeScalar(V(in.b), V(in.a), in.w);
      else storeTyped(V(in.b), V(in.a), in.ty);
      S->th[S->cur].st.back().pc++;
      return;
    }
    case K::Gep: {
      if (in.vec) unsupported("vector gep");
      Val b = V(in.a);
      if (in.imm) {
        Val k;
        k.c = in.imm;
        b = binop(Op::Add, b, k, 64);
      }
      for (auto& g : in.gep) {
        Val i = V(g.ref);
        if (!i.e && g.w < 64)
          i.c = (uint64_t)((int64_t)(i.c << (64 - g.w)) >> (64 - g.w));
        else if (i.e && g.w < 64)
          i = val(mkSExt(i.e, 64));
        Val k;
        k.c = g.scale;
        if (g.scale != 1) i = binop(Op::Mul, i, k, 64);
        b = binop(Op::Add, b, i, 64);
      }
      set(b);
      return;
    }
    case K::Alloca: {
      uint64_t n = concretize(V(in.a), in.sw);
      uint64_t a = S->mem.alloc(in.imm * n, 1, true, in.sub);
      Frame& f2 = S->th[S->cur].st.back();
      f2.allocas.push_back(a);
      Val v;
      v.c = a;
      set(v);
      return;
    }
    case K::Br: jump(in.edges[0]); return;
    case K::CBr: {
      const Val& c = V(in.a);
      bool b = c.e ? branch(c.e) : c.c != 0;
      jump(in.edges[b ? 0 : 1]);
      return;
    }
    case K::Switch: {
      Val c = V(in.a);
      if (!c.e) {
        int k = 0;
        for (auto& cs : in.cases)
          if (cs.first == c.c) {
            k = cs.second;
            break;
          }
        jump(in.edges[k]);
        return;
      }
      // group cases by target
      std::map<uint32_t, std::pair<int, Expr*>> groups;
      for (auto& cs : in.cases) {
        // edges to the same block may carry different phi values
        uint32_t key = in.edges[cs.second].copies.empty()
                           ? in.edges[cs.second].pc
                           : 0x80000000u + cs.second;
        Expr* e = mkEq(c.e, mkConst(cs.first, in.sw));
        auto it = groups.find(key);
        if (it == groups.end()) groups[key] = {cs.second, e};
        else it->second.second = mkOr1(it->second.second, e);
      }
      for (auto& g : groups) {
        if (branch(g.second.second)) {
          jump(in.edges[g.second.first]);
          return;
        }
      }
      jump(in.edges[0]);
      return;
    }
    case K::Ret: {
      Val v;
      if (in.imm) v = V(in.a);
      returnFrom(v);
      return;
    }
    case K::Call:
    case K::Invoke: {
      Args args;
      args.reserve(in.ops.size());
      for (int o : in.ops) args.push_back(V(o));
      Function* callee = in.callee;
      if (!callee) {
        if (in.imm == 1) {
          if (in.dst >= 0) set(args.empty() ? Val() : args[0]);
          else fr->pc++;
          return;
        }
        if (in.imm == 2) unsupported("inline assembly");
        uint64_t fa = concretize(V(in.a), 64);
        auto it = fnAt.find(fa);
        if (it == fnAt.end())
          violation("memory", "call through invalid function pointer " + hexs(fa));
        callee = it->second;
      }
      R r = execCall(in, callee, args);
      if (r == R::Next) {
        S->th[S->cur].st.back().pc++;
      } else if (r == R::End)
        throw StateEnd();
      return;
    }
    case K::Select: {
      const Val& c = V(in.a);
      if (in.vec) {
        Val a = V(in.b), b = V(in.c), cc = c;
        std::vector<Val> vs;
        for (size_t i = 0; i < a.e->agg->size(); i++) {
          Val& ci = (*cc.e->agg)[i];
          bool t1 = ci.e ? branch(ci.e) : ci.c;
          vs.push_back(t1 ? (*a.e->agg)[i] : (*b.e->agg)[i]);
        }
        set(mkAgg(std::move(vs)));
        return;
      }
      if (!c.e) {
        set(c.c ? V(in.b) : V(in.c));
        return;
      }
      if (!in.w || in.ty->isPointerTy() || (opt.forkSelect && in.w > 1)) {
        bool t1 = branch(c.e);
        set(t1 ? V(in.b) : V(in.c));
        return;
      }
      set(val(mkIte(c.e, ex(V(in.b), in.w), ex(V(in.c), in.w))));
      return;
    }
    case K::ExtractVal: {
      Val v = V(in.a);
      for (auto i : in.idx) {
        if (!v.e || v.e->op != Op::Agg) unsupported("extractvalue");
        v = (*v.e->agg)[i];
      }
      set(v);
      return;
    }
    case K::InsertVal: {
      Val v = V(in.a), nv = V(in.b);
      std::function<Val(const Val&, size_t)> ins = [&](const Val& a, size_t d) -> Val {
        if (d == in.idx.size()) return nv;
        std::vector<Val> vs = *a.e->agg;
        vs[in.idx[d]] = ins(vs[in.idx[d]], d + 1);
        return mkAgg(std::move(vs));
      };
      set(ins(v, 0));
      return;
    }
    case K::LandingPad: unsupported("landingpad reached directly");
    case K::Resume: {
      Val v = V(in.a);
      uint64_t obj = (*v.e->agg)[0].c;
      // header layout: see rt.cpp (struct Exc precedes the object)
      uint64_t ti = load64(obj - 64);
      unwind(obj - 64, obj, ti);
      return;
    }
    case K::Unreachable:
      if (in.imm == 99) {
        std::string s;
        raw_string_ostream os(s);
        in.I->print(os);
        unsupported("instruction " + os.str());
      }
      violation("ub", "unreachable code executed (undefined behaviour)");
    case K::CmpXchg: {
      uint64_t a = concretize(V(in.a), 64);
      Val old = loadConcrete(a, in.sw);
      Val eq = icmp(CmpInst::ICMP_EQ, old, V(in.b), in.sw);
      bool t1 = eq.e ? branch(eq.e) : eq.c;
      Val nv = V(in.c);
      if (t1) storeConcrete(a, nv, in.sw);
      Val flag;
      flag.c = t1;
      std::vector<Val> vs{old, flag};
      set(mkAgg(std::move(vs)));
      return;
    }
    case K::AtomicRMW: {
      uint64_t a = concretize(V(in.a), 64);
      Val old = loadConcrete(a, in.w);
      Val b = V(in.b), nv;
      switch (in.sub) {
        case AtomicRMWInst::Xchg: nv = b; break;
        case AtomicRMWInst::Add: nv = binop(Op::Add, old, b, in.w); break;
        case AtomicRMWInst::Sub: nv = binop(Op::Sub, old, b, in.w); break;
        case AtomicRMWInst::And: nv = binop(Op::And, old, b, in.w); break;
        case AtomicRMWInst::Or: nv = binop(Op::Or, old, b, in.w); break;
        case AtomicRMWInst::Xor: nv = binop(Op::Xor, old, b, in.w); break;
        default: unsupported("atomicrmw");
      }
      storeConcrete(a, nv, in.w);
      set(old);
      return;
    }
    case K::Fence: fr->pc++; return;
    case K::Freeze: set(V(in.a)); return;
    case K::ExtElt: {
      Val v = V(in.a);
      uint64_t i = concretize(V(in.b), 64);
      set((*v.e->agg)[i]);
      return;
    }
    case K::InsElt: {
      Val v = V(in.a);
      uint64_t i = concretize(V(in.c), 64);
      std::vector<Val> vs = *v.e->agg;
      vs[i] = V(in.b);
      set(mkAgg(std::move(vs)));
      return;
    }
    case K::Shuffle: {
      Val a = V(in.a), b = V(in.b);
      std::vector<Val> vs;
      size_t n = a.e->agg->size();
      for (auto m : in.idx) {
        if ((int)m < 0) vs.push_back(Val{nullptr, 0});
        else vs.push_back(m < n ? (*a.e->agg)[m] : (*b.e->agg)[m - n]);
      }
      set(mkAgg(std::move(vs)));
      return;
    }
  }
}

R Exec::intrinsic(FInst& in, Function* f, Args& args, Val& ret) {
  unsigned w = in.w;
  auto E = [&](int i) { return ex(args[i], w); };
  switch (f->getIntrinsicID()) {
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove: {
      uint64_t n = concretize(args[2], 64);
      if (!n) return R::Next;
      uint64_t d = resolve(args[0], n, true, "memcpy");
      uint64_t s = resolve(args[1], n, false, "memcpy");
      copyMem(d, s, n);
      return R::Next;
    }
    case Intrinsic::memset: {
      uint64_t n = concretize(args[2], 64);
      if (!n) return R::Next;
      setMem(resolve(args[0], n, true, "memset"), args[1], n);
      return R::Next;
    }
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::invariant_start:
    case Intrinsic::invariant_end:
    case Intrinsic::assume:
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::prefetch:
    case Intrinsic::donothing:
    case Intrinsic::stackrestore:
    case Intrinsic::sideeffect:
    case Intrinsic::var_annotation: return R::Next;
    case Intrinsic::stacksave: ret.c = 0; return R::Next;
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::ptr_annotation:
    case Intrinsic::annotation: ret = args[0]; return R::Next;
    case Intrinsic::is_constant: ret.c = 0; return R::Next;
    case Intrinsic::objectsize: ret.c = mask64(w); return R::Next;
    case Intrinsic::trap:
    case Intrinsic::ubsantrap:
    case Intrinsic::debugtrap: violation("abort", "trap");
    case Intrinsic::umax: ret = val(mkIte(mkBin(Op::Ult, E(0), E(1)), E(1), E(0))); return R::Next;
    case Intrinsic::umin: ret = val(mkIte(mkBin(Op::Ult, E(0), E(1)), E(0), E(1))); return R::Next;
    case Intrinsic::smax: ret = val(mkIte(mkBin(Op::Slt, E(0), E(1)), E(1), E(0))); return R::Next;
    case Intrinsic::smin: ret = val(mkIte(mkBin(Op::Slt, E(0), E(1)), E(0), E(1))); return R::Next;
    case Intrinsic::abs:
      ret = val(mkIte(mkBin(Op::Slt, E(0), mkConst(0, w)),
                      mkBin(Op::Sub, mkConst(0, w), E(0)), E(0)));
      return R::Next;
    case Intrinsic::usub_sat:
      ret = val(mkIte(mkBin(Op::Ult, E(0), E(1)), mkConst(0, w), mkBin(Op::Sub, E(0), E(1))));
      return R::Next;
    case Intrinsic::uadd_sat: {
      Expr* s = mkBin(Op::Add, E(0), E(1));
      ret = val(mkIte(mkBin(Op::Ult, s, E(0)), mkConst(maskOf(w), w), s));
      return R::Next;
    }
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::smul_with_overflow: {
      unsigned ow = width(f->getFunctionType()->getParamType(0));
      Expr *a = ex(args[0], ow), *b = ex(args[1], ow);
      Expr *r, *o;
      unsigned ww = ow * 2;
      if (ww > 128) unsupported("wide overflow op");
      auto id = f->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow ||
                id == Intrinsic::smul_with_overflow;
      Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Op::Add
              : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Op::Sub
                                                                                              : Op::Mul;
      r = mkBin(op, a, b);
      if (!sg && op == Op::Add) o = mkBin(Op::Ult, r, a);
      else if (!sg && op == Op::Sub) o = mkBin(Op::Ult, a, b);
      else {
        Expr *wa = sg ? mkSExt(a, ww) : mkZExt(a, ww), *wb = sg ? mkSExt(b, ww) : mkZExt(b, ww);
        Expr* wr = mkBin(op, wa, wb);
        o = mkNot(mkEq(wr, sg ? mkSExt(r, ww) : mkZExt(r, ww)));
      }
      std::vector<Val> vs{val(r), val(o)};
      ret = mkAgg(std::move(vs));
      return R::Next;
    }
    case Intrinsic::ctpop: {
      Expr* a = E(0);
      Expr* r = mkConst(0, w);
      for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(a, i, 1), w));
      ret = val(r);
      return R::Next;
    }
    case Intrinsic::ctlz: {
      Expr* a = E(0);
      Expr* r = mkConst(w, w);
      for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r);
      ret = val(r);
      return R::Next;
    }
    case Intrinsic::cttz: {
      Expr* a = E(0);
      Expr* r = mkConst(w, w);
      for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r);
      ret = val(r);
      return R::Next;
    }
    case Intrinsic::bswap: {
      Expr* a = E(0);
      Expr* r = nullptr;
      for (unsigned i = 0; i < w; i += 8) {
        Expr* b = mkExtract(a, i, 8);
        r = r ? mkConcat(r, b) : b;
      }
      ret = val(r);
      return R::Next;
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      Expr* sh = mkBin(Op::URem, E(2), mkConst(w, w));
      Expr* z = mkEq(sh, mkConst(0, w));
      Expr* inv = mkBin(Op::Sub, mkConst(w, w), sh);
      Expr* r;
      if (f->getIntrinsicID() == Intrinsic::fshl)
        r = mkIte(z, E(0), mkBin(Op::Or, mkBin(Op::Shl, E(0), sh), mkBin(Op::LShr, E(1), inv)));
      else
        r = mkIte(z, E(1), mkBin(Op::Or, mkBin(Op::Shl, E(0), inv), mkBin(Op::LShr, E(1), sh)));
      ret = val(r);
      return R::Next;
    }
    case Intrinsic::eh_typeid_for: ret.c = typeIdFor(args[0].c); return R::Next;
    case Intrinsic::threadlocal_address: {
      // find the global
      uint64_t a = args[0].c;
      Thread& t = S->th[S->cur];
      const GlobalVariable* g = nullptr;
      auto* cb = cast<CallBase>(in.I);
      g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts());
      if (!g) unsupported("thread local");
      if (S->cur == 0) {
        ret.c = a;
        return R::Next;
      }
      auto it = t.tls.find(g);
      if (it == t.tls.end()) {
        uint64_t sz = DL->getTypeAllocSize(g->getValueType());
        uint64_t na = S->mem.alloc(sz, 2, false);
        if (g->hasInitializer()) {
          Obj* o = S->mem.findW(na);
          writeConst(S->mem, o, 0, g->getInitializer());
        }
        it = t.tls.emplace(g, na).first;
      }
      ret.c = it->second;
      return R::Next;
    }
    case Intrinsic::fabs: ret = val(mkFp(Op::FAbs, w, (uint8_t)w, E(0))); return R::Next;
    case Intrinsic::fmuladd:
    case Intrinsic::fma:
      ret = val(mkFp(Op::FAdd, w, (uint8_t)w, mkFp(Op::FMul, w, (uint8_t)w, E(0), E(1)), E(2)));
      return R::Next;
    case Intrinsic::vastart: {
      Frame& fr = S->th[S->cur].st.back();
      uint64_t ap = concretize(args[0], 64);
      Val v;
      v.c = 48;  // gp_offset exhausted: everything in the overflow area
      storeConcrete(ap, v, 32);
      v.c = 304;
      storeConcrete(ap + 4, v, 32);
      v.c = fr.varargs;
      storeConcrete(ap + 8, v, 64);
      v.c = 0;
      storeConcrete(ap + 16, v, 64);
      return R::Next;
    }
    case Intrinsic::vaend: return R::Next;
    case Intrinsic::floor:
    case Intrinsic::ceil:
    case Intrinsic::trunc:
    case Intrinsic::round:
    case Intrinsic::rint:
    case Intrinsic::sqrt:
    case Intrinsic::log2:
    case Intrinsic::log:
    case Intrinsic::log10:
    case Intrinsic::exp:
    case Intrinsic::pow: {
      for (auto& a : args) a = Val{nullptr, concretize(a, w)};
      auto g = [&](int i) { return w == 32 ? (double)bitsToF(args[i].c) : bitsToD(args[i].c); };
      double r = 0;
      switch (f->getIntrinsicID()) {
        case Intrinsic::floor: r = std::floor(g(0)); break;
        case Intrinsic::ceil: r = std::ceil(g(0)); break;
        case Intrinsic::trunc: r = std::trunc(g(0)); break;
        case Intrinsic::round: r = std::round(g(0)); break;
        case Intrinsic::rint: r = std::rint(g(0)); break;
        case Intrinsic::sqrt: r = std::sqrt(g(0)); break;
        case Intrinsic::log2: r = std::log2(g(0)); break;
        case Intrinsic::log: r = std::log(g(0)); break;
        case Intrinsic::log10: r = std::log10(g(0)); break;
        case Intrinsic::exp: r = std::exp(g(0)); break;
        default: r = std::pow(g(0), g(1)); break;
      }
      ret.c = (uint64_t)(w == 32 ? fToBits((float)r) : dToBits(r));
      return R::Next;
    }
    default: unsupported("intrinsic " + f->getName().str());
  }
}

// ------------------------------------------------------------ exceptions ----
uint64_t Exec::typeIdFor(uint64_t ti) {
  auto it = typeIds.find(ti);
  if (it != typeIds.end()) return it->second;
  // must not depend on exploration order: derive from the address
  uint64_t id = (ti >> 4) & 0x3fffffff;
  if (!id) id = 1;
  typeIds[ti] = id;
  return id;
}
std::string Exec::tiName(uint64_t ti) {
  if (!ti) return "";
  return readStr(load64(ti + 8));
}

bool Exec::tiBases(uint64_t ti, uint64_t target, int64_t off, int64_t& found) {
  if (ti == target || tiName(ti) == tiName(target)) {
    found = off;
    return true;
  }
  uint64_t vt = load64(ti);
  auto is = [&](const char* n) {
    auto* g = M->getNamedValue(n);
    if (!g) return false;
    auto it = gaddr.find(g);
    return it != gaddr.end() && it->second + 16 == vt;
  };
  if (is("_ZTVN10__cxxabiv120__si_class_type_infoE"))
    return tiBases(load64(ti + 16), target, off, found);
  if (is("_ZTVN10__cxxabiv121__vmi_class_type_infoE")) {
    uint64_t cnt = loadConcrete(ti + 20, 32).c;
    for (uint64_t i = 0; i < cnt; i++) {
      uint64_t b = load64(ti + 24 + i * 16);
      int64_t fl = (int64_t)load64(ti + 32 + i * 16);
      if (fl & 1) continue;  // virtual bases are handled by name only
      if (tiBases(b, target, off + (fl >> 8), found)) return true;
    }
  }
  return false;
}

bool Exec::tiMatch(uint64_t thrown, uint64_t caught, uint64_t& adj, bool) {
  if (!caught) {
    adj = 0;
    return true;
  }
  int64_t f = 0;
  if (tiBases(thrown, caught, 0, f)) {
    adj = (uint64_t)f;
    return true;
  }
  return false;
}

R Exec::unwind(uint64_t hdr, uint64_t obj, uint64_t ti) {
  Thread& t = S->th[S->cur];
  // phase 1: is there a handler at all?
  auto matchLP = [&](FInst& call, Frame& fr, uint64_t& sel, uint64_t& adj, bool& cleanup) {
    FInst& lpI = fr.f->code[call.edges[1].pc];
    auto* lp = cast<LandingPadInst>(lpI.I);
    cleanup = lp->isCleanup();
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      Constant* c = lp->getClause(i);
      if (lp->isCatch(i)) {
        uint64_t cti = constVal(c).c;
        if (tiMatch(ti, cti, adj, false)) {
          sel = typeIdFor(cti);
          return true;
        }
      } else {
        // filter: matches if the type is not listed
        bool listed = false;
        if (auto* ca = dyn_cast<ConstantArray>(c))
          for (auto& op : ca->operands()) {
            uint64_t a2;
            if (tiMatch(ti, constVal(cast<Constant>(op)).c, a2, false)) listed = true;
          }
        if (!listed) {
          sel = (uint64_t)-1 & 0xffffffff;
          adj = 0;
          return true;
        }
      }
    }
    return false;
  };
  bool any = false;
  for (size_t i = t.st.size(); i-- > 0;) {
    FInst& c = t.st[i].f->code[t.st[i].pc];
    if (c.k != K::Invoke) continue;
    uint64_t s1, a1;
    bool cl;
    if (matchLP(c, t.st[i], s1, a1, cl)) {
      any = true;
      break;
    }
  }
  if (!any) violation("exception", "uncaught exception of type " + demangle("_ZTI" + tiName(ti)));
  while (true) {
    Frame& fr = t.st.back();
    FInst& c = fr.f->code[fr.pc];
    if (c.k == K::Invoke) {
      uint64_t sel = 0, adj = 0;
      bool cl = false;
      bool m = matchLP(c, fr, sel, adj, cl);
      if (m || cl) {
        if (m) {
          Val a;
          a.c = obj + adj;
          storeConcrete(hdr + 8, a, 64);
        } else
          sel = 0;
        jump(c.edges[1]);
        Frame& f2 = S->th[S->cur].st.back();
        FInst& lpI = f2.f->code[f2.pc];
        Val o, s;
        o.c = obj;
        s.c = sel;
        std::vector<Val> vs{o, s};
        f2.regs[lpI.dst] = mkAgg(std::move(vs));
        f2.pc++;
        return R::Jumped;
      }
    }
    for (auto a : fr.allocas) S->mem.release(a);
    t.st.pop_back();
    if (t.st.empty()) unsupported("unwound past the bottom of the stack");
  }
}

// --------------------------------------------------------------- threads ----
uint64_t Exec::choose(uint64_t n, const char* name) {
  if (n == 1) return 0;
  Expr* e = freshVar(32, true, name);
  if (S->cursor >= S->dec.size()) setModel(*S, e->lo, 0);
  addCons(mkBin(Op::Ult, e, mkConst(n, 32)));
  Val v;
  v.e = e;
  return concretize(v, 32);
}

bool Exec::schedPoint() {
  if (!multi()) return false;
  Thread& t = S->th[S->cur];
  if (t.granted) {
    t.granted = false;
    return false;
  }
  t.granted = true;
  S->needSched = true;
  return true;
}

void Exec::doSchedule() {
  std::vector<int> cand;
  bool curRun = S->th[S->cur].ts == TS::Run;
  if (curRun) cand.push_back(S->cur);
  if (!curRun || S->preempts < opt.maxPreempt)
    for (size_t i = 0; i < S->th.size(); i++)
      if ((int)i != S->cur && S->th[i].ts == TS::Run) cand.push_back(i);
  if (cand.empty()) violation("deadlock", "no thread can make progress");
  stat.schedPoints++;
  if (opt.delays) {
    // every choice but the next thread in line counts
    std::rotate(cand.begin() + curRun, std::find_if(cand.begin() + curRun, cand.end(), [&](int i) { return i > S->cur; }),
                cand.end());
    if (S->preempts >= opt.maxPreempt) cand.resize(1);
  }
  uint64_t k = choose(cand.size(), "sched");
  if (opt.delays ? k > 0 : curRun && cand[k] != S->cur) S->preempts++;
  S->cur = cand[k];
  S->needSched = false;
}

void Exec::blockOn(TS ts, uint64_t what) {
  Thread& t = S->th[S->cur];
  t.ts = ts;
  t.waitOn = what;
  t.granted = true;
  S->needSched = true;
}
void Exec::wakeMutex(uint64_t m) {
  for (auto& t : S->th)
    if (t.ts == TS::BlockMutex && t.waitOn == m) t.ts = TS::Run;
}

// ---------------------------------------------------------------- driver ----
void Exec::runState() {
  try {
    uint64_t n = 0;
    bool verify = S->donated;
    while (true) {
      if (verify && S->cursor >= S->dec.size()) {
        // a donated state has been rebuilt: its model must fit
        verify = false;
        for (auto* c : S->cons)
          if (!evalIn(c, *S->model)) unsupported("replay divergence");
      }
      auto calls = solver.st.z3calls;
      step();
      if ((++n & 0xfff) == 0 || calls != solver.st.z3calls) {
        if (S->steps > opt.maxSteps) {
          stat.stepLimit++;
          endPath("step limit");
        }
        if (opt.hang && S->steps > opt.hang) violation("hang", "does not terminate");
        if (sh && sh->stop) endPath("stopped");
        if (timeUp()) {
          if (sh) sh->timeout = 1;
          endPath("time limit");
        }
      }
    }
  } catch (StateEnd&) {
  }
  delete S;
  S = nullptr;
}
