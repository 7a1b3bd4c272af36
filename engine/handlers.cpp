#include <cmath>

#include "symx.h"

using namespace llvm;

static void setModelVar(State& s, uint32_t id, u128 v) {
  auto m = std::make_shared<Model>(*s.model);
  if (m->size() <= id) m->resize(id + 1, 0);
  (*m)[id] = v;
  s.model = m;
}

void Exec::registerHandlers() {
  auto add = [&](const char* n, HandlerFn f) {
    handlerIdx[n] = handlers.size();
    handlers.push_back(f);
  };
  for (auto n : {"symx_u64", "symx_u32", "symx_u16", "symx_u8"}) add(n, &Exec::h_symbolic);
  add("symx_range", &Exec::h_range);
  add("symx_choice", &Exec::h_choice);
  add("symx_concretize", &Exec::h_concretize);
  add("symx_assume", &Exec::h_assume);
  add("symx_assert", &Exec::h_assert);
  add("symx_cover", &Exec::h_cover);
  add("symx_observe", &Exec::h_observe);
  add("symx_param", &Exec::h_param);
  add("symx_native", &Exec::h_native);
  add("symx_unwind", &Exec::h_unwind);
  add("__dynamic_cast", &Exec::h_dyncast);
  add("malloc", &Exec::h_malloc);
  add("symx_alloc", &Exec::h_malloc);
  add("calloc", &Exec::h_calloc);
  add("free", &Exec::h_free);
  add("symx_free", &Exec::h_free);
  for (auto n : {"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}) add(n, &Exec::h_memcpy);
  add("memset", &Exec::h_memset);
  add("memcmp", &Exec::h_memcmp);
  add("bcmp", &Exec::h_memcmp);
  add("abort", &Exec::h_abort);
  add("_exit", &Exec::h_abort);
  add("exit", &Exec::h_abort);
  add("quick_exit", &Exec::h_abort);
  add("symx_abort", &Exec::h_abort);
  add("symx_nop", &Exec::h_nop);
  add("__cxa_atexit", &Exec::h_zero);
  add("__cxa_thread_atexit", &Exec::h_zero);
  add("atexit", &Exec::h_zero);
  add("pthread_mutex_init", &Exec::h_zero);
  add("pthread_mutex_destroy", &Exec::h_zero);
  add("pthread_cond_init", &Exec::h_zero);
  add("pthread_cond_destroy", &Exec::h_zero);
  add("pthread_rwlock_destroy", &Exec::h_zero);
  add("symx_thread_create", &Exec::h_thread_create);
  add("symx_thread_join", &Exec::h_thread_join);
  add("pthread_mutex_lock", &Exec::h_mutex_lock);
  add("pthread_mutex_trylock", &Exec::h_mutex_trylock);
  add("pthread_mutex_unlock", &Exec::h_mutex_unlock);
  add("pthread_rwlock_rdlock", &Exec::h_rw_rdlock);
  add("pthread_rwlock_wrlock", &Exec::h_rw_wrlock);
  add("pthread_rwlock_unlock", &Exec::h_rw_unlock);
  add("pthread_cond_wait", &Exec::h_cond_wait);
  add("pthread_cond_signal", &Exec::h_cond_signal);
  add("pthread_cond_broadcast", &Exec::h_cond_broadcast);
  add("pthread_self", &Exec::h_self);
  add("symx_yield", &Exec::h_yield);
  add("sched_yield", &Exec::h_yield);
  add("symx_futex_wait", &Exec::h_futex_wait);
  add("symx_futex_wake", &Exec::h_futex_wake);
  add("symx_print", &Exec::h_print);
  add("symx_fail", &Exec::h_fail);
  add("symx_endpath", &Exec::h_endpath);
  add("symx_is_symbolic", &Exec::h_is_symbolic);
  add("symx_is_valid", &Exec::h_is_valid);
  add("symx_heapcount", &Exec::h_heapcount);
  add("symx_unsupported", &Exec::h_unsupported);
  add("symx_fmtdouble", &Exec::h_fmtdouble);
  for (auto n : {"pow", "sqrt", "log", "log2", "log10", "exp", "floor", "ceil", "round", "trunc", "fmod",
                 "sqrtf", "powf", "logf", "lround"})
    add(n, &Exec::h_libm);
}
int Exec::handlerFor(const std::string& n) {
  auto it = handlerIdx.find(n);
  return it == handlerIdx.end() ? -1 : it->second;
}

R Exec::h_symbolic(FInst& in, Args& a, Val& ret) {
  ret.e = freshVar(in.w, true, readStr(concretize(a[0], 64)));
  return R::Next;
}

R Exec::h_range(FInst& in, Args& a, Val& ret) {
  uint64_t lo = concretize(a[1], 64), hi = concretize(a[2], 64);
  std::string n = readStr(concretize(a[0], 64));
  if (lo > hi) unsupported("empty range " + n);
  unsigned w = hi < 256 ? 8 : hi < 65536 ? 16 : hi < (1ull << 32) ? 32 : 64;
  Expr* e = freshVar(w, true, n);
  if (S->cursor >= S->dec.size()) setModelVar(*S, e->lo, lo);
  if (lo) addCons(mkBin(Op::Ule, mkConst(lo, w), e));
  if (hi != mask64(w)) addCons(mkBin(Op::Ule, e, mkConst(hi, w)));
  ret = val(mkZExt(e, 64));
  if (lo == hi) {
    addCons(mkEq(e, mkConst(lo, w)));
    ret = Val();
    ret.c = lo;
  }
  return R::Next;
}

R Exec::h_choice(FInst& in, Args& a, Val& ret) {
  std::string n = readStr(concretize(a[0], 64));
  uint64_t k = concretize(a[1], 64);
  if (!k) unsupported("empty choice");
  if (k == 1) {
    // consumed by the native replay as well
    Expr* e = freshVar(32, true, n);
    if (S->cursor >= S->dec.size()) setModelVar(*S, e->lo, 0);
    addCons(mkEq(e, mkConst(0, 32)));
    return R::Next;
  }
  ret.c = choose(k, n.c_str());
  return R::Next;
}
R Exec::h_concretize(FInst& in, Args& a, Val& ret) {
  ret.c = concretize(a[0], 64);
  return R::Next;
}
R Exec::h_assume(FInst& in, Args& a, Val& ret) {
  assume(ex(a[0], 1));
  return R::Next;
}
R Exec::h_assert(FInst& in, Args& a, Val& ret) {
  check(ex(a[0], 1), readStr(a[1].c));
  return R::Next;
}
R Exec::h_cover(FInst& in, Args& a, Val& ret) {
  if (S->cursor >= S->dec.size()) covers[readStr(a[0].c)]++;
  return R::Next;
}
R Exec::h_observe(FInst& in, Args& a, Val& ret) {
  S->observed.push_back(a[0]);
  return R::Next;
}
R Exec::h_param(FInst& in, Args& a, Val& ret) {
  auto it = opt.params.find(readStr(a[0].c));
  if (it == opt.params.end()) ret = a[1];
  else ret.c = it->second;
  return R::Next;
}
R Exec::h_native(FInst& in, Args& a, Val& ret) { return R::Next; }
R Exec::h_unwind(FInst& in, Args& a, Val& ret) { return unwind(a[0].c, a[1].c, a[2].c); }

R Exec::h_dyncast(FInst& in, Args& a, Val& ret) {
  uint64_t sub = concretize(a[0], 64);
  if (!sub) return R::Next;
  uint64_t vptr = load64(sub);
  int64_t off = (int64_t)load64(vptr - 16);
  uint64_t ti = load64(vptr - 8);
  int64_t f = 0;
  if (tiBases(ti, a[2].c, 0, f)) ret.c = sub + off + f;
  return R::Next;
}

R Exec::h_malloc(FInst& in, Args& a, Val& ret) {
  uint64_t n = concretize(a[0], 64);
  if (n > (1ull << 28)) return R::Next;  // null
  ret.c = S->mem.alloc(n, 0, true);
  return R::Next;
}
R Exec::h_calloc(FInst& in, Args& a, Val& ret) {
  uint64_t n = concretize(a[0], 64), m = concretize(a[1], 64);
  if (n > (1ull << 26) || m > (1ull << 26) || n * m > (1ull << 26)) return R::Next;
  ret.c = S->mem.alloc(n * m, 0, false);
  return R::Next;
}
R Exec::h_free(FInst& in, Args& a, Val& ret) {
  uint64_t p = concretize(a[0], 64);
  if (!p) return R::Next;
  Obj* o = S->mem.find(p);
  if (!o || o->base != p || o->kind != 0) violation("memory", "invalid or double free");
  S->mem.release(p);
  return R::Next;
}
R Exec::h_memcpy(FInst& in, Args& a, Val& ret) {
  uint64_t n = concretize(a[2], 64);
  if (n) {
    uint64_t d = resolve(a[0], n, true, "memcpy");
    uint64_t s = resolve(a[1], n, false, "memcpy");
    copyMem(d, s, n);
  }
  ret = a[0];
  return R::Next;
}
R Exec::h_memset(FInst& in, Args& a, Val& ret) {
  uint64_t n = concretize(a[2], 64);
  if (n) {
    uint64_t d = resolve(a[0], n, true, "memset");
    Val v = a[1];
    setMem(d, v, n);
  }
  ret = a[0];
  return R::Next;
}
R Exec::h_memcmp(FInst& in, Args& a, Val& ret) {
  uint64_t n = concretize(a[2], 64);
  if (!n) return R::Next;
  uint64_t p = resolve(a[0], n, false, "memcmp"), q = resolve(a[1], n, false, "memcmp");
  objAt(p, n, false, "memcmp read");
  objAt(q, n, false, "memcmp read");
  bool b = in.callee && in.callee->getName() == "bcmp";
  if (b) {
    Expr* all = mkConst(1, 1);
    for (uint64_t i = 0; i < n; i++) {
      if (i % 8 == 0 && i + 8 <= n) {  // keep whole words together
        Expr *x = ex(loadConcrete(p + i, 64), 64), *y = ex(loadConcrete(q + i, 64), 64);
        if (x->op != Op::Concat && y->op != Op::Concat) {
          all = mkAnd1(all, mkEq(x, y));
          i += 7;
          continue;
        }
      }
      all = mkAnd1(all, mkEq(ex(loadConcrete(p + i, 8), 8), ex(loadConcrete(q + i, 8), 8)));
    }
    ret = val(mkIte(all, mkConst(0, 32), mkConst(1, 32)));
    return R::Next;
  }
  Expr* r = mkConst(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    Expr* x = ex(loadConcrete(p + i, 8), 8);
    Expr* y = ex(loadConcrete(q + i, 8), 8);
    r = mkIte(mkEq(x, y), r,
              mkIte(mkBin(Op::Ult, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32)));
  }
  ret = val(r);
  return R::Next;
}
R Exec::h_abort(FInst& in, Args& a, Val& ret) {
  violation("abort", "abort or exit called");
}
R Exec::h_nop(FInst&, Args&, Val&) { return R::Next; }
R Exec::h_zero(FInst&, Args&, Val& ret) {
  ret.c = 0;
  return R::Next;
}
R Exec::h_typename(FInst&, Args&, Val&) { return R::Next; }

// ---- threads
R Exec::h_thread_create(FInst& in, Args& a, Val& ret) {
  uint64_t fa = concretize(a[0], 64);
  auto it = fnAt.find(fa);
  if (it == fnAt.end()) violation("memory", "thread with invalid function");
  int id = S->th.size();
  S->th.emplace_back();
  int cur = S->cur;
  Args args{a[1]};
  S->cur = id;
  pushFrame(getFunc(it->second), args, nullptr);
  S->cur = cur;
  S->needSched = true;
  ret.c = id;
  return R::Next;
}
R Exec::h_thread_join(FInst& in, Args& a, Val& ret) {
  uint64_t id = concretize(a[0], 64);
  if (id >= S->th.size()) unsupported("join of unknown thread");
  if (S->th[id].ts == TS::Done) {
    S->th[S->cur].granted = false;
    return R::Next;
  }
  blockOn(TS::BlockJoin, id);
  return R::Redo;
}
R Exec::h_mutex_lock(FInst& in, Args& a, Val& ret) {
  uint64_t m = concretize(a[0], 64);
  if (schedPoint()) return R::Redo;
  objAt(m, 8, false, "mutex");
  auto it = S->mutexOwner.find(m);
  bool readers = false;
  if (it == S->mutexOwner.end() && !readers) {
    S->mutexOwner[m] = S->cur + 1;
    return R::Next;
  }
  if (it->second == S->cur + 1) violation("deadlock", "mutex locked twice by one thread");
  blockOn(TS::BlockMutex, m);
  return R::Redo;
}
R Exec::h_mutex_trylock(FInst& in, Args& a, Val& ret) {
  uint64_t m = concretize(a[0], 64);
  if (schedPoint()) return R::Redo;
  if (S->mutexOwner.count(m)) {
    ret.c = 16;
    return R::Next;
  }
  S->mutexOwner[m] = S->cur + 1;
  return R::Next;
}
R Exec::h_mutex_unlock(FInst& in, Args& a, Val& ret) {
  uint64_t m = concretize(a[0], 64);
  auto it = S->mutexOwner.find(m);
  if (it == S->mutexOwner.end() || it->second != S->cur + 1)
    violation("sync", "unlock of a mutex not held");
  S->mutexOwner.erase(it);
  wakeMutex(m);
  return R::Next;
}
R Exec::h_rw_rdlock(FInst& in, Args& a, Val& ret) {
  uint64_t m = concretize(a[0], 64);
  if (schedPoint()) return R::Redo;
  if (S->mutexOwner.count(m)) {
    if (S->mutexOwner[m] == S->cur + 1) {
      ret.c = 35;  // EDEADLK
      return R::Next;
    }
    blockOn(TS::BlockMutex, m);
    return R::Redo;
  }
  S->extra[m]++;
  return R::Next;
}
R Exec::h_rw_wrlock(FInst& in, Args& a, Val& ret) {
  uint64_t m = concretize(a[0], 64);
  if (schedPoint()) return R::Redo;
  auto it = S->extra.find(m);
  if (S->mutexOwner.count(m) || (it != S->extra.end() && it->second)) {
    blockOn(TS::BlockMutex, m);
    return R::Redo;
  }
  S->mutexOwner[m] = S->cur + 1;
  return R::Next;
}
R Exec::h_rw_unlock(FInst& in, Args& a, Val& ret) {
  uint64_t m = concretize(a[0], 64);
  auto it = S->mutexOwner.find(m);
  if (it != S->mutexOwner.end()) {
    if (it->second != S->cur + 1) violation("sync", "unlock of a lock not held");
    S->mutexOwner.erase(it);
  } else {
    if (!S->extra[m]) violation("sync", "unlock of a lock not held");
    S->extra[m]--;
  }
  wakeMutex(m);
  return R::Next;
}
R Exec::h_cond_wait(FInst& in, Args& a, Val& ret) {
  uint64_t c = concretize(a[0], 64), m = concretize(a[1], 64);
  Thread& t = S->th[S->cur];
  if (t.signaled) {
    if (S->mutexOwner.count(m)) {
      blockOn(TS::BlockMutex, m);
      return R::Redo;
    }
    t.signaled = false;
    t.granted = false;
    S->mutexOwner[m] = S->cur + 1;
    return R::Next;
  }
  auto it = S->mutexOwner.find(m);
  if (it == S->mutexOwner.end() || it->second != S->cur + 1)
    violation("sync", "condition wait without holding the mutex");
  S->mutexOwner.erase(it);
  wakeMutex(m);
  blockOn(TS::BlockCond, c);
  return R::Redo;
}
R Exec::h_cond_signal(FInst& in, Args& a, Val& ret) {
  uint64_t c = concretize(a[0], 64);
  if (schedPoint()) return R::Redo;
  std::vector<int> w;
  for (size_t i = 0; i < S->th.size(); i++)
    if (S->th[i].ts == TS::BlockCond && S->th[i].waitOn == c) w.push_back(i);
  if (w.empty()) return R::Next;
  uint64_t k = choose(w.size(), "sched");
  S->th[w[k]].ts = TS::Run;
  S->th[w[k]].signaled = true;
  return R::Next;
}
R Exec::h_cond_broadcast(FInst& in, Args& a, Val& ret) {
  uint64_t c = concretize(a[0], 64);
  if (schedPoint()) return R::Redo;
  for (auto& t : S->th)
    if (t.ts == TS::BlockCond && t.waitOn == c) {
      t.ts = TS::Run;
      t.signaled = true;
    }
  return R::Next;
}
R Exec::h_self(FInst& in, Args& a, Val& ret) {
  ret.c = S->cur + 1;
  return R::Next;
}
R Exec::h_yield(FInst& in, Args& a, Val& ret) {
  if (schedPoint()) return R::Redo;
  return R::Next;
}
// symx_futex_wait(addr, val): block while *addr == val
R Exec::h_futex_wait(FInst& in, Args& a, Val& ret) {
  uint64_t p = concretize(a[0], 64);
  if (schedPoint()) return R::Redo;
  uint64_t v = concretize(a[1], 32);
  uint64_t cur = concretize(loadConcrete(p, 32), 32);
  if (cur != v) return R::Next;
  blockOn(TS::BlockFutex, p);
  return R::Redo;
}
R Exec::h_futex_wake(FInst& in, Args& a, Val& ret) {
  uint64_t p = concretize(a[0], 64);
  if (schedPoint()) return R::Redo;
  for (auto& t : S->th)
    if (t.ts == TS::BlockFutex && t.waitOn == p) t.ts = TS::Run;
  return R::Next;
}
R Exec::h_print(FInst& in, Args& a, Val& ret) {
  std::string s = readStr(concretize(a[0], 64));
  std::string v = a.size() > 1 ? (a[1].e ? show(a[1].e) : std::to_string(a[1].c)) : "";
  fprintf(stderr, "[print] %s %s\n", s.c_str(), v.c_str());
  return R::Next;
}
R Exec::h_libm(FInst& in, Args& a, Val& ret) {
  std::string n = in.callee ? in.callee->getName().str() : "?";
  for (auto& x : a) x = Val{nullptr, concretize(x, in.w)};
  if (in.w != 64) unsupported("float math " + n);
  double x = bitsToD(a[0].c), y = a.size() > 1 ? bitsToD(a[1].c) : 0, r = 0;
  if (n == "pow") r = std::pow(x, y);
  else if (n == "sqrt") r = std::sqrt(x);
  else if (n == "log") r = std::log(x);
  else if (n == "log2") r = std::log2(x);
  else if (n == "log10") r = std::log10(x);
  else if (n == "exp") r = std::exp(x);
  else if (n == "floor") r = std::floor(x);
  else if (n == "ceil") r = std::ceil(x);
  else if (n == "round") r = std::round(x);
  else if (n == "trunc") r = std::trunc(x);
  else if (n == "fmod") r = std::fmod(x, y);
  else if (n == "lround") {
    ret.c = (uint64_t)std::lround(x);
    return R::Next;
  } else
    unsupported("math function " + n);
  ret.c = (uint64_t)dToBits(r);
  return R::Next;
}
R Exec::h_fail(FInst& in, Args& a, Val& ret) {
  violation("assert", readStr(concretize(a[0], 64)));
}
R Exec::h_endpath(FInst& in, Args& a, Val& ret) { endPath("ended by harness"); }
R Exec::h_is_symbolic(FInst& in, Args& a, Val& ret) {
  ret.c = a[0].e != nullptr;
  return R::Next;
}
R Exec::h_is_valid(FInst& in, Args& a, Val& ret) {
  uint64_t p = concretize(a[0], 64), n = concretize(a[1], 64);
  Obj* o = (p >= 0x10000000 && p < 0x40000000) ? cmem.find(p) : S->mem.find(p);
  ret.c = o && p - o->base + n <= o->size;
  return R::Next;
}
R Exec::h_heapcount(FInst& in, Args& a, Val& ret) {
  uint64_t c = 0;
  for (auto& o : S->mem.objs)
    if (o.second.p && o.second.p->kind == 0) c++;
  ret.c = c;
  return R::Next;
}
R Exec::h_unsupported(FInst& in, Args& a, Val& ret) { unsupported(readStr(concretize(a[0], 64))); }
R Exec::h_fmtdouble(FInst& in, Args& a, Val& ret) {
  uint64_t out = concretize(a[0], 64), n = concretize(a[1], 32);
  if (a[2].e) unsupported("formatting a symbolic floating point number");
  int prec = (int)concretize(a[3], 32), conv = (int)concretize(a[4], 32);
  char b[512];
  std::string f = "%.*";
  f += (char)conv;
  int k = snprintf(b, sizeof b, f.c_str(), prec, bitsToD(a[2].c));
  if (k < 0 || (uint64_t)k >= n || k >= 512) unsupported("long floating point number");
  for (int i = 0; i <= k; i++) {
    Val v;
    v.c = (uint8_t)b[i];
    storeConcrete(out + i, v, 8);
  }
  ret.c = k;
  return R::Next;
}
