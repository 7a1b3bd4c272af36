#include <algorithm>

#include "exec.h"

Obj::Obj(uint64_t b, uint64_t n, uint8_t k, bool uninit)
    : kind(k), base(b), size(n) {
  data = (uint8_t*)calloc(n ? n : 1, 1);
  if (uninit && n) {
    size_t words = (n + 63) / 64;
    ib = (uint64_t*)calloc(words, 8);
  }
}
Obj::Obj(const Obj& o)
    : kind(o.kind), readonly(o.readonly), base(o.base), size(o.size) {
  data = (uint8_t*)malloc(size ? size : 1);
  memcpy(data, o.data, size);
  if (o.sym) {
    sym = (Expr**)malloc(size * sizeof(Expr*));
    memcpy(sym, o.sym, size * sizeof(Expr*));
  }
  if (o.ib) {
    size_t words = (size + 63) / 64;
    ib = (uint64_t*)malloc(words * 8);
    memcpy(ib, o.ib, words * 8);
  }
}
Obj::~Obj() {
  free(data);
  free(sym);
  free(ib);
}
void Obj::ensureSym() {
  if (!sym) sym = (Expr**)calloc(size ? size : 1, sizeof(Expr*));
}
void Obj::clearInit(uint64_t i) {
  if (!ib) {
    size_t words = (size + 63) / 64;
    ib = (uint64_t*)malloc(words * 8);
    memset(ib, 0xff, words * 8);
  }
  ib[i >> 6] &= ~(1ull << (i & 63));
}

Obj* Mem::find(uint64_t addr) {
  if (lastHit < objs.size()) {
    auto& o = objs[lastHit];
    if (o.second.p && addr >= o.first && addr - o.first < o.second.p->size)
      return o.second.p;
  }
  size_t lo = 0, hi = objs.size();
  while (lo < hi) {
    size_t mid = (lo + hi) / 2;
    if (objs[mid].first <= addr) lo = mid + 1;
    else hi = mid;
  }
  if (lo == 0) return nullptr;
  auto& o = objs[lo - 1];
  if (!o.second.p) return nullptr;
  if (addr - o.first < o.second.p->size ||
      (o.second.p->size == 0 && addr == o.first)) {
    lastHit = lo - 1;
    return o.second.p;
  }
  return nullptr;
}
Obj* Mem::findW(uint64_t addr) {
  Obj* o = find(addr);
  if (!o) return nullptr;
  if (o->rc > 1) {
    size_t i = lastHit;
    if (objs[i].second.p != o) {
      // zero size object or stale hint
      for (i = 0; i < objs.size(); i++)
        if (objs[i].second.p == o) break;
    }
    objs[i].second = ObjRef(new Obj(*o));
    o = objs[i].second.p;
  }
  return o;
}
uint64_t Mem::alloc(uint64_t size, uint8_t kind, bool uninit, uint64_t align) {
  if (align < 16) align = 16;
  uint64_t b = (next + align - 1) / align * align;
  next = b + size + 64;
  // drop trailing tombstones
  while (!objs.empty() && !objs.back().second.p) {
    objs.pop_back();
    dead--;
  }
  if (dead > 64 && dead * 2 > objs.size()) {
    objs.erase(std::remove_if(objs.begin(), objs.end(),
                              [](auto& x) { return !x.second.p; }),
               objs.end());
    dead = 0;
  }
  objs.push_back({b, ObjRef(new Obj(b, size, kind, uninit))});
  lastHit = objs.size() - 1;
  return b;
}
bool Mem::release(uint64_t base) {
  size_t lo = 0, hi = objs.size();
  while (lo < hi) {
    size_t mid = (lo + hi) / 2;
    if (objs[mid].first < base) lo = mid + 1;
    else hi = mid;
  }
  if (lo >= objs.size() || objs[lo].first != base || !objs[lo].second.p)
    return false;
  objs[lo].second = ObjRef();
  dead++;
  return true;
}
