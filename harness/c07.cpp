// C07: transitive paths return exactly the nodes reachable in the given length.
#include "qe.h"
#include "engine/TransitivePath.h"
#include "index/Index.h"
#include "engine/IndexScan.h"

// descriptors may name entities; the vocabulary is empty here
template <class S, class C>
template <typename, typename>
const std::optional<string> Vocabulary<S, C>::idToOptionalString(Id id) const {
  return std::nullopt;
}
template const std::optional<string> RdfsVocabulary::idToOptionalString<CompressedString, void>(Id id) const;

static const size_t INF = std::numeric_limits<size_t>::max();

struct Graph {
  std::shared_ptr<TableOp> t;
  size_t e, lc, rc;
  std::vector<Id> l, r;
  Graph(World& w, size_t n, bool sorted) : e(n) {
    size_t width = symx_param("subw", 2);
    lc = width > 2 || symx_param("swapcols", 0) ? 1 : 0;
    rc = lc == 0 ? 1 : 0;
    t = std::make_shared<TableOp>(w, "G", width);
    t->data.resize(n);
    for (size_t i = 0; i < n; i++) {
      for (size_t c = 0; c < width; c++) t->data(i, c) = 7000 + 10 * i + c;
      t->data(i, lc) = symx_u64("from");
      t->data(i, rc) = symx_u64("to");
      l.push_back(t->data(i, lc));
      r.push_back(t->data(i, rc));
    }
    t->vars["?l"] = lc;
    t->vars["?r"] = rc;
    if (sorted) {
      assumeSorted(t->data, {lc});
      t->sorted = {lc};
    }
  }
  // is there a walk of length lo..hi (hi == INF: any length >= lo) from s to v?
  // backwards: from v to s
  bool walk(Id s, Id v, size_t lo, size_t hi) const {
    size_t top = hi == INF ? lo + e : hi;
    std::vector<uint8_t> lev(e), nxt(e);
    bool found = false;
    for (size_t k = 1; k <= top; k++) {
      for (size_t j = 0; j < e; j++) {
        bool x = false;
        if (k == 1)
          x = l[j] == s;
        else
          for (size_t i = 0; i < e; i++) x |= (bool)lev[i] & (r[i] == l[j]);
        nxt[j] = x;
      }
      lev = nxt;
      if (k >= lo)
        for (size_t j = 0; j < e; j++) found |= (bool)lev[j] & (r[j] == v);
    }
    return found;
  }
  bool firstL(size_t i) const {
    bool f = true;
    for (size_t j = 0; j < i; j++) f &= l[j] != l[i];
    return f;
  }
  bool firstR(size_t i) const {
    bool f = true;
    for (size_t j = 0; j < i; j++) f &= r[j] != r[i];
    return f;
  }
};

static void lengths(size_t& lo, size_t& hi) {
  // [min, max] out of the small ranges and the unlimited ones
  size_t maxMin = symx_param("maxmin", 2), maxMax = symx_param("maxmax", 3);
  lo = 1 + symx_choice("min", maxMin);
  size_t k = symx_choice("max", maxMax + 1);
  hi = k == maxMax ? INF : 1 + k;
  symx_assume(hi >= lo);
}

// ends: 0 both variable, 1 left fixed, 2 right fixed, 3 both fixed
extern "C" void c07_plain() {
  World w;
  size_t ends = symx_param("ends", 0);
  size_t e = symx_param("fixe", 0) ? symx_param("e", 3) : symx_choice("e", symx_param("e", 3) + 1);
  Graph g(w, e, ends == 0);
  size_t lo, hi;
  lengths(lo, hi);
  bool lv = ends == 0 || ends == 2, rv = ends <= 1;
  Id left = lv ? 0 : symx_param("atedge", 0) && e ? g.l[0] : symx_u64("left");
  Id right = rv ? 0 : symx_param("atedge", 0) && e ? g.r[e - 1] : symx_u64("right");
  TransitivePath p(w.qec(), treeOf(w, g.t), lv, rv, g.lc, g.rc, left, right, "?a", "?b", lo, hi);
  ResultTable res(w.alloc());
  sx_hash_policy = symx_param("hash", 0);
  compute(p, res);
  sx_hash_policy = 0;
  symx_assert(res._data.cols() == 2, "width of the path table");
  Expected x;
  if (ends == 0)
    for (size_t i = 0; i < e; i++)
      for (size_t j = 0; j < e; j++)
        x.add({g.l[i], g.r[j]}, g.firstL(i) & g.firstR(j) & g.walk(g.l[i], g.r[j], lo, hi));
  if (ends == 1)
    for (size_t j = 0; j < e; j++) x.add({left, g.r[j]}, g.firstR(j) & g.walk(left, g.r[j], lo, hi));
  if (ends == 2)
    for (size_t i = 0; i < e; i++) x.add({g.l[i], right}, g.firstL(i) & g.walk(g.l[i], right, lo, hi));
  if (ends == 3) x.add({left, right}, g.walk(left, right, lo, hi));
  assertBag(res._data, x, "number of connected pairs", "connected pairs");
  symx_assert(isSorted(res._data, p.getResultSortedOn()), "the pairs are sorted as announced");
  // the order of the pairs depends on the hash containers
  symx_observe(res._data.size());
  symx_cover("end");
}

// an end bound by another table of `width` columns
extern "C" void c07_bound() {
  World w;
  bool isLeft = symx_param("left", 1);
  size_t width = symx_param("width", 2);
  size_t e = symx_choice("e", symx_param("e", 2) + 1);
  size_t n = symx_param("fixn", 0) ? symx_param("n", 2) : symx_choice("n", symx_param("n", 2) + 1);
  Graph g(w, e, false);
  size_t lo, hi;
  lengths(lo, hi);
  bool fixedOther = symx_param("fixed", 0);
  Id other = fixedOther ? symx_u64("other") : 0;
  TransitivePath p(w.qec(), treeOf(w, g.t), !(fixedOther && !isLeft), !(fixedOther && isLeft), g.lc, g.rc, other, other,
                   "?a", "?b", lo, hi);
  size_t col = symx_choice("col", width);
  auto t = keyedTable(w, "B", width, {col}, n, 1000);
  for (size_t i = 0; i < n; i++) symx_assume(t->data(i, col) <= ID_NO_VALUE);  // ids
  const char* names[] = {"?u", "?v", "?w", "?x"};
  for (size_t c = 0; c < width; c++) t->vars[c == col ? (isLeft ? "?a" : "?b") : names[c]] = c;
  auto b = isLeft ? p.bindLeftSide(treeOf(w, t), col) : p.bindRightSide(treeOf(w, t), col);
  ResultTable res(w.alloc());
  sx_hash_policy = symx_param("hash", 0);
  compute(*b, res);
  sx_hash_policy = 0;
  auto cols = b->getVariableColumns();
  symx_assert(res._data.cols() == width + 1, "width of the bound path table");
  Expected x;
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < e; j++) {
      Id start = t->data(i, col);
      Row row;
      row.n = width + 1;
      row.v[cols.at("?a")] = isLeft ? start : g.l[j];
      row.v[cols.at("?b")] = isLeft ? g.r[j] : start;
      for (size_t c = 0; c < width; c++)
        if (c != col) row.v[cols.at(names[c])] = t->data(i, c);
      bool cond = isLeft ? g.firstR(j) & g.walk(start, g.r[j], lo, hi) : g.firstL(j) & g.walk(g.l[j], start, lo, hi);
      if (fixedOther) cond &= (isLeft ? g.r[j] : g.l[j]) == other;
      x.add(row, cond);
    }
  assertBag(res._data, x, "number of connected rows", "connected rows with their other columns");
  symx_assert(isSorted(res._data, b->getResultSortedOn()), "the rows are sorted as announced");
  symx_observe(res._data.size());
  symx_cover("end");
}
