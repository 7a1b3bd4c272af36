// C06: sorting permutes rows into order; DISTINCT keeps one row per combination.
#include "qe.h"
#include "engine/Distinct.h"
#include "engine/OrderBy.h"
#include "engine/Sort.h"

static std::shared_ptr<TableOp> table(World& w, size_t cols, std::vector<size_t> keys, size_t n) {
  auto t = keyedTable(w, "T", cols, keys, n, 1000, false);
  const char* names[] = {"?a", "?b", "?c", "?d", "?e", "?f"};
  for (size_t c = 0; c < cols; c++) t->vars[names[c]] = c;
  return t;
}
static bool ordered(const IdTable& t, const std::vector<pair<size_t, bool>>& by) {
  bool ok = true;
  for (size_t i = 1; i < t.size(); i++) {
    bool lt = false, eq = true;
    for (auto [c, desc] : by) {
      lt |= eq & (desc ? t(i - 1, c) > t(i, c) : t(i - 1, c) < t(i, c));
      eq &= t(i - 1, c) == t(i, c);
    }
    ok &= lt | eq;
  }
  return ok;
}
static void permutation(const IdTable& got, const TableOp& t) {
  Expected e;
  for (size_t i = 0; i < t.data.size(); i++) e.add(rowOf(t.data, i));
  symx_assert(got.cols() == t.data.cols(), "width of the sorted table");
  assertBag(got, e, "number of sorted rows", "the sorted rows are the input rows");
}
static void types(const ResultTable& res, const TableOp& t) {
  for (size_t c = 0; c < t.types.size(); c++) symx_assert(res.getResultType(c) == t.types[c], "column types are kept");
  symx_assert(res._localVocab == t.localVocab, "assembled strings are kept");
}

extern "C" void c06_sort() {
  World w;
  size_t cols = symx_param("cols", 2), n = symx_choice("n", symx_param("n", 4) + 1);
  size_t col = symx_choice("col", cols);
  auto t = table(w, cols, {col}, n);
  t->types[0] = Type::VERBATIM;
  Sort s(w.qec(), treeOf(w, t), col);
  ResultTable res(w.alloc());
  compute(s, res);
  permutation(res._data, *t);
  symx_assert(ordered(res._data, {{col, false}}), "order of the sorted rows");
  symx_assert(isSorted(res._data, s.getResultSortedOn()) & isSorted(res._data, res._sortedBy), "announced order");
  types(res, *t);
  symx_observe(res._data.size());
  symx_cover("end");
}

extern "C" void c06_orderBy() {
  World w;
  size_t cols = symx_param("cols", 3), n = symx_choice("n", symx_param("n", 3) + 1);
  size_t k = 1 + symx_choice("k", symx_param("keys", 2));
  std::vector<pair<size_t, bool>> by;
  std::vector<size_t> keys;
  for (size_t i = 0; i < k; i++) {
    size_t c = symx_choice("col", cols);
    by.push_back({c, symx_choice("desc", 2) == 1});
    keys.push_back(c);
  }
  auto t = table(w, cols, keys, n);
  t->types[1] = Type::VERBATIM;
  OrderBy s(w.qec(), treeOf(w, t), by);
  ResultTable res(w.alloc());
  compute(s, res);
  permutation(res._data, *t);
  symx_assert(ordered(res._data, by), "order of the sorted rows");
  types(res, *t);
  symx_observe(res._data.size());
  symx_cover("end");
}

// more rows than the small-range code of the sort algorithm handles: fixed
// values in several patterns with `free` arbitrary ones among them
extern "C" void c06_sortLarge() {
  World w;
  size_t n = symx_param("n", 20), free = symx_param("free", 1), pattern = symx_choice("pattern", 4);
  size_t cols = symx_param("cols", 2);
  auto t = table(w, cols, {}, n);
  for (size_t i = 0; i < n; i++) {
    Id v = pattern == 0 ? i : pattern == 1 ? n - i : pattern == 2 ? 5 : (i * 7) % 11;
    if (i % 7 == 3 && free) {
      v = symx_u64("T");
      free--;
    }
    t->data(i, 0) = v;
  }
  bool desc = symx_param("desc", 0);
  std::vector<pair<size_t, bool>> by{{0, desc}, {1, false}};
  OrderBy s(w.qec(), treeOf(w, t), by);
  ResultTable res(w.alloc());
  compute(s, res);
  symx_assert(res._data.size() == n, "number of sorted rows");
  symx_assert(ordered(res._data, by), "order of the sorted rows");
  // every input row has a distinct tag in its last column: each appears once,
  // with its other values
  bool ok = true;
  std::vector<uint8_t> seen(n);
  for (size_t i = 0; i < n; i++) {
    Id tag = symx_concretize(res._data(i, cols - 1));
    size_t k = (tag - 1000 - (cols - 1)) / 10;
    ok &= k < n;
    if (k < n) {
      ok &= !seen[k];
      seen[k] = 1;
      ok &= sameRow(res._data, i, t->data, k);
    }
  }
  symx_assert(ok, "the sorted rows are the input rows");
  symx_observe(res._data.size());
  symx_cover("end");
}

extern "C" void c06_distinct() {
  World w;
  size_t cols = symx_param("cols", 3), n = symx_choice("n", symx_param("n", 4) + 1);
  size_t k = 1 + symx_choice("k", symx_param("keys", 2));
  std::vector<size_t> keys;
  for (size_t i = 0; i < k; i++) keys.push_back(symx_choice("col", cols));
  auto t = table(w, cols, keys, n);
  assumeSorted(t->data, keys);
  t->sorted = keys;
  t->types[2] = Type::VERBATIM;
  Distinct d(w.qec(), treeOf(w, t), keys);
  ResultTable res(w.alloc());
  compute(d, res);
  // one row per combination, and each is an input row
  Expected e;
  size_t groups = 0;
  for (size_t i = 0; i < n; i++) {
    bool same = i > 0;
    for (size_t c : keys)
      if (i > 0) same &= t->data(i, c) == t->data(i - 1, c);
    groups += !same;
  }
  symx_assert(res._data.cols() == cols, "width of the distinct table");
  symx_assert(res._data.size() == groups, "number of distinct rows");
  bool ok = true;
  for (size_t i = 0; i < res._data.size(); i++) {
    bool in = false;
    for (size_t j = 0; j < n; j++) in |= sameRow(res._data, i, t->data, j);
    ok &= in;
    bool differs = i == 0;
    for (size_t c : keys)
      if (i > 0) differs |= res._data(i, c) != res._data(i - 1, c);
    ok &= differs;
  }
  symx_assert(ok, "distinct rows are unaltered input rows");
  symx_assert(isSorted(res._data, d.getResultSortedOn()), "announced order");
  types(res, *t);
  observeTable(res._data);
  symx_cover("end");
}
