// C21: text postings are aggregated per entity (or combination of entities)
// with their number and best contexts.
#include "index/FTSAlgorithms.h"
#include "global/Constants.h"
#include "engine/CallFixedSize.h"
#include "sx.h"

static std::vector<Id> cids, eids;
static std::vector<Score> scores;
// n postings in context order, each entity at most once per context. With
// `several` variables the score belongs to the context.
static void postings(size_t n, bool several) {
  for (size_t i = 0; i < n; i++) {
    Id c = symx_u64("context"), e = symx_u64("entity");
    Score s = symx_u16("score");
    if (i > 0) symx_assume(cids.back() <= c);
    for (size_t j = 0; j < i; j++) {
      symx_assume((cids[j] != c) | (eids[j] != e));
      if (several) symx_assume((cids[j] != c) | (scores[j] == s));
    }
    cids.push_back(c);
    eids.push_back(e);
    scores.push_back(s);
  }
}

// One possible row before the aggregation.
struct Item {
  bool valid;
  Id cid;
  Score score;
  std::array<Id, 3> key;
};
static std::vector<Item> items;
static bool sameKey(const std::array<Id, 3>& a, const std::array<Id, 3>& b) {
  return (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]);
}
// r has rows (context, count, key...): per key the number of items and the
// contexts of the `k` best ones.
static void checkResult(const IdTable& r, size_t k, size_t keys) {
  auto keyOf = [&](size_t i) {
    std::array<Id, 3> x{0, 0, 0};
    for (size_t c = 0; c < keys; c++) x[c] = r(i, 2 + c);
    return x;
  };
  bool known = true, count = true, once = true, best = true, number = true;
  uint64_t sum = 0;
  for (size_t i = 0; i < r.size(); i++) {
    auto key = keyOf(i);
    bool found = false;
    size_t n = 0, rows = 0;
    for (auto& it : items) {
      bool mine = it.valid & sameKey(it.key, key);
      found |= mine & (it.cid == r(i, 0));
      n += mine;
    }
    for (size_t j = 0; j < r.size(); j++) {
      bool mine = sameKey(keyOf(j), key);
      rows += mine;
      if (j < i) once &= !(mine & (r(j, 0) == r(i, 0)));
    }
    known &= found;
    count &= r(i, 1) == n;
    number &= rows == (n < k ? n : k);
    sum += r(i, 0) + 31 * r(i, 1);
    for (size_t c = 0; c < keys; c++) sum += (17 + c) * key[c];
    // no better item is missing
    for (auto& a : items)
      for (auto& b : items) {
        bool in = false;
        for (size_t j = 0; j < r.size(); j++) in |= sameKey(keyOf(j), key) & (r(j, 0) == b.cid);
        bool pair = a.valid & b.valid & sameKey(a.key, key) & sameKey(b.key, key) & (a.cid == r(i, 0)) & !in;
        best &= !pair | (a.score >= b.score);
      }
  }
  bool complete = true;
  for (auto& it : items) {
    bool found = !it.valid;
    for (size_t i = 0; i < r.size(); i++) found |= sameKey(keyOf(i), it.key);
    complete &= found;
  }
  symx_assert(known, "text aggregation: only contexts of the entity");
  symx_assert(count, "text aggregation: number of postings");
  symx_assert(once, "text aggregation: each context once");
  symx_assert(number, "text aggregation: as many contexts as requested and available");
  symx_assert(best, "text aggregation: the contexts with the highest scores");
  symx_assert(complete, "text aggregation: every entity");
  symx_observe(r.size());
  symx_cover("end");
}
static ad_utility::AllocatorWithLimit<Id> alloc() {
  return ad_utility::AllocatorWithLimit<Id>{ad_utility::makeAllocationMemoryLeftThreadsafeObject(1ul << 40)};
}
// All combinations of entities that occur together, with the first one
// accepted by `first`.
template <class F>
static void combine(size_t vars, F first) {
  size_t n = cids.size();
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < (vars > 1 ? n : 1); j++)
      for (size_t l = 0; l < (vars > 2 ? n : 1); l++) {
        bool v = first(eids[i]);
        Item it{v, cids[i], scores[i], {eids[i], 0, 0}};
        if (vars > 1) it.valid &= cids[j] == cids[i], it.key[1] = eids[j];
        if (vars > 2) it.valid &= cids[l] == cids[i], it.key[2] = eids[l];
        items.push_back(it);
      }
}

extern "C" void c21_plain() {
  size_t vars = symx_param("vars", 1), k = symx_param("k", 1);
  postings(symx_choice("size", symx_param("n", 3) + 1), vars > 1);
  IdTable r(2 + vars, alloc());
  if (vars == 1) {
    FTSAlgorithms::aggScoresAndTakeTopKContexts(cids, eids, scores, k, &r);
  } else {
    int width = 2 + vars;
    CALL_FIXED_SIZE_1(width, FTSAlgorithms::multVarsAggScoresAndTakeTopKContexts, cids, eids, scores, vars, k, &r);
  }
  combine(vars, [](Id) { return true; });
  checkResult(r, k, vars);
}

// A filter given as a set of entities. The filtered entity comes last.
extern "C" void c21_set() {
  size_t vars = symx_param("vars", 1), k = symx_param("k", 1), m = symx_param("m", 2);
  postings(symx_param("n", 3), vars > 1);
  ad_utility::HashSet<Id> set;
  std::vector<Id> filter;
  size_t f = symx_choice("filter", m + 1);
  for (size_t i = 0; i < f; i++) {
    filter.push_back(symx_u64("filterEntity"));
    set.insert(filter.back());
  }
  IdTable r(2 + vars, alloc());
  if (vars == 1) {
    FTSAlgorithms::oneVarFilterAggScoresAndTakeTopKContexts(cids, eids, scores, set, k, &r);
  } else {
    int width = 2 + vars;
    CALL_FIXED_SIZE_1(width, FTSAlgorithms::multVarsFilterAggScoresAndTakeTopKContexts, cids, eids, scores, set, vars, k, &r);
  }
  combine(vars, [&](Id e) {
    bool in = false;
    for (Id x : filter) in |= x == e;
    return in;
  });
  for (auto& it : items) std::rotate(it.key.begin(), it.key.begin() + 1, it.key.begin() + vars);
  checkResult(r, k, vars);
}

// A filter given as rows of a table: (other entities, row of the filter).
extern "C" void c21_rows() {
  size_t vars = symx_param("vars", 1), k = symx_param("k", 1), m = symx_param("m", 2);
  postings(symx_param("n", 3), vars > 1);
  ad_utility::HashMap<Id, IdTable> map;
  std::vector<Id> filter;
  size_t f = symx_choice("filter", m + 1);
  for (size_t i = 0; i < f; i++) {
    filter.push_back(symx_u64("filterEntity"));
    auto it = map.find(filter.back());
    if (it == map.end()) it = map.insert(std::make_pair(filter.back(), IdTable(2, alloc()))).first;
    it->second.push_back({filter.back(), i});
  }
  int width = 3 + vars;
  IdTable r(width, alloc());
  if (vars == 1) {
    CALL_FIXED_SIZE_1(width, FTSAlgorithms::oneVarFilterAggScoresAndTakeTopKContexts, cids, eids, scores, map, k, &r);
  } else {
    CALL_FIXED_SIZE_1(width, FTSAlgorithms::multVarsFilterAggScoresAndTakeTopKContexts, cids, eids, scores, map, vars, k, &r);
  }
  size_t n = cids.size();
  for (size_t x = 0; x < f; x++)
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < (vars > 1 ? n : 1); j++) {
        Item it{eids[i] == filter[x], cids[i], scores[i], {eids[i], x, 0}};
        if (vars > 1) {
          it.valid &= cids[j] == cids[i];
          it.key = {eids[j], eids[i], x};
        }
        items.push_back(it);
      }
  checkResult(r, k, vars + 1);
}
