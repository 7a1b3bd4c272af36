// Shared by the query operator checks: an execution context without an index
// and leaf operations that hold symbolic tables.
#pragma once
#include <cstring>
#include <memory>
#include <string>
#include <vector>

#include "engine/Engine.h"
#include "engine/Operation.h"
#include "engine/QueryExecutionContext.h"
#include "engine/QueryExecutionTree.h"
#include "engine/ResultTable.h"
#include "sx.h"

using Type = ResultTable::ResultType;

struct World {
  ConcurrentLruCache cache;
  PinnedSizes pinned;
  Engine engine;
  void* indexBuf;
  std::unique_ptr<QueryExecutionContext> ctx;
  explicit World(const Index* idx = nullptr, size_t limit = 1ul << 40) : cache(1000ul, 1ul << 40, 1ul << 40) {
    // operators that never look at the index get storage nobody may read
    indexBuf = idx ? nullptr : operator new(sizeof(Index));
    const Index& index = idx ? *idx : *reinterpret_cast<const Index*>(indexBuf);
    auto left = ad_utility::makeAllocationMemoryLeftThreadsafeObject(limit);
    ctx = std::make_unique<QueryExecutionContext>(index, engine, &cache, &pinned,
                                                  ad_utility::AllocatorWithLimit<Id>{left},
                                                  SortPerformanceEstimator{});
  }
  QueryExecutionContext* qec() { return ctx.get(); }
  ad_utility::AllocatorWithLimit<Id> alloc() { return ctx->getAllocator(); }
};

// A leaf of the operator tree with given contents.
class TableOp : public Operation {
 public:
  std::string name;
  IdTable data;
  std::vector<size_t> sorted;
  std::vector<Type> types;
  ad_utility::HashMap<string, size_t> vars;
  std::shared_ptr<std::vector<std::string>> localVocab = std::make_shared<std::vector<std::string>>();
  size_t textLimit = 0;
  TableOp(World& w, std::string n, size_t cols) : Operation(w.qec()), name(n), data(cols, w.alloc()) {
    types.resize(cols, Type::KB);
  }
  std::vector<QueryExecutionTree*> getChildren() override { return {}; }
  string asString(size_t indent = 0) const override { return std::string(indent, ' ') + name; }
  string getDescriptor() const override { return name; }
  size_t getResultWidth() const override { return data.cols(); }
  void setTextLimit(size_t l) override { textLimit = l; }
  size_t getCostEstimate() override { return 1; }
  size_t getSizeEstimate() override { return data.size(); }
  float getMultiplicity(size_t) override { return 1; }
  bool knownEmptyResult() override { return false; }
  ad_utility::HashMap<string, size_t> getVariableColumns() const override { return vars; }
  [[nodiscard]] vector<size_t> resultSortedOn() const override { return sorted; }
  void computeResult(ResultTable* r) override {
    r->_data.setCols(data.cols());
    r->_data = data;
    r->_sortedBy = sorted;
    r->_resultTypes = types;
    r->_localVocab = localVocab;
  }
};

inline std::shared_ptr<QueryExecutionTree> treeOf(
    World& w, std::shared_ptr<Operation> op,
    QueryExecutionTree::OperationType t = QueryExecutionTree::VALUES) {
  auto r = std::make_shared<QueryExecutionTree>(w.qec());
  r->setOperation(t, op);
  r->setVariableColumns(op->getVariableColumns());
  return r;
}

// runs the operator's own computation on its subtrees' results
inline void compute(Operation& op, ResultTable& r) { op.computeResult(&r); }

// ---- reference tables: plain row lists ----
struct Row {
  Id v[8];
  size_t n = 0;
  Row() {}
  Row(std::initializer_list<Id> l) {
    for (Id x : l) v[n++] = x;
  }
};
inline bool sameRow(const IdTable& t, size_t i, const Row& r) {
  bool ok = t.cols() == r.n;
  for (size_t c = 0; c < r.n && c < t.cols(); c++) ok &= t(i, c) == r.v[c];
  return ok;
}
inline bool sameRow(const IdTable& a, size_t i, const IdTable& b, size_t j) {
  bool ok = true;
  for (size_t c = 0; c < a.cols(); c++) ok &= a(i, c) == b(j, c);
  return ok;
}
// `expected` holds candidate rows together with the (symbolic) condition under
// which they belong to the result; asserts equality as bags
struct Expected {
  std::vector<Row> rows;
  std::vector<bool*> dummy;
  std::vector<uint8_t> cond;
  void add(const Row& r, bool c = true) {
    rows.push_back(r);
    cond.push_back(c);
  }
};
inline void assertBag(const IdTable& got, const Expected& e, const char* size, const char* rows) {
  size_t n = 0;
  for (size_t k = 0; k < e.rows.size(); k++) n += e.cond[k];
  symx_assert(got.size() == n, size);
  size_t gn = got.size();
  bool ok = true;
  for (size_t i = 0; i < gn; i++) {
    size_t have = 0, want = 0;
    for (size_t j = 0; j < gn; j++) have += sameRow(got, i, got, j);
    for (size_t k = 0; k < e.rows.size(); k++) want += e.cond[k] & sameRow(got, i, e.rows[k]);
    ok &= have == want;
  }
  symx_assert(ok, rows);
}
// the same as a sequence of all candidate rows whose condition holds (in
// order); conditions must be decided on the path
inline void assertSequence(const IdTable& got, const Expected& e, const char* size, const char* rows) {
  size_t n = 0;
  for (size_t k = 0; k < e.rows.size(); k++) n += e.cond[k];
  symx_assert(got.size() == n, size);
  bool ok = true;
  for (size_t k = 0; k < e.rows.size(); k++) {
    size_t pos = 0;
    for (size_t j = 0; j < k; j++) pos += e.cond[j];
    bool found = false;
    for (size_t i = 0; i < got.size(); i++) found |= (pos == i) & sameRow(got, i, e.rows[k]);
    ok &= !e.cond[k] | found;
  }
  symx_assert(ok, rows);
}
inline void assumeSorted(const IdTable& t, std::vector<size_t> cols) {
  for (size_t i = 1; i < t.size(); i++) {
    bool lt = false, eq = true;
    for (size_t c : cols) {
      lt |= eq & (t(i - 1, c) < t(i, c));
      eq &= t(i - 1, c) == t(i, c);
    }
    symx_assume(lt | eq);
  }
}
inline bool isSorted(const IdTable& t, const std::vector<size_t>& cols) {
  bool ok = true;
  for (size_t i = 1; i < t.size(); i++) {
    bool lt = false, eq = true;
    for (size_t c : cols) {
      lt |= eq & (t(i - 1, c) < t(i, c));
      eq &= t(i - 1, c) == t(i, c);
    }
    ok &= lt | eq;
  }
  return ok;
}
inline void observeTable(const IdTable& t) {
  symx_observe(t.size());
  symx_observe(t.cols());
  for (size_t i = 0; i < t.size() && i < 12; i++)
    for (size_t c = 0; c < t.cols(); c++) symx_observe(t(i, c));
}

// a table whose columns `keys` hold arbitrary values, sorted by them; every
// other cell is a distinct fixed tag
inline std::shared_ptr<TableOp> keyedTable(World& w, const char* name, size_t cols, std::vector<size_t> keys, size_t n,
                                           Id tag, bool sorted = true) {
  auto t = std::make_shared<TableOp>(w, name, cols);
  t->data.resize(n);
  for (size_t i = 0; i < n; i++)
    for (size_t c = 0; c < cols; c++) {
      bool key = false;
      for (size_t k : keys) key |= k == c;
      t->data(i, c) = key ? symx_u64(name) : tag + i * 10 + c;
    }
  if (sorted) {
    assumeSorted(t->data, keys);
    t->sorted = keys;
  }
  return t;
}
inline Row rowOf(const IdTable& t, size_t i) {
  Row r;
  for (size_t c = 0; c < t.cols(); c++) r.v[r.n++] = t(i, c);
  return r;
}
