// A small world for calling query operators directly.
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <string>
#include <vector>

#include "engine/Engine.h"
#include "engine/Operation.h"
#include "engine/QueryExecutionContext.h"
#include "engine/QueryExecutionTree.h"
#include "engine/ResultTable.h"

using Rows = std::vector<std::vector<Id>>;

struct World {
  ConcurrentLruCache cache{1000ul, 1ul << 40, 1ul << 40};
  PinnedSizes pinned;
  Engine engine;
  Index index;
  QueryExecutionContext ctx{index,
                            engine,
                            &cache,
                            &pinned,
                            ad_utility::AllocatorWithLimit<Id>{
                                ad_utility::makeAllocationMemoryLeftThreadsafeObject(1ul << 34)},
                            SortPerformanceEstimator{}};
  QueryExecutionContext* qec() { return &ctx; }
};

class TableOp : public Operation {
 public:
  std::string name;
  IdTable data;
  std::vector<size_t> sorted;
  std::vector<ResultTable::ResultType> types;
  ad_utility::HashMap<string, size_t> vars;
  std::shared_ptr<std::vector<std::string>> localVocab = std::make_shared<std::vector<std::string>>();
  TableOp(World& w, std::string n, std::vector<std::string> names, const Rows& rows)
      : Operation(w.qec()), name(n), data(names.size(), w.ctx.getAllocator()) {
    types.resize(names.size(), ResultTable::ResultType::KB);
    for (size_t i = 0; i < names.size(); i++) vars[names[i]] = i;
    for (auto& r : rows) {
      data.emplace_back();
      for (size_t c = 0; c < r.size(); c++) data(data.size() - 1, c) = r[c];
    }
  }
  std::vector<QueryExecutionTree*> getChildren() override { return {}; }
  string asString(size_t indent = 0) const override { return std::string(indent, ' ') + name; }
  string getDescriptor() const override { return name; }
  size_t getResultWidth() const override { return data.cols(); }
  void setTextLimit(size_t) override {}
  size_t getCostEstimate() override { return 1; }
  size_t getSizeEstimate() override { return data.size(); }
  float getMultiplicity(size_t) override { return 1; }
  bool knownEmptyResult() override { return false; }
  ad_utility::HashMap<string, size_t> getVariableColumns() const override { return vars; }
  vector<size_t> resultSortedOn() const override { return sorted; }
  void computeResult(ResultTable* r) override {
    r->_data.setCols(data.cols());
    r->_data = data;
    r->_sortedBy = sorted;
    r->_resultTypes = types;
    r->_localVocab = localVocab;
  }
};

inline std::shared_ptr<QueryExecutionTree> tree(World& w, std::shared_ptr<Operation> op) {
  auto r = std::make_shared<QueryExecutionTree>(w.qec());
  r->setOperation(QueryExecutionTree::VALUES, op);
  r->setVariableColumns(op->getVariableColumns());
  return r;
}
inline std::shared_ptr<QueryExecutionTree> table(World& w, std::string n, std::vector<std::string> names,
                                                 const Rows& rows, std::vector<size_t> sorted = {}) {
  auto op = std::make_shared<TableOp>(w, n, names, rows);
  op->sorted = sorted;
  return tree(w, op);
}
inline Rows rowsOf(const IdTable& t) {
  Rows r;
  for (size_t i = 0; i < t.size(); i++) {
    r.emplace_back();
    for (size_t c = 0; c < t.cols(); c++) r.back().push_back(t(i, c));
  }
  return r;
}
inline Rows run(World& w, Operation& op) {
  ResultTable r(w.ctx.getAllocator());
  op.computeResult(&r);
  return rowsOf(r._data);
}
inline void show(const char* what, const Rows& r) {
  std::printf("%s (%zu rows)\n", what, r.size());
  for (size_t i = 0; i < r.size() && i < 20; i++) {
    for (Id x : r[i]) std::printf(" %llu", (unsigned long long)x);
    std::printf("\n");
  }
}
// exit status of the demo
inline int same(Rows got, Rows want, bool ordered = false) {
  if (!ordered) {
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
  }
  if (got == want) return 0;
  show("expected", want);
  show("got", got);
  return 1;
}
