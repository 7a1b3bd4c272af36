// C08: announced columns and sort order of every operator. Each variable has
// its own range of values, so a cell tells which variable it belongs to.
#include "engine/Bind.h"
#include "engine/Distinct.h"
#include "engine/Filter.h"
#include "engine/GroupBy.h"
#include "engine/Join.h"
#include "engine/Minus.h"
#include "engine/MultiColumnJoin.h"
#include "engine/OptionalJoin.h"
#include "engine/OrderBy.h"
#include "engine/Sort.h"
#include "engine/TransitivePath.h"
#include "engine/TwoColumnJoin.h"
#include "engine/Union.h"
#include "qe.h"

static Id base(const std::string& var) { return 1000 * (Id)(var[1] - 'a' + 1); }

// a table with the given variables in an arbitrary order of columns; sorted on
// the columns of `sortVars`
static std::shared_ptr<TableOp> tableOf(World& w, const char* name, std::vector<std::string> vars, size_t n,
                                        std::vector<std::string> sortVars, bool permute = true) {
  std::vector<std::string> order, all = vars;
  while (!vars.empty()) {
    size_t k = permute ? symx_choice("column", vars.size()) : 0;
    order.push_back(vars[k]);
    vars.erase(vars.begin() + k);
  }
  auto t = std::make_shared<TableOp>(w, name, order.size());
  t->data.resize(n);
  for (size_t c = 0; c < order.size(); c++) {
    for (size_t i = 0; i < n; i++) t->data(i, c) = symx_range(name, base(order[c]), base(order[c]) + 99);
  }
  // the map is not filled in the order of the columns
  for (auto& v : all)
    for (size_t c = 0; c < order.size(); c++)
      if (order[c] == v) t->vars[v] = c;
  for (auto& v : sortVars) t->sorted.push_back(t->vars[v]);
  assumeSorted(t->data, t->sorted);
  return t;
}
static size_t rows(const char* name, size_t dflt) { return symx_choice(name, symx_param(name, dflt) + 1); }

static void claims(Operation& op, const ResultTable& res, const std::vector<std::string>& vars, bool padded = false) {
  auto cols = op.getVariableColumns();
  symx_assert(op.getResultWidth() == res._data.cols(), "announced width of the result");
  symx_assert(cols.size() == vars.size(), "number of announced variables");
  for (auto& v : vars) {
    auto it = cols.find(v);
    symx_assert(it != cols.end(), "a variable of the inputs is announced");
    size_t c = it->second;
    symx_assert(c < res._data.cols(), "an announced column exists");
    bool ok = true;
    for (size_t i = 0; i < res._data.size(); i++) {
      Id x = res._data(i, c);
      ok &= ((x >= base(v)) & (x <= base(v) + 99)) | (padded & (x == ID_NO_VALUE));
    }
    symx_assert(ok, "the announced column of a variable holds its values");
  }
  for (size_t c : op.getResultSortedOn()) symx_assert(c < res._data.cols(), "an announced sort column exists");
  symx_assert(isSorted(res._data, op.getResultSortedOn()), "the result is sorted as announced");
  for (size_t c : res._sortedBy) symx_assert(c < res._data.cols(), "a sort column of the result exists");
  symx_assert(isSorted(res._data, res._sortedBy), "the result is sorted as it says");
  symx_observe(res._data.size());
  symx_cover("end");
}
#define POLICY sx_hash_policy = symx_param("hash", 0)

extern "C" void c08_join() {
  World w;
  auto l = tableOf(w, "A", {"?k", "?a"}, rows("n", 2), {"?k"});
  auto r = tableOf(w, "B", {"?k", "?c", "?d"}, rows("m", 2), {"?k"});
  POLICY;
  Join j(w.qec(), treeOf(w, l), treeOf(w, r), l->vars["?k"], r->vars["?k"]);
  ResultTable res(w.alloc());
  compute(j, res);
  claims(j, res, {"?k", "?a", "?c", "?d"});
}
extern "C" void c08_multi() {
  World w;
  auto l = tableOf(w, "A", {"?k", "?l", "?a"}, rows("n", 2), {"?k", "?l"}, symx_param("pl", 0));
  auto r = tableOf(w, "B", {"?k", "?l", "?c", "?d"}, rows("m", 2), {"?k", "?l"});
  POLICY;
  MultiColumnJoin j(w.qec(), treeOf(w, l), treeOf(w, r),
                    {{l->vars["?k"], r->vars["?k"]}, {l->vars["?l"], r->vars["?l"]}});
  ResultTable res(w.alloc());
  compute(j, res);
  claims(j, res, {"?k", "?l", "?a", "?c", "?d"});
}
extern "C" void c08_optional() {
  World w;
  auto l = tableOf(w, "A", {"?k", "?l", "?a"}, rows("n", 2), {"?k", "?l"}, symx_param("pl", 0));
  auto r = tableOf(w, "B", {"?k", "?l", "?c", "?d"}, rows("m", 2), {"?k", "?l"}, !symx_param("pl", 0));
  bool lo = symx_choice("leftOptional", 2), ro = symx_choice("rightOptional", 2);
  POLICY;
  OptionalJoin j(w.qec(), treeOf(w, l), lo, treeOf(w, r), ro,
                 {{l->vars["?k"], r->vars["?k"]}, {l->vars["?l"], r->vars["?l"]}});
  ResultTable res(w.alloc());
  compute(j, res);
  claims(j, res, {"?k", "?l", "?a", "?c", "?d"}, true);
}
extern "C" void c08_minus() {
  World w;
  auto l = tableOf(w, "A", {"?k", "?l", "?a"}, rows("n", 3), {"?k", "?l"});
  auto r = tableOf(w, "B", {"?k", "?l", "?c"}, rows("m", 2), {"?k", "?l"}, false);
  POLICY;
  Minus j(w.qec(), treeOf(w, l), treeOf(w, r), {{l->vars["?k"], r->vars["?k"]}, {l->vars["?l"], r->vars["?l"]}});
  ResultTable res(w.alloc());
  compute(j, res);
  claims(j, res, {"?k", "?l", "?a"});
}
extern "C" void c08_union() {
  World w;
  bool same = symx_choice("same", 2);
  auto l = tableOf(w, "A", {"?k", "?l", "?a"}, rows("n", 1), {"?k"});
  auto r = tableOf(w, "B", same ? std::vector<std::string>{"?k", "?l", "?a"} : std::vector<std::string>{"?k", "?c", "?d"},
                   rows("m", 1), {"?k"});
  POLICY;
  Union j(w.qec(), treeOf(w, l), treeOf(w, r));
  ResultTable res(w.alloc());
  compute(j, res);
  if (same)
    claims(j, res, {"?k", "?l", "?a"}, false);
  else
    claims(j, res, {"?k", "?l", "?a", "?c", "?d"}, true);
}
extern "C" void c08_unary() {
  World w;
  size_t what = symx_choice("operator", 4);
  auto t = tableOf(w, "A", {"?k", "?l", "?a"}, rows("n", 2), {"?k", "?l"});
  POLICY;
  std::unique_ptr<Operation> op;
  if (what == 0) {
    const SparqlFilter::FilterType ft[] = {SparqlFilter::EQ, SparqlFilter::NE, SparqlFilter::LT,
                                           SparqlFilter::LE, SparqlFilter::GT, SparqlFilter::GE};
    for (auto& x : t->types) x = Type::VERBATIM;
    op = std::make_unique<Filter>(w.qec(), treeOf(w, t), ft[symx_choice("type", 6)],
                                  symx_choice("var", 2) ? "?k" : "?l", "11030", std::vector<std::string>{},
                                  std::vector<std::string>{});
  } else if (what == 1) {
    op = std::make_unique<Sort>(w.qec(), treeOf(w, t), symx_choice("col", 3));
  } else if (what == 2) {
    op = std::make_unique<Distinct>(w.qec(), treeOf(w, t), std::vector<size_t>{t->vars["?k"], t->vars["?l"]});
  } else {
    GraphPatternOperation::Bind b;
    b._target = "?e";
    b._expressionVariant = GraphPatternOperation::Bind::Rename{"?a"};
    op = std::make_unique<Bind>(w.qec(), treeOf(w, t), b);
  }
  ResultTable res(w.alloc());
  compute(*op, res);
  if (what == 3) {
    auto cols = op->getVariableColumns();
    bool ok = cols.find("?e") != cols.end();
    for (size_t i = 0; ok & (i < res._data.size()); i++) ok &= res._data(i, cols["?e"]) == t->data(i, t->vars["?a"]);
    symx_assert(ok, "the announced column of a BIND");
    for (size_t i = 0; i < res._data.size(); i++) res._data(i, cols["?e"]) = base("?e");
    claims(*op, res, {"?k", "?l", "?a", "?e"});
  } else {
    claims(*op, res, {"?k", "?l", "?a"});
  }
}
extern "C" void c08_orderBy() {
  World w;
  auto t = tableOf(w, "A", {"?k", "?l", "?a"}, rows("n", 3), {}, false);
  size_t nc = 1 + symx_choice("columns", symx_param("cols", 3));
  std::vector<std::pair<size_t, bool>> by;
  for (size_t i = 0; i < nc; i++) by.emplace_back(i, symx_choice("desc", 2));
  OrderBy o(w.qec(), treeOf(w, t), by);
  ResultTable res(w.alloc());
  compute(o, res);
  claims(o, res, {"?k", "?l", "?a"});
}
static ParsedQuery::Alias alias(ParsedQuery::AggregateType t, const char* in, const char* out) {
  ParsedQuery::Alias a;
  a._type = t;
  a._isAggregate = true;
  a._isDistinct = false;
  a._inVarName = in;
  a._outVarName = out;
  a._function = "f";
  return a;
}
extern "C" void c08_groupBy() {
  World w;
  // sorted by the grouping variables in their alphabetical order
  auto t = tableOf(w, "A", {"?k", "?l", "?a", "?b"}, rows("n", 3), {"?k", "?l"});
  bool rev = symx_choice("reversed", 2), out = symx_choice("out", 2);
  const char *o1 = out ? "?x" : "?y", *o2 = out ? "?y" : "?x";
  POLICY;
  GroupBy g(w.qec(), rev ? std::vector<std::string>{"?l", "?k"} : std::vector<std::string>{"?k", "?l"},
            {alias(ParsedQuery::AggregateType::SAMPLE, "?a", o1), alias(ParsedQuery::AggregateType::MAX, "?b", o2)});
  for (auto& x : t->types) x = Type::VERBATIM;
  g.setSubtree(treeOf(w, t));
  auto sortCols = g.computeSortColumns(treeOf(w, t).get());
  symx_assert(sortCols.size() >= 2, "the required order of the input");
  symx_assert((sortCols[0].first == t->vars["?k"]) & (sortCols[1].first == t->vars["?l"]) & !sortCols[0].second &
                  !sortCols[1].second,
              "the required order of the input");
  ResultTable res(w.alloc());
  compute(g, res);
  auto cols = g.getVariableColumns();
  // the values of an aggregate are those of the aggregated variable
  bool ok = cols.find(o1) != cols.end();
  symx_assert(ok, "an aggregate is announced");
  ok = cols.find(o2) != cols.end();
  symx_assert(ok, "an aggregate is announced");
  for (size_t i = 0; i < res._data.size(); i++) {
    Id x = res._data(i, cols[o1]), y = res._data(i, cols[o2]);
    symx_assert((x >= base("?a")) & (x <= base("?a") + 99) & (y >= base("?b")) & (y <= base("?b") + 99),
                "the announced column of an aggregate");
    res._data(i, cols[o1]) = base(o1);
    res._data(i, cols[o2]) = base(o2);
  }
  claims(g, res, {"?k", "?l", o1, o2});
}
extern "C" void c08_path() {
  World w;
  // edges lead from ?p values to ?q values
  auto t = tableOf(w, "E", {"?p", "?q"}, rows("e", 2), {symx_choice("sub", 2) ? "?p" : "?q"});
  size_t bound = symx_choice("bound", 3);
  auto b = tableOf(w, "B", {bound == 2 ? "?q" : "?p", "?c", "?d"}, bound ? rows("n", 2) : 0,
                   {symx_choice("side", 2) ? (bound == 2 ? "?q" : "?p") : "?c"});
  POLICY;
  TransitivePath p(w.qec(), treeOf(w, t), true, true, t->vars["?p"], t->vars["?q"], 0, 0, "?p", "?q", 1, 2);
  ResultTable res(w.alloc());
  if (!bound) {
    compute(p, res);
    claims(p, res, {"?p", "?q"});
    return;
  }
  auto q = bound == 1 ? p.bindLeftSide(treeOf(w, b), b->vars["?p"]) : p.bindRightSide(treeOf(w, b), b->vars["?q"]);
  compute(*q, res);
  claims(*q, res, {"?p", "?q", "?c", "?d"});
}
extern "C" void c08_twoColumns() {
  World w;
  bool leftFilter = symx_choice("filter", 2);
  auto big = tableOf(w, leftFilter ? "B" : "A", {"?k", "?l", "?a"}, rows("n", 2), {"?k", "?l"});
  auto f = tableOf(w, leftFilter ? "A" : "B", {"?k", "?l"}, rows("m", 2), {"?k", "?l"}, false);
  POLICY;
  std::vector<std::array<Id, 2>> jcs;
  if (leftFilter)
    jcs = {{0, big->vars["?k"]}, {1, big->vars["?l"]}};
  else
    jcs = {{big->vars["?k"], 0}, {big->vars["?l"], 1}};
  TwoColumnJoin j(w.qec(), treeOf(w, leftFilter ? f : big), treeOf(w, leftFilter ? big : f), jcs);
  ResultTable res(w.alloc());
  compute(j, res);
  claims(j, res, {"?k", "?l", "?a"});
}
