// C09: two operators whose keys are equal have equal results. The operators
// get the same input tables; the names of the input columns may differ, as the
// keys of the inputs do not depend on them.
#include "engine/Bind.h"
#include "engine/CountAvailablePredicates.h"
#include "engine/Distinct.h"
#include "engine/Filter.h"
#include "engine/GroupBy.h"
#include "engine/HasPredicateScan.h"
#include "engine/IndexScan.h"
#include "engine/Join.h"
#include "engine/Minus.h"
#include "engine/MultiColumnJoin.h"
#include "engine/OptionalJoin.h"
#include "engine/OrderBy.h"
#include "engine/Sort.h"
#include "engine/TextOperationWithFilter.h"
#include "engine/TextOperationWithoutFilter.h"
#include "engine/TransitivePath.h"
#include "engine/TwoColumnJoin.h"
#include "engine/Union.h"
#include "engine/Values.h"
#include "qe.h"

// only used to describe operations
template <typename S, typename C>
template <typename, typename>
const std::optional<string> Vocabulary<S, C>::idToOptionalString(Id) const {
  return "word";
}
template const std::optional<string> RdfsVocabulary::idToOptionalString<CompressedString, void>(Id id) const;

using Op = std::shared_ptr<Operation>;
using Tree = std::shared_ptr<QueryExecutionTree>;

static const char* NAMES[] = {"?x", "?y", "?z"};
// the same contents under the same key with the columns named in one of
// several ways
struct Input {
  std::shared_ptr<TableOp> first, second;
  Input(World& w, const char* name, size_t cols, size_t n, bool sorted, Type type = Type::VERBATIM) {
    first = std::make_shared<TableOp>(w, name, cols);
    first->data.resize(n);
    for (size_t i = 0; i < n; i++)
      for (size_t c = 0; c < cols; c++) first->data(i, c) = symx_range(name, 0, 1000);
    if (sorted) {
      for (size_t c = 0; c < cols; c++) first->sorted.push_back(c);
      assumeSorted(first->data, first->sorted);
    }
    for (auto& t : first->types) t = type;
    second = std::make_shared<TableOp>(w, name, cols);
    second->data = first->data;
    second->sorted = first->sorted;
    second->types = first->types;
  }
  Tree tree(World& w, int which, std::vector<const char*> names) {
    auto& t = which ? second : first;
    t->vars.clear();
    for (size_t c = 0; c < names.size(); c++) t->vars[names[c]] = c;
    return treeOf(w, t);
  }
};
// To find out whether two operations share a result, the first one is asked
// for and then the second one, while both put their number into the result.
template <class T>
struct Marked : public T {
  using T::T;
  Id mark = 0;
  void computeResult(ResultTable* r) override {
    if (mark == 0) {
      T::computeResult(r);
      return;
    }
    r->_data.setCols(1);
    r->_data.push_back({mark});
    r->_resultTypes = {Type::VERBATIM};
  }
};
template <class T>
struct Copy : public T {
  explicit Copy(const T& x) : T(x) {}
};
struct Pair {
  Op op[2];
  Id* mark[2] = {nullptr, nullptr};
  template <class T, class... A>
  std::shared_ptr<T> make(int k, A&&... args) {
    auto r = std::make_shared<Marked<T>>(std::forward<A>(args)...);
    r->mark = k + 1;
    mark[k] = &r->mark;
    op[k] = r;
    return r;
  }
  template <class T>
  void own(int k, const T& x) {
    make<Copy<T>>(k, x);
  }
  bool shared() {
    auto ra = op[0]->getResult(), rb = op[1]->getResult();
    symx_observe(ra == rb);
    return rb->_data(0, 0) == 1;
  }
  // different operations that are not computed here
  void differ(bool same) {
    bool s = shared();
    symx_assert(!s | same, "a different operation is not answered from the cache");
    if (s) symx_cover("shared");
    symx_cover("end");
  }
  // the result of the first operation is the answer to the second one
  void compare(World& w, bool sequence = true, bool order = true) {
    if (!shared()) {
      symx_cover("end");
      return;
    }
    *mark[0] = *mark[1] = 0;
    ResultTable r[2] = {ResultTable(w.alloc()), ResultTable(w.alloc())};
    compute(*op[0], r[0]);
    compute(*op[1], r[1]);
    const IdTable &x = r[0]._data, &y = r[1]._data;
    symx_assert(x.cols() == y.cols(), "answer has the columns of the operation");
    symx_assert(x.size() == y.size(), "answer has the rows of the operation");
    bool ok = true;
    for (size_t i = 0; i < x.size(); i++) {
      size_t here = 0, there = 0;
      for (size_t j = 0; j < x.size(); j++) {
        here += sameRow(x, i, x, j);
        there += sameRow(x, i, y, j);
      }
      ok &= sequence ? sameRow(x, i, y, i) : here == there;
    }
    symx_assert(ok, "answer has the rows of the operation");
    symx_assert(!order || isSorted(x, op[1]->getResultSortedOn()), "answer has the announced order");
    for (size_t c = 0; c < x.cols(); c++)
      symx_assert(r[0].getResultType(c) == r[1].getResultType(c), "answer has the types of the operation");
    symx_cover("shared");
    symx_cover("end");
  }
};
static bool eq(const std::string& a, const std::string& b) {
  bool r = a.size() == b.size();
  if (a.size() == b.size())
    for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}

extern "C" void c09_filter() {
  World w;
  Input in(w, "T", 2, 2, symx_choice("sorted", 2));
  const SparqlFilter::FilterType ft[] = {SparqlFilter::EQ, SparqlFilter::NE, SparqlFilter::LT,
                                         SparqlFilter::LE, SparqlFilter::GT, SparqlFilter::GE};
  const char* rhs[] = {"5", "15", "?x", "?y"};
  Pair p;
  for (int k = 0; k < 2; k++) {
    bool swap = symx_choice("names", 2);
    auto tree = in.tree(w, k, swap ? std::vector<const char*>{"?y", "?x"} : std::vector<const char*>{"?x", "?y"});
    auto type = ft[symx_choice("type", 6)];
    size_t l = symx_choice("lhs", 2), r = symx_choice("rhs", symx_param("columns", 0) ? 4 : 2);
    if (r >= 2) symx_assume(r - 2 != l);
    p.make<Filter>(k, w.qec(), tree, type, NAMES[l], rhs[r], std::vector<std::string>{},
                                     std::vector<std::string>{});
  }
  p.compare(w);
}
static std::string text(const char* name, size_t n) {
  std::string s;
  for (size_t i = 0; i < n; i++) s.push_back((char)symx_range(name, 32, 126));
  return s;
}
// text patterns are not evaluated here: different patterns or flags are
// different operations
extern "C" void c09_pattern() {
  World w;
  Input in(w, "T", 2, 0, false, Type::KB);
  const SparqlFilter::FilterType ft[] = {SparqlFilter::LANG_MATCHES, SparqlFilter::REGEX, SparqlFilter::PREFIX};
  size_t len[] = {symx_param("n", 2), symx_param("m", 16)};
  Pair p;
  size_t type[2], lhs[2];
  std::string pat[2];
  bool icase[2], str[2];
  for (int k = 0; k < 2; k++) {
    bool swap = symx_choice("names", 2);
    auto tree = in.tree(w, k, swap ? std::vector<const char*>{"?y", "?x"} : std::vector<const char*>{"?x", "?y"});
    type[k] = symx_choice("type", 3);
    size_t l = symx_choice("lhs", 2);
    lhs[k] = swap ? 1 - l : l;
    pat[k] = text("p", len[k]);
    auto f = p.make<Filter>(k, w.qec(), tree, ft[type[k]], NAMES[l], pat[k], std::vector<std::string>{},
                            std::vector<std::string>{});
    icase[k] = type[k] == 1 && symx_choice("icase", 2);
    str[k] = symx_choice("str", 2);
    if (icase[k]) f->setRegexIgnoreCase(true);
    if (str[k]) f->setLhsAsString(true);
  }
  p.differ(
      (type[0] == type[1]) & (lhs[0] == lhs[1]) & (icase[0] == icase[1]) & (str[0] == str[1]) & eq(pat[0], pat[1]));
}
extern "C" void c09_sort() {
  World w;
  Input in(w, "T", 3, 2, false);
  Pair p;
  size_t sorts = 0;
  for (int k = 0; k < 2; k++) {
    auto tree = in.tree(w, k, {"?x", "?y", "?z"});
    size_t n = symx_choice("columns", 3);
    sorts += n == 0;
    if (n == 0) {
      p.make<Sort>(k, w.qec(), tree, symx_choice("column", 3));
    } else {
      std::vector<std::pair<size_t, bool>> by;
      for (size_t i = 0; i < n; i++) {
        size_t c = symx_choice("column", 3);
        by.emplace_back(c, symx_choice("desc", 2));
      }
      p.make<OrderBy>(k, w.qec(), tree, by);
    }
  }
  // the order of equal rows is left open
  p.compare(w, sorts != 1);
}
extern "C" void c09_distinct() {
  World w;
  Input in(w, "T", 3, 2, true);
  Pair p;
  for (int k = 0; k < 2; k++) {
    std::vector<size_t> keep{0};
    size_t n = symx_choice("kept", 3);
    if (n > 0) keep.push_back(1);
    if (n > 1) keep.push_back(2);
    p.make<Distinct>(k, w.qec(), in.tree(w, k, {"?x", "?y", "?z"}), keep);
  }
  p.compare(w);
}
extern "C" void c09_groupBy() {
  World w;
  Input in(w, "T", 3, 2, true);
  using A = ParsedQuery::AggregateType;
  const A types[] = {A::COUNT, A::COUNT, A::MIN, A::MAX, A::SAMPLE};
  Pair p;
  for (int k = 0; k < 2; k++) {
    // the grouping columns are the first ones, in either alphabetical order
    size_t n = symx_choice("groups", 3);
    bool swap = symx_choice("names", 2);
    std::vector<const char*> names{NAMES[swap], NAMES[!swap], NAMES[2]};
    std::vector<std::string> by;
    for (size_t i = 0; i < n; i++) by.push_back(names[i]);
    ParsedQuery::Alias a;
    size_t t = symx_choice("aggregate", symx_param("aggregates", 5));
    a._type = types[t];
    a._isAggregate = true;
    a._isDistinct = symx_choice("distinct", 2);
    a._inVarName = NAMES[symx_choice("in", 3)];
    a._outVarName = "?zz";
    a._function = "f";
    std::vector<ParsedQuery::Alias> as{a};
    if (t == 1) {
      a._outVarName = "?zzz";
      a._isDistinct = symx_choice("distinct2", 2);
      as.push_back(a);
    }
    p.make<GroupBy>(k, w.qec(), by, as)->setSubtree(in.tree(w, k, names));
  }
  // the input need not be sorted by the names of the columns
  p.compare(w, true, false);
}
// the separator of GROUP_CONCAT is part of the operation
extern "C" void c09_separator() {
  World w;
  Input in(w, "T", 2, 0, true);
  std::string sep[2];
  bool distinct[2];
  Pair p;
  size_t len[] = {symx_param("n", 1), symx_choice("m", symx_param("m", 3) + 1)};
  for (int k = 0; k < 2; k++) {
    ParsedQuery::Alias a;
    a._type = ParsedQuery::AggregateType::GROUP_CONCAT;
    a._isAggregate = true;
    distinct[k] = a._isDistinct = symx_choice("distinct", 2);
    a._inVarName = "?y";
    a._outVarName = "?zz";
    a._function = "f";
    a._delimiter = sep[k] = text("sep", len[k]);
    p.make<GroupBy>(k, w.qec(), std::vector<std::string>{"?x"}, std::vector<ParsedQuery::Alias>{a})
        ->setSubtree(in.tree(w, k, {"?x", "?y"}));
  }
  p.differ((distinct[0] == distinct[1]) & eq(sep[0], sep[1]));
}
extern "C" void c09_bind() {
  World w;
  Input in(w, "T", 2, 1, false);
  Pair p;
  for (int k = 0; k < 2; k++) {
    bool swap = symx_choice("names", 2);
    auto tree = in.tree(w, k, swap ? std::vector<const char*>{"?y", "?x"} : std::vector<const char*>{"?x", "?y"});
    GraphPatternOperation::Bind b;
    b._target = symx_choice("target", 2) ? "?u" : "?v";
    size_t what = symx_choice("kind", 3);
    if (what == 0) {
      b._expressionVariant = GraphPatternOperation::Bind::Rename{NAMES[symx_choice("var", 2)]};
    } else if (what == 1) {
      const int64_t c[] = {0, 1, 11};
      b._expressionVariant = GraphPatternOperation::Bind::Constant(c[symx_choice("const", 3)]);
    } else {
      const char* bin[] = {"+", "-", "*"};
      size_t v1 = symx_choice("var1", 2), v2 = symx_choice("var2", 2);
      b._expressionVariant =
          GraphPatternOperation::Bind::BinaryOperation{NAMES[v1], NAMES[v2], bin[symx_choice("binary", 3)]};
    }
    p.make<Bind>(k, w.qec(), tree, b);
  }
  p.compare(w);
}
extern "C" void c09_path() {
  World w;
  Input in(w, "E", 2, 2, false);
  Input side(w, "S", 2, 1, false);
  Pair p;
  const Id values[] = {1, 11};
  const size_t maxs[] = {1, 11, std::numeric_limits<size_t>::max()};
  for (int k = 0; k < 2; k++) {
    bool flip = symx_choice("flip", 2);
    size_t ends = symx_choice("ends", symx_param("bound", 0) ? 1 : 4);
    bool lv = !(ends & 1), rv = !(ends & 2);
    Id l = lv ? 0 : values[symx_choice("left", 2)], r = rv ? 0 : values[symx_choice("right", 2)];
    size_t mn = 1 + symx_choice("min", symx_param("bound", 0) ? 1 : 2), mx = maxs[symx_choice("max", symx_param("bound", 0) ? 1 : 3)];
    auto x = p.make<TransitivePath>(k, w.qec(), in.tree(w, k, {"?p", "?q"}), lv, rv, flip ? 1 : 0, flip ? 0 : 1, l, r,
                                    "?a", "?b", mn, mx);
    if (symx_param("bound", 0)) {
      size_t how = symx_choice("bound", 3);
      size_t c = how ? symx_choice("side", 2) : 0;
      auto st = side.tree(w, k, {c == 0 ? (how == 1 ? "?a" : "?b") : "?u", c == 1 ? (how == 1 ? "?a" : "?b") : "?u"});
      if (how == 1) p.own(k, *x->bindLeftSide(st, c));
      if (how == 2) p.own(k, *x->bindRightSide(st, c));
    }
  }
  p.compare(w);
}
// joins of two tables with one row each (such a table is sorted on any column)
extern "C" void c09_binary() {
  World w;
  size_t n = symx_choice("n", 2), m = symx_choice("m", 2);
  Input a(w, "A", 2, n, true), b(w, "B", 2, m, true);
  size_t kind = symx_param("kind", 0);
  Pair p;
  for (int k = 0; k < 2; k++) {
    bool sw = symx_choice("inputs", 2);
    // the first variable of the right table is the join variable
    size_t lc = 0, rc = 0;
    if (kind == 0 || kind == 1) {
      lc = symx_choice("left", 2);
      rc = symx_choice("right", 2);
    }
    bool two = kind != 0 && symx_choice("two", 2);
    std::vector<const char*> ln{"?x", "?y"}, rn{"?x", two ? "?y" : "?z"};
    if (kind == 0 || kind == 1) {
      if (lc) std::swap(ln[0], ln[1]);
      if (rc) std::swap(rn[0], rn[1]);
    }
    if (kind == 3) {
      // any naming of the columns of the two tables
      bool l2 = symx_choice("lswap", 2), r2 = symx_choice("rswap", 2);
      if (l2) std::swap(ln[0], ln[1]);
      if (r2) std::swap(rn[0], rn[1]);
    }
    Tree l = a.tree(w, k, ln), r = b.tree(w, k, rn);
    if (sw) {
      std::swap(l, r);
      std::swap(lc, rc);
    }
    std::vector<std::array<Id, 2>> jcs{{lc, rc}};
    if (two) jcs.push_back({1 - lc, 1 - rc});
    if (kind == 0) {
      p.make<Join>(k, w.qec(), l, r, lc, rc);
    } else if (kind == 1) {
      bool opt = symx_choice("optional", 2);
      p.make<OptionalJoin>(k, w.qec(), l, opt, r, !opt, jcs);
    } else if (kind == 2) {
      p.make<Minus>(k, w.qec(), l, r, jcs);
    } else if (kind == 3) {
      p.make<Union>(k, w.qec(), l, r);
    } else if (kind == 4) {
      p.make<MultiColumnJoin>(k, w.qec(), l, r, jcs);
    }
  }
  p.compare(w);
}
// leaves: different parameters are different operations
extern "C" void c09_scan() {
  World w;
  Pair p;
  size_t type[2];
  std::string s[2], pr[2], o[2];
  size_t n = symx_param("n", 1);
  for (int k = 0; k < 2; k++) {
    type[k] = symx_choice("type", 15);
    auto t = (IndexScan::ScanType)type[k];
    auto x = p.make<IndexScan>(k, w.qec(), t);
    // words without quotation marks, as in iris
    auto word = [&](const char* name) {
      std::string r = "<" + text(name, n) + ">";
      for (char c : r) symx_assume(c != '"');
      return r;
    };
    if (type[k] == IndexScan::PSO_BOUND_S || type[k] == IndexScan::POS_BOUND_O || type[k] == IndexScan::PSO_FREE_S ||
        type[k] == IndexScan::POS_FREE_O)
      x->setPredicate(pr[k] = word("p"));
    if (type[k] == IndexScan::PSO_BOUND_S || type[k] == IndexScan::SOP_BOUND_O || type[k] == IndexScan::SPO_FREE_P ||
        type[k] == IndexScan::SOP_FREE_O)
      x->setSubject(s[k] = word("s"));
    if (type[k] == IndexScan::POS_BOUND_O || type[k] == IndexScan::SOP_BOUND_O || type[k] == IndexScan::OPS_FREE_P ||
        type[k] == IndexScan::OSP_FREE_S)
      x->setObject(o[k] = word("o"));
  }
  p.differ((type[0] == type[1]) & eq(s[0], s[1]) & eq(pr[0], pr[1]) & eq(o[0], o[1]));
}
extern "C" void c09_predicates() {
  World w;
  Input in(w, "T", 3, 0, false, Type::KB);
  Pair p;
  size_t what[2], col[2];
  std::string name[2];
  for (int k = 0; k < 2; k++) {
    what[k] = symx_choice("kind", 7);
    col[k] = what[k] == 1 || what[k] == 2 ? symx_choice("col", 3) : 0;
    auto tree = in.tree(w, k, {"?x", "?y", "?z"});
    if (what[k] > 3) name[k] = "<" + text("name", 1) + ">";
    if (what[k] >= 2 && what[k] <= 5) {
      using S = HasPredicateScan::ScanType;
      const S types[] = {S::SUBQUERY_S, S::FULL_SCAN, S::FREE_O, S::FREE_S};
      auto h = p.make<HasPredicateScan>(k, w.qec(), types[what[k] - 2]);
      if (what[k] == 2) {
        h->setSubtree(tree);
        h->setSubtreeSubjectColumn(col[k]);
      }
      if (what[k] == 4) h->setSubject(name[k]);
      if (what[k] == 5) h->setObject(name[k]);
    } else {
      using C = CountAvailablePredicates;
      if (what[k] == 0) p.make<C>(k, w.qec());
      if (what[k] == 1) p.make<C>(k, w.qec(), tree, col[k]);
      if (what[k] == 6) p.make<C>(k, w.qec(), name[k]);
    }
  }
  p.differ((what[0] == what[1]) & (col[0] == col[1]) & eq(name[0], name[1]));
}
// text operations, also below another operation whose text limit is set after
// its key was asked for
extern "C" void c09_text() {
  World w;
  Input in(w, "T", 2, 0, false, Type::KB);
  Pair p;
  size_t kind[2], vars[2], col[2], limit[2], below[2];
  std::string words[2];
  for (int k = 0; k < 2; k++) {
    kind[k] = symx_choice("filter", 2);
    vars[k] = kind[k] + symx_choice("vars", 2);
    std::set<std::string> names{"?t"};
    if (vars[k] > 0) names.insert("?x");
    if (vars[k] > 1) names.insert("?w");
    words[k] = text("word", 1);
    limit[k] = 1 + 10 * symx_choice("limit", 2);
    below[k] = symx_choice("below", 2);
    col[k] = kind[k] ? symx_choice("column", 2) : 0;
    std::shared_ptr<Operation> t;
    bool later = below[k] || symx_choice("later", 2);
    auto tree = in.tree(w, k, {col[k] ? "?y" : "?x", col[k] ? "?x" : "?y"});
    if (kind[k])
      t = p.make<TextOperationWithFilter>(k, w.qec(), words[k], names, "?t", tree, col[k], later ? 5 : limit[k]);
    else
      t = p.make<TextOperationWithoutFilter>(k, w.qec(), words[k], names, "?t", later ? 5 : limit[k]);
    if (below[k]) {
      auto root = treeOf(w, p.make<Sort>(k, w.qec(), treeOf(w, t), 0));
      root->asString();
      root->setTextLimit(limit[k]);
    } else if (later) {
      t->setTextLimit(limit[k]);
    }
  }
  p.differ((kind[0] == kind[1]) & (vars[0] == vars[1]) & (col[0] == col[1]) & (limit[0] == limit[1]) &
                           (below[0] == below[1]) & eq(words[0], words[1]));
}
extern "C" void c09_values() {
  World w;
  Pair p;
  size_t cols[2], rows[2];
  std::string cell[2][4];
  for (int k = 0; k < 2; k++) {
    cols[k] = 1 + symx_choice("cols", 2);
    rows[k] = 1 + symx_choice("rows", 2);
    SparqlValues v;
    for (size_t c = 0; c < cols[k]; c++) v._variables.push_back(NAMES[c]);
    for (size_t r = 0; r < rows[k]; r++) {
      v._values.emplace_back();
      for (size_t c = 0; c < cols[k]; c++) {
        auto& x = cell[k][r * 2 + c];
        x = "<" + text("v", 1) + ">";
        symx_assume((x[1] != '<') & (x[1] != '>') & (x[1] != ' '));
        v._values.back().push_back(x);
      }
    }
    p.make<Values>(k, w.qec(), v);
  }
  bool same = (cols[0] == cols[1]) & (rows[0] == rows[1]);
  for (size_t i = 0; i < 4; i++) same &= eq(cell[0][i], cell[1][i]);
  p.differ(same);
}
