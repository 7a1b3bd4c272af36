// C05: GROUP BY forms the right groups and aggregates each of them right.
#include "qe.h"
#include <cmath>
#include "engine/GroupBy.h"
#include "index/Index.h"
#include "util/Conversions.h"

using Agg = ParsedQuery::AggregateType;
static std::string* words;  // the vocabulary: 4 words
template <class S, class C>
template <typename, typename>
const std::optional<string> Vocabulary<S, C>::idToOptionalString(Id id) const {
  if (id >= 4) return std::nullopt;
  return words[id];
}
template const std::optional<string> RdfsVocabulary::idToOptionalString<CompressedString, void>(Id id) const;

static Id floatCell(float f) {
  Id x = 0;
  memcpy(&x, &f, 4);
  return x;
}
static float asFloat(Id x) {
  float f;
  memcpy(&f, &x, 4);
  return f;
}
static ParsedQuery::Alias alias(Agg t, const char* in, const char* out, bool distinct) {
  ParsedQuery::Alias a;
  a._type = t;
  a._inVarName = in;
  a._outVarName = out;
  a._isDistinct = distinct;
  a._delimiter = ";";
  return a;
}

// Groups: rows i and j are in one group iff all grouping columns agree. The
// input is sorted by the grouping columns.
struct Groups {
  size_t n;
  std::vector<size_t> start;  // decided per path
  Groups(const IdTable& t, const std::vector<size_t>& cols) : n(t.size()) {
    for (size_t i = 0; i < n; i++) {
      bool same = i > 0;
      for (size_t c : cols)
        if (i > 0) same &= t(i, c) == t(i - 1, c);
      if (!same) start.push_back(i);
    }
  }
  size_t size() const { return start.size(); }
  size_t end(size_t g) const { return g + 1 < start.size() ? start[g + 1] : n; }
};

// COUNT, MIN, MAX, SAMPLE on arbitrary values; ncols grouping columns
extern "C" void c05_values() {
  World w;
  size_t nc = symx_param("cols", 1), n = symx_choice("n", symx_param("n", 3) + 1);
  const Type types[] = {Type::VERBATIM, Type::KB};
  Type ty = types[symx_param("type", 0)];
  // the grouping variables may be named so that their sorted order differs
  // from the order of the columns
  bool swap = nc == 2 && symx_choice("swap", 2);
  auto t = std::make_shared<TableOp>(w, "T", nc + 1);
  t->data.resize(n);
  std::vector<size_t> keys;
  for (size_t c = 0; c < nc; c++) keys.push_back(c);
  for (size_t i = 0; i < n; i++)
    for (size_t c = 0; c <= nc; c++) t->data(i, c) = symx_u64("T");
  if (nc) assumeSorted(t->data, keys);
  t->sorted = keys;
  t->types[nc] = ty;
  std::vector<std::string> by;
  for (size_t c = 0; c < nc; c++) {
    by.push_back((c == 0) == swap ? "?q" : "?p");
    t->vars[by[c]] = c;
  }
  t->vars["?v"] = nc;
  GroupBy g(w.qec(), by,
            {alias(Agg::COUNT, "?v", "?x0", false), alias(Agg::COUNT, "?v", "?x1", true),
             alias(Agg::MIN, "?v", "?x2", false), alias(Agg::MAX, "?v", "?x3", false),
             alias(Agg::SAMPLE, "?v", "?x4", false)});
  auto tree = treeOf(w, t);
  g.setSubtree(tree);
  ResultTable res(w.alloc());
  compute(g, res);
  auto cols = g.getVariableColumns();
  Groups gr(t->data, keys);
  symx_assert(res._data.cols() == nc + 5, "width of the grouped table");
  if (n == 0 && nc == 0) {
    symx_assert(res._data.size() == 1, "one row without grouping columns");
    symx_assert((res._data(0, cols.at("?x0")) == 0) & (res._data(0, cols.at("?x1")) == 0), "COUNT of no rows");
    symx_cover("end");
    return;
  }
  symx_assert(res._data.size() == gr.size(), "number of groups");
  for (size_t k = 0; k < gr.size(); k++) {
    bool ok = true;
    for (size_t c = 0; c < nc; c++) ok &= res._data(k, cols.at(by[c])) == t->data(gr.start[k], c);
    symx_assert(ok, "grouping values of a group");
    Id mn = ~Id(0), mx = 0, distinct = 0;
    bool sample = false;
    for (size_t i = gr.start[k]; i < gr.end(k); i++) {
      Id v = t->data(i, nc);
      mn = v < mn ? v : mn;
      mx = v > mx ? v : mx;
      bool first = true;
      for (size_t j = gr.start[k]; j < i; j++) first &= t->data(j, nc) != v;
      distinct += first;
      sample |= res._data(k, cols.at("?x4")) == v;
    }
    symx_assert(res._data(k, cols.at("?x0")) == gr.end(k) - gr.start[k], "COUNT of a group");
    symx_assert(res._data(k, cols.at("?x1")) == distinct, "COUNT DISTINCT of a group");
    symx_assert(res._data(k, cols.at("?x2")) == mn, "MIN of a group");
    symx_assert(res._data(k, cols.at("?x3")) == mx, "MAX of a group");
    symx_assert(sample, "SAMPLE is a value of the group");
  }
  symx_assert(res.getResultType(cols.at("?x0")) == Type::VERBATIM, "type of COUNT");
  symx_assert(res.getResultType(cols.at("?x2")) == ty, "type of MIN");
  symx_assert(res.getResultType(cols.at("?x3")) == ty, "type of MAX");
  symx_assert(res.getResultType(cols.at("?x4")) == ty, "type of SAMPLE");
  symx_assert(isSorted(res._data, g.getResultSortedOn()) | swap, "the groups are sorted as announced");
  observeTable(res._data);
  symx_cover("end");
}

// SUM, AVG, MIN, MAX, GROUP_CONCAT over numbers of the three number types
extern "C" void c05_numbers() {
  std::string wordBuf[4] = {"<x>", "", "", "\"y\""};
  wordBuf[1] = ad_utility::convertFloatStringToIndexWord("2.5");
  wordBuf[2] = ad_utility::convertFloatStringToIndexWord("-4");
  words = wordBuf;
  const float kbValue[4] = {NAN, 2.5, -4, NAN};
  World w;
  size_t nc = symx_param("cols", 1), n = 1 + symx_choice("n", symx_param("n", 3));
  const Type types[] = {Type::VERBATIM, Type::FLOAT, Type::KB};
  size_t tk = symx_param("type", 0);
  auto t = std::make_shared<TableOp>(w, "T", nc + 1);
  t->data.resize(n);
  t->types[nc] = types[tk];
  float val[8];
  for (size_t i = 0; i < n; i++) {
    if (nc) t->data(i, 0) = symx_u64("T");
    size_t k = symx_choice("v", 3);
    const Id ints[] = {0, 3, 7};
    const float floats[] = {1.5, -2.25, 0};
    t->data(i, nc) = tk == 0 ? ints[k] : tk == 1 ? floatCell(floats[k]) : k;
    val[i] = tk == 0 ? (float)ints[k] : tk == 1 ? floats[k] : kbValue[k];
  }
  std::vector<size_t> keys;
  if (nc) keys = {0};
  if (nc) assumeSorted(t->data, keys);
  t->sorted = keys;
  if (nc) t->vars["?p"] = 0;
  t->vars["?v"] = nc;
  std::vector<std::string> by;
  if (nc) by = {"?p"};
  GroupBy g(w.qec(), by,
            {alias(Agg::SUM, "?v", "?x0", false), alias(Agg::SUM, "?v", "?x1", true),
             alias(Agg::AVG, "?v", "?x2", false), alias(Agg::AVG, "?v", "?x3", true),
             alias(Agg::MIN, "?v", "?x4", false), alias(Agg::MAX, "?v", "?x5", false),
             alias(Agg::GROUP_CONCAT, "?v", "?x6", false), alias(Agg::GROUP_CONCAT, "?v", "?x7", true)});
  g.setSubtree(treeOf(w, t));
  ResultTable res(w.alloc());
  compute(g, res);
  auto cols = g.getVariableColumns();
  Groups gr(t->data, keys);
  symx_assert(res._data.size() == gr.size(), "number of groups");
  auto close = [](float a, float b) { return (a == b) | ((a != a) & (b != b)); };
  for (size_t k = 0; k < gr.size(); k++) {
    float sum = 0, dsum = 0, mn = INFINITY, mx = -INFINITY;
    size_t cnt = 0, dcnt = 0;
    Id lo = ~Id(0), hi = 0;
    std::string all, distinct;
    for (size_t i = gr.start[k]; i < gr.end(k); i++) {
      bool first = true;
      for (size_t j = gr.start[k]; j < i; j++) first &= t->data(j, nc) != t->data(i, nc);
      sum += val[i];
      cnt++;
      mn = val[i] < mn ? val[i] : mn;
      mx = val[i] > mx ? val[i] : mx;
      Id v = t->data(i, nc);
      lo = v < lo ? v : lo;
      hi = v > hi ? v : hi;
      std::string text;
      if (tk == 0) text = v == 0 ? "0" : v == 3 ? "3" : "7";
      if (tk == 1) text = val[i] == 0 ? "0" : val[i] == 1.5 ? "1.5" : "-2.25";
      if (tk == 2) text = v == 0 ? "<x>" : ad_utility::convertIndexWordToValueLiteral(words[v]);
      if (cnt > 1) all += ";";
      all += text;
      if (first) {
        dsum += val[i];
        dcnt++;
        if (dcnt > 1) distinct += ";";
        distinct += text;
      }
    }
    auto F = [&](const char* c) { return asFloat(res._data(k, cols.at(c))); };
    symx_assert(close(F("?x0"), sum), "SUM of a group");
    symx_assert(close(F("?x1"), dsum), "SUM DISTINCT of a group");
    symx_assert(close(F("?x2"), sum / cnt), "AVG of a group");
    symx_assert(close(F("?x3"), dsum / dcnt), "AVG DISTINCT of a group");
    if (tk == 1) {
      symx_assert(F("?x4") == mn, "MIN of a group of floats");
      symx_assert(F("?x5") == mx, "MAX of a group of floats");
    } else {
      symx_assert(res._data(k, cols.at("?x4")) == lo, "MIN of a group");
      symx_assert(res._data(k, cols.at("?x5")) == hi, "MAX of a group");
    }
    auto S = [&](const char* c) { return res.idToOptionalString(res._data(k, cols.at(c))); };
    symx_assert(S("?x6").has_value() && *S("?x6") == all, "GROUP_CONCAT of a group");
    symx_assert(S("?x7").has_value() && *S("?x7") == distinct, "GROUP_CONCAT DISTINCT of a group");
  }
  for (const char* c : {"?x0", "?x1", "?x2", "?x3"})
    symx_assert(res.getResultType(cols.at(c)) == Type::FLOAT, "type of SUM and AVG");
  symx_assert(res.getResultType(cols.at("?x6")) == Type::LOCAL_VOCAB, "type of GROUP_CONCAT");
  observeTable(res._data);
  symx_cover("end");
}

// the same grouping variable written twice
extern "C" void c05_repeated() {
  World w;
  size_t n = symx_choice("n", symx_param("n", 2) + 1);
  auto t = keyedTable(w, "T", 2, {0}, n, 1000);
  t->vars["?p"] = 0;
  t->vars["?v"] = 1;
  GroupBy g(w.qec(), {"?p", "?p"}, {alias(Agg::COUNT, "?v", "?x0", false)});
  g.setSubtree(treeOf(w, t));
  ResultTable res(w.alloc());
  compute(g, res);
  auto cols = g.getVariableColumns();
  Groups gr(t->data, {0});
  symx_assert(res._data.size() == gr.size(), "number of groups");
  for (size_t k = 0; k < gr.size(); k++) {
    symx_assert(res._data(k, cols.at("?p")) == t->data(gr.start[k], 0), "grouping value of a group");
    symx_assert(res._data(k, cols.at("?x0")) == gr.end(k) - gr.start[k], "COUNT of a group");
  }
  observeTable(res._data);
  symx_cover("end");
}

// Two grouping columns and only a COUNT, with more rows.
extern "C" void c05_keys() {
  World w;
  size_t n = symx_choice("n", symx_param("n", 4) + 1);
  bool swap = symx_choice("swap", 2);
  auto t = std::make_shared<TableOp>(w, "T", 3);
  t->data.resize(n);
  std::vector<size_t> keys{swap ? 1ul : 0ul, swap ? 0ul : 1ul};
  for (size_t i = 0; i < n; i++) {
    t->data(i, 0) = symx_u64("T");
    t->data(i, 1) = symx_u64("T");
    t->data(i, 2) = 100 + i;
  }
  assumeSorted(t->data, keys);
  t->sorted = keys;
  t->vars["?p"] = 0;
  t->vars["?q"] = 1;
  t->vars["?v"] = 2;
  GroupBy g(w.qec(), swap ? std::vector<std::string>{"?q", "?p"} : std::vector<std::string>{"?p", "?q"},
            {alias(Agg::COUNT, "?v", "?x", false)});
  g.setSubtree(treeOf(w, t));
  ResultTable res(w.alloc());
  compute(g, res);
  auto cols = g.getVariableColumns();
  Groups gr(t->data, keys);
  symx_assert(res._data.size() == gr.size(), "number of groups");
  for (size_t k = 0; k < gr.size(); k++) {
    symx_assert((res._data(k, cols.at("?p")) == t->data(gr.start[k], 0)) & (res._data(k, cols.at("?q")) == t->data(gr.start[k], 1)),
                "grouping values of a group");
    symx_assert(res._data(k, cols.at("?x")) == gr.end(k) - gr.start[k], "COUNT of a group");
  }
  observeTable(res._data);
  symx_cover("end");
}
