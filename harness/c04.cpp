// C04: comparison filters keep exactly the rows that satisfy the comparison.
#include "qe.h"
#include "engine/Filter.h"
#include "index/Index.h"
#include "util/Conversions.h"

// The position of the constant in the vocabulary: any words may be in it, so
// any position is possible. (That the vocabulary finds the right position is
// C19.)
static Id vocLower, vocUpper;
static std::string* vocWord;
using Voc = std::decay_t<decltype(std::declval<const Index&>().getVocab())>;
template <>
Id Voc::lower_bound(const string& word, const Voc::SortLevel) const {
  symx_assert(word == *vocWord, "the constant is looked up in its index form");
  return vocLower;
}
template <>
Id Voc::upper_bound(const string& word, const Voc::SortLevel) const {
  symx_assert(word == *vocWord, "the constant is looked up in its index form");
  return vocUpper;
}

static float asFloat(Id x) {
  float f;
  uint32_t u = (uint32_t)x;
  memcpy(&f, &u, 4);
  return f;
}

// conditions for the relation of a cell to the constant
static bool holds(SparqlFilter::FilterType t, bool lt, bool eq) {
  switch (t) {
    case SparqlFilter::EQ: return eq;
    case SparqlFilter::NE: return !eq;
    case SparqlFilter::LT: return lt;
    case SparqlFilter::LE: return lt | eq;
    case SparqlFilter::GT: return !(lt | eq);
    default: return !lt;
  }
}

static const SparqlFilter::FilterType kinds[] = {SparqlFilter::EQ, SparqlFilter::NE, SparqlFilter::LT,
                                                 SparqlFilter::LE, SparqlFilter::GT, SparqlFilter::GE};

static std::shared_ptr<TableOp> input(World& w, size_t cols, size_t n, Type ty, std::vector<size_t> keys) {
  auto t = std::make_shared<TableOp>(w, "T", cols);
  t->data.resize(n);
  for (size_t i = 0; i < n; i++)
    for (size_t c = 0; c < cols; c++) {
      bool key = false;
      for (size_t k : keys) key |= k == c;
      t->data(i, c) = !key ? 1000 + i * 10 + c : ty == Type::FLOAT ? (Id)symx_u32("T") : symx_u64("T");
      if (key && ty == Type::FLOAT) symx_assume(asFloat(t->data(i, c)) == asFloat(t->data(i, c)));
    }
  for (size_t k : keys) t->types[k] = ty;
  const char* names[] = {"?a", "?b", "?c", "?d", "?e", "?f"};
  for (size_t c = 0; c < cols; c++) t->vars[names[c]] = c;
  return t;
}

static void sortIt(TableOp& t, size_t col, Type ty) {
  t.sorted = {col};
  for (size_t i = 1; i < t.data.size(); i++)
    if (ty == Type::FLOAT)
      symx_assume(asFloat(t.data(i - 1, col)) <= asFloat(t.data(i, col)));
    else
      symx_assume(t.data(i - 1, col) <= t.data(i, col));
}

static void finish(Filter& f, TableOp& t, ResultTable& res, const Expected& e) {
  symx_assert(res._data.cols() == t.data.cols(), "width of the filtered table");
  assertSequence(res._data, e, "number of rows that pass the filter", "rows that pass the filter, in order");
  for (size_t c = 0; c < t.types.size(); c++)
    symx_assert(res.getResultType(c) == t.types[c], "column types of the filtered table");
  observeTable(res._data);
  symx_cover("end");
}

// a column against a constant
extern "C" void c04_const() {
  std::string word;
  vocWord = &word;
  World w;
  const Type types[] = {Type::KB, Type::VERBATIM, Type::FLOAT};
  Type ty = types[symx_param("type", 0)];
  size_t cols = symx_param("cols", 2);
  auto kind = kinds[symx_choice("kind", 6)];
  size_t n = symx_param("fixn", 0) ? symx_param("n", 3) : symx_choice("n", symx_param("n", 3) + 1);
  size_t col = symx_choice("col", cols);
  auto t = input(w, cols, n, ty, {col});
  if (symx_choice("sorted", 2))
    sortIt(*t, col, ty);
  else if (cols > 1 && symx_choice("other", 2))
    t->sorted = {(col + 1) % cols};  // the fixed tags are increasing
  std::string rhs;
  Id value = 0;
  float fvalue = 0;
  if (ty == Type::KB) {
    const char* texts[] = {"<x>", "\"<x>\"", "\"\"a\"@en\"", "12", "\"abc\""};
    size_t k = symx_param("text", 5);
    if (k == 5) k = symx_choice("text", 5);
    rhs = texts[k];
    word = k == 3 ? ad_utility::convertNumericToIndexWord("12") : k == 1 ? "<x>" : k == 2 ? "\"a\"@en" : texts[k];
    vocLower = symx_u64("lower");
    vocUpper = symx_u64("upper");
    symx_assume((vocLower <= vocUpper) & (vocUpper <= (Id(1) << 62)));
  } else if (ty == Type::VERBATIM) {
    const char* texts[] = {"0", "5", "18446744073709551615"};
    const Id vals[] = {0, 5, ~Id(0)};
    size_t k = symx_choice("value", 3);
    rhs = texts[k];
    value = vals[k];
  } else {
    const char* texts[] = {"0", "1.5", "-2.5"};
    const float vals[] = {0, 1.5, -2.5};
    size_t k = symx_choice("value", 3);
    rhs = texts[k];
    fvalue = vals[k];
  }
  const char* names[] = {"?a", "?b", "?c", "?d", "?e", "?f"};
  Filter f(w.qec(), treeOf(w, t), kind, names[col], rhs, {}, {});
  ResultTable res(w.alloc());
  compute(f, res);
  Expected e;
  for (size_t i = 0; i < n; i++) {
    Id x = t->data(i, col);
    bool lt, eq;
    if (ty == Type::KB) {
      lt = x < vocLower;
      eq = (x >= vocLower) & (x < vocUpper);
    } else if (ty == Type::VERBATIM) {
      lt = x < value;
      eq = x == value;
    } else {
      lt = asFloat(x) < fvalue;
      eq = asFloat(x) == fvalue;
    }
    e.add(rowOf(t->data, i), holds(kind, lt, eq));
  }
  finish(f, *t, res, e);
}

// a column against another column of the same type
extern "C" void c04_columns() {
  World w;
  const Type types[] = {Type::KB, Type::VERBATIM, Type::FLOAT, Type::TEXT};
  Type ty = types[symx_param("type", 0)];
  size_t cols = symx_param("cols", 2);
  auto kind = kinds[symx_choice("kind", 6)];
  size_t n = symx_choice("n", symx_param("n", 3) + 1);
  size_t a = symx_choice("a", cols), b = symx_choice("b", cols);
  auto t = input(w, cols, n, ty, {a, b});
  if (symx_choice("sorted", 2)) sortIt(*t, a, ty);
  const char* names[] = {"?a", "?b", "?c", "?d", "?e", "?f"};
  Filter f(w.qec(), treeOf(w, t), kind, names[a], names[b], {}, {});
  ResultTable res(w.alloc());
  compute(f, res);
  Expected e;
  for (size_t i = 0; i < n; i++) {
    Id x = t->data(i, a), y = t->data(i, b);
    bool lt = ty == Type::FLOAT ? asFloat(x) < asFloat(y) : x < y;
    bool eq = ty == Type::FLOAT ? asFloat(x) == asFloat(y) : x == y;
    e.add(rowOf(t->data, i), holds(kind, lt, eq));
  }
  finish(f, *t, res, e);
}

// a column of strings the query has assembled itself against a constant
extern "C" void c04_local() {
  World w;
  auto kind = kinds[symx_choice("kind", 2)];
  size_t n = symx_choice("n", symx_param("n", 2) + 1);
  auto t = input(w, 2, n, Type::LOCAL_VOCAB, {1});
  size_t words = symx_choice("words", symx_param("words", 3) + 1);
  const char* texts[] = {"a", "b", ""};
  for (size_t k = 0; k < words; k++) t->localVocab->push_back(texts[symx_choice("word", 3)]);
  for (size_t i = 0; i < n; i++) {
    symx_assume(t->data(i, 1) < words);
    t->data(i, 1) = symx_concretize(t->data(i, 1));
  }
  if (symx_choice("sorted", 2)) sortIt(*t, 1, Type::LOCAL_VOCAB);
  std::string rhs = texts[symx_choice("rhs", 2)];
  Filter f(w.qec(), treeOf(w, t), kind, "?b", rhs, {}, {});
  ResultTable res(w.alloc());
  compute(f, res);
  Expected e;
  for (size_t i = 0; i < n; i++) e.add(rowOf(t->data, i), holds(kind, false, (*t->localVocab)[t->data(i, 1)] == rhs));
  finish(f, *t, res, e);
}
