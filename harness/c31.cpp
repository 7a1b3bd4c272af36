// C31: VALUES yields exactly its known rows, BIND adds exactly one column.
#include "qe.h"
#include <cmath>
#include "engine/Bind.h"
#include "engine/Values.h"
#include "index/Index.h"
#include "util/Conversions.h"

static std::string* words;  // the vocabulary as far as results are decoded
static const char* TEXT[] = {"<a>", "<b>", "UNDEF"};
static bool known[2];
static Id idOf[2];
using Voc = std::decay_t<decltype(std::declval<const Index&>().getVocab())>;
template <>
bool Voc::getId(const string& word, Id* id) const {
  for (size_t k = 0; k < 2; k++)
    if (word == TEXT[k] && known[k]) {
      *id = idOf[k];
      return true;
    }
  return false;
}
template <class S, class C>
template <typename, typename>
const std::optional<string> Vocabulary<S, C>::idToOptionalString(Id id) const {
  if (id >= 4) return std::nullopt;
  return words[id];
}
template const std::optional<string> RdfsVocabulary::idToOptionalString<CompressedString, void>(Id id) const;

extern "C" void c31_values() {
  World w;
  for (size_t k = 0; k < 2; k++) {
    known[k] = symx_choice("known", 2);
    idOf[k] = symx_u64("id");
  }
  size_t cols = symx_param("cols", 0);
  if (!cols) cols = 1 + symx_choice("cols", 2);
  size_t rows = symx_param("fixrows", 0) ? symx_param("rows", 2) : 1 + symx_choice("rows", symx_param("rows", 2));
  SparqlValues v;
  static const char* VARS[] = {"?x", "?y", "?z", "?u", "?v", "?w"};
  for (size_t c = 0; c < cols; c++) v._variables.push_back(VARS[c]);
  // unless all cells are free, the first column and the last cell are
  bool all = symx_param("all", 1);
  std::vector<std::vector<size_t>> cell(rows);
  for (size_t r = 0; r < rows; r++) {
    v._values.emplace_back();
    for (size_t c = 0; c < cols; c++) {
      bool isFree = all || c == 0 || (c + 1 == cols && r + 1 == rows);
      cell[r].push_back(isFree ? symx_choice("cell", 3) : (r + c) % 2);
      v._values[r].push_back(TEXT[cell[r][c]]);
    }
  }
  std::vector<size_t> keep;  // a variable no row binds is ignored
  for (size_t c = 0; c < cols; c++) {
    bool bound = false;
    for (size_t r = 0; r < rows; r++) bound = bound || cell[r][c] < 2;
    if (bound) keep.push_back(c);
  }
  std::unique_ptr<Values> op;
  bool refused = false;
  try {
    op = std::make_unique<Values>(w.qec(), v);
  } catch (const ad_semsearch::Exception&) {
    refused = true;
  }
  symx_assert(refused == keep.empty(), "VALUES is refused exactly if it binds nothing");
  if (refused) {
    symx_cover("refused");
    return;
  }
  ResultTable res(w.alloc());
  compute(*op, res);
  auto vars = op->getVariableColumns();
  symx_assert(vars.size() == keep.size() && op->getResultWidth() == keep.size(), "VALUES has the bound variables");
  symx_assert(res._data.cols() == keep.size() && res._resultTypes.size() == keep.size(), "VALUES has one column each");
  Expected e;
  for (size_t r = 0; r < rows; r++) {
    bool ok = true;
    Row row;
    row.n = keep.size();
    for (size_t c : keep) {
      ok = ok && cell[r][c] < 2 && known[cell[r][c]];
      symx_assert(vars.count(VARS[c]) == 1 && vars[VARS[c]] < keep.size(), "VALUES announces the variable");
      row.v[vars[VARS[c]]] = cell[r][c] < 2 ? idOf[cell[r][c]] : 0;
    }
    e.add(row, ok);
  }
  for (auto t : res._resultTypes) symx_assert(t == Type::KB, "VALUES yields words");
  assertBag(res._data, e, "VALUES: number of rows", "VALUES: exactly the known rows");
  observeTable(res._data);
  symx_cover("end");
}

static std::shared_ptr<TableOp> input(World& w, size_t cols, size_t n) {
  auto t = std::make_shared<TableOp>(w, "T", cols);
  static const char* VARS[] = {"?a", "?b", "?c", "?d", "?e", "?f", "?g"};
  size_t flip = symx_param("order", 2) == 2 ? symx_choice("order", 2) : symx_param("order", 2);  // which column a variable is in
  for (size_t c = 0; c < cols; c++) t->vars[VARS[flip ? cols - 1 - c : c]] = c;
  t->data.resize(n);
  for (size_t i = 0; i < n; i++)
    for (size_t c = 0; c < cols; c++) t->data(i, c) = symx_u64("T");
  return t;
}
static void checkCopy(const TableOp& in, const ResultTable& res, const Bind& op) {
  size_t cols = in.data.cols();
  symx_assert(res._data.cols() == cols + 1 && res._resultTypes.size() == cols + 1 && op.getResultWidth() == cols + 1,
              "BIND adds one column");
  symx_assert(res._data.size() == in.data.size(), "BIND keeps the number of rows");
  bool ok = true;
  for (size_t i = 0; i < in.data.size(); i++)
    for (size_t c = 0; c < cols; c++) ok &= res._data(i, c) == in.data(i, c);
  for (size_t c = 0; c < cols; c++) ok &= res._resultTypes[c] == in.types[c];
  symx_assert(ok, "BIND leaves all other columns unchanged");
  symx_assert(res._localVocab == in.localVocab, "BIND keeps the computed texts");
  auto vars = op.getVariableColumns();
  symx_assert(vars.size() == cols + 1 && vars["?new"] == cols, "BIND announces its column");
  for (auto& p : in.vars) symx_assert(vars[p.first] == p.second, "BIND keeps the places of the variables");
}

extern "C" void c31_simple() {
  World w;
  size_t cols = symx_param("cols", 0);
  if (!cols) cols = 1 + symx_choice("cols", 2);
  size_t n = symx_choice("n", symx_param("n", 2) + 1);
  auto t = input(w, cols, n);
  for (auto& x : t->types) x = symx_choice("type", 2) ? Type::LOCAL_VOCAB : Type::FLOAT;
  if (symx_choice("sorted", 2)) {
    assumeSorted(t->data, {0});
    t->sorted = {0};
  }
  for (size_t k = 0; k < 2; k++) {
    known[k] = k == 0;
    idOf[k] = symx_u64("id");
  }
  GraphPatternOperation::Bind b;
  b._target = "?new";
  size_t kind = symx_choice("kind", 4);
  size_t from = 0;
  int64_t number = 0;
  if (kind == 0) {
    from = symx_choice("from", cols);
    std::string var;
    for (auto& p : t->vars)
      if (p.second == from) var = p.first;
    b._expressionVariant = GraphPatternOperation::Bind::Rename{var};
  } else if (kind == 1) {
    GraphPatternOperation::Bind::Constant c(int64_t(0));
    number = c._intValue = (int64_t)symx_u64("number");
    b._expressionVariant = c;
  } else {
    b._expressionVariant = GraphPatternOperation::Bind::Constant(std::string(kind == 2 ? "<a>" : "<b>"));
  }
  Bind op(w.qec(), treeOf(w, t), b);
  ResultTable res(w.alloc());
  try {
    compute(op, res);
  } catch (const std::runtime_error&) {
    symx_assert(kind == 3, "BIND is refused only for an unknown constant");
    symx_cover("refused");
    return;
  }
  symx_assert(kind != 3, "BIND of an unknown constant is refused");
  checkCopy(*t, res, op);
  bool ok = true;
  for (size_t i = 0; i < n; i++)
    ok &= res._data(i, cols) == (kind == 0 ? t->data(i, from) : kind == 1 ? (Id)number : idOf[0]);
  symx_assert(ok, "BIND holds the bound value in each row");
  symx_assert(res._resultTypes[cols] == (kind == 0 ? t->types[from] : kind == 1 ? Type::VERBATIM : Type::KB),
              "BIND holds values of the right kind");
  if (!res._sortedBy.empty())
    symx_assert(isSorted(res._data, res._sortedBy), "BIND claims only an order that it has");
  observeTable(res._data);
  symx_cover("end");
}

static float number(Id x, Type t) {
  float f = std::numeric_limits<float>::quiet_NaN();
  if (x == ID_NO_VALUE) return f;
  if (t == Type::VERBATIM) return (float)x;
  if (t == Type::FLOAT) memcpy(&f, &x, 4);
  if (t == Type::KB) f = x == 1 ? 2.5f : x == 2 ? -4.0f : f;
  return f;
}
extern "C" void c31_binary() {
  World w;
  std::string wordBuf[4];
  wordBuf[0] = "<x>";
  wordBuf[1] = ad_utility::convertFloatStringToIndexWord("2.5");
  wordBuf[2] = ad_utility::convertFloatStringToIndexWord("-4");
  wordBuf[3] = ad_utility::convertDateToIndexWord("2000-01-01");
  words = wordBuf;
  size_t n = symx_param("n", 1), cols = symx_param("cols", 2);
  auto t = input(w, cols, n);
  const Type types[] = {Type::KB, Type::VERBATIM, Type::FLOAT, Type::TEXT, Type::LOCAL_VOCAB};
  size_t c1 = cols == 2 ? symx_choice("first", 2) : cols - 1, c2 = cols == 2 ? symx_choice("second", 2) : 0;
  t->types[c1] = types[symx_choice("type1", 5)];
  if (c2 != c1) t->types[c2] = types[symx_choice("type2", 5)];
  for (size_t i = 0; i < n; i++)
    for (size_t c : {c1, c2})
      if (t->types[c] == Type::KB) {
        Id x = t->data(i, c);
        symx_assume((x < 4) | (x == ID_NO_VALUE));
      }
  std::string v1, v2;
  for (auto& p : t->vars) {
    if (p.second == c1) v1 = p.first;
    if (p.second == c2) v2 = p.first;
  }
  const char* ops[] = {"+", "-", "*", "/"};
  size_t k = symx_choice("operator", 4);
  GraphPatternOperation::Bind b;
  b._target = "?new";
  b._expressionVariant = GraphPatternOperation::Bind::BinaryOperation{v1, v2, ops[k]};
  Bind op(w.qec(), treeOf(w, t), b);
  ResultTable res(w.alloc());
  compute(op, res);
  checkCopy(*t, res, op);
  symx_assert(res._resultTypes[cols] == Type::FLOAT, "BIND of a calculation holds numbers");
  for (size_t i = 0; i < n; i++) {
    float x = number(t->data(i, c1), t->types[c1]), y = number(t->data(i, c2), t->types[c2]), got;
    memcpy(&got, &res._data(i, cols), 4);
    float want = k == 0 ? x + y : k == 1 ? x - y : k == 2 ? x * y : x / y;
    bool none = (want != want) | ((k == 3) & (y == 0));
    symx_assert((none & (got != got)) | (!none & (want == got)), "BIND calculates the right number");
    symx_assert(res._data(i, cols) >> 32 == 0, "BIND sets the whole cell");
  }
  symx_cover("end");
}
