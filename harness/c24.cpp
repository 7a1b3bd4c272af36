// C24: predicate counts and predicate scans by means of the patterns. The
// patterns are made from symbolic triples by the index builder, written to a
// file, read by the server's code and used by the operators.
#include <list>
#include "global/Constants.h"
#include "index/ConstantsIndexCreation.h"
#include "sx.h"
#include "icu.h"
#include "index/Index.h"
#include "engine/CountAvailablePredicates.h"
#include "engine/HasPredicateScan.h"
#include "qe.h"

static Id wordId;
using Voc = std::decay_t<decltype(std::declval<const Index&>().getVocab())>;
template <>
bool Voc::getId(const string& word, Id* id) const {
  if (word != "known") return false;
  *id = wordId;
  return true;
}
template <>
void Voc::readFromFile(const string&, const string&) {}
template <>
void Voc::setLocale(const std::string&, const std::string&, bool) {}
template <>
void Vocabulary<std::string, SimpleStringComparator>::setLocale(const std::string&, const std::string&, bool) {}
static Id langLow, langHigh;
template <>
std::pair<Id, Id> Voc::prefix_range(const string&) const {
  return {langLow, langHigh};
}
#include "index/Index.cpp"

using Triple3 = std::array<Id, 3>;
static std::vector<Triple3> triples;
static Id numWords;
// Whether a triple counts: the first of its subject and predicate, and no
// language predicate.
static bool counts(size_t k) {
  auto& t = triples[k];
  bool r = (t[1] < langLow) | (t[1] >= langHigh);
  for (size_t j = 0; j < k; j++) r &= !((triples[j][0] == t[0]) & (triples[j][1] == t[1]));
  return r;
}

static Index* makeIndex(size_t n) {
  numWords = symx_param("words", 3);
  auto index = new Index();
  index->setOnDiskBase("ix");
  VocabularyData data;
  data.idTriples = std::make_unique<Index::TripleVec>();
  langLow = symx_u64("langlow");
  langHigh = symx_u64("langhigh");
  symx_assume(langLow <= langHigh);
  for (size_t i = 0; i < n; i++) {
    Triple3 t{symx_choice("subject", numWords), symx_u64("predicate"), i};
    symx_assume(t[1] < ID_NO_VALUE);
    if (i > 0) symx_assume((triples.back()[0] < t[0]) | ((triples.back()[0] == t[0]) & (triples.back()[1] <= t[1])));
    triples.push_back(t);
    data.idTriples->push_back(t);
  }
  data.nofWords = numWords;
  data.langPredLowerBound = langLow;
  data.langPredUpperBound = langHigh;
  index->_totalVocabularySize = numWords;
  index->_usePatterns = true;
  index->_maxNumPatterns = symx_param("patterns", 1);
  bool later = symx_param("later", 0);
  index->createPermutationPair<Index::IndexMetaDataHmapDispatcher>(&data, index->_PSO, index->_POS, true);
  index->createPermutationPair<Index::IndexMetaDataMmapDispatcher>(&data, index->_SPO, index->_SOP, false, !later);
  index->createPermutationPair<Index::IndexMetaDataMmapDispatcher>(&data, index->_OSP, index->_OPS);
  {
    std::ofstream f("ix.meta-data.json");
    f << "{\"locale\":{\"language\":\"en\",\"country\":\"US\",\"ignore-punctuation\":false}}";
  }
  if (later) {
    std::unique_ptr<Index> add(new Index());
    add->_usePatterns = false;
    add->_maxNumPatterns = symx_param("patterns", 1);
    add->createFromOnDiskIndex("ix");
    add->addPatternsToExistingIndex();
  }
  delete index;
  index = new Index();
  index->_usePatterns = true;
  index->createFromOnDiskIndex("ix");
  return index;
}

// How often predicate p occurs with the entities for which `has` holds.
template <class F>
static size_t direct(Id p, F has) {
  size_t n = 0;
  for (size_t k = 0; k < triples.size(); k++) n += counts(k) & (triples[k][1] == p) & has(triples[k][0]);
  return n;
}
template <class F>
static void checkCounts(const IdTable& r, F has) {
  bool right = true, once = true, complete = true;
  for (size_t i = 0; i < r.size(); i++) {
    right &= (r(i, 1) == direct(r(i, 0), has)) & (r(i, 1) > 0);
    for (size_t j = 0; j < i; j++) once &= r(i, 0) != r(j, 0);
  }
  for (size_t k = 0; k < triples.size(); k++) {
    bool found = !(counts(k) & has(triples[k][0]));
    for (size_t i = 0; i < r.size(); i++) found |= r(i, 0) == triples[k][1];
    complete &= found;
  }
  symx_assert(right, "predicate counts: number of entities with the predicate");
  symx_assert(once, "predicate counts: every predicate once");
  symx_assert(complete, "predicate counts: every predicate of the entities");
  uint64_t sum = 0;  // the order of the rows is not defined
  for (size_t i = 0; i < r.size(); i++) sum += r(i, 0) * 31 + r(i, 1);
  symx_observe(r.size());
  symx_observe(sum);
}

static std::shared_ptr<TableOp> entities(World& w, size_t rows, size_t cols, size_t col, bool sorted) {
  auto t = std::make_shared<TableOp>(w, "entities", cols);
  for (size_t i = 0; i < rows; i++) {
    t->data.push_back();
    for (size_t c = 0; c < cols; c++) t->data(i, c) = symx_u64("cell");
    Id& e = t->data(i, col);
    if (e <= numWords) e = symx_concretize(e);
    if (sorted && i > 0) symx_assume(t->data(i - 1, col) <= e);
  }
  if (sorted) t->sorted = {col};
  t->types[col] = Type::KB;
  for (size_t c = 0; c < cols; c++) t->vars["?" + std::string(1, char('a' + c))] = c;
  return t;
}

extern "C" void c24_countSome() {
  std::unique_ptr<Index> index(makeIndex(symx_param("n", 2)));
  World w(index.get());
  size_t cols = symx_param("cols", 1), col = symx_param("col", 0);
  auto t = entities(w, symx_param("rows", 2), cols, col, true);
  CountAvailablePredicates op(w.qec(), treeOf(w, t), col);
  op.setVarNames("?p", "?c");
  ResultTable r(w.alloc());
  compute(op, r);
  checkCounts(r._data, [&](Id e) {
    bool in = false;
    for (size_t i = 0; i < t->data.size(); i++) in |= t->data(i, col) == e;
    return in;
  });
  symx_cover("end");
}
extern "C" void c24_countAll() {
  std::unique_ptr<Index> index(makeIndex(symx_param("n", 2)));
  World w(index.get());
  CountAvailablePredicates op(w.qec());
  ResultTable r(w.alloc());
  compute(op, r);
  checkCounts(r._data, [](Id) { return true; });
  symx_cover("end");
}
extern "C" void c24_countOne() {
  std::unique_ptr<Index> index(makeIndex(symx_param("n", 2)));
  World w(index.get());
  bool known = symx_choice("known", 2);
  wordId = symx_range("entity", 0, numWords);
  wordId = symx_concretize(wordId);
  CountAvailablePredicates op(w.qec(), known ? "known" : "unknown");
  ResultTable r(w.alloc());
  compute(op, r);
  checkCounts(r._data, [&](Id e) { return known & (e == wordId); });
  symx_cover("end");
}

extern "C" void c24_scan() {
  std::unique_ptr<Index> index(makeIndex(symx_param("n", 2)));
  World w(index.get());
  Expected e;
  ResultTable r(w.alloc());
  switch (symx_param("mode", 0)) {
    case 0: {
      HasPredicateScan op(w.qec(), HasPredicateScan::ScanType::FREE_S);
      op.setSubject("?s");
      op.setObject("known");
      wordId = symx_u64("object");
      compute(op, r);
      for (size_t k = 0; k < triples.size(); k++) e.add({triples[k][0]}, counts(k) & (triples[k][1] == wordId));
      symx_assert(isSorted(r._data, op.resultSortedOn()), "has-predicate scan: announced order");
      break;
    }
    case 1: {
      HasPredicateScan op(w.qec(), HasPredicateScan::ScanType::FREE_O);
      op.setSubject("known");
      op.setObject("?p");
      wordId = symx_range("subject", 0, numWords);
      wordId = symx_concretize(wordId);
      compute(op, r);
      for (size_t k = 0; k < triples.size(); k++) e.add({triples[k][1]}, counts(k) & (triples[k][0] == wordId));
      symx_assert(isSorted(r._data, op.resultSortedOn()), "has-predicate scan: announced order");
      break;
    }
    case 2: {
      HasPredicateScan op(w.qec(), HasPredicateScan::ScanType::FULL_SCAN);
      op.setSubject("?s");
      op.setObject("?p");
      compute(op, r);
      for (size_t k = 0; k < triples.size(); k++) e.add({triples[k][0], triples[k][1]}, counts(k));
      symx_assert(isSorted(r._data, op.resultSortedOn()), "has-predicate scan: announced order");
      break;
    }
    default: {
      HasPredicateScan op(w.qec(), HasPredicateScan::ScanType::SUBQUERY_S);
      size_t cols = symx_param("cols", 2), col = symx_param("col", 0);
      auto t = entities(w, symx_param("rows", 2), cols, col, symx_param("sortedInput", 1));
      op.setSubject("?" + std::string(1, char('a' + col)));
      op.setObject("?p");
      op.setSubtree(treeOf(w, t));
      op.setSubtreeSubjectColumn(col);
      compute(op, r);
      for (size_t i = 0; i < t->data.size(); i++)
        for (size_t k = 0; k < triples.size(); k++) {
          Row row = rowOf(t->data, i);
          row.v[row.n++] = triples[k][1];
          e.add(row, counts(k) & (triples[k][0] == t->data(i, col)));
        }
      symx_assert(isSorted(r._data, op.resultSortedOn()), "has-predicate scan: announced order");
      symx_assert(r._localVocab == t->localVocab, "has-predicate scan: texts of the input are kept");
    }
  }
  assertBag(r._data, e, "has-predicate scan: number of rows", "has-predicate scan: exactly the predicates of the entities");
  observeTable(r._data);
  symx_cover("end");
}
