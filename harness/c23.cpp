// C23: index scans return exactly the stored triples that match. The index is
// written to files and read back by the real code; sizes of blocks are scaled
// down.
#include <list>
#include "global/Constants.h"
#include "index/ConstantsIndexCreation.h"
#include "sx.h"
#define DISTINCT_LHS_PER_BLOCK ((size_t)symx_param("block", 2))
#define USE_BLOCKS_INDEX_SIZE_TRESHOLD ((size_t)symx_param("threshold", 2))
#define THRESHOLD_RELATION_CREATION ((size_t)symx_param("buffer", 1000))
#include "icu.h"
#include "index/Index.h"
#include "qe.h"

static Id wordId[2];
using Voc = std::decay_t<decltype(std::declval<const Index&>().getVocab())>;
template <>
bool Voc::getId(const string& word, Id* id) const {
  if (word != "first" && word != "second") return false;
  *id = wordId[word == "second"];
  return true;
}
#include "index/Index.cpp"
#include "engine/IndexScan.h"

using Triple3 = std::array<Id, 3>;
static Index* makeIndex(const char* base) {
  auto index = new Index();
  index->setOnDiskBase(base);
  return index;
}

template <class P>
static void checkScans(World& w, Index& index, P& perm, const std::vector<Triple3>& triples, size_t a, size_t b,
                       size_t c) {
  perm.loadFromDisk("ix");
  // the whole relation of one key
  Id key = symx_u64("key");
  if (key < symx_param("dense", 0)) key = symx_concretize(key);
  IdTable all(2, w.alloc());
  index.scan(key, &all, perm);
  std::vector<Triple3> sorted = triples;
  Expected e;
  for (auto& t : triples) {
    bool again = false;
    for (auto& u : triples) {
      if (&u == &t) break;
      again |= (u[0] == t[0]) & (u[1] == t[1]) & (u[2] == t[2]);
    }
    e.add({t[b], t[c]}, (t[a] == key) & !again);
  }
  assertBag(all, e, "scan: number of rows", "scan: exactly the stored rows");
  symx_assert(isSorted(all, {0, 1}), "scan: in order");
  observeTable(all);
  // the rows of two keys
  wordId[0] = key;
  Id second = wordId[1] = symx_u64("second");
  IdTable one(1, w.alloc());
  index.scan("first", "second", &one, perm);
  Expected f;
  for (size_t k = 0; k < triples.size(); k++) f.add({triples[k][c]}, e.cond[k] & (triples[k][b] == second));
  assertBag(one, f, "scan with two keys: number of rows", "scan with two keys: exactly the stored rows");
  symx_assert(isSorted(one, {0}), "scan with two keys: in order");
  observeTable(one);
}

static std::vector<Triple3> makeTriples(Index& index, VocabularyData& data, int split = -1) {
  size_t n = symx_param("n", 3);
  data.idTriples = std::make_unique<Index::TripleVec>();
  std::vector<Triple3> r;
  Id bound = symx_param("dense", 0);
  for (size_t i = 0; i < n; i++) {
    Triple3 t;
    for (auto& x : t) x = symx_u64("id");
    for (size_t c : {0, 1, 2})
      if (symx_param("fix", 7) & (1 << c)) {
      } else
        t[c] = 1;
    if (split >= 0) t[split] = symx_concretize(t[split] < bound ? t[split] : 0);
    symx_assume((t[0] < ID_NO_VALUE) & (t[1] < ID_NO_VALUE) & (t[2] < ID_NO_VALUE));
    if (symx_param("sorted", 0) && i > 0) {
      auto& u = r.back();
      symx_assume((u[1] < t[1]) |
                  ((u[1] == t[1]) & ((u[0] < t[0]) | ((u[0] == t[0]) & (u[2] <= t[2])))));
    }
    // Duplicates are removed when the first pair of permutations is made.
    if (bound)
      for (auto& u : r) symx_assume((u[0] != t[0]) | (u[1] != t[1]) | (u[2] != t[2]));
    if (bound) symx_assume((t[0] < bound) & (t[1] < bound) & (t[2] < bound));
    r.push_back(t);
    data.idTriples->push_back(t);
  }
  data.nofWords = bound;
  index._totalVocabularySize = bound;
  return r;
}
extern "C" void c23_predicates() {
  World w;
  std::unique_ptr<Index> index(makeIndex("ix"));
  VocabularyData data;
  auto triples = makeTriples(*index, data);
  index->createPermutationPair<Index::IndexMetaDataHmapDispatcher>(&data, index->_PSO, index->_POS, true);
  std::unique_ptr<Index> again(makeIndex("ix"));
  if (symx_param("which", 2) == 2 ? symx_choice("which", 2) : symx_param("which", 2)) checkScans(w, *again, again->_POS, triples, 1, 2, 0);
  else checkScans(w, *again, again->_PSO, triples, 1, 0, 2);
  symx_cover("end");
}
extern "C" void c23_subjects() {
  World w;
  std::unique_ptr<Index> index(makeIndex("ix"));
  VocabularyData data;
  auto triples = makeTriples(*index, data, 0);
  index->createPermutationPair<Index::IndexMetaDataMmapDispatcher>(&data, index->_SPO, index->_SOP, false);
  std::unique_ptr<Index> again(makeIndex("ix"));
  if (symx_param("which", 2) == 2 ? symx_choice("which", 2) : symx_param("which", 2)) checkScans(w, *again, again->_SOP, triples, 0, 2, 1);
  else checkScans(w, *again, again->_SPO, triples, 0, 1, 2);
  symx_cover("end");
}
extern "C" void c23_objects() {
  World w;
  std::unique_ptr<Index> index(makeIndex("ix"));
  VocabularyData data;
  auto triples = makeTriples(*index, data, 2);
  index->createPermutationPair<Index::IndexMetaDataMmapDispatcher>(&data, index->_OSP, index->_OPS, false);
  std::unique_ptr<Index> again(makeIndex("ix"));
  if (symx_param("which", 2) == 2 ? symx_choice("which", 2) : symx_param("which", 2)) checkScans(w, *again, again->_OPS, triples, 2, 1, 0);
  else checkScans(w, *again, again->_OSP, triples, 2, 0, 1);
  symx_cover("end");
}

// the scan operator of a query plan, in each of its kinds
extern "C" void c23_operator() {
  std::unique_ptr<Index> index(makeIndex("ix"));
  VocabularyData data;
  size_t pair = symx_param("pair", 0);
  auto triples = makeTriples(*index, data, pair == 0 ? -1 : pair == 1 ? 0 : 2);
  if (pair == 0) index->createPermutationPair<Index::IndexMetaDataHmapDispatcher>(&data, index->_PSO, index->_POS, true);
  if (pair == 1) index->createPermutationPair<Index::IndexMetaDataMmapDispatcher>(&data, index->_SPO, index->_SOP, false);
  if (pair == 2) index->createPermutationPair<Index::IndexMetaDataMmapDispatcher>(&data, index->_OSP, index->_OPS, false);
  std::unique_ptr<Index> again(makeIndex("ix"));
  if (pair == 0) again->_PSO.loadFromDisk("ix"), again->_POS.loadFromDisk("ix");
  if (pair == 1) again->_SPO.loadFromDisk("ix"), again->_SOP.loadFromDisk("ix");
  if (pair == 2) again->_OSP.loadFromDisk("ix"), again->_OPS.loadFromDisk("ix");
  struct Kind {
    IndexScan::ScanType type;
    int a, b, c;
    bool bound;
  };
  static const std::vector<Kind> kinds[3] = {
      {{IndexScan::PSO_FREE_S, 1, 0, 2, false}, {IndexScan::POS_FREE_O, 1, 2, 0, false},
       {IndexScan::PSO_BOUND_S, 1, 0, 2, true}, {IndexScan::POS_BOUND_O, 1, 2, 0, true}},
      {{IndexScan::SPO_FREE_P, 0, 1, 2, false}, {IndexScan::SOP_FREE_O, 0, 2, 1, false},
       {IndexScan::SOP_BOUND_O, 0, 2, 1, true}},
      {{IndexScan::OSP_FREE_S, 2, 0, 1, false}, {IndexScan::OPS_FREE_P, 2, 1, 0, false}}};
  const Kind& k = kinds[pair][symx_choice("kind", kinds[pair].size())];
  World w(again.get());
  Id key = wordId[0] = symx_u64("key"), second = wordId[1] = symx_u64("second");
  if (key < symx_param("dense", 0)) key = wordId[0] = symx_concretize(key);
  std::string names[3] = {"?s", "?p", "?o"};
  names[k.a] = "first";
  if (k.bound) names[k.b] = "second";
  IndexScan scan(w.qec(), k.type);
  scan.setSubject(names[0]);
  scan.setPredicate(names[1]);
  scan.setObject(names[2]);
  ResultTable res(w.alloc());
  compute(scan, res);
  Expected e;
  for (auto& t : triples) {
    bool again = false;
    for (auto& u : triples) {
      if (&u == &t) break;
      again |= (u[0] == t[0]) & (u[1] == t[1]) & (u[2] == t[2]);
    }
    bool fits = (t[k.a] == key) & !again;
    if (k.bound) e.add({t[k.c]}, fits & (t[k.b] == second));
    else e.add({t[k.b], t[k.c]}, fits);
  }
  assertBag(res._data, e, "scan operator: number of rows", "scan operator: exactly the stored rows");
  auto vars = scan.getVariableColumns();
  if (!k.bound) symx_assert(vars.size() == 2 && vars[names[k.b]] == 0, "scan operator: column of the second position");
  symx_assert(vars.size() == (k.bound ? 1 : 2) && vars[names[k.c]] == (k.bound ? 0 : 1), "scan operator: column of the last position");
  std::vector<size_t> order = {0};
  if (!k.bound) order.push_back(1);
  symx_assert(res._sortedBy == order && isSorted(res._data, order), "scan operator: in order");
  observeTable(res._data);
  symx_cover("end");
}
