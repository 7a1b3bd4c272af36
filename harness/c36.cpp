// C36: the text index. A file of words and entities is indexed by the builder's
// code, loaded by the server's code and searched.
#include "global/Constants.h"
#include "index/ConstantsIndexCreation.h"
#include "sx.h"
#include "icu.h"
#include "index/Index.h"
#include "qe.h"

static Id entityIds[3];
using Voc = std::decay_t<decltype(std::declval<const Index&>().getVocab())>;
template <>
bool Voc::getId(const string& word, Id* id) const {
  if (word.size() != 4 || word[1] != 'e' || word[2] < '0' || word[2] > '2') return false;
  *id = entityIds[word[2] - '0'];
  return true;
}
template <>
void Voc::readFromFile(const string&, const string&) {}
template <>
void Voc::setLocale(const std::string&, const std::string&, bool) {}
#include "index/Vocabulary.cpp"
#include "index/Index.cpp"

// Words "bb", "testa", "testb", "zest", entities <e0> and <e1>, an entity that
// is not in the knowledge base. <e2> is in the knowledge base only.
static const char* const names[] = {"bb", "TestA", "testb", "zest", "<e0>", "<e1>", "<f9>"};
static constexpr size_t NUM = 7, CONTEXTS = 6;
static size_t score[CONTEXTS][NUM];

static Index* makeIndex() {
  size_t n = symx_param("n", 3), items = symx_param("items", 127);
  // The builder numbers the words of the knowledge base.
  for (auto& e : entityIds) {
    e = symx_u64("entity");
    symx_assume(e < (1ull << 40));
  }
  symx_assume((entityIds[0] != entityIds[1]) & (entityIds[0] != entityIds[2]) & (entityIds[1] != entityIds[2]));
  std::vector<size_t> which;
  for (size_t i = 0; i < NUM; i++)
    if (items >> i & 1) which.push_back(i);
  std::string text;
  size_t context = 0;
  bool words = false;
  for (size_t i = 0; i < n; i++) {
    size_t item = which[symx_choice("item", which.size())];
    context += symx_choice("next", 2);
    size_t s = symx_param("same", 0) ? 1 : 1 << i;
    score[context][item] += s;
    words |= item < 4;
    text += std::string(names[item]) + "\t" + (item < 4 ? "0" : "1") + "\t" + char('0' + context) + "\t" + char('0' + s) + "\n";
  }
  if (!words) symx_endpath();
  {
    std::ofstream f("words");
    f << text;
    std::ofstream g("ix.meta-data.json");
    g << "{\"locale\":{\"language\":\"en\",\"country\":\"US\",\"ignore-punctuation\":false}}";
  }
  auto index = new Index();
  index->setOnDiskBase("ix");
  index->_textVocab.setLocale("en", "US", false);
  index->addTextFromContextFile("words");
  delete index;
  index = new Index();
  index->setOnDiskBase("ix");
  index->_textVocab.setLocale("en", "US", false);
  index->addTextFromOnDiskIndex();
  return index;
}

struct Term {
  const char* text;
  size_t mask;  // the items that match
};
static const Term terms[] = {{"bb", 1}, {"testa", 2}, {"testb", 4}, {"test*", 6}, {"zest", 8}, {"<e0>", 16}, {"<e1>", 32},
                             {"<e2>", 0}, {"<f9>", 0}, {"none", 0}, {"none*", 0}};
static bool in(size_t context, const Term& t) {
  for (size_t i = 0; i < NUM; i++)
    if ((t.mask >> i & 1) && score[context][i] > 0) return true;
  return false;
}

static void query(const Index& index, const std::vector<size_t>& which) {
  std::string text;
  bool prefix = false;
  for (size_t t : which) {
    text += (text.empty() ? "" : " ") + std::string(terms[t].text);
    prefix |= text.back() == '*';
  }
  std::vector<size_t> contexts;
  for (size_t c = 0; c < CONTEXTS; c++) {
    bool all = true;
    for (size_t t : which) all &= in(c, terms[t]);
    if (all) contexts.push_back(c);
  }
  size_t estimate = index.getSizeEstimate(text);
  symx_assert(contexts.empty() || estimate > 0, "estimate: positive if there are results");
  symx_observe(estimate);
  // The contexts with their scores.
  {
    IdTable r(2, ad_utility::AllocatorWithLimit<Id>{ad_utility::makeAllocationMemoryLeftThreadsafeObject(1 << 30)});
    index.getContextListForWords(text, &r);
    size_t at = 0;
    for (size_t c : contexts) {
      size_t begin = at, sum = 0;
      while (at < r.size() && r(at, 0) == c) sum += r(at++, 1);
      symx_assert(at > begin, "contexts: all that contain the words");
      if (prefix) continue;
      symx_assert(at == begin + 1, "contexts: each once");
      size_t expected = 0;
      for (size_t t : which)
        for (size_t i = 0; i < NUM; i++)
          if (terms[t].mask >> i & 1) expected += score[c][i];
      symx_assert(sum == expected, "contexts: the sum of the scores");
    }
    symx_assert(at == r.size(), "contexts: only those that contain the words");
    symx_observe(r.size());
  }
  // The entities that occur in these contexts.
  {
    IdTable r(3, ad_utility::AllocatorWithLimit<Id>{ad_utility::makeAllocationMemoryLeftThreadsafeObject(1 << 30)});
    index.getECListForWordsOneVar(text, 100, &r);
    size_t rows = 0;
    for (size_t e = 0; e < 2; e++) {
      size_t count = 0;
      for (size_t c : contexts) count += score[c][4 + e] > 0;
      for (size_t c : contexts) {
        if (score[c][4 + e] == 0) continue;
        rows++;
        size_t found = 0;
        for (size_t i = 0; i < r.size(); i++)
          found += (r(i, 0) == c) & (r(i, 1) == count) & (r(i, 2) == entityIds[e]);
        symx_assert(found == 1, "entities: each context of an entity once, with the number of contexts");
      }
    }
    symx_assert(rows == r.size(), "entities: only those in the contexts");
    symx_observe(r.size());
  }
}

extern "C" void c36_search() {
  auto index = makeIndex();
  for (size_t i = 0; i < 11; i++) query(*index, {i});
  symx_cover("end");
}
extern "C" void c36_two() {
  auto index = makeIndex();
  static const size_t pairs[][2] = {{0, 1}, {1, 0}, {1, 2}, {3, 0}, {0, 3}, {4, 3}, {5, 1}, {1, 5}, {5, 6}, {6, 5},
                                    {7, 1}, {1, 7}, {0, 10}, {10, 0}, {1, 9}, {9, 1}, {3, 5}};
  for (auto& p : pairs) query(*index, {p[0], p[1]});
  symx_cover("end");
}
extern "C" void c36_three() {
  auto index = makeIndex();
  query(*index, {0, 1, 4});
  query(*index, {1, 0, 2});
  query(*index, {4, 3, 0});
  query(*index, {5, 1, 2});
  query(*index, {1, 5, 6});
  query(*index, {2, 6, 0, 5});
  query(*index, {7, 1, 2});
  query(*index, {1, 2, 10});
  symx_cover("end");
}
