// C19: lookups in the vocabulary.
#include "vocab.h"

static std::string text(size_t max) {
  std::string r;
  size_t n = symx_choice("length", max + 1);
  for (size_t i = 0; i < n; i++) {
    char c = symx_range("letter", ' ', '~');
    symx_assume((c != '"') & (c != '\\'));
    r += c;
  }
  return r;
}
// A literal, a literal with a language, or an IRI.
static std::string triplePart(size_t max, size_t kinds) {
  size_t kind = symx_choice("kind", kinds);
  std::string t = text(max);
  if (kind == 2) return "<" + t + ">";
  return "\"" + t + (kind == 0 ? "\"" : "\"@en");
}
static bool startsWithIgnoringCase(const std::string& word, const std::string& prefix) {
  if (word.size() < prefix.size()) return false;
  auto lower = [](char c) { return (c >= 'A') & (c <= 'Z') ? (char)(c + 32) : c; };
  bool r = true;
  for (size_t i = 0; i < prefix.size(); i++) r &= lower(word[i]) == lower(prefix[i]);
  return r;
}
static std::vector<std::string> sortedWords(size_t n, size_t max, size_t kinds, const TripleComponentComparator& comp) {
  std::vector<std::string> words;
  for (size_t i = 0; i < n; i++) {
    words.push_back(triplePart(max, kinds));
    if (i > 0) symx_assume(comp(words[i - 1], words[i], TripleComponentComparator::Level::TOTAL));
  }
  return words;
}

template <class V>
static void checkBounds(const V& v, const std::vector<std::string>& words, const std::string& query) {
  using L = typename V::SortLevel;
  size_t which = symx_choice("level", 3);
  L level = which == 0 ? L::TOTAL : which == 1 ? L::QUARTERNARY : L::PRIMARY;
  const auto& comp = v.getCaseComparator();
  Id low = v.lower_bound(query, level), high = v.upper_bound(query, level);
  symx_assert(low <= words.size() && high <= words.size(), "bounds are positions of words");
  for (size_t i = 0; i < words.size(); i++) {
    symx_assert((i < low) == (comp.compare(words[i], query, level) < 0), "the lower bound is the first word that is not smaller");
    symx_assert((i < high) == (comp.compare(words[i], query, level) <= 0), "the upper bound is the first larger word");
  }
  symx_observe(low);
  symx_observe(high);
}
static RdfsVocabulary* compressed(const std::vector<std::string>& words) {
  auto v = new RdfsVocabulary;
  v->initializePrefixes(std::vector<std::string>{"\"a", "\""});
  for (auto& w : words) v->push_back(w);
  return v;
}
extern "C" void c19_lookup() {
  TripleComponentComparator comp;
  auto words = sortedWords(symx_param("words", 2), symx_param("n", 1), 3, comp);
  std::string query = triplePart(symx_param("n", 1), 3);
  auto& v = *compressed(words);
  Id id = 0;
  bool found = v.getId(query, &id);
  bool expected = false;
  for (size_t i = 0; i < words.size(); i++) {
    bool same = equal(words[i], query);
    expected |= same;
    symx_assert(!same | (found & (id == i)), "a word is found at its position");
    auto w = v.idToOptionalString(i);
    symx_assert(w && equal(*w, words[i]), "the word of a position");
  }
  symx_assert(found == expected, "only words of the vocabulary are found");
  symx_assert(!v.idToOptionalString(ID_NO_VALUE), "no word for no value");
  symx_observe(found);
  symx_cover("end");
}
extern "C" void c19_bounds() {
  TripleComponentComparator comp;
  auto words = sortedWords(symx_param("words", 2), symx_param("n", 1), 3, comp);
  std::string query = triplePart(symx_param("n", 1), 3);
  checkBounds(*compressed(words), words, query);
  symx_cover("end");
}
// Prefixes of literals and IRIs, as in filters by a regular expression.
extern "C" void c19_prefix() {
  TripleComponentComparator comp;
  auto words = sortedWords(symx_param("words", 2), symx_param("n", 2), 3, comp);
  size_t kind = symx_choice("prefixkind", 3);
  std::string prefix = kind == 0 ? "" : (kind == 1 ? "\"" : "<") + text(symx_param("n", 2));
  auto range = compressed(words)->prefix_range(prefix);
  for (size_t i = 0; i < words.size(); i++)
    symx_assert(((range.first <= i) & (i < range.second)) == startsWithIgnoringCase(words[i], prefix),
                "the range of a prefix contains the words that start with it");
  symx_observe(range.first);
  symx_observe(range.second);
  symx_cover("end");
}
// The words of the text index.
extern "C" void c19_text() {
  size_t n = symx_param("words", 3), max = symx_param("n", 2);
  TextVocabulary v;
  ad_utility::HashSet<std::string> set;
  std::vector<std::string> words;
  for (size_t i = 0; i < n; i++) {
    std::string w = text(max);
    for (char c : w) symx_assume((c < 'A') | (c > 'Z'));
    if (w.empty()) symx_endpath();
    if (i > 0) symx_assume(v.getCaseComparator()(words[i - 1], w));
    words.push_back(w);
    v.push_back(w);
  }
  std::string query = text(max);
  for (char c : query) symx_assume((c < 'A') | (c > 'Z'));
  size_t what = symx_choice("what", 3);
  if (what == 0) {
    IdRange range;
    bool found = v.getIdRangeForFullTextPrefix(query + "*", &range);
    bool any = false;
    for (size_t i = 0; i < n; i++) {
      bool match = startsWithIgnoringCase(words[i], query);
      any |= match;
      if (found)
        symx_assert(((range._first <= i) & (i <= range._last)) == match, "the range of a prefix contains the words that start with it");
    }
    symx_assert(found == any, "a prefix is found if a word starts with it");
    symx_observe(found);
  } else if (what == 1) {
    Id id = 0;
    if (query.empty()) symx_endpath();
    bool found = v.getId(query, &id), expected = false;
    for (size_t i = 0; i < n; i++) {
      bool same = equal(words[i], query);
      expected |= same;
      symx_assert(!same | (found & (id == i)), "a word is found at its position");
    }
    symx_assert(found == expected, "only words of the vocabulary are found");
  } else {
    checkBounds(v, words, query);
  }
  symx_cover("end");
}
// The order of the words is a total order.
extern "C" void c19_order() {
  TripleComponentComparator comp;
  size_t max = symx_param("n", 2);
  std::string a = triplePart(max, 3), b = triplePart(max, 3), c = triplePart(max, 3);
  auto L = TripleComponentComparator::Level::TOTAL;
  int ab = comp.compare(a, b, L), ba = comp.compare(b, a, L);
  symx_assert((ab < 0) == (ba > 0) && (ab == 0) == (ba == 0), "exchanging the words reverses the order");
  symx_assert((ab == 0) == equal(a, b), "only equal words are equivalent");
  if (ab < 0 && comp.compare(b, c, L) < 0) symx_assert(comp.compare(a, c, L) < 0, "the order is transitive");
  // Comparing the transformed words gives the same order.
  int t = comp.compare(comp.extractAndTransformComparable(a, L), comp.extractAndTransformComparable(b, L), L);
  symx_assert((t < 0) == (ab < 0) && (t > 0) == (ab > 0), "transformed words have the same order");
  symx_cover("end");
}
// Words in the external vocabulary follow the internal ones.
extern "C" void c19_external() {
  size_t n = symx_choice("words", symx_param("words", 4) + 1), max = symx_param("n", 1), internal = symx_choice("internal", 2);
  TripleComponentComparator comp;
  std::vector<std::string> words;
  auto external = [&] { return "\"" + text(max) + "\"@de"; };
  {
    std::ofstream out("external");
    for (size_t i = 0; i < n; i++) {
      words.push_back(external());
      if (i > 0) symx_assume(comp(words[i - 1], words[i], TripleComponentComparator::Level::TOTAL));
      out << RdfEscaping::escapeNewlinesAndBackslashes(words[i]) << '\n';
    }
  }
  RdfsVocabulary v;
  v.initializePrefixes(std::vector<std::string>{});
  if (internal) v.push_back("<a>");
  v.externalizeLiteralsFromTextFile("external", "external.bin");
  RdfsVocabulary u;
  u.initializePrefixes(std::vector<std::string>{});
  {
    std::ofstream out("internal");
    if (internal) out << "\xff<a>\n";
  }
  u.readFromFile("internal", "external.bin");
  symx_assert(u.getExternalVocab().size() == n, "all words are in the external vocabulary");
  for (size_t i = 0; i < n; i++) {
    auto w = u.idToOptionalString(internal + i);
    symx_assert(w && equal(*w, words[i]), "the word of an id");
  }
  std::string query = external();
  for (auto* voc : {&u, &v}) {
    Id id = 0;
    bool found = voc->getId(query, &id), expected = false;
    for (size_t i = 0; i < n; i++) {
      bool same = equal(words[i], query);
      expected |= same;
      symx_assert(!same | (found & (id == internal + i)), "a word is found at its position");
    }
    symx_assert(found == expected, "only words of the vocabulary are found");
  }
  symx_cover("end");
}
