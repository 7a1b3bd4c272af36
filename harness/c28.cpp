// C28: merging partial vocabularies. std::async runs on the scheduler of the
// engine, the files are in memory.
#include <future>
#include "vocab.h"
#include "index/VocabularyGenerator.h"
#include "index/VocabularyGeneratorImpl.h"

static const size_t MAXW = 8, MAXF = 3;
struct Word {
  std::string w;
  size_t file;
  Id orig, local;  // as in the triples, as in the partial vocabulary
};
static bool external(const std::string& w) { return (unsigned char)w[0] >= 127; }
static std::string line(const std::string& w) {
  std::string r;
  for (size_t i = 0; i < w.size(); i++) {
    char c = w[i];
    if (i == 0 && external(w)) {
      r += c == 127 ? '"' : '<';
    } else if (c == '\n') {
      r += "\\n";
    } else if (c == '\\') {
      r += "\\\\";
    } else {
      r += c;
    }
  }
  return r;
}
static std::vector<std::string> readLines(const std::string& f) {
  std::vector<std::string> r;
  std::ifstream in(f);
  symx_assert(in.is_open(), "output file missing");
  std::string l;
  while (std::getline(in, l)) r.push_back(l);
  return r;
}
static std::string letters(size_t from, size_t to) {
  std::string w(symx_concretize(symx_range("len", from, to)), ' ');
  for (auto& c : w) {
    c = symx_u8("letter");
    if (!symx_param("escapes", 0)) symx_assume((c != '\n') & (c != '\\'));
  }
  return w;
}
// any bytes, the first one may mark an externalized word
static std::string bytes(size_t len) {
  std::string w = letters(1, len);
  symx_assume((unsigned char)w[0] <= 128);
  return w;
}
// literals, IRIs and language predicates
static std::string token(size_t len) {
  std::string w = letters(0, len);
  for (char c : w) symx_assume((c >= ' ') & (c <= '~') & (c != '"') & (c != '>') & (c != '@'));
  switch (symx_choice("kind", symx_param("kinds", 5))) {
    case 0: return '"' + w + '"';
    case 1: return '\x7f' + w + '"';
    case 2: return '<' + w + '>';
    case 3: return '\x80' + w + '>';
    default: return '@' + w + "@<p>";
  }
}
template <typename Less, typename Make>
static void merge(Less less, Make make) {
  size_t files = symx_param("files", 2), perFile = symx_param("words", 2), len = symx_param("len", 2);
  std::string base = "voc";
  std::vector<Word> words;
  for (size_t f = 0; f < files; f++) {
    ItemVec els;
    for (size_t i = 0; i < perFile; i++) {
      std::string w = make(len);
      if (i) symx_assume(!less(w, els.back().first));
      els.push_back({w, IdAndSplitVal{10 * f + (i ^ 1), {}}});
      words.push_back({w, f, 10 * f + (i ^ 1), 0});
    }
    auto map = createInternalMapping(&els);
    for (auto& w : words)
      if (w.file == f) {
        symx_assert(map.count(w.orig), "identifier of a triple lost");
        w.local = map[w.orig];
      }
    writePartialVocabularyToFile(els, base + PARTIAL_VOCAB_FILE_NAME + std::to_string(f));
  }
  VocabularyMerger::VocMergeRes res;
  {
    VocabularyMerger m;
    // small enough for several batches
    *const_cast<size_t*>(&m._bufferSize) = symx_param("buffer", 0)
                                               ? symx_param("buffer", 0)
                                               : (size_t[]){3, 10}[symx_choice("buffer", 2)];
    res = m.mergeVocabulary(base, files, less);
  }
  auto lines = readLines(base + ".vocabulary"), ext = readLines(base + EXTERNAL_LITS_TEXT_FILE_NAME);
  size_t internals = lines.size();
  lines.insert(lines.end(), ext.begin(), ext.end());

  size_t n = words.size(), distinct = 0, at = 0, atMin = ~0ull, atMax = 0;
  bool first[MAXW];
  uint64_t id[MAXW];
  for (size_t i = 0; i < n; i++) {
    first[i] = true;
    for (size_t j = 0; j < i; j++)
      if (equal(words[i].w, words[j].w)) first[i] = false;
    distinct += first[i];
  }
  for (size_t i = 0; i < n; i++) {
    id[i] = 0;
    for (size_t j = 0; j < n; j++) id[i] += first[j] && less(words[j].w, words[i].w);
  }
  symx_assert(res._numWordsTotal == distinct, "wrong number of words");
  symx_assert(lines.size() == distinct, "word lost or written twice");
  for (size_t f = 0; f < files; f++) {
    auto map = IdMapFromPartialIdMapFile(base + PARTIAL_MMAP_IDS + std::to_string(f));
    for (size_t i = 0; i < n; i++) {
      if (words[i].file != f) continue;
      symx_assert(map.count(words[i].local), "word without global id");
      symx_assert(map[words[i].local] == id[i], "local id mapped to the id of another word");
    }
  }
  for (size_t i = 0; i < n; i++) {
    symx_assert((id[i] < internals) == !external(words[i].w), "word in the wrong part of the vocabulary");
    symx_assert(equal(lines[id[i]], line(words[i].w)), "wrong word stored");
    if (words[i].w[0] == '@') {
      at++;
      atMin = std::min(atMin, id[i]);
      atMax = std::max(atMax, id[i] + 1);
    }
    if (!first[i]) symx_cover(external(words[i].w) ? "external duplicate" : "duplicate");
  }
  if (at)
    symx_assert(res._langPredLowerBound == atMin && res._langPredUpperBound == atMax,
                "wrong range of language predicates");
  else
    symx_assert(res._langPredLowerBound == res._langPredUpperBound, "range of language predicates is not empty");
  symx_observe(distinct);
  symx_observe(internals);
  symx_cover("end");
}
extern "C" void c28_bytes() { merge(std::less<>(), bytes); }
extern "C" void c28_sorted() {
  TripleComponentComparator cmp("en", "US", false);
  merge([&](std::string_view a, std::string_view b) {
    return cmp(a, b, TripleComponentComparator::Level::TOTAL);
  }, token);
}
