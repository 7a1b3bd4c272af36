// C18: prefix compression of the vocabulary.
#include "vocab.h"
#include "index/PrefixHeuristic.h"

static std::string bytes(const char* name, size_t max) {
  std::string r;
  size_t n = symx_choice("length", max + 1);
  for (size_t i = 0; i < n; i++) r += (char)symx_u8(name);
  return r;
}
// Any prefixes and any word.
extern "C" void c18_words() {
  size_t k = symx_param("prefixes", 2), n = symx_param("n", 3);
  std::vector<std::string> prefixes;
  for (size_t i = 0; i < k; i++) prefixes.push_back(bytes("prefix", n));
  RdfsVocabulary v;
  v.initializePrefixes(prefixes);
  std::string word = bytes("word", n);
  v.push_back(word);
  symx_assert(equal(v.at(0), word), "a word of the vocabulary comes back");
  auto w = v.idToOptionalString(0);
  symx_assert(w && equal(*w, word), "a word of the vocabulary is found by its id");
  symx_observe(v._words[0].toStringView().size());
  symx_cover("end");
}
// As many prefixes as there are codes, and more.
extern "C" void c18_many() {
  size_t k = symx_choice("more", 3) + NUM_COMPRESSION_PREFIXES - 1;
  std::vector<std::string> prefixes;
  for (size_t i = 0; i < k; i++) prefixes.push_back({'p', (char)('a' + i / 16), (char)('a' + i % 16)});
  RdfsVocabulary v;
  v.initializePrefixes(prefixes);
  std::string word = "p";
  for (size_t i = 0; i < 3; i++) word += (char)symx_u8("word");
  v.push_back(word);
  symx_assert(equal(v.at(0), word), "a word of the vocabulary comes back");
  symx_cover("end");
}
// The words of a vocabulary file: prefixes are chosen and written, the file is
// compressed, and both are read again.
extern "C" void c18_file() {
  size_t n = symx_param("words", 3), length = symx_param("n", 4), any = symx_param("any", 1);
  std::vector<std::string> words;
  {
    std::ofstream out("vocabulary");
    for (size_t i = 0; i < n; i++) {
      std::string w;
      size_t l = 1 + symx_choice("length", length);
      for (size_t k = 0; k < l; k++) w += any ? (char)symx_u8("letter") : "a\n"[symx_choice("letter", 2)];
      words.push_back(w);
      out << RdfEscaping::escapeNewlinesAndBackslashes(w) << '\n';
    }
  }
  // As in Index::createFromFile and Index::readConfiguration.
  auto prefixes = calculatePrefixes("vocabulary", NUM_COMPRESSION_PREFIXES, 1, true);
  {
    std::ofstream out("prefixes");
    for (const auto& prefix : prefixes) out << prefix << std::endl;
  }
  RdfsVocabulary::prefixCompressFile("vocabulary", "compressed", prefixes);
  std::vector<std::string> read;
  std::ifstream in("prefixes");
  for (std::string prefix; std::getline(in, prefix);) read.emplace_back(std::move(prefix));
  RdfsVocabulary v;
  v.initializePrefixes(read);
  v.readFromFile("compressed");
  symx_assert(v.size() == n, "all words come back");
  for (size_t i = 0; i < n; i++) symx_assert(equal(v.at(i), words[i]), "the words come back unchanged");
  symx_observe(prefixes.size());
  symx_cover("end");
}
