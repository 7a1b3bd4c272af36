// C37: text excerpts. A file of documents is stored by the builder's code and
// opened by the server's code.
#include "global/Constants.h"
#include "index/ConstantsIndexCreation.h"
#include "sx.h"
#include "icu.h"
#include "index/Index.h"
#include "qe.h"

using Voc = std::decay_t<decltype(std::declval<const Index&>().getVocab())>;
template <>
bool Voc::getId(const string&, Id*) const { return false; }
template <>
void Voc::readFromFile(const string&, const string&) {}
template <>
void Voc::setLocale(const std::string&, const std::string&, bool) {}
template <>
void Vocabulary<std::string, SimpleStringComparator>::setLocale(const std::string&, const std::string&, bool) {}
#include "index/Index.cpp"

// The text of a context is that of the first document whose id is not smaller.
extern "C" void c37_excerpts() {
  size_t n = symx_choice("n", symx_param("n", 3) + 1), len = symx_param("len", 2), gap = symx_param("gap", 3);
  std::vector<size_t> ids;
  std::vector<std::string> texts;
  std::string file;
  size_t id = 0;
  for (size_t i = 0; i < n; i++) {
    id += symx_choice("gap", gap) + (i > 0);
    size_t l = symx_choice("len", len) + 1;
    std::string t;
    for (size_t k = 0; k < l; k++) {
      char c = symx_u8("char");
      symx_assume((c != 0) & (c != '\n'));
      t += c;
    }
    ids.push_back(id);
    texts.push_back(t);
    file += std::to_string(id) + "\t" + t;
    if (i + 1 < n || symx_choice("newline", 2)) file += "\n";
  }
  {
    std::ofstream f("docs");
    f << file;
  }
  auto index = new Index();
  index->setOnDiskBase("ix");
  index->buildDocsDB("docs");
  delete index;
  DocsDB db;
  db.init("ix.text.docsDB");
  for (size_t c = 0; c < id + 3; c++) {
    std::string expected;
    for (size_t i = n; i-- > 0;)
      if (ids[i] >= c) expected = texts[i];
    std::string got = db.getTextExcerpt(c);
    symx_assert(got.size() == expected.size(), "excerpt: length of the text");
    bool same = true;
    for (size_t k = 0; k < expected.size(); k++) same &= got[k] == expected[k];
    symx_assert(same, "excerpt: the text of the document");
    symx_observe(got.size());
  }
  symx_cover("end");
}

// An index without stored documents.
extern "C" void c37_none() {
  auto index = new Index();
  Id c = symx_u64("context");
  symx_assert(index->getTextExcerpt(c).empty(), "excerpt: empty without documents");
  symx_cover("end");
}
