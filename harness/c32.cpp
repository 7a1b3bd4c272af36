// C32: lines of N-Triples and TSV input.
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>

#include "sx.h"
#include "util/Exception.h"
#include "util/Log.h"
// the "file" is given by its contents
namespace std {
struct TextFile : istringstream {
  explicit TextFile(const string& s) : istringstream(s) {}
  void close() {}
};
}  // namespace std
#define ifstream TextFile
#include "parser/NTriplesParser.cpp"
#include "parser/TsvParser.cpp"
#undef ifstream

static std::string bytes(size_t n) {
  std::string s(n, 'x');
  for (size_t i = 0; i < n; i++) s[i] = (char)symx_u8("byte");
  return s;
}
static bool equal(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
static const char* spaces[] = {" ", "\t", " \t "};
// text of an IRI or blank node
static std::string name(size_t n) {
  std::string s = bytes(n);
  for (char c : s)
    symx_assume((c != ' ') & (c != '\t') & (c != '\n') & (c != '\r') & (c != '<') & (c != '>') & (c != '"') & (c != '\\'));
  return s;
}
extern "C" void c32_triple() {
  size_t n = symx_param("n", 2);
  std::string s, p, o;
  if (symx_param("kind", 0) == 0) {
    s = symx_choice("blank", 2) ? "_:" + name(1) : "<" + name(n) + ">";
    p = "<" + name(n) + ">";
    o = symx_choice("blank", 2) ? "_:" + name(1) : "<" + name(n) + ">";
  } else {
    s = "<s>";
    p = "<p>";
    std::string t = bytes(n);
    // a literal has no line breaks and no quotes that are not escaped
    bool escape = false;
    for (char c : t) {
      if (c == '\n') symx_endpath();
      if (!escape && c == '"') symx_endpath();
      escape = !escape && c == '\\';
    }
    if (escape) symx_endpath();
    static const char* suffix[] = {"", "@en", "^^<d>"};
    o = "\"" + t + "\"" + suffix[symx_choice("suffix", 3)];
  }
  std::string text = std::string(symx_choice("indent", 2) ? "\t " : "") + s + spaces[symx_choice("gap", 3)] + p +
                     spaces[symx_choice("gap", 3)] + o + spaces[symx_choice("gap", 3)] + ".\n<x> <y> <z> .\n";
  NTriplesParser parser(text);
  std::array<std::string, 3> r;
  symx_assert(parser.getLine(r), "there is a line");
  symx_assert(equal(r[0], s), "the subject");
  symx_assert(equal(r[1], p), "the predicate");
  symx_assert(equal(r[2], o), "the object");
  symx_assert(parser.getLine(r), "there is a second line");
  symx_assert((r[0] == "<x>") & (r[1] == "<y>") & (r[2] == "<z>"), "the second line");
  symx_assert(!parser.getLine(r), "there is no third line");
  symx_cover("end");
}
extern "C" void c32_tsv() {
  std::string f[3], text;
  for (auto& s : f) {
    s = bytes(symx_choice("size", symx_param("n", 2) + 1));
    for (char c : s) symx_assume((c != '\t') & (c != '\n'));
    text += s + "\t";
  }
  text += ".\na\tb\tc\t.\n";
  TsvParser parser(text);
  std::array<std::string, 3> r;
  symx_assert(parser.getLine(r), "there is a line");
  for (size_t i = 0; i < 3; i++) symx_assert(equal(r[i], f[i]), "the fields");
  symx_assert(parser.getLine(r), "there is a second line");
  symx_assert((r[0] == "a") & (r[1] == "b") & (r[2] == "c"), "the second line");
  symx_assert(!parser.getLine(r), "there is no third line");
  symx_cover("end");
}
static bool occurs(const std::string& part, const std::string& line) {
  bool any = part.empty();
  for (size_t i = 0; i + part.size() <= line.size(); i++) any |= equal(line.substr(i, part.size()), part);
  return any;
}
template <class P>
static void anyLine(const std::string& line, bool strict) {
  P parser(line);
  std::array<std::string, 3> r;
  try {
    if (parser.getLine(r)) {
      for (auto& p : r) symx_assert(occurs(p, line), "a part of the line");
      if (strict) {
        symx_assert(r[0].size() >= 2 && r[1].size() >= 2 && r[2].size() >= 2, "no empty parts");
        symx_assert(r[0].size() + r[1].size() + r[2].size() + 2 <= line.size(), "the parts do not overlap");
        char c = r[2][0];
        symx_assert((c == '<') | (c == '_') | (c == '"'), "the object is a term");
      }
    }
  } catch (const std::exception&) {
    symx_cover("rejected");
  }
  symx_cover("end");
}
extern "C" void c32_anyLine() { anyLine<NTriplesParser>(bytes(symx_param("n", 6)), true); }
extern "C" void c32_anyTail() { anyLine<NTriplesParser>("<s> <p> " + bytes(symx_param("n", 6)), true); }
extern "C" void c32_anyTsv() { anyLine<TsvParser>(bytes(symx_param("n", 6)), false); }
