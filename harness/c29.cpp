// C29: Turtle input. Documents are put together from pieces that state which
// triples they stand for; names, literals, comments and numbers have symbolic
// characters, and the file is read through a buffer of every size.
#include <algorithm>
#include <array>
#include <string>
#include <vector>

#include "sx.h"

#include <future>
#include "index/ConstantsIndexCreation.h"
// number of triples the parser collects before it hands them out
#define PARSER_MIN_TRIPLES_AT_ONCE ((size_t)symx_param("batch", 100000))
#include "parser/RdfEscaping.h"
#include "parser/Tokenizer.cpp"
#include "parser/TurtleParser.cpp"

using Triple = std::array<std::string, 3>;
using Names = std::vector<std::string>;

// ----- documents
static std::string doc;
static std::vector<Triple> want;
static const std::string TYPE = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>";

static bool in(uint8_t c, const char* set) {
  bool r = false;
  for (; *set; set++) r |= c == (uint8_t)*set;
  return r;
}
static bool alpha(uint8_t c) { return ((c | 32) >= 'a') & ((c | 32) <= 'z'); }
static bool digit(uint8_t c) { return (c >= '0') & (c <= '9'); }
static char pick(bool (*ok)(uint8_t)) {
  uint8_t c = symx_u8("c");
  symx_assume((c < 128) & ok(c));
  return c;
}
static bool iriChar(uint8_t c) { return (c > 0x20) & (c < 127) & !in(c, "<>\"{}|^`\\"); }
static bool nameFirst(uint8_t c) { return alpha(c) | digit(c) | in(c, "_:"); }
static bool nameMid(uint8_t c) { return nameFirst(c) | in(c, "-."); }
static bool nameLast(uint8_t c) { return nameFirst(c) | in(c, "-"); }
static bool labelFirst(uint8_t c) { return alpha(c) | digit(c) | in(c, "_"); }
static bool labelMid(uint8_t c) { return labelFirst(c) | in(c, "-."); }
static bool labelLast(uint8_t c) { return labelFirst(c) | in(c, "-"); }
static bool prefixMid(uint8_t c) { return labelFirst(c) | in(c, "-"); }
static bool escaped(uint8_t c) { return in(c, "_~.-!$&'()*+,;=/?#@%"); }
static bool notNewline(uint8_t c) { return (c != '\n') & (c != 0); }

static std::string chars(size_t n, bool (*first)(uint8_t), bool (*mid)(uint8_t), bool (*last)(uint8_t)) {
  std::string r;
  for (size_t i = 0; i < n; i++) r += pick(i == 0 ? first : i + 1 < n ? mid : last);
  return r;
}
static std::string iri(size_t n) { return "<" + chars(n, iriChar, iriChar, iriChar) + ">"; }
static std::string sep() {
  static const char* S[] = {" ", "\n", "\t", "#\n", " #. <x>\n", "\n#a\n#b\n\n# c\n", "\r\n"};
  return S[symx_choice("sep", 7)];
}
static void triple(const std::string& s, const std::string& p, const std::string& o) { want.push_back({s, p, o}); }

// ----- reading
static void write() {
  FILE* f = fopen("turtle", "w");
  symx_assert(f != nullptr, "file");
  fwrite(doc.data(), 1, doc.size(), f);
  fclose(f);
}
template <class P>
static std::vector<Triple> all(P& p) {
  std::vector<Triple> r;
  Triple t;
  while (p.getLine(t)) {
    r.push_back(t);
    symx_assert(r.size() <= want.size() + 2, "more triples than the document has");
  }
  return r;
}

static bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
// names of anonymous nodes are up to the parser; the document calls them ?0, ?1, ..
static bool isAnon(const std::string& s) { return s.compare(0, ANON_NODE_PREFIX.size() + 1, ANON_NODE_PREFIX + ":") == 0; }
static bool matches(const Triple& w, const Triple& g, const Names& anon) {
  bool r = true;
  for (size_t i = 0; i < 3; i++) {
    if (w[i].size() == 2 && w[i][0] == '?') {
      if (!same(anon[w[i][1] - '0'], g[i])) return false;
    } else {
      r = r & same(w[i], g[i]);
    }
  }
  return r;
}
static bool sameBag(const std::vector<Triple>& got, const Names& anon) {
  bool r = got.size() == want.size();
  for (auto& w : want) {
    size_t a = 0, b = 0;
    for (auto& g : got) a += matches(w, g, anon);
    for (auto& v : want) {
      bool eq = true;
      for (size_t i = 0; i < 3; i++) eq = eq & same(w[i], v[i]);
      b += eq;
    }
    r = r & (a == b);
  }
  return r;
}
static void compare(const std::vector<Triple>& got) {
  symx_observe(got.size());
  symx_assert(got.size() == want.size(), "the number of triples is not that of the document");
  size_t k = 0;
  for (auto& w : want)
    for (auto& x : w)
      if (x.size() == 2 && x[0] == '?') k = std::max<size_t>(k, x[1] - '0' + 1);
  Names anon;
  if (k) {
    for (auto& g : got)
      for (auto& x : g)
        if (isAnon(x) && std::find(anon.begin(), anon.end(), x) == anon.end()) anon.push_back(x);
    symx_assert(anon.size() == k, "number of anonymous nodes");
    std::sort(anon.begin(), anon.end());
  }
  bool ok = false;
  do ok = ok | sameBag(got, anon);
  while (k && !ok && std::next_permutation(anon.begin(), anon.end()));
  symx_assert(ok, "the triples are not those of the document");
  symx_cover("end");
}

// reads the document and compares; the parsers exist from the start so that
// their tokens are compiled only once
template <class Tok>
struct Readers {
  TurtleStreamParser<Tok> stream;
  void read() {
    write();
    uint64_t lo = symx_param("lo", 1), hi = symx_param("hi", 200);
    if (symx_param("mmap", 1) && symx_choice("mapped", 2)) {
      if (doc.empty()) symx_endpath();
      TurtleMmapParser<Tok> m("turtle");
      compare(all(m));
      return;
    }
    if (hi > doc.size() + 1) hi = doc.size() + 1;
    stream._bufferSize = lo + symx_choice("buffer", hi - lo + 1);
    stream.initialize("turtle");
    compare(all(stream));
  }
};
static void fresh() {
  doc.clear();
  want.clear();
}

// prefixed names
extern "C" void c29_names() {
  fresh();
  Readers<Tokenizer> r;
  size_t n = symx_param("n", 2);
  std::string a = chars(n, nameFirst, nameMid, nameLast), b = chars(n, nameFirst, nameMid, nameLast);
  std::string end = symx_choice("end", 2) ? " .\n" : ".\n";
  switch (symx_choice("doc", 3)) {
    case 0:
      doc = "@prefix p: <h/> .\np:" + a + " a p:" + b + end;
      triple("<h/" + a + ">", TYPE, "<h/" + b + ">");
      break;
    case 1: {
      std::string e(1, pick(escaped));
      doc = "PREFIX p: <h#>\n<s> p:" + a + " p:x\\" + e + end + "<t> p:\\" + e + " p: .";
      triple("<s>", "<h#" + a + ">", "<h#x" + e + ">");
      triple("<t>", "<h#" + e + ">", "<h#>");
      break;
    }
    case 2: {
      // prefixes that start like the keyword a
      std::string p = "a" + chars(symx_choice("len", 2), prefixMid, prefixMid, prefixMid);
      doc = "@prefix " + p + ": <g/> . <s> " + p + ":" + a + " <o>" + end;
      triple("<s>", "<g/" + a + ">", "<o>");
      break;
    }
  }
  r.read();
}
// IRIs, blank nodes with a label, lists of objects and predicates
extern "C" void c29_lists() {
  fresh();
  Readers<Tokenizer> r;
  size_t n = symx_param("n", 1);
  std::string end = symx_choice("end", 2) ? " .\n" : ".\n";
  std::string i = iri(n), l = "_:" + chars(symx_param("l", 2), labelFirst, labelMid, labelLast);
  switch (symx_choice("doc", 3)) {
    case 0:
      doc = i + " <p> <o>, " + l + ";\n<q>" + i + " ;a <r>" + end + l + "<p> <z>" + end;
      triple(i, "<p>", "<o>"), triple(i, "<p>", l), triple(i, "<q>", i), triple(i, TYPE, "<r>"), triple(l, "<p>", "<z>");
      break;
    case 1:
      doc = "<s> <p> <o> ; ; <q> " + l + " ; " + end + l + " " + i + " " + l + end;
      triple("<s>", "<p>", "<o>"), triple("<s>", "<q>", l), triple(l, i, l);
      break;
    case 2:
      doc = "<s><p><o>.<s>" + i + "true,false." + l + "<p>" + i + end;
      triple("<s>", "<p>", "<o>"), triple("<s>", i, "true"), triple("<s>", i, "false"), triple(l, "<p>", i);
      break;
  }
  r.read();
}
static std::string digits(size_t n) { return chars(n, digit, digit, digit); }
extern "C" void c29_numbers() {
  fresh();
  Readers<Tokenizer> r;
  static const char* SIGN[] = {"", "+", "-"};
  std::string n = SIGN[symx_choice("sign", 3)], e;
  size_t k = symx_param("n", 1);
  switch (symx_choice("form", 6)) {
    case 0: n += digits(k + 1); break;
    case 1: n += digits(k) + "." + digits(k); break;
    case 2: n += "." + digits(k); break;
    case 3: n += digits(k) + "." + digits(k) + "e" + digits(k); break;
    case 4: n += digits(k) + "E-" + digits(k); break;
    case 5: n += "." + digits(k) + "E+" + digits(k); break;
  }
  static const char* END[] = {".\n", " .\n", ". "};
  doc = "<s> <p> " + n + (symx_choice("end", 2) ? " .\n" : ".\n") + "<t> <p> " + n + " , " + n + ".";
  triple("<s>", "<p>", n), triple("<t>", "<p>", n), triple("<t>", "<p>", n);
  r.read();
}
static std::string quote;
static bool literalChar(uint8_t c) {
  bool shortOne = quote.size() == 1;
  return (c != 0) & (c != '\\') & (c != (uint8_t)quote[0]) & !(shortOne & ((c == '\n') | (c == '\r')));
}
extern "C" void c29_literals() {
  fresh();
  Readers<Tokenizer> r;
  static const char* Q[] = {"\"", "'", "\"\"\"", "'''"};
  quote = Q[symx_choice("quote", 4)];
  std::string text = chars(symx_param("n", 2), literalChar, literalChar, literalChar), raw = text;
  switch (symx_choice("special", 5)) {
    case 0: break;
    case 1: raw += "\\" + quote.substr(0, 1), text += quote.substr(0, 1); break;
    case 2: raw += "\\\\", text += "\\"; break;
    case 3: raw = "\\n" + raw, text = "\n" + text; break;
    case 4: raw = "\\\\\\t" + raw, text = "\\\t" + text; break;
  }
  std::string lit = quote + raw + quote, out = "\"" + text + "\"";
  switch (symx_choice("suffix", 4)) {
    case 0: break;
    case 1: lit += "@en", out += "@en"; break;
    case 2: lit += "@en-x1", out += "@en-x1"; break;
    case 3: lit += "^^<t>", out += "^^<t>"; break;
  }
  doc = "<s> <p> " + lit + (symx_choice("end", 2) ? " .\n" : ".\n") + "<s> <q> <o>, " + lit + " .";
  triple("<s>", "<p>", out), triple("<s>", "<q>", "<o>"), triple("<s>", "<q>", out);
  r.read();
}
// white space and comments between the tokens
extern "C" void c29_space() {
  fresh();
  Readers<Tokenizer> r;
  std::string c = "#" + chars(symx_param("n", 1), notNewline, notNewline, notNewline) + "\n";
  std::string s[6];
  size_t at = symx_choice("place", 6);
  for (size_t i = 0; i < 6; i++) s[i] = i == at ? sep() + c + c + c : " ";
  doc = s[0] + "@prefix p:" + s[1] + "<h/> ." + s[2] + "<s> <p>" + s[3] + "p:x" + s[4] + "." + s[5] + "<s> <q> \"l\" .";
  triple("<s>", "<p>", "<h/x>"), triple("<s>", "<q>", "\"l\"");
  r.read();
}
// anonymous nodes
extern "C" void c29_anonymous() {
  fresh();
  Readers<Tokenizer> r;
  std::string i = iri(1);
  switch (symx_choice("doc", 5)) {
    case 0:
      doc = "[] <p> [ ] . <s> <q> [] .\n";
      triple("?0", "<p>", "?1"), triple("<s>", "<q>", "?2");
      break;
    case 1:
      doc = "<s> <p> [ " + i + " <a> ; <q> [ <r> <b> ] , <c> ] ; <t> <d> .";
      triple("<s>", "<p>", "?0"), triple("?0", i, "<a>"), triple("?0", "<q>", "?1"), triple("?1", "<r>", "<b>"),
          triple("?0", "<q>", "<c>"), triple("<s>", "<t>", "<d>");
      break;
    case 2:
      doc = "<s> <p> <o> . [ " + i + " <a> ] <q> <b> .";
      triple("<s>", "<p>", "<o>"), triple("?0", i, "<a>"), triple("?0", "<q>", "<b>");
      break;
    case 3:
      doc = "[ <p> <a> ; <q> [ <r> " + i + " ] ] . <s> <p> <o> .";
      triple("?0", "<p>", "<a>"), triple("?0", "<q>", "?1"), triple("?1", "<r>", i), triple("<s>", "<p>", "<o>");
      break;
    case 4:
      doc = "<s> <p> [ <q> <a> ], [ <q> <a> ] .\n_:b <p> [] .";
      triple("<s>", "<p>", "?0"), triple("?0", "<q>", "<a>"), triple("<s>", "<p>", "?1"), triple("?1", "<q>", "<a>"),
          triple("_:b", "<p>", "?2");
      break;
  }
  r.read();
}
// declarations: a prefix counts from its declaration to the next one
extern "C" void c29_declarations() {
  fresh();
  Readers<Tokenizer> r;
  std::string i = iri(1), h = i.substr(1, 1);
  switch (symx_choice("doc", 4)) {
    case 0:
      doc = "@prefix p: <1" + h + "> .\np:x <p> <o> .\n@prefix p: <2" + h + "> .\np:y <p> <o> .\n";
      triple("<1" + h + "x>", "<p>", "<o>"), triple("<2" + h + "y>", "<p>", "<o>");
      break;
    case 1:
      doc = "PREFIX p: <1> p:x <p> <o> , <q> . p:z <p> <q> . PREFIX p: <" + h + "> p:y <p> <o> .";
      triple("<1x>", "<p>", "<o>"), triple("<1x>", "<p>", "<q>"), triple("<1z>", "<p>", "<q>"),
          triple("<" + h + "y>", "<p>", "<o>");
      break;
    case 2:
      doc = "@base <http://b/> .\n<s> <p> " + i + " .\n";
      doc = "@base <http://b/> .\n<http://b/s> <http://b/p> <http://b/" + h + "> .\n";
      symx_assume((h[0] != '/') & (h[0] != '?') & (h[0] != '#'));
      triple("<http://b/s>", "<http://b/p>", "<http://b/" + h + ">");
      break;
    case 3:
      doc = "BASE <http://b/>\n@prefix : <g/> . @prefix p.q-1: <h/> .\n:x a :y , p.q-1:" + std::string(1, pick(nameLast)) + " .\n";
      symx_assume(nameFirst(doc[doc.size() - 4]));
      triple("<g/x>", TYPE, "<g/y>"), triple("<g/x>", TYPE, "<h/" + doc.substr(doc.size() - 4, 1) + ">");
      break;
  }
  r.read();
}
// the relaxed tokenizer, on documents it claims to understand
extern "C" void c29_relaxed() {
  fresh();
  Readers<TokenizerCtre> r;
  size_t n = symx_param("n", 1);
  std::string i = iri(n), c = "#" + chars(1, notNewline, notNewline, notNewline) + "\n";
  symx_assume((i[1] != '%'));
  std::string a = chars(n, labelFirst, labelMid, labelLast);
  switch (symx_choice("doc", 3)) {
    case 0:
      doc = c + c + c + "@prefix p: <h/> .\np:" + a + " " + i + " p:x , " + i + " ; a p:" + a + " .\n";
      triple("<h/" + a + ">", i, "<h/x>"), triple("<h/" + a + ">", i, i), triple("<h/" + a + ">", TYPE, "<h/" + a + ">");
      break;
    case 1:
      doc = "<s> " + i + " \"l\"@en .\n" + c + "_:b <p> " + i + " .\n";
      triple("<s>", i, "\"l\"@en"), triple("_:b", "<p>", i);
      break;
    case 2: {
      std::string d = digits(1);
      doc = "<s> <p> " + d + "." + d + " .\n<s> <p> " + d + "e" + d + " .\n<s> <p> -" + d + " .\n";
      triple("<s>", "<p>", d + "." + d), triple("<s>", "<p>", d + "e" + d), triple("<s>", "<p>", "-" + d);
      break;
    }
  }
  r.read();
}
// any bytes: the parser stays within its input and comes to an end
extern "C" void c29_any() {
  fresh();
  Readers<Tokenizer> r;
  static const char* START[] = {"", "<s> <p> ", "<s> <p> \"a", "@prefix p: <h> . p:x p:y p:", "<s> <p> <o> ; ", "<s> <p> [ "};
  doc = START[symx_choice("start", 6)];
  size_t n = symx_param("n", 2);
  for (size_t i = 0; i < n; i++) {
    uint8_t c = symx_u8("c");
    symx_assume(c < 128);
    doc += (char)c;
  }
  if (symx_choice("dot", 2)) doc += " .";
  write();
  size_t found = 0;
  Triple t;
  try {
    if (symx_choice("mapped", 2)) {
      if (doc.empty()) symx_endpath();
      TurtleMmapParser<Tokenizer> m("turtle");
      while (m.getLine(t)) symx_assert(found++ < doc.size(), "end of the triples");
    } else {
      r.stream._bufferSize = symx_param("buffer", 5);
      r.stream.initialize("turtle");
      while (r.stream.getLine(t)) symx_assert(found++ < doc.size(), "end of the triples");
    }
  } catch (const TurtleParser<Tokenizer>::ParseException&) {
    symx_cover("rejected");
  } catch (const ad_semsearch::Exception&) {
    symx_cover("rejected");
  }
  symx_observe(found);
  symx_cover("end");
}
