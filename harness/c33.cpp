// C33: query text. Queries are put together from pieces that state what they
// mean; the result of the parser is written out in the same notation and
// compared. Names, literals and numbers have symbolic characters.
#include <cwchar>
#include <string>
#include <vector>

#include "sx.h"

#include "parser/ParseException.h"
#include "parser/SparqlParser.h"
#include "parser/PropertyPathParser.h"

// query texts here are ASCII only
extern "C" size_t __ctype_get_mb_cur_max() { return 6; }
extern "C" size_t mbrtowc(wchar_t*, const char*, size_t, mbstate_t*) { return -1; }
extern "C" size_t wcrtomb(char*, wchar_t, mbstate_t*) { return -1; }
extern "C" wint_t towlower(wint_t c) { return c; }
extern "C" wint_t towupper(wint_t c) { return c; }
extern "C" int isgraph(int c) { return (c > 0x20) & (c < 127); }

static bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
static bool in(uint8_t c, const char* set) {
  bool r = false;
  for (; *set; set++) r |= c == (uint8_t)*set;
  return r;
}
static bool alpha(uint8_t c) { return ((c | 32) >= 'a') & ((c | 32) <= 'z'); }
static bool digit(uint8_t c) { return (c >= '0') & (c <= '9'); }
typedef bool (*Set)(uint8_t);
static char pick(Set ok) {
  uint8_t c = symx_u8("c");
  symx_assume((c < 128) & ok(c));
  return c;
}
static std::string chars(size_t n, Set first, Set mid, Set last) {
  std::string r;
  for (size_t i = 0; i < n; i++) r += pick(i == 0 ? first : i + 1 < n ? mid : last);
  return r;
}
static bool iriChar(uint8_t c) { return (c > 0x20) & (c < 127) & !in(c, "<>\"{}|^`\\[]"); }
static bool varChar(uint8_t c) { return alpha(c) | digit(c) | (c == '_'); }
static bool nameFirst(uint8_t c) { return varChar(c) | (c == ':'); }
static bool nameMid(uint8_t c) { return nameFirst(c) | in(c, "-."); }
static bool nameLast(uint8_t c) { return nameFirst(c) | in(c, "-"); }
static bool prefixMid(uint8_t c) { return varChar(c) | in(c, "-."); }
static bool prefixLast(uint8_t c) { return varChar(c) | in(c, "-"); }
static bool escapedChar(uint8_t c) { return in(c, "_~.-!&'()*+,;=/?#@%"); }
static bool notNewline(uint8_t c) { return (c != '\n') & (c != 0); }
static bool anyChar(uint8_t) { return true; }

// ----- pieces: text and meaning
struct Piece {
  std::string text, mean;
};
static const char* PREFIXES = "PREFIX p: <http://p/> PREFIX : <http://e/> ";
static Piece var(size_t n = 1) {
  std::string s = "?" + chars(n, varChar, varChar, varChar);
  return {s, s};
}
static Piece iri(size_t n) {
  std::string s = "<" + chars(n, iriChar, iriChar, iriChar) + ">";
  return {s, s};
}
// prefixed name; the last character may be escaped
static Piece name(size_t n) {
  static const char* P[][2] = {{"p:", "<http://p/"}, {":", "<http://e/"}, {"ql:", "<QLever-internal-function/"}};
  auto p = P[symx_choice("prefix", 3)];
  std::string c = chars(n, nameFirst, nameMid, nameLast);
  Piece r{p[0] + c, p[1] + c};
  if (symx_choice("escape", 2)) {
    char e = pick(escapedChar);
    r.text += std::string("\\") + e;
    r.mean += e;
  }
  r.mean += ">";
  return r;
}
static char quote;
static bool inQuotes(uint8_t c) { return (c != quote) & !in(c, "\\\n\r"); }
static Piece content(size_t n) {
  static const char* E[][2] = {{"\\t", "\t"}, {"\\n", "\n"}, {"\\\\", "\\"}, {"\\\"", "\""}, {"\\'", "'"}, {"\\r", "\r"}};
  Piece r;
  for (size_t i = 0; i < n; i++) {
    size_t k = symx_choice("escape", 7);
    if (k == 6) {
      char c = pick(inQuotes);
      r.text += c, r.mean += c;
    } else {
      r.text += E[k][0], r.mean += E[k][1];
    }
  }
  return r;
}
static Piece literal(size_t n) {
  static const char* S[][2] = {{"", ""}, {"@en", "@en"}, {"@en-US", "@en-US"}, {"^^p:t", "^^<http://p/t>"},
                               {"^^<t>", "^^<t>"}, {"^^p:t\\.u", "^^<http://p/t.u>"}};
  quote = symx_choice("quote", 2) ? '\'' : '"';
  Piece c = content(n);
  auto s = S[symx_choice("suffix", 6)];
  return {quote + c.text + quote + s[0], "\"" + c.mean + "\"" + s[1]};
}
static Piece term(size_t n) {
  switch (symx_choice("term", 4)) {
    case 0: return var(n);
    case 1: return iri(n);
    case 2: return name(n);
    default: return literal(n);
  }
}
static std::string sep() {
  static const char* S[] = {" ", "\n", "\t", "#\n", " #. <x> }\n", "\n#a\n#b\n\n# c\n", "\r\n"};
  return S[symx_choice("sep", 7)];
}
static std::string kw(const char* s, size_t style) {
  std::string r = s;
  for (size_t i = 0; i < r.size(); i++)
    if (style == 1 || (style == 2 && i % 2)) r[i] = r[i] >= 'a' && r[i] <= 'z' ? r[i] - 32 : r[i];
  return r;
}

// ----- the parsed query in the notation of the pieces
static std::string num(uint64_t x) {
  std::string r;
  do r.insert(r.begin(), '0' + x % 10);
  while (x /= 10);
  return r;
}
static std::string show(const PropertyPath& p) {
  using O = PropertyPath::Operation;
  if (p._operation == O::IRI) return p._iri;
  const char* op = p._operation == O::SEQUENCE ? "/" : p._operation == O::ALTERNATIVE ? "|" : p._operation == O::INVERSE ? "^" : "";
  std::string r = std::string("(") + op;
  if (p._operation == O::TRANSITIVE) r += "*";
  if (p._operation == O::TRANSITIVE_MIN) r += "+" + num(p._limit);
  if (p._operation == O::TRANSITIVE_MAX) r += "?" + num(p._limit);
  for (auto& c : p._children) r += " " + show(c);
  return r + ")";
}
static std::string show(const SparqlFilter& f) {
  const char* t = "?";
  switch (f._type) {
    case SparqlFilter::EQ: t = "="; break;
    case SparqlFilter::NE: t = "!="; break;
    case SparqlFilter::LT: t = "<"; break;
    case SparqlFilter::LE: t = "<="; break;
    case SparqlFilter::GT: t = ">"; break;
    case SparqlFilter::GE: t = ">="; break;
    case SparqlFilter::REGEX: t = "regex"; break;
    case SparqlFilter::PREFIX: t = "prefix"; break;
    default: break;
  }
  std::string r = "F(" + f._lhs + " " + t + " " + f._rhs;
  if (f._lhsAsString) r += " str";
  if (f._regexIgnoreCase) r += " i";
  symx_assert(f._additionalLhs.size() == f._additionalPrefixes.size(), "alternatives of a filter");
  for (size_t i = 0; i < f._additionalLhs.size(); i++) r += " or " + f._additionalLhs[i] + " " + f._additionalPrefixes[i];
  return r + ")";
}
static std::string show(const ParsedQuery& q);
static std::string show(const ParsedQuery::GraphPattern& g, std::vector<size_t>& ids);
static std::string show(const GraphPatternOperation::BasicGraphPattern& b, std::vector<size_t>&) {
  std::string r;
  for (auto& t : b._whereClauseTriples) r += "T(" + t._s + " " + show(t._p) + " " + t._o + ")";
  return r;
}
static std::string show(const GraphPatternOperation::Values& v, std::vector<size_t>&) {
  std::string r = "V(";
  for (auto& x : v._inlineValues._variables) r += x + " ";
  for (auto& row : v._inlineValues._values) {
    r += "(";
    for (auto& x : row) r += x + " ";
    r += ")";
  }
  return r + ")";
}
static std::string show(const GraphPatternOperation::GroupGraphPattern& p, std::vector<size_t>& ids) { return "G" + show(p._child, ids); }
static std::string show(const GraphPatternOperation::Optional& p, std::vector<size_t>& ids) {
  symx_assert(p._child._optional, "optional pattern not marked");
  return "O" + show(p._child, ids);
}
static std::string show(const GraphPatternOperation::Minus& p, std::vector<size_t>& ids) {
  symx_assert(!p._child._optional, "pattern marked as optional");
  return "M" + show(p._child, ids);
}
static std::string show(const GraphPatternOperation::Union& p, std::vector<size_t>& ids) {
  symx_assert(!p._child1._optional && !p._child2._optional, "pattern marked as optional");
  std::string a = show(p._child1, ids), b = show(p._child2, ids);
  return "U" + a + b;
}
static std::string show(const GraphPatternOperation::Subquery& p, std::vector<size_t>&) { return "Q" + show(p._subquery); }
static std::string show(const GraphPatternOperation::TransPath&, std::vector<size_t>&) { return "X"; }
static std::string show(const GraphPatternOperation::Bind& b, std::vector<size_t>&) {
  std::string r = "B(" + b._target + " = ";
  if (auto c = std::get_if<GraphPatternOperation::Bind::Constant>(&b._expressionVariant)) {
    r += c->_type == ResultTable::ResultType::VERBATIM ? (c->_intValue < 0 ? "#-" + num(-c->_intValue) : "#" + num(c->_intValue)) : c->_kbValue;
  } else if (auto o = std::get_if<GraphPatternOperation::Bind::BinaryOperation>(&b._expressionVariant)) {
    r += o->_var1 + o->_binaryOperator + o->_var2;
  } else {
    r += std::get<GraphPatternOperation::Bind::Rename>(b._expressionVariant)._var;
  }
  return r + ")";
}
static std::string show(const ParsedQuery::GraphPattern& g, std::vector<size_t>& ids) {
  ids.push_back(g._id);
  std::string r = "{";
  for (auto& c : g._children) c.visit([&](auto&& x) { r += show(x, ids); });
  for (auto& f : g._filters) r += show(f);
  return r + "}";
}
static std::string show(const ParsedQuery& q) {
  std::string r = "S(";
  if (q._distinct) r += "distinct ";
  if (q._reduced) r += "reduced ";
  for (auto& v : q._selectedVariables) r += v + " ";
  for (auto& a : q._aliases) {
    r += "A(" + ParsedQuery::AggregateTypeAsString(a._type) + (a._isDistinct ? " distinct " : " ") + a._inVarName + " " + a._outVarName;
    if (a._type == ParsedQuery::AggregateType::GROUP_CONCAT) r += " '" + a._delimiter + "'";
    r += ")";
  }
  std::vector<size_t> ids;
  r += show(q._rootGraphPattern, ids);
  // graph patterns are numbered from 0 without gaps
  symx_assert(ids.size() == q._numGraphPatterns, "number of graph patterns");
  for (size_t i = 0; i < ids.size(); i++) {
    size_t k = 0;
    for (size_t j : ids) k += j == i;
    symx_assert(k == 1, "graph patterns share a number");
  }
  if (!q._groupByVariables.empty()) {
    r += " group";
    for (auto& v : q._groupByVariables) r += " " + v;
  }
  for (auto& h : q._havingClauses) r += " having" + show(h);
  if (!q._orderBy.empty()) {
    r += " order";
    for (auto& o : q._orderBy) r += (o._desc ? " desc " : " asc ") + o._key;
  }
  if (!q._limit.empty()) r += " limit " + q._limit;
  if (!q._offset.empty()) r += " offset " + q._offset;
  if (!q._textLimit.empty()) r += " textlimit " + q._textLimit;
  return r + ")";
}

static bool parse(const std::string& text, std::string* got) {
  try {
    SparqlParser p(text);
    ParsedQuery q = p.parse();
    q.expandPrefixes();
    *got = show(q);
    return true;
  } catch (const ParseException&) {
  } catch (const ad_semsearch::Exception&) {
  } catch (const std::runtime_error&) {
  }
  return false;
}
static void expectMeaning(const std::string& text, const std::string& want) {
  std::string got;
  bool ok = parse(text, &got);
  symx_assert(ok, "a correct query is rejected");
  if (symx_native() && !same(got, want)) printf("%s\n got %s\nwant %s\n", text.c_str(), got.c_str(), want.c_str());
  symx_observe(got.size());
  symx_assert(same(got, want), "the parsed query is not what was written");
  symx_cover("end");
}
static void expectError(const std::string& text) {
  std::string got;
  bool ok = parse(text, &got);
  symx_observe(ok);
  symx_assert(!ok, "a malformed query is accepted");
  symx_cover("end");
}
static std::string where(const std::string& triples) { return std::string(PREFIXES) + "SELECT ?x WHERE { " + triples + " }"; }

// ----- triples
extern "C" void c33_triples() {
  size_t n = symx_param("n", 1);
  Piece s{"?s", "?s"}, p{"p:q", "<http://p/q>"}, o{"<o>", "<o>"};
  std::string a = " ", b = " ", c = " ";
  switch (symx_choice("vary", 4)) {
    case 0: s = term(n); break;
    case 1: {
      size_t k = symx_choice("predicate", 4);
      p = k == 0 ? var(n) : k == 1 ? iri(n) : name(n);
      if (k == 3) p.text = "@en@" + p.text, p.mean = "@en@" + p.mean;
      break;
    }
    case 2:
      o = term(n);
      a = sep();
      break;
    default: a = sep(), b = " " + sep(), c = sep();
  }
  std::string t1 = "T(" + s.mean + " " + p.mean + " " + o.mean + ")";
  std::string text = s.text + a + p.text + b + o.text + c;
  switch (symx_choice("next", 6)) {
    case 0: break;
    case 1: text += "."; break;
    case 2:
      text += ". ?u <v> ?w";
      t1 += "T(?u <v> ?w)";
      break;
    case 3:
      text += ".?u <v> ?w .";
      t1 += "T(?u <v> ?w)";
      break;
    case 4:
      text += "; <v> ?ww , ?wx";
      t1 += "T(" + s.mean + " <v> ?ww)T(" + s.mean + " <v> ?wx)";
      break;
    default:
      text += ",?ww ; <v> ?wx .";
      t1 += "T(" + s.mean + " " + p.mean + " ?ww)T(" + s.mean + " <v> ?wx)";
  }
  expectMeaning(where(text), "S(?x {" + t1 + "})");
}
// declared prefixes of any name, including names that start with a keyword
extern "C" void c33_prefixes() {
  static const char* K[] = {"as", "text", "str", "prefix", "select", "min", "countX", "limit", "Filter", "group-by", "a", "a.b", "order"};
  size_t n = symx_param("n", 2);
  std::string p;
  size_t k = symx_choice("prefix", 14);
  if (k < 13)
    p = K[k];
  else
    p = chars(n, alpha, prefixMid, prefixLast);
  symx_assume(!same(p, "ql"));
  std::string local = chars(1, nameFirst, nameMid, nameLast);
  Piece u = iri(2);
  std::string t = u.mean.substr(0, u.mean.size() - 1) + local + ">";
  std::string x = p + ":" + local, text = std::string(symx_choice("case", 2) ? "PREFIX " : "prefix ") + p + ":" + sep() + u.text + sep();
  std::string want;
  switch (symx_choice("where", 5)) {
    case 0: text += "SELECT ?x WHERE { " + x + " <v> ?w }", want = "T(" + t + " <v> ?w)"; break;
    case 1: text += "SELECT ?x WHERE { ?s " + x + " ?w }", want = "T(?s " + t + " ?w)"; break;
    case 2: text += "SELECT ?x WHERE { ?s <v> " + x + "}", want = "T(?s <v> " + t + ")"; break;
    case 3: text += "SELECT ?x WHERE { ?s <v> " + x + ".?u <v> " + x + " . }", want = "T(?s <v> " + t + ")T(?u <v> " + t + ")"; break;
    default: text += "SELECT ?x WHERE { ?s <v> \"a:b\"^^" + x + "}", want = "T(?s <v> \"a:b\"^^" + t + ")"; break;
  }
  expectMeaning(text, "S(?x {" + want + "})");
}

// ----- selected variables and modifiers
extern "C" void c33_select() {
  size_t style = symx_choice("case", 3);
  static const char* AGG[][2] = {{"count", "COUNT"}, {"sample", "SAMPLE"}, {"min", "MIN"}, {"max", "MAX"},
                                 {"sum", "SUM"}, {"avg", "AVG"}, {"group_concat", "GROUP_CONCAT"}};
  std::string text = kw("select ", style), vars, aliases, want;
  size_t d = symx_choice("distinct", 3);
  if (d == 1) text += kw("distinct ", style), want += "distinct ";
  if (d == 2) text += kw("reduced ", style), want += "reduced ";
  size_t m = symx_choice("selected", symx_param("m", 2)) + 1;
  for (size_t i = 0; i < m; i++) {
    std::string x = "?" + std::string(1, "xyz"[i]) + chars(1, varChar, varChar, varChar);
    switch (symx_choice("kind", 4)) {
      case 0: text += x, vars += x; break;
      case 1: text += kw("text", style) + "(" + x + ")", vars += "TEXT(" + x + ")"; break;
      case 2: text += kw("score", style) + " ( " + x + " )", vars += "SCORE(" + x + ")"; break;
      default: {
        size_t k = symx_choice("aggregate", 7), dis = symx_choice("inner", 2);
        std::string sp, del = " ";
        if (k == 6 && symx_choice("separator", 2)) {
          quote = '"';
          Piece c = content(1);
          sp = " ; " + kw("separator", style) + " = \"" + c.text + "\"";
          del = c.mean;
        }
        text += "(" + kw(AGG[k][0], style) + "(" + (dis ? kw("distinct ", style) : "") + "?in" + sp + ")" + kw(" as ", style) + x + ")";
        vars += x;
        aliases += std::string("A(") + AGG[k][1] + (dis ? " distinct " : " ") + "?in " + x + (k == 6 ? " '" + del + "'" : "") + ")";
      }
    }
    text += " ", vars += " ";
  }
  text += kw("where", style) + " {?s <p> ?o}";
  expectMeaning(text, "S(" + want + vars + aliases + "{T(?s <p> ?o)})");
}
static bool digitChar(uint8_t c) { return digit(c); }
extern "C" void c33_modifiers() {
  size_t style = symx_param("m", 2) > 1 ? 1 : symx_choice("case", 3);
  std::string text = kw("select", style) + " ?x " + kw("where", style) + " {?s <p> ?o}";
  std::string group, having, order, limit, offset, textLimit;
  size_t m = symx_choice("modifiers", symx_param("m", 2)) + 1, used = 0;
  for (size_t i = 0; i < m; i++) {
    size_t k = symx_choice("modifier", 6);
    symx_assume(!(used >> k & 1));
    used |= 1 << k;
    text += i ? " " : sep();
    std::string v = chars(1, varChar, varChar, varChar), n = chars(k < 3 ? symx_choice("digits", 2) + 1 : 1, digitChar, digitChar, digitChar);
    switch (k) {
      case 0: text += kw("limit ", style) + n, limit = " limit " + n; break;
      case 1: text += kw("offset ", style) + n, offset = " offset " + n; break;
      case 2: text += kw("textlimit ", style) + n, textLimit = " textlimit " + n; break;
      case 3:
        text += kw("group by", style) + " ?x ?" + v;
        group = " group ?x ?" + v;
        if (symx_choice("more", 2)) text += " ?z", group += " ?z";
        break;
      case 4:
        text += kw("having", style) + " (?" + v + " < " + n + ")";
        having = " havingF(?" + v + " < " + n + ")";
        if (symx_choice("more", 2)) text += " (?z = p:q)", having += " havingF(?z = <http://p/q>)";
        break;
      default: {
        text += kw("order by", style);
        order = " order";
        size_t keys = symx_choice("keys", 2) + 1;
        for (size_t j = 0; j < keys; j++) {
          switch (symx_choice("key", 5)) {
            case 0: text += " ?" + v, order += " asc ?" + v; break;
            case 1: text += kw(" asc", style) + "(?" + v + ")", order += " asc ?" + v; break;
            case 2: text += kw(" desc", style) + " ( ?" + v + " )", order += " desc ?" + v; break;
            case 3: text += kw(" asc", style) + "(" + kw("score", style) + "(?" + v + "))", order += " asc SCORE(?" + v + ")"; break;
            default: text += kw(" desc", style) + "(" + kw("score", style) + "(?" + v + "))", order += " desc SCORE(?" + v + ")"; break;
          }
        }
      }
    }
  }
  expectMeaning("prefix p: <http://p/> " + text, "S(?x {T(?s <p> ?o)}" + group + having + order + limit + offset + textLimit + ")");
}
// a variable that is selected next to groups has to be grouped or aggregated
extern "C" void c33_groups() {
  Piece a = var(), b = var(), g = var();
  bool ok = same(a.text, g.text) & same(b.text, g.text);
  std::string text = "SELECT " + a.text + " " + b.text + " WHERE {?s <p> ?o} GROUP BY " + g.text, got;
  bool r = parse(text, &got);
  symx_observe(r);
  symx_assert(r == ok, "selected variables of a grouped query");
  symx_cover("end");
}

// ----- filters
static Piece operand(size_t n) {
  switch (symx_choice("operand", 6)) {
    case 0: return var(n);
    case 1: return iri(n);
    case 2: return name(n);
    case 3: return literal(n);
    case 4: {
      std::string s = std::string(symx_choice("minus", 2) ? "-" : "") + chars(n, digitChar, digitChar, digitChar);
      return {s, s};
    }
    default: {
      std::string s = std::string(symx_choice("minus", 2) ? "-" : "") + chars(n, digitChar, digitChar, digitChar) + "." + chars(n, digitChar, digitChar, digitChar);
      return {s, s};
    }
  }
}
static void filterQuery(const std::string& filter, const std::string& want, bool vary) {
  std::string dot = vary && symx_choice("dot", 2) ? "." : "";
  if (vary && symx_choice("position", 2))
    expectMeaning(where("?s <p> ?o . FILTER " + filter + dot), "S(?x {T(?s <p> ?o)" + want + "})");
  else
    expectMeaning(where("FILTER" + filter + dot + " ?s <p> ?o"), "S(?x {T(?s <p> ?o)" + want + "})");
}
extern "C" void c33_compare() {
  static const char* R[] = {"=", "!=", "<", "<=", ">", ">="};
  size_t n = symx_param("n", 1);
  Piece l{"?l", "?l"}, r{"?r", "?r"};
  size_t k = symx_choice("vary", 3), rel_ = 2, str = 0, nest = 0;
  if (k == 0) l = operand(n);
  if (k == 1) r = operand(n);
  if (k == 2) rel_ = symx_choice("relation", 6), str = symx_choice("str", 2), nest = symx_choice("nested", 2);
  auto rel = R[rel_];
  filterQuery((nest ? "((" : "(") + (str ? "str(" + l.text + ")" : l.text) + " " + rel + " " + r.text + (nest ? "))" : ")"),
              "F(" + l.mean + " " + rel + " " + r.mean + (str ? " str" : "") + ")", k == 2);
}
// regular expressions; those that are a fixed prefix become prefix filters
static Piece regexArg(size_t n, bool caret, bool* plain, bool* legal) {
  Piece r;
  *plain = caret, *legal = true;
  if (caret) r.text = r.mean = "^";
  std::string unescaped = r.mean;
  for (size_t i = 0; i < n; i++) {
    size_t k = symx_choice("regex", 3);
    uint8_t c = symx_u8("c");
    symx_assume((c >= 0x20) & (c < 127) & !in(c, "\"\\"));
    if (k == 2 && !symx_param("escapes", 1)) symx_endpath();
    bool control = in(c, "[]^$.|?*+(){}");
    if (i == 0 && k == 0) symx_assume(caret | (c != '^'));
    if (k == 0) {
      r.text += c, r.mean += c, unescaped += c;
      if (control) *plain = false;
    } else if (k == 1) {
      r.text += std::string("\\\\") + (char)c, r.mean += std::string("\\") + (char)c, unescaped += c;
      symx_assume(control);
    } else {
      r.text += "\\\\\\\\", r.mean += "\\\\", unescaped += "\\";
    }
  }
  if (*plain) r.mean = unescaped;
  return r;
}
extern "C" void c33_regex() {
  bool plain, legal;
  size_t vary = symx_choice("vary", 2), caret = symx_choice("caret", 2), icase = vary ? symx_choice("icase", 2) : 0, str = vary ? symx_choice("str", 2) : 0;
  Piece x = regexArg(vary ? 1 : symx_choice("n", symx_param("n", 2)) + 1, caret && !icase, &plain, &legal);
  if (caret && icase) x.text = "^" + x.text, x.mean = "^" + x.mean;
  std::string f = "regex(" + std::string(str ? "str(?v)" : "?v") + ", \"" + x.text + "\"" + (icase ? ",\"i\"" : "") + ")";
  std::string want = std::string("F(?v ") + (plain ? "prefix " : "regex ") + x.mean + (str ? " str" : "") + (icase ? " i" : "");
  size_t k = vary ? symx_choice("form", 3) : 0;
  if (k == 2) {
    symx_assume(plain);
    f += " || regex(?w, \"^b\")";
    want += " or ?w ^b";
  }
  filterQuery(k ? "(" + f + ")" : " " + f, want + ")", vary);
}
extern "C" void c33_language() {
  size_t n = symx_param("n", 1);
  Piece p = symx_choice("predicate", 2) ? iri(n) : name(n);
  std::string tag = chars(2, alpha, alpha, alpha);
  size_t form = symx_choice("form", 3), known = symx_choice("known", 2);
  std::string v = known ? "?o" : "?s", f;
  if (form == 0) f = "(lang(" + v + ") = \"" + tag + "\")";
  if (form == 1) f = "langMatches(lang(" + v + "), \"" + tag + "\")";
  if (form == 2) f = "(langMatches(lang(" + v + "),\"" + tag + "\"))";
  std::string want = known ? "T(?a <q> ?b)T(?s @" + tag + "@" + p.mean + " ?o)"
                           : "T(?a <q> ?b)T(?s " + p.mean + " ?o)T(?s <QLever-internal-function/langtag> <QLever-internal-function/@" + tag + ">)";
  expectMeaning(where("?a <q> ?b . ?s " + p.text + " ?o . FILTER " + f + " ?c <r> ?d"), "S(?x {" + want + "T(?c <r> ?d)})");
}
// prefix(?v, "ab"): from "ab to "ac
static bool wordChar(uint8_t c) { return alpha(c) & (c < 'z'); }
extern "C" void c33_prefixfilter() {
  std::string w = chars(symx_param("n", 2), wordChar, wordChar, wordChar), up = w;
  up.back()++;
  filterQuery((symx_choice("nested", 2) ? "(prefix(?v, \"" + w + "\"))" : " prefix(?v,\"" + w + "\")"), "F(?v >= \"" + w + " )F(?v < \"" + up + " )", true);
}
extern "C" void c33_words() {
  std::string w = chars(symx_param("n", 2), alpha, alpha, alpha), low;
  for (char c : w) low += c | 32;
  size_t k = symx_choice("form", 2);
  expectMeaning(where("?t " + std::string(k ? "ql:contains-word" : "<QLever-internal-function/contains-word>") + " \"" + w + "*\" ."),
                "S(?x {T(?t <QLever-internal-function/contains-word> " + low + "*)})");
}

// ----- graph patterns
static Piece pattern(size_t depth);
static std::string fresh() {
  static char c = 'a';
  return std::string("?s") + c++;
}
static Piece element(size_t depth) {
  switch (symx_choice("element", depth ? 11 : 6)) {
    case 0: {
      Piece o = symx_param("names", 1) && symx_choice("object", 2) ? name(1) : Piece{"?o", "?o"};
      std::string v = fresh();
      return {v + " <p> " + o.text + " . ", "T(" + v + " <p> " + o.mean + ")"};
    }
    case 1: {
      Piece o = symx_param("names", 1) && symx_choice("object", 2) ? name(1) : Piece{"\"a:b\\\"\"", "\"a:b\"\""};
      return {"VALUES ?v { " + o.text + " <c> } ", "V(?v (" + o.mean + " )(<c> ))"};
    }
    case 2: {
      Piece o = symx_param("names", 1) && symx_choice("object", 2) ? name(1) : Piece{"<b>", "<b>"};
      return {"VALUES ( ?v ?w ) { (" + o.text + " <c>) (\"d\"@en " + o.text + " ) } . ", "V(?v ?w (" + o.mean + " <c> )(\"d\"@en " + o.mean + " ))"};
    }
    case 3: {
      static const char* B[][2] = {{"?a", "?a"}, {"?a+?b", "?a+?b"}, {"?a - ?b", "?a-?b"}, {"?a * ?b", "?a*?b"}, {"?a/ ?b", "?a/?b"},
                                   {"\"a\\\"\"", "\"a\"\""}, {"'b'", "\"b\""}, {"17", "#17"}, {"-3", "#-3"}, {"<i>", "<i>"}, {"p:q", "<http://p/q>"}};
      auto b = B[symx_param("names", 1) ? symx_choice("bind", 11) : 0];
      return {std::string("BIND(") + b[0] + " AS ?t) ", std::string("B(?t = ") + b[1] + ")"};
    }
    case 4: return {"FILTER(?f = p:q) ", "F(?f = <http://p/q>)"};
    case 5: return {"FILTER(?f < \"a:b\\\\\"^^p:q) . ", "F(?f < \"a:b\\\"^^<http://p/q>)"};
    case 6: {
      Piece p = pattern(depth - 1);
      return {"OPTIONAL {" + p.text + "} ", "O{" + p.mean + "}"};
    }
    case 7: {
      Piece p = pattern(depth - 1);
      return {"MINUS { " + p.text + "} . ", "M{" + p.mean + "}"};
    }
    case 8: {
      Piece p = pattern(depth - 1);
      return {"{?g <h> ?i} UNION { " + p.text + "} ", "U{T(?g <h> ?i)}{" + p.mean + "}"};
    }
    case 9: {
      Piece p = pattern(depth - 1);
      return {"{" + p.text + "} UNION {?g <h> ?i . }. ", "U{" + p.mean + "}{T(?g <h> ?i)}"};
    }
    default: {
      Piece p = pattern(depth - 1);
      size_t m = symx_param("names", 1) ? symx_choice("modifier", 2) : 1;
      return {"{SELECT ?s WHERE { " + p.text + "} " + (m ? "LIMIT 5" : "") + "} ", "QS(?s {" + p.mean + "}" + (m ? " limit 5" : "") + ")"};
    }
  }
}
static Piece pattern(size_t depth) {
  size_t top = symx_param("depth", 1);
  size_t n = symx_choice("elements", depth == top ? symx_param("m", 2) : symx_param("inner", 1)) + 1;
  Piece r;
  std::string filters;
  for (size_t i = 0; i < n; i++) {
    Piece e = element(depth);
    r.text += e.text;
    if (e.mean[0] == 'F')
      filters += e.mean;
    else
      r.mean += e.mean;
  }
  r.mean += filters;
  return r;
}
extern "C" void c33_patterns() {
  Piece p = pattern(symx_param("depth", 1));
  expectMeaning(where(p.text), "S(?x {" + p.mean + "})");
}

// ----- property paths
static Piece path(size_t depth, size_t level);
static Piece primary(size_t depth) {
  size_t k = depth < symx_param("depth", 1) ? 1 : symx_choice("primary", depth ? 4 : 3);
  if (k == 0) {
    return iri(1);
  }
  if (k == 1) return {"p:a", "<http://p/a>"};
  if (k == 2) return {"p:a\\*b", "<http://p/a*b>"};
  Piece p = path(depth - 1, 3);
  return {"(" + p.text + ")", p.mean};
}
// level 3: alternatives, 2: sequences, 1: inverse, 0: repetition
static Piece path(size_t depth, size_t level) {
  if (level >= 2) {
    const char* op = level == 3 ? "|" : "/";
    Piece a = path(depth, level - 1);
    if (!symx_choice(level == 3 ? "alternatives" : "sequence", 2)) return a;
    Piece b = depth && symx_param("right", 0) && symx_choice("right", 2) ? path(depth - 1, level - 1) : Piece{"<b>", "<b>"};
    if (symx_choice("third", 2)) return {a.text + op + b.text + op + "<c>", std::string("(") + op + " " + a.mean + " " + b.mean + " <c>)"};
    return {a.text + op + b.text, std::string("(") + op + " " + a.mean + " " + b.mean + ")"};
  }
  if (level == 1) {
    bool inverse = symx_choice("inverse", 2);
    Piece a = path(depth, 0);
    if (!inverse) return a;
    return {"^" + a.text, "(^ " + a.mean + ")"};
  }
  Piece a = primary(depth);
  switch (symx_choice("repeat", 5)) {
    case 0: return a;
    case 1: return {a.text + "*", "(* " + a.mean + ")"};
    case 2: return {a.text + "+", "(+1 " + a.mean + ")"};
    case 3: return {a.text + "?", "(?1 " + a.mean + ")"};
    default: {
      std::string d = chars(symx_choice("digits", 2) + 1, digitChar, digitChar, digitChar), e = d;
      symx_assume(d[0] != '0');
      return {a.text + "*" + d, "(?" + e + " " + a.mean + ")"};
    }
  }
}
extern "C" void c33_paths() {
  Piece p = path(symx_param("depth", 1), 3);
  expectMeaning(where("?s " + p.text + " ?o"), "S(?x {T(?s " + p.mean + " ?o)})");
}
extern "C" void c33_badpaths() {
  static const char* P[] = {"<a>/", "/<a>", "<a>//<b>", "<a>|", "|<a>", "(<a>", "<a>)", "()", "<a>**", "^", "^*", "<a>/*", "(<a>|)", "+", "<a>/^", "<a>(<b>)"};
  expectError(where(std::string("?s ") + P[symx_choice("path", 16)] + " ?o"));
}

// ----- malformed texts
extern "C" void c33_rest() {
  static const char* T[] = {"}", "limit", "?x", "<a>", ")", "order by", "{", "\"a\"", "5", ".", "p:q", "group by", "} }", "select", "offset ?x", "limit 1.5",
                            "limit \"a\"", "group by 3", "having", "limit 3 4"};
  std::string text = where("?s <p> ?o");
  if (symx_choice("limit", 2)) text += " LIMIT 3";
  expectError(text + sep() + T[symx_choice("token", 20)] + (symx_choice("space", 2) ? " " : ""));
}
extern "C" void c33_incomplete() {
  // every query cut off before its last closing brace is complete is an error
  static const char* Q[] = {"SELECT ?x WHERE { ?s <p> ?o . }", "SELECT ?x WHERE { { SELECT ?x WHERE { ?s <p> ?o } LIMIT 3 } }",
                            "SELECT ?x WHERE { OPTIONAL { ?s p:q 'a' } }", "PREFIX p: <q> SELECT (COUNT(?x) AS ?y) WHERE { {?s <p> ?o} UNION { ?s <p> ?o } }",
                            "SELECT ?x WHERE { FILTER(?x < 3) VALUES ?v { <a> } BIND(?a AS ?b) }"};
  std::string q = Q[symx_choice("query", 5)];
  size_t n = symx_choice("length", q.size());
  expectError(q.substr(0, n));
}
extern "C" void c33_any() {
  static const char* A[] = {"", "SELECT ", "SELECT ?x WHERE {", "SELECT ?x WHERE { ?s ", "SELECT ?x WHERE { ?s <p> ", "SELECT ?x WHERE { FILTER ",
                            "SELECT ?x WHERE { FILTER(?x = ", "SELECT ?x WHERE { BIND(", "SELECT ?x WHERE { VALUES ", "SELECT ?x WHERE { ?s <p> ?o } ",
                            "SELECT ?x WHERE { ?s <p> ?o } LIMIT ", "SELECT ?x WHERE { ?s <p> ?o } ORDER BY ", "SELECT ?x WHERE { ?s <p> \"", "PREFIX ",
                            "SELECT ?x WHERE { FILTER(regex(?x, \"^"};
  static const char* B[] = {"", " ?o }", "\"))}"};
  std::string text = A[symx_choice("before", 15)];
  text += chars(symx_choice("n", symx_param("n", 2) + 1), anyChar, anyChar, anyChar);
  text += B[symx_choice("after", 3)];
  std::string got;
  bool ok = parse(text, &got);
  symx_observe(ok);
  symx_cover("end");
}
