// C38: the result of a query does not depend on the plan that is chosen. The
// real parser and planner run on every query of a list; which plan is cheapest
// is left open through the sizes the index reports. The plan is executed on
// triples with symbolic subjects and objects and compared with the meaning of
// the query.
#include <cwchar>
#include "kb.h"
#include "engine/QueryPlanner.h"
#include "parser/SparqlParser.h"

// query texts here are ASCII only
extern "C" size_t __ctype_get_mb_cur_max() { return 6; }
extern "C" size_t mbrtowc(wchar_t*, const char*, size_t, mbstate_t*) { return -1; }
extern "C" size_t wcrtomb(char*, wchar_t, mbstate_t*) { return -1; }
extern "C" wint_t towlower(wint_t c) { return c; }
extern "C" wint_t towupper(wint_t c) { return c; }
extern "C" int isgraph(int c) { return (c > 0x20) & (c < 127); }

// exponent of a positive number, as used by the cost estimates
extern "C" double logb(double x) {
  uint64_t bits;
  memcpy(&bits, &x, 8);
  return double(int(bits >> 52 & 0x7ff) - 1023);
}

// only used to describe operations
template <typename S, typename C>
template <typename, typename>
const std::optional<string> Vocabulary<S, C>::idToOptionalString(Id) const {
  return "word";
}
template const std::optional<string> RdfsVocabulary::idToOptionalString<CompressedString, void>(Id id) const;

// ---- sizes: any of two for each relation ----
static size_t sizes[4];
static size_t sizeOf(size_t k) {
  if (!sizes[k]) sizes[k] = 2 + 4000 * symx_choice("size", 2);
  return sizes[k];
}
size_t Index::sizeEstimate(const string& sub, const string& pred, const string& obj) const {
  return sizeOf(pred == "<p>" ? 0 : pred == "<q>" ? 1 : pred == "<r>" ? 2 : 3);
}

// ---- queries ----
namespace spec {
static const size_t NV = 7;
static const char* NAMES = "xyzuvwt";
struct Term {
  int var = -1;
  std::string iri;
  Term(const char* s) {
    if (*s == '?') {
      for (size_t k = 0; k < NV; k++)
        if (NAMES[k] == s[1]) var = k;
    } else iri = s;
  }
  std::string text() const { return var >= 0 ? std::string("?") + NAMES[var] : iri; }
};
struct Path {
  char kind;  // i(ri), ^, /, |, +
  std::string iri;
  std::vector<Path> sub;
  std::string text() const {
    if (kind == 'i') return iri;
    if (kind == '^') return "^" + sub[0].text();
    if (kind == '+') return (sub[0].kind == 'i' ? sub[0].text() : "(" + sub[0].text() + ")") + "+";
    return sub[0].text() + kind + sub[1].text();
  }
};
static Path I(const char* s) { return {'i', s, {}}; }
struct Pattern {
  Term s;
  Path p;
  Term o;
  int pvar = -1;
  std::string text() const {
    return s.text() + " " + (pvar >= 0 ? std::string("?") + NAMES[pvar] : p.text()) + " " + o.text() + " . ";
  }
};
static Pattern T(const char* s, const char* p, const char* o) {
  Pattern t{s, I(p), o};
  if (*p == '?') t.pvar = Term(p).var;
  return t;
}
static Pattern P(const char* s, Path p, const char* o) { return {s, p, o}; }
struct Filter3 {
  Term l;
  std::string op;
  Term r;
};
struct Query;
struct Group {
  std::vector<Pattern> triples;
  std::vector<Filter3> filters;
  std::vector<Group> optionals;
  std::vector<std::array<std::shared_ptr<Group>, 2>> unions;
  std::vector<Group> minus;
  std::vector<Pattern> after;  // triples behind the nested groups
  std::vector<std::shared_ptr<Query>> subqueries;
  std::vector<std::pair<Term, std::vector<std::string>>> values;
  std::vector<std::pair<Term, Term>> binds;
  std::string text() const;
};
struct Query {
  Group g;
  bool distinct = false;
  std::string select;   // letters of the selected variables, all if empty
  bool grouped = false; // by the selected variables, with a count
  char counted = 0;
  bool countDistinct = false;
  std::string orderBy;  // letters, a capital one for descending order
  std::vector<Filter3> having;
  std::string text() const {
    std::string body = g.text(), r = "SELECT", vars;
    for (size_t k = 0; k < NV; k++)
      if (select.empty() ? body.find(std::string("?") + NAMES[k]) != std::string::npos
                         : select.find(NAMES[k]) != std::string::npos)
        vars += std::string(" ?") + NAMES[k];
    if (distinct) r += " DISTINCT";
    r += vars;
    if (counted) r += std::string(" (COUNT(") + (countDistinct ? "DISTINCT ?" : "?") + counted + ") as ?t)";
    r += " WHERE { " + body + "}";
    if (grouped) r += " GROUP BY" + vars;
    if (having.size()) r += " HAVING";
    for (auto& f : having) r += " (" + f.l.text() + " " + f.op + " " + f.r.text() + ")";
    if (orderBy.size()) r += " ORDER BY";
    for (char c : orderBy) r += c >= 'a' ? std::string(" ?") + c : std::string(" DESC(?") + char(c + 32) + ")";
    return r;
  }
};
std::string Group::text() const {
  std::string r;
  for (auto& v : values) {
    r += "VALUES " + v.first.text() + " { ";
    for (auto& w : v.second) r += w + " ";
    r += "} ";
  }
  for (auto& t : triples) r += t.text();
  for (auto& q : subqueries) r += "{ " + q->text() + " } ";
  for (auto& u : unions) r += "{ " + u[0]->text() + "} UNION { " + u[1]->text() + "} ";
  for (auto& o : optionals) r += "OPTIONAL { " + o.text() + "} ";
  for (auto& m : minus) r += "MINUS { " + m.text() + "} ";
  for (auto& b : binds) r += "BIND (" + b.first.text() + " AS " + b.second.text() + ") ";
  for (auto& t : after) r += t.text();
  for (auto& f : filters) r += "FILTER (" + f.l.text() + " " + f.op + " " + f.r.text() + ") ";
  return r;
}

// ---- meaning: candidate solutions with the condition under which they hold ----
struct Solution {
  Id v[NV];
  bool bound[NV] = {};
  bool cond = true;
};
using Solutions = std::vector<Solution>;
static Id idOf(const std::string& iri) { return kbWords.at(iri); }
static bool bindTerm(Solution& s, const Term& t, Id value) {
  if (t.var < 0) return value == idOf(t.iri);
  if (s.bound[t.var]) return s.v[t.var] == value;
  s.bound[t.var] = true;
  s.v[t.var] = value;
  return true;
}
struct Pair {
  Id s, o;
  bool cond;
};
static std::vector<Pair> pairs(const Path& p) {
  std::vector<Pair> r;
  if (p.kind == 'i') {
    for (auto& t : kb)
      if (t[1] == idOf(p.iri)) r.push_back({t[0], t[2], true});
    return r;
  }
  auto a = pairs(p.sub[0]);
  if (p.kind == '^') {
    for (auto& x : a) r.push_back({x.o, x.s, x.cond});
  } else if (p.kind == '|') {
    r = a;
    for (auto& x : pairs(p.sub[1])) r.push_back(x);
  } else if (p.kind == '/') {
    auto b = pairs(p.sub[1]);
    for (auto& x : a)
      for (auto& y : b) r.push_back({x.s, y.o, (bool)(x.cond & y.cond & (x.o == y.s))});
  } else {
    // the start and end of every chain of steps, each pair once
    size_t n = a.size();
    std::vector<std::vector<uint8_t>> reach(n, std::vector<uint8_t>(n));
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) reach[i][j] = a[i].cond & a[j].cond & (i == j || a[i].o == a[j].s);
    for (size_t k = 0; k < n; k++)
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) reach[i][j] |= reach[i][k] & reach[k][j];
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) {
        bool again = false;
        for (auto& x : r) again |= x.cond & (x.s == a[i].s) & (x.o == a[j].o);
        r.push_back({a[i].s, a[j].o, (bool)(reach[i][j] & !again)});
      }
  }
  return r;
}
static Solutions joinTriple(const Solutions& in, const Pattern& t) {
  Solutions out;
  for (auto& s : in) {
    if (t.pvar >= 0) {
      for (auto& k : kb) {
        Solution n = s;
        bool c = bindTerm(n, t.s, k[0]);
        Term pt("?x");
        pt.var = t.pvar;
        c &= bindTerm(n, pt, k[1]);
        c &= bindTerm(n, t.o, k[2]);
        n.cond = s.cond & c;
        out.push_back(n);
      }
      continue;
    }
    for (auto& k : pairs(t.p)) {
      Solution n = s;
      bool c = bindTerm(n, t.s, k.s);
      c &= bindTerm(n, t.o, k.o);
      n.cond = s.cond & c & k.cond;
      out.push_back(n);
    }
  }
  return out;
}
static bool agree(const Solution& a, const Solution& b, bool& shared) {
  bool r = true;
  shared = false;
  for (size_t k = 0; k < NV; k++)
    if (a.bound[k] && b.bound[k]) {
      shared = true;
      r &= a.v[k] == b.v[k];
    }
  return r;
}
static Solution merged(const Solution& a, const Solution& b) {
  Solution r = a;
  for (size_t k = 0; k < NV; k++)
    if (b.bound[k]) {
      r.bound[k] = true;
      r.v[k] = b.v[k];
    }
  bool shared;
  r.cond = a.cond & b.cond & agree(a, b, shared);
  return r;
}
static bool holds(const Solution& s, const Filter3& f) {
  Id l = f.l.var >= 0 ? s.v[f.l.var] : idOf(f.l.iri), r = f.r.var >= 0 ? s.v[f.r.var] : idOf(f.r.iri);
  if (f.op == "=") return l == r;
  if (f.op == "!=") return l != r;
  if (f.op == "<") return l < r;
  if (f.op == "<=") return l <= r;
  if (f.op == ">") return l > r;
  return l >= r;
}
static Solutions eval(const Query& q);
static Solutions joined(const Solutions& as, const Solutions& bs) {
  Solutions out;
  for (auto& a : as)
    for (auto& b : bs) out.push_back(merged(a, b));
  return out;
}
static Solutions eval(const Group& g) {
  Solutions r(1);
  for (auto& v : g.values) {
    Solutions rows;
    for (auto& w : v.second) {
      Solution s;
      s.bound[v.first.var] = true;
      s.v[v.first.var] = idOf(w);
      rows.push_back(s);
    }
    r = joined(r, rows);
  }
  for (auto& t : g.triples) r = joinTriple(r, t);
  for (auto& q : g.subqueries) r = joined(r, eval(*q));
  for (auto& u : g.unions) {
    Solutions both = eval(*u[0]);
    for (auto& s : eval(*u[1])) both.push_back(s);
    r = joined(r, both);
  }
  for (auto& o : g.optionals) {
    Solutions opt = eval(o), out;
    for (auto& a : r) {
      bool none = true;
      for (auto& b : opt) {
        out.push_back(merged(a, b));
        bool shared;
        none &= !(b.cond & agree(a, b, shared));
      }
      Solution alone = a;
      alone.cond &= none;
      out.push_back(alone);
    }
    r = out;
  }
  for (auto& m : g.minus) {
    Solutions neg = eval(m);
    for (auto& a : r)
      for (auto& b : neg) {
        bool shared, same = agree(a, b, shared);
        if (shared) a.cond &= !(b.cond & same);
      }
  }
  for (auto& b : g.binds)
    for (auto& s : r) {
      s.bound[b.second.var] = true;
      s.v[b.second.var] = s.v[b.first.var];
    }
  for (auto& t : g.after) r = joinTriple(r, t);
  for (auto& f : g.filters)
    for (auto& s : r) s.cond &= holds(s, f);
  return r;
}

static bool same(const Solution& a, const Solution& b) {
  bool r = true;
  for (size_t k = 0; k < NV; k++) {
    if (a.bound[k] != b.bound[k]) return false;
    if (a.bound[k]) r &= a.v[k] == b.v[k];
  }
  return r;
}
static Solutions eval(const Query& q) {
  Solutions all = eval(q.g), r = all;
  for (auto& s : r)
    for (size_t k = 0; k < NV; k++)
      if (q.select.size() && q.select.find(NAMES[k]) == std::string::npos) s.bound[k] = false;
  std::vector<uint8_t> later(r.size());
  for (size_t i = 0; i < r.size(); i++)
    for (size_t j = 0; j < i; j++) later[i] |= r[j].cond & same(r[i], r[j]);
  if (q.counted) {
    size_t in = std::string(NAMES).find(q.counted);
    Solutions keys = r;
    for (size_t i = 0; i < r.size(); i++) {
      Id n = 0;
      for (size_t j = 0; j < r.size(); j++) {
        bool counts = all[j].cond & same(keys[i], keys[j]);
        if (q.countDistinct)
          for (size_t k = 0; k < j; k++) counts &= !(all[k].cond & same(keys[k], keys[j]) & (all[k].v[in] == all[j].v[in]));
        n += counts;
      }
      r[i].bound[NV - 1] = true;
      r[i].v[NV - 1] = n;
    }
  }
  if (q.distinct || q.counted)
    for (size_t i = 0; i < r.size(); i++) r[i].cond &= !later[i];
  for (auto& f : q.having)
    for (auto& s : r) s.cond &= holds(s, f);
  return r;
}

// ---- the list ----
static std::shared_ptr<Group> G(std::vector<Pattern> t, std::vector<Filter3> f = {}) {
  auto g = std::make_shared<Group>();
  g->triples = t;
  g->filters = f;
  return g;
}
static std::vector<Query> queriesOf(size_t set) {
  std::vector<Query> q;
  q.reserve(32);
  auto add = [&](Group g) -> Query& {
    q.push_back({g});
    return q.back();
  };
  Path pq{'/', "", {I("<p>"), I("<q>")}}, palt{'|', "", {I("<p>"), I("<q>")}}, pinv{'^', "", {I("<p>")}},
      pplus{'+', "", {I("<p>")}};
  if (set == 0) {  // basic graph patterns
    add(*G({T("?x", "<p>", "?y")}));
    add(*G({T("<a>", "<p>", "?y")}));
    add(*G({T("?x", "<p>", "<a>")}));
    add(*G({T("?x", "<p>", "?y"), T("?y", "<q>", "?z")}));
    add(*G({T("?x", "<p>", "?y"), T("?x", "<q>", "?z")}));
    add(*G({T("?x", "<p>", "?y"), T("?z", "<q>", "?y")}));
    add(*G({T("?x", "<p>", "?y"), T("?x", "<q>", "?y")}));
    add(*G({T("?x", "<p>", "?y"), T("?y", "<q>", "?x")}));
    add(*G({T("?x", "<p>", "<a>"), T("?x", "<q>", "?z")}));
    add(*G({T("<a>", "<p>", "?x"), T("?z", "<q>", "?x")}));
    add(*G({T("?x", "<p>", "?y"), T("?y", "<p>", "?z")}));
  } else if (set == 1) {  // three triples
    add(*G({T("?x", "<p>", "?y"), T("?y", "<q>", "?z"), T("?z", "<r>", "?u")}));
    add(*G({T("?x", "<p>", "?y"), T("?x", "<q>", "?z"), T("?x", "<r>", "?u")}));
    add(*G({T("?x", "<p>", "?y"), T("?y", "<q>", "?z"), T("?z", "<r>", "?x")}));
    add(*G({T("?x", "<p>", "?y"), T("?y", "<q>", "?z"), T("?y", "<r>", "?u")}));
    add(*G({T("?x", "<p>", "?y"), T("?x", "<q>", "?y"), T("?y", "<r>", "?u")}));
  } else if (set == 2) {  // free predicates
    add(*G({T("?x", "<p>", "?y"), T("?x", "?t", "?z")}));
    add(*G({T("?x", "<p>", "?y"), T("?z", "?t", "?y")}));
    add(*G({T("<a>", "?t", "?y")}));
    add(*G({T("?x", "?t", "<a>")}));
    add(*G({T("<a>", "?t", "<b>")}));
    add(*G({T("?x", "?t", "<a>"), T("?x", "<p>", "?y")}));
  } else if (set == 3) {  // filters
    for (auto op : {"=", "!=", "<", "<=", ">", ">="}) add(*G({T("?x", "<p>", "?y")}, {{"?x", op, "?y"}}));
    add(*G({T("?x", "<p>", "?y"), T("?y", "<q>", "?z")}, {{"?x", "!=", "?z"}}));
    add(*G({T("?x", "<p>", "?y"), T("?y", "<q>", "?z")}, {{"?x", "<", "?z"}, {"?x", "!=", "?y"}}));
    add(*G({T("?x", "<p>", "?y"), T("?x", "<q>", "?z")}, {{"?y", "=", "?z"}}));
  } else if (set == 4) {  // optional
    Group g = *G({T("?x", "<p>", "?y")});
    g.optionals = {*G({T("?y", "<q>", "?z")})};
    add(g);
    g.optionals = {*G({T("?x", "<q>", "?y")})};
    add(g);
    g.optionals = {*G({T("?x", "<q>", "?z")}), *G({T("?y", "<r>", "?u")})};
    add(g);
    g.optionals = {*G({T("?x", "<q>", "?z"), T("?z", "<r>", "?u")})};
    add(g);
    g.optionals = {*G({T("?x", "<q>", "?z")}, {{"?z", "!=", "?x"}})};
    add(g);
    g.optionals = {*G({T("?x", "<q>", "?z")})};
    g.after = {T("?y", "<r>", "?u")};
    add(g);
  } else if (set == 5) {  // union
    Group g;
    g.unions = {{G({T("?x", "<p>", "?y")}), G({T("?x", "<q>", "?y")})}};
    add(g);
    g.unions = {{G({T("?x", "<p>", "?y")}), G({T("?y", "<q>", "?x")})}};
    add(g);
    g.unions = {{G({T("?x", "<p>", "?y")}), G({T("?x", "<q>", "?z")})}};
    add(g);
    g.triples = {T("?x", "<r>", "?u")};
    add(g);
    g.unions = {{G({T("?x", "<p>", "?y")}), G({T("?y", "<q>", "?x")})}};
    add(g);
    g.unions = {{G({T("?x", "<p>", "?y")}), G({T("?u", "<q>", "?y")})}};
    g.triples = {};
    g.after = {T("?y", "<r>", "?z")};
    add(g);
  } else if (set == 6) {  // minus
    Group g = *G({T("?x", "<p>", "?y")});
    g.minus = {*G({T("?x", "<q>", "?y")})};
    add(g);
    g.minus = {*G({T("?y", "<q>", "?x")})};
    add(g);
    g.minus = {*G({T("?y", "<q>", "?z")})};
    add(g);
    g.minus = {*G({T("?x", "<q>", "?z"), T("?z", "<r>", "?u")})};
    add(g);
    g.minus = {*G({T("?x", "<q>", "<a>")})};
    add(g);
    g.after = {T("?y", "<r>", "?u")};
    add(g);
  } else if (set == 7) {  // property paths
    add(*G({P("?x", pq, "?y")}));
    add(*G({P("?x", palt, "?y")}));
    add(*G({P("?x", pinv, "?y")}));
    add(*G({P("?x", {'/', "", {pinv, I("<q>")}}, "?y")}));
    add(*G({P("?x", pplus, "?y")}));
    add(*G({P("<a>", pplus, "?y")}));
    add(*G({P("?x", pplus, "<a>")}));
    add(*G({P("?x", pplus, "?y"), T("?y", "<q>", "?z")}));
    add(*G({P("?x", palt, "?y"), T("?y", "<r>", "?z")}));
    add(*G({P("<a>", pq, "?y")}));
  } else if (set == 8) {  // solution modifiers
    auto& d = add(*G({T("?x", "<p>", "?y")}));
    d.distinct = true, d.select = "x";
    auto& e = add(*G({T("?x", "<p>", "?y"), T("?x", "<q>", "?z")}));
    e.distinct = true, e.select = "yz";
    auto& o = add(*G({T("?x", "<p>", "?y")}));
    o.orderBy = "yX";
    auto& f = add(*G({T("?x", "<p>", "?y"), T("?x", "<q>", "?z")}));
    f.orderBy = "zy";
    auto& h = add(*G({T("?x", "<p>", "?y"), T("?y", "<q>", "?z")}));
    h.orderBy = "x", h.distinct = true, h.select = "xz";
    auto& i = add(*G({T("?x", "<p>", "?y")}));
    i.orderBy = "x";
    auto& j = add(*G({T("?x", "<p>", "?y")}));
    j.orderBy = "Y";
  } else if (set == 9) {  // groups
    auto& c = add(*G({T("?x", "<p>", "?y")}));
    c.grouped = true, c.select = "x", c.counted = 'y';
    auto& d = add(*G({T("?x", "<p>", "?y"), T("?y", "<q>", "?z")}));
    d.grouped = true, d.select = "y", d.counted = 'x', d.countDistinct = true;
    auto& e = add(*G({T("?x", "<p>", "?y"), T("?x", "<q>", "?z")}));
    e.grouped = true, e.select = "yz", e.counted = 'x';
    auto& f = add(*G({T("?x", "<p>", "?y")}));
    f.grouped = true, f.select = "y", f.counted = 'x', f.orderBy = "T";
    auto& h = add(*G({T("?x", "<p>", "?y"), T("?x", "<q>", "?z")}));
    h.grouped = true, h.select = "xz", h.counted = 'y';
    auto& i = add(*G({T("?x", "<p>", "?y"), T("?y", "<q>", "?z")}));
    i.grouped = true, i.select = "yz", i.counted = 'x';
    auto& j = add(*G({T("?x", "<p>", "?y")}));
    j.grouped = true, j.select = "xy", j.counted = 'y';
    Group g = *G({T("?x", "<q>", "?z")});
    g.subqueries = {std::make_shared<Query>(c)};
    add(g);
    g.subqueries = {std::make_shared<Query>(d)};
    g.triples = {T("?y", "<r>", "?u")};
    add(g).select = "yut";
  } else if (set == 10) {  // inline data, BIND, subqueries
    Group g = *G({T("?x", "<p>", "?y")});
    g.values = {{"?x", {"<a>", "<b>"}}};
    add(g);
    g.values = {{"?y", {"<a>", "<b>", "<a>"}}};
    add(g);
    g.triples.push_back(T("?y", "<q>", "?z"));
    add(g);
    Group b = *G({T("?x", "<p>", "?y")});
    b.binds = {{"?y", "?w"}};
    add(b);
    b.after = {T("?x", "<q>", "?z")};
    add(b);
    Query d{*G({T("?x", "<p>", "?y")})};
    d.distinct = true, d.select = "x";
    Group s = *G({T("?x", "<q>", "?z")});
    s.subqueries = {std::make_shared<Query>(d)};
    add(s).select = "xz";
    d.select = "y";
    s.triples = {T("?z", "<q>", "?y")};
    s.subqueries = {std::make_shared<Query>(d)};
    add(s).select = "yz";
  } else if (set == 11) {  // conditions on groups
    auto& a = add(*G({T("?x", "<p>", "?y")}));
    a.grouped = true, a.select = "xy", a.having = {{"?x", "<", "?y"}};
    auto& b = add(*G({T("?x", "<p>", "?y"), T("?x", "<q>", "?z")}));
    b.grouped = true, b.select = "yz", b.counted = 'x', b.having = {{"?y", ">=", "?z"}};
    auto& c = add(*G({T("?x", "<p>", "?y"), T("?y", "<q>", "?z")}));
    c.grouped = true, c.select = "xyz", c.having = {{"?x", "!=", "?y"}, {"?y", "<", "?z"}};
    auto& d = add(*G({T("?x", "<p>", "?y")}));
    d.grouped = true, d.select = "xy", d.counted = 'x', d.having = {{"?x", "<=", "?y"}, {"?y", "!=", "?x"}}, d.orderBy = "y";
  } else if (set == 12) {  // the same variable twice
    add(*G({T("?x", "<p>", "?x")}));
    add(*G({T("?x", "<p>", "?x"), T("?x", "<q>", "?y")}));
    add(*G({T("?x", "<p>", "?x"), T("?y", "<q>", "?x")}));
  } else if (set == 13) {  // paths bound from either side
    Group g = *G({P("?x", pplus, "?y")});
    g.values = {{"?y", {"<b>", "<a>"}}};
    add(g);
    g.values = {{"?x", {"<b>", "<a>"}}};
    add(g);
    g.values = {};
    g.after = {T("?z", "<q>", "?x")};
    add(g);
    g.after = {T("?x", "<q>", "?z")};
    add(g);
    g.after = {T("?z", "<q>", "?y")};
    add(g);
    g.after = {T("?x", "<q>", "?z"), T("?z", "<r>", "?u")};
    add(g);
    g.after = {T("?z", "<q>", "?u"), T("?u", "<r>", "?y")};
    add(g);
  } else if (set == 14) {  // longer parts on either side
    Group chain = *G({T("?x", "<p>", "?y"), T("?y", "<q>", "?z"), T("?z", "<r>", "?u")});
    Group g = chain;
    g.optionals = {*G({T("?y", "<p>", "?w")})};
    add(g);
    g.optionals = {};
    g.minus = {*G({T("?y", "<p>", "?w")})};
    add(g);
    g = *G({T("?y", "<p>", "?w")});
    g.optionals = {chain};
    add(g);
    g = *G({T("?u", "<p>", "?w")});
    g.minus = {chain};
    add(g);
    // two shared variables, neither side a single triple
    Query s{*G({T("?x", "<p>", "?y"), T("?y", "<q>", "?z")})};
    s.select = "xz";
    g = *G({T("?z", "<q>", "?x")});
    g.subqueries = {std::make_shared<Query>(s)};
    add(g).select = "xz";
    s.distinct = true;
    g.subqueries = {std::make_shared<Query>(s)};
    add(g).select = "xz";
    // filters around optional parts and alternatives
    g = *G({T("?x", "<p>", "?y")}, {{"?x", "!=", "?y"}});
    g.optionals = {*G({T("?y", "<q>", "?z")})};
    add(g);
    g = {};
    g.unions = {{G({T("?x", "<p>", "?y")}), G({T("?x", "<q>", "?y")})}};
    g.filters = {{"?x", "<", "?y"}};
    add(g);
    // a group within an alternative within a group
    auto inner = G({T("?x", "<q>", "?y")});
    inner->optionals = {*G({T("?y", "<r>", "?z")})};
    g = {};
    g.unions = {{G({T("?x", "<p>", "?y")}), inner}};
    add(g);
  }
  return q;
}

}  // namespace spec
using namespace spec;

static void makeKb() {
  kbWords = {{"<a>", 3}, {"<b>", 4}, {"<p>", 100}, {"<q>", 101}, {"<r>", 102}};
  const char* names[3] = {"p", "q", "r"};
  size_t counts[3] = {symx_param("np", 2), symx_param("nq", 2), symx_param("nr", 1)};
  for (size_t k = 0; k < 3; k++)
    for (size_t i = 0; i < counts[k]; i++) {
      KbTriple t{symx_range(names[k], 1, 9), 100 + k, 0};
      t[2] = symx_range(names[k], 1, 9);
      if (i > 0) {
        auto& o = kb.back();
        symx_assume((o[0] < t[0]) | ((o[0] == t[0]) & (o[2] < t[2])));
      }
      kb.push_back(t);
    }
}

static void run(const spec::Query& q) {
  World w;
  // all permutations are there
  reinterpret_cast<Index*>(w.indexBuf)->_SPO._file._file = reinterpret_cast<FILE*>(w.indexBuf);
  std::string text = q.text();
  ParsedQuery pq = SparqlParser(text).parse();
  pq.expandPrefixes();
  QueryPlanner planner(w.qec());
  makeKb();
  QueryExecutionTree tree = planner.createExecutionTree(pq);
  auto res = tree.getResult();
  Solutions want = eval(q);
  // the columns of the variables that occur in the query
  bool occurs[NV] = {};
  for (auto& s : want)
    for (size_t k = 0; k < NV; k++) occurs[k] |= s.bound[k];
  std::vector<size_t> vars, cols;
  for (size_t k = 0; k < NV; k++)
    if (occurs[k]) {
      std::string name = std::string("?") + NAMES[k];
      auto map = tree.getVariableColumns();
      symx_assert(map.count(name) == 1, "the plan has a column for every variable");
      if (!map.count(name)) symx_endpath();
      vars.push_back(k);
      cols.push_back(map[name]);
    }
  IdTable got(vars.size(), w.alloc());
  for (size_t i = 0; i < res->_data.size(); i++) {
    got.push_back();
    for (size_t c = 0; c < cols.size(); c++) got(i, c) = res->_data(i, cols[c]);
  }
  Expected e;
  for (auto& s : want) {
    Row r;
    for (size_t k : vars) r.v[r.n++] = s.bound[k] ? s.v[k] : ID_NO_VALUE;
    e.add(r, s.cond);
  }
  assertBag(got, e, "the plan gives as many rows as the query has solutions", "the plan gives exactly the query's solutions");
  bool inOrder = true;
  for (size_t i = 1; i < got.size(); i++) {
    bool lt = false, eq = true;
    for (char c : q.orderBy) {
      size_t col = 0;
      while (NAMES[vars[col]] != (c | 32)) col++;
      Id a = got(i - 1, col), b = got(i, col);
      lt |= eq & (c >= 'a' ? a < b : a > b);
      eq &= a == b;
    }
    inOrder &= lt | eq;
  }
  symx_assert(inOrder, "the plan gives the solutions in the requested order");
  observeTable(got);
  symx_cover("end");
}

extern "C" void c38_plan() {
  size_t set = symx_param("set", 0), last = symx_param("last", set);
  std::vector<spec::Query> queries;
  for (; set <= last; set++)
    for (auto& q : queriesOf(set)) queries.push_back(q);
  size_t only = symx_param("only", 99);
  size_t k = only < queries.size() ? only : symx_choice("query", queries.size());
  run(queries[k]);
}
