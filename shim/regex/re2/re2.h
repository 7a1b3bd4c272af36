// Stand-in for the parts of RE2 the sources call, for symbolic execution only:
// anchored matching of ASCII text with a pattern that is known. The pattern is
// compiled to a program for a backtracking matcher, which finds the match RE2
// prefers (leftmost first). Native replays use the real RE2.
#pragma once
#ifdef SYMX_NATIVE
#include_next <re2/re2.h>
#else
#include <cstdlib>
#include <cstring>
#include <ostream>
#include <string>
#include <string_view>
#include <vector>

namespace re2 {
class StringPiece {
 public:
  typedef const char* const_iterator;
  typedef const_iterator iterator;
  static const size_t npos = static_cast<size_t>(-1);
  StringPiece() : data_(nullptr), size_(0) {}
  StringPiece(const std::string_view& s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const std::string& s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const char* s) : data_(s), size_(strlen(s)) {}
  StringPiece(const char* s, size_t n) : data_(s), size_(n) {}
  const_iterator begin() const { return data_; }
  const_iterator end() const { return data_ + size_; }
  size_t size() const { return size_; }
  size_t length() const { return size_; }
  bool empty() const { return size_ == 0; }
  const char& operator[](size_t i) const { return data_[i]; }
  const char* data() const { return data_; }
  void remove_prefix(size_t n) { data_ += n, size_ -= n; }
  void remove_suffix(size_t n) { size_ -= n; }
  void set(const char* s, size_t n) { data_ = s, size_ = n; }
  operator std::string_view() const { return {data_, size_}; }
  std::string as_string() const { return std::string(data_, size_); }
  std::string ToString() const { return as_string(); }
  StringPiece substr(size_t pos = 0, size_t n = npos) const {
    if (pos > size_) pos = size_;
    if (n > size_ - pos) n = size_ - pos;
    return StringPiece(data_ + pos, n);
  }
  friend std::ostream& operator<<(std::ostream& o, const StringPiece& p) { return o << p.as_string(); }

 private:
  const char* data_;
  size_t size_;
};

class RE2 {
 public:
  RE2(const char* p) : RE2(std::string(p)) {}
  RE2(const std::string& p) : pattern_(p) { compile(); }
  RE2(const StringPiece& p) : RE2(p.as_string()) {}
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;

  bool ok() const { return true; }
  const std::string& pattern() const { return pattern_; }

  static bool Consume(StringPiece* in, const RE2& re) {
    size_t n;
    if (!re.match(*in, &n)) return false;
    in->remove_prefix(n);
    return true;
  }
  // all patterns of the sources are one group as a whole
  static bool Consume(StringPiece* in, const RE2& re, std::string* group) {
    size_t n;
    if (!re.match(*in, &n)) return false;
    if (!re.grouped_) abort();
    group->assign(in->data(), n);
    in->remove_prefix(n);
    return true;
  }
  static bool FullMatch(const StringPiece& in, const RE2& re) {
    size_t n;
    return re.run(0, in, 0, &n, true);
  }

 private:
  // set of ASCII characters
  struct Class {
    unsigned char in[128] = {};
    bool has(unsigned char c) const {
      // a few comparisons instead of a table lookup
      bool r = false;
      for (unsigned i = 0; i < ranges; i++) r |= (c >= lo[i]) & (c <= hi[i]);
      return r;
    }
    unsigned ranges = 0;
    unsigned char lo[24], hi[24];
    void finish() {
      ranges = 0;
      for (unsigned i = 0; i < 128; i++)
        if (in[i] && (i == 0 || !in[i - 1])) {
          if (ranges == 24) abort();
          unsigned j = i;
          while (j + 1 < 128 && in[j + 1]) j++;
          lo[ranges] = i, hi[ranges] = j, ranges++;
        }
    }
  };
  struct Node {
    enum Kind { CLASS, CAT, ALT, REP, END, EMPTY } kind;
    Class set;
    int min = 0, max = -1;
    std::vector<Node> sub;
  };
  struct Op {
    enum Kind { CLASS, SPLIT, JMP, END, MATCH } kind;
    unsigned x = 0, y = 0;
  };

  std::string pattern_;
  bool fold_ = false, grouped_ = false;
  std::vector<Op> ops_;
  std::vector<Class> classes_;

  // ----- parsing
  size_t at_ = 0;
  bool more() { return at_ < pattern_.size(); }
  char peek() { return pattern_[at_]; }
  char next() {
    if (!more()) abort();
    return pattern_[at_++];
  }
  static int hex(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    abort();
  }
  // character after a backslash; -1 stands for white space
  int escape() {
    char c = next();
    switch (c) {
      case 'x': {
        int v = 0;
        if (peek() == '{') {
          next();
          while (peek() != '}') v = v * 16 + hex(next());
          next();
        } else {
          v = hex(next());
          v = v * 16 + hex(next());
        }
        return v;
      }
      case 'n': return '\n';
      case 't': return '\t';
      case 'r': return '\r';
      case 'f': return '\f';
      case 's': return -1;
      default:
        if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')) abort();
        return c;
    }
  }
  void add(Class& s, int from, int to) {
    for (int i = from; i <= to && i < 128; i++) {
      s.in[i] = 1;
      if (fold_ && i >= 'a' && i <= 'z') s.in[i - 'a' + 'A'] = 1;
      if (fold_ && i >= 'A' && i <= 'Z') s.in[i - 'A' + 'a'] = 1;
    }
  }
  static void addSpace(Class& s) {
    for (unsigned char c : {' ', '\t', '\n', '\f', '\r'}) s.in[c] = 1;
  }
  Node single(int c) {
    Node n{Node::CLASS};
    if (c == -1)
      addSpace(n.set);
    else
      add(n.set, c, c);
    return n;
  }
  Node charClass() {
    Node n{Node::CLASS};
    bool negate = peek() == '^';
    if (negate) next();
    bool first = true;
    while (first || peek() != ']') {
      first = false;
      int c = (unsigned char)next();
      if (c == '\\') c = escape();
      if (c == -1) {
        addSpace(n.set);
        continue;
      }
      int to = c;
      if (peek() == '-' && at_ + 1 < pattern_.size() && pattern_[at_ + 1] != ']') {
        next();
        to = (unsigned char)next();
        if (to == '\\') to = escape();
      }
      add(n.set, c, to);
    }
    next();
    if (negate)
      for (unsigned i = 0; i < 128; i++) n.set.in[i] = !n.set.in[i];
    return n;
  }
  Node atom() {
    char c = next();
    switch (c) {
      case '(': {
        if (more() && peek() == '?') {
          // only flags and groups that do not capture
          next();
          if (next() != ':') abort();
        }
        Node n = alternatives();
        if (next() != ')') abort();
        return n;
      }
      case '[': return charClass();
      case '\\': return single(escape());
      case '$': return Node{Node::END};
      case '.': {
        Node n{Node::CLASS};
        for (unsigned i = 0; i < 128; i++) n.set.in[i] = i != '\n';
        return n;
      }
      case '^': case '*': case '+': case '?': abort();
      default: return single((unsigned char)c);
    }
  }
  Node sequence() {
    Node n{Node::CAT};
    while (more() && peek() != '|' && peek() != ')') {
      Node a = atom();
      while (more() && (peek() == '*' || peek() == '+' || peek() == '?' || peek() == '{')) {
        Node r{Node::REP};
        char c = next();
        if (c == '*') r.min = 0, r.max = -1;
        if (c == '+') r.min = 1, r.max = -1;
        if (c == '?') r.min = 0, r.max = 1;
        if (c == '{') {
          r.min = 0;
          while (peek() >= '0' && peek() <= '9') r.min = r.min * 10 + (next() - '0');
          r.max = r.min;
          if (next() != '}') abort();
        }
        r.sub.push_back(std::move(a));
        a = std::move(r);
      }
      n.sub.push_back(std::move(a));
    }
    if (n.sub.size() == 1) return Node(n.sub[0]);
    return n;
  }
  Node alternatives() {
    Node n{Node::ALT};
    n.sub.push_back(sequence());
    while (more() && peek() == '|') {
      next();
      Node s = sequence();
      // adjacent single characters are one class
      if (s.kind == Node::CLASS && n.sub.back().kind == Node::CLASS) {
        for (unsigned i = 0; i < 128; i++) n.sub.back().set.in[i] |= s.set.in[i];
      } else {
        n.sub.push_back(std::move(s));
      }
    }
    if (n.sub.size() == 1) return Node(n.sub[0]);
    return n;
  }

  // ----- compiling
  unsigned emit(typename Op::Kind k, unsigned x = 0, unsigned y = 0) {
    ops_.push_back(Op{k, x, y});
    return ops_.size() - 1;
  }
  void gen(const Node& n) {
    switch (n.kind) {
      case Node::CLASS:
        classes_.push_back(n.set);
        classes_.back().finish();
        emit(Op::CLASS, classes_.size() - 1);
        break;
      case Node::CAT:
        for (auto& s : n.sub) gen(s);
        break;
      case Node::ALT: {
        std::vector<unsigned> ends;
        for (size_t i = 0; i < n.sub.size(); i++) {
          if (i + 1 < n.sub.size()) {
            unsigned s = emit(Op::SPLIT);
            ops_[s].x = s + 1;
            gen(n.sub[i]);
            ends.push_back(emit(Op::JMP));
            ops_[s].y = ops_.size();
          } else {
            gen(n.sub[i]);
          }
        }
        for (unsigned e : ends) ops_[e].x = ops_.size();
        break;
      }
      case Node::REP: {
        for (int i = 0; i < n.min; i++) gen(n.sub[0]);
        if (n.max == -1) {
          unsigned s = emit(Op::SPLIT);
          ops_[s].x = s + 1;
          gen(n.sub[0]);
          emit(Op::JMP, s);
          ops_[s].y = ops_.size();
        } else {
          std::vector<unsigned> splits;
          for (int i = n.min; i < n.max; i++) {
            unsigned s = emit(Op::SPLIT);
            ops_[s].x = s + 1;
            splits.push_back(s);
            gen(n.sub[0]);
          }
          for (unsigned s : splits) ops_[s].y = ops_.size();
        }
        break;
      }
      case Node::END: emit(Op::END); break;
      case Node::EMPTY: break;
    }
  }
  void compile() {
    if (pattern_.compare(0, 4, "(?i)") == 0) fold_ = true, at_ = 4;
    // is the pattern one group as a whole?
    int depth = 0;
    grouped_ = pattern_[at_] == '(';
    bool cls = false;
    for (size_t i = at_; i + 1 < pattern_.size(); i++) {
      char c = pattern_[i];
      if (c == '\\') {
        i++;
        continue;
      }
      if (c == '[' && !cls) {
        cls = true;
        if (pattern_[i + 1] == '^') i++;
        continue;
      }
      if (c == ']') cls = false;
      if (cls) continue;
      depth += (c == '(') - (c == ')');
      if (depth == 0) grouped_ = false;
    }
    Node n = alternatives();
    if (more()) abort();
    gen(n);
    emit(Op::MATCH);
  }

  // ----- matching
  bool run(unsigned pc, const StringPiece& s, size_t pos, size_t* end, bool full = false) const {
    while (true) {
      const Op& o = ops_[pc];
      switch (o.kind) {
        case Op::CLASS:
          if (pos == s.size() || !classes_[o.x].has((unsigned char)s[pos])) return false;
          pc++, pos++;
          break;
        case Op::SPLIT:
          if (run(o.x, s, pos, end, full)) return true;
          pc = o.y;
          break;
        case Op::JMP: pc = o.x; break;
        case Op::END:
          if (pos != s.size()) return false;
          pc++;
          break;
        case Op::MATCH:
          if (full && pos != s.size()) return false;
          *end = pos;
          return true;
      }
    }
  }
  bool match(const StringPiece& s, size_t* n) const {
    return run(0, s, 0, n);
  }
};
}  // namespace re2
using re2::RE2;
#endif
