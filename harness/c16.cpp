// C16: escaping and unescaping of words, literals and IRIs.
#include <string>
#include <vector>

#include "parser/RdfEscaping.h"
#include "sx.h"

#ifndef SYMX_NATIVE
// Stand-in for the two ICU functions the escaping uses: a string of one code
// point, and its UTF-8 form.
static int lastCodePoint;
U_NAMESPACE_BEGIN
UnicodeString::UnicodeString(UChar32 c) {
  lastCodePoint = c;
  fUnion.fFields.fLengthAndFlags = (1 << kLengthShift) | kShortString;
}
UnicodeString::~UnicodeString() {}
Replaceable::~Replaceable() {}
UObject::~UObject() {}
ByteSink::~ByteSink() {}
char* ByteSink::GetAppendBuffer(int32_t, int32_t, char* s, int32_t c, int32_t* r) {
  *r = c;
  return s;
}
void ByteSink::Flush() {}
void UnicodeString::toUTF8(ByteSink& sink) const {
  int c = lastCodePoint;
  char b[4];
  if (c < 0 || c > 0x10ffff) return;
  if (c >= 0xd800 && c < 0xe000) c = 0xfffd;
  if (c < 0x80) {
    b[0] = c;
    sink.Append(b, 1);
  } else if (c < 0x800) {
    b[0] = 0xc0 | c >> 6;
    b[1] = 0x80 | (c & 63);
    sink.Append(b, 2);
  } else if (c < 0x10000) {
    b[0] = 0xe0 | c >> 12;
    b[1] = 0x80 | (c >> 6 & 63);
    b[2] = 0x80 | (c & 63);
    sink.Append(b, 3);
  } else {
    b[0] = 0xf0 | c >> 18;
    b[1] = 0x80 | (c >> 12 & 63);
    b[2] = 0x80 | (c >> 6 & 63);
    b[3] = 0x80 | (c & 63);
    sink.Append(b, 4);
  }
}
U_NAMESPACE_END
#endif

static std::string bytes(size_t n) {
  std::string s(n, 'x');
  for (size_t i = 0; i < n; i++) s[i] = (char)symx_u8("byte");
  return s;
}
static bool equal(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
static void utf8(uint32_t c, std::string& r) {
  if (c < 0x80) {
    r += (char)c;
  } else if (c < 0x800) {
    r += (char)(0xc0 + c / 64);
    r += (char)(0x80 + c % 64);
  } else if (c < 0x10000) {
    r += (char)(0xe0 + c / 4096);
    r += (char)(0x80 + c / 64 % 64);
    r += (char)(0x80 + c % 64);
  } else {
    r += (char)(0xf0 + c / 262144);
    r += (char)(0x80 + c / 4096 % 64);
    r += (char)(0x80 + c / 64 % 64);
    r += (char)(0x80 + c % 64);
  }
}
enum Mode { ALL, NUMERIC, LINES };
// what the escapes in `s` stand for; false if there is a malformed one
static bool reference(const std::string& s, Mode mode, std::string& r) {
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') {
      r += s[i];
      continue;
    }
    if (++i == s.size()) return false;
    char c = s[i];
    if (c == 'u' || c == 'U') {
      if (mode == LINES) return false;
      size_t n = c == 'u' ? 4 : 8;
      uint64_t v = 0;
      for (size_t k = 0; k < n; k++) {
        if (++i == s.size()) return false;
        unsigned d = (unsigned char)s[i];
        unsigned digit = d - '0', letter = (d | 32) - 'a';
        if ((digit > 9) & (letter > 5)) return false;
        v = v * 16 + (digit <= 9 ? digit : letter + 10);
      }
      if (v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return false;
      utf8(v, r);
      continue;
    }
    if (mode == NUMERIC) return false;
    if (c == 'n') {
      r += '\n';
      continue;
    }
    if (c == '\\') {
      r += '\\';
      continue;
    }
    if (mode == LINES) return false;
    if (c == 't')
      r += '\t';
    else if (c == 'r')
      r += '\r';
    else if (c == 'b')
      r += '\b';
    else if (c == 'f')
      r += '\f';
    else if (c == '"' || c == '\'')
      r += c;
    else
      return false;
  }
  return true;
}
template <class F>
static bool runs(F f, std::string& out) {
  try {
    out = f();
    return true;
  } catch (const std::exception&) {
    return false;
  }
}
static void compare(bool ok, const std::string& got, bool valid, const std::string& want) {
  symx_assert(ok | !valid, "every valid input is accepted");
  symx_assert(!ok | valid, "malformed input is rejected");
  if (ok && valid) symx_assert(equal(got, want), "escapes stand for the right characters");
  symx_observe(ok);
  for (char c : got) symx_observe((unsigned char)c);
  symx_cover("end");
}
extern "C" void c16_lines() {
  std::string s = bytes(symx_param("n", 5));
  std::string e = RdfEscaping::escapeNewlinesAndBackslashes(s);
  bool raw = false;
  for (char c : e) raw |= c == '\n';
  symx_assert(!raw, "no line break in an escaped word");
  symx_assert(equal(RdfEscaping::unescapeNewlinesAndBackslashes(e), s), "unescaping restores the word");
  symx_observe(e.size());
  symx_cover("end");
}
extern "C" void c16_unescapeLines() {
  std::string s = bytes(symx_param("n", 5)), got, want;
  bool ok = runs([&] { return RdfEscaping::unescapeNewlinesAndBackslashes(s); }, got);
  bool valid = reference(s, LINES, want);
  compare(ok, got, valid, want);
}
// text: 0 arbitrary bytes, 4/8 a numeric escape with arbitrary digits
static std::string content() {
  size_t digits = symx_param("digits", 0);
  std::string s = bytes(symx_param("before", 0));
  if (digits) {
    s += digits == 4 ? "\\u" : "\\U";
    for (size_t i = 0; i < symx_param("zeros", 0); i++) s += '0';
    s += bytes(digits - symx_param("zeros", 0) - symx_param("missing", 0));
  }
  return s + bytes(symx_param("n", 0));
}
extern "C" void c16_literal() {
  static const char* quotes[] = {"\"", "'", "\"\"\"", "'''"};
  std::string q = quotes[symx_choice("quotes", 4)], c = content(), got, want = "\"";
  bool ok = runs([&] { return RdfEscaping::normalizeRDFLiteral(q + c + q); }, got);
  // "" followed by a quote opens a long literal
  if (q.size() == 1 && c.size() >= 2 && c[0] == q[0] && c[1] == q[0]) symx_endpath();
  if (q.size() == 1 && c.size() == 1 && c[0] == q[0]) symx_endpath();
  bool valid = reference(c, ALL, want);
  want += '"';
  compare(ok, got, valid, want);
}
extern "C" void c16_iri() {
  std::string c = content(), got, want = "<";
  bool ok = runs([&] { return RdfEscaping::unescapeIriref("<" + c + ">"); }, got);
  bool valid = reference(c, NUMERIC, want);
  want += '>';
  compare(ok, got, valid, want);
}
// input that is not even quoted
extern "C" void c16_malformed() {
  std::string s = bytes(symx_param("n", 4)), got;
  bool ok = runs([&] { return RdfEscaping::normalizeRDFLiteral(s); }, got);
  bool quoted = s.size() >= 2 && (s[0] == '"' || s[0] == '\'') && s[s.size() - 1] == s[0];
  symx_assert(!ok | quoted, "a literal without quotes is rejected");
  symx_assert(!ok | (got.size() <= s.size()), "nothing is added");
  ok = runs([&] { return RdfEscaping::unescapeIriref(s); }, got);
  bool angled = s.size() >= 2 && s[0] == '<' && s[s.size() - 1] == '>';
  symx_assert(!ok | angled, "an IRI without brackets is rejected");
  symx_cover("end");
}
extern "C" void c16_prefixed() {
  std::string s = bytes(symx_param("n", 4)), got, want;
  bool ok = runs([&] { return RdfEscaping::unescapePrefixedIri(s); }, got);
  bool valid = true;
  for (size_t i = 0; i < s.size() && valid; i++) {
    if (s[i] != '\\') {
      want += s[i];
      continue;
    }
    valid = false;
    if (++i == s.size()) break;
    for (char c : std::string("_~.-!$&'()*+,;=/?#@%")) valid |= s[i] == c;
    want += s[i];
  }
  compare(ok, got, valid, want);
}
