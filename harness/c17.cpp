// C17: strings in JSON output.
#include "./qe.h"
#include "util/StringUtils.h"

static std::string bytes(size_t n) {
  std::string s(n, 'x');
  for (size_t i = 0; i < n; i++) s[i] = (char)symx_u8("byte");
  return s;
}
// A reader of JSON strings. `pos` is behind the string afterwards.
static bool readString(const std::string& s, size_t& pos, std::string& r) {
  if (pos >= s.size() || s[pos++] != '"') return false;
  while (pos < s.size()) {
    unsigned char c = s[pos++];
    if (c < 32) return false;
    if (c == '"') return true;
    if (c != '\\') {
      r += (char)c;
      continue;
    }
    if (pos == s.size()) return false;
    c = s[pos++];
    if (c == '"' || c == '\\' || c == '/')
      r += (char)c;
    else if (c == 'b')
      r += '\b';
    else if (c == 'f')
      r += '\f';
    else if (c == 'n')
      r += '\n';
    else if (c == 'r')
      r += '\r';
    else if (c == 't')
      r += '\t';
    else if (c == 'u') {
      unsigned v = 0;
      for (size_t k = 0; k < 4; k++) {
        if (pos == s.size()) return false;
        unsigned char d = s[pos++];
        unsigned digit = d - '0', letter = (d | 32) - 'a';
        if ((digit > 9) & (letter > 5)) return false;
        v = v * 16 + (digit <= 9 ? digit : letter + 10);
      }
      if (v > 127) return false;
      r += (char)v;
    } else
      return false;
  }
  return false;
}
static bool equal(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
extern "C" void c17_string() {
  std::string s = bytes(symx_param("n", 3)), back;
  std::string j = ad_utility::toJson(s);
  size_t pos = 0;
  bool ok = readString(j, pos, back);
  symx_assert(ok & (pos == j.size()), "the output is a JSON string");
  if (ok) symx_assert(equal(back, s), "the JSON string stands for the original");
  for (char c : j) symx_observe((unsigned char)c);
  symx_cover("end");
}
// is `s` well-formed UTF-8
static bool validUtf8(const std::string& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i++];
    if (c < 0x80) continue;
    size_t n = c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : 9;
    if (n == 9 || i + n > s.size()) return false;
    unsigned char d = s[i];
    if (c == 0xe0 && d < 0xa0) return false;
    if (c == 0xed && d > 0x9f) return false;
    if (c == 0xf0 && d < 0x90) return false;
    if (c == 0xf4 && d > 0x8f) return false;
    for (; n; n--, i++)
      if (((unsigned char)s[i] & 0xc0) != 0x80) return false;
  }
  return true;
}
// the value of a result cell on its way into the response
extern "C" void c17_cell() {
  std::string s = bytes(symx_param("n", 3)), back;
  if (!validUtf8(s)) symx_endpath();
  World w;
  auto op = std::make_shared<TableOp>(w, "T", 1);
  op->types = {Type::LOCAL_VOCAB};
  op->vars["?x"] = 0;
  op->localVocab->push_back(s);
  op->data.push_back({0});
  auto t = treeOf(w, op);
  std::string j = t->writeResultAsJson({"?x"}, 10, 0).dump();
  symx_assert(j.size() >= 6 && j[0] == '[' && j[1] == '[', "a row of one cell");
  size_t pos = 2;
  bool ok = readString(j, pos, back);
  symx_assert(ok && pos + 2 == j.size() && j[pos] == ']' && j[pos + 1] == ']', "the cell is a JSON string");
  if (ok) symx_assert(equal(back, s), "the cell stands for the original");
  symx_cover("end");
}
