// C30: decoding of requests. C35: the server answers every request.
#include <cstring>
#include <cwchar>
#include <string>
#include <vector>

#include <fstream>
#include <sstream>

// there are no files to serve
namespace std {
struct NoFile : istringstream {
  explicit NoFile(const char*) { setstate(failbit); }
  void close() {}
};
}  // namespace std
#include "engine/Server.h"
#define ifstream NoFile
#include "engine/Server.cpp"
#undef ifstream
#include "sx.h"
#include "util/StringUtils.h"

static std::string bytes(size_t n) {
  std::string s(n, 'x');
  for (size_t i = 0; i < n; i++) s[i] = (char)symx_u8("byte");
  return s;
}
static bool equal(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
// The locale's multibyte functions in a UTF-8 locale. Case mapping of letters
// outside ASCII is left out.
extern "C" size_t mbrtowc(wchar_t* out, const char* s, size_t n, mbstate_t*) {
  auto at = [&](size_t i) { return (unsigned char)s[i]; };
  if (n == 0) return -2;
  unsigned c = at(0);
  if (c < 0x80) {
    *out = c;
    return c != 0;
  }
  size_t len = c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
  if (!len) return -1;
  unsigned v = c & (0xff >> (len + 1));
  for (size_t i = 1; i < len; i++) {
    if (i >= n) return -2;
    if ((at(i) & 0xc0) != 0x80) return -1;
    v = v << 6 | (at(i) & 63);
  }
  if ((len == 3 && v < 0x800) || (len == 4 && v < 0x10000) || (v >= 0xd800 && v < 0xe000) || v > 0x10ffff) return -1;
  *out = v;
  return len;
}
extern "C" size_t wcrtomb(char* s, wchar_t w, mbstate_t*) {
  unsigned c = w;
  if (c < 0x80) {
    s[0] = c;
    return 1;
  }
  if (c < 0x800) {
    s[0] = 0xc0 | c >> 6;
    s[1] = 0x80 | (c & 63);
    return 2;
  }
  if (c < 0x10000) {
    s[0] = 0xe0 | c >> 12;
    s[1] = 0x80 | (c >> 6 & 63);
    s[2] = 0x80 | (c & 63);
    return 3;
  }
  s[0] = 0xf0 | c >> 18;
  s[1] = 0x80 | (c >> 12 & 63);
  s[2] = 0x80 | (c >> 6 & 63);
  s[3] = 0x80 | (c & 63);
  return 4;
}
extern "C" wint_t towlower(wint_t c) { return c; }
extern "C" wint_t towupper(wint_t c) { return c; }
extern "C" size_t __ctype_get_mb_cur_max() { return 6; }

// ---- C30 ----
static const char* hexDigits[2] = {"0123456789ABCDEF", "0123456789abcdef"};
static std::string encode(const std::string& s, bool all, size_t digits) {
  std::string r;
  for (char ch : s) {
    unsigned char c = ch;
    bool plain = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9');
    if (plain && !all) {
      r += ch;
    } else {
      r += '%';
      unsigned hi = c >> 4, lo = c & 15;
      r += (char)(hi < 10 ? '0' + hi : hexDigits[digits][10] - 10 + hi);
      r += (char)(lo < 10 ? '0' + lo : hexDigits[digits][10] - 10 + lo);
    }
  }
  return r;
}
extern "C" void c30_roundtrip() {
  std::string s = bytes(symx_param("n", 3));
  std::string e = encode(s, symx_choice("all", 2), symx_choice("digits", 2));
  symx_assert(equal(ad_utility::decodeUrl(e), s), "decoding an encoded string gives the string");
  symx_cover("end");
}
// arbitrary input, encoded or not
extern "C" void c30_decode() {
  std::string s = bytes(symx_param("n", 5)), want;
  std::string got = ad_utility::decodeUrl(s);
  auto digit = [](unsigned char c) -> int {
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
  };
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '+') {
      want += ' ';
    } else if (s[i] == '%' && i + 2 < s.size() && digit(s[i + 1]) >= 0 && digit(s[i + 2]) >= 0) {
      want += (char)(digit(s[i + 1]) * 16 + digit(s[i + 2]));
      i += 2;
    } else {
      want += s[i];
    }
  }
  symx_assert(equal(got, want), "only complete escapes and plus signs are decoded");
  for (char c : got) symx_observe((unsigned char)c);
  symx_cover("end");
}
// one value in the second of three parameters
static char serverBuf[sizeof(Server)] __attribute__((aligned(64)));
static Server& server() { return *reinterpret_cast<Server*>(serverBuf); }
extern "C" void c30_params() {
  size_t n = symx_param("n", 2);
  std::string fixed = symx_param("http", 0) ? (symx_choice("word", 2) ? "HTTP" : "GET") : "";
  std::string v[3] = {bytes(symx_param("m", 1)), fixed + bytes(n), bytes(symx_param("m", 1))};
  size_t count = symx_param("count", 3);
  const char* names[] = {"query", "send", "a"};
  std::string req = "GET /?";
  for (size_t i = 0; i < count; i++) {
    if (i) req += '&';
    req += std::string(names[i]) + "=" + encode(v[i], false, 0);
  }
  req += " HTTP/1.1";
  auto params = server().parseHttpRequest(req);
  symx_assert(params.size() == count, "every parameter is delivered");
  for (size_t i = 0; i < count; i++)
    symx_assert(params.contains(names[i]) && equal(params[names[i]], v[i]), "a parameter has the value that was sent");
  symx_cover("end");
}
// a request with arbitrary bytes: either an error or parameters that occur in it
extern "C" void c30_any() {
  std::string s = bytes(symx_param("n", 5));
  for (char c : s) symx_assume((c != ' ') & (c != '\r') & (c != '\n'));
  // parameters as they are separated in the request
  std::vector<std::pair<std::string, std::string>> want;
  bool ok = true;
  size_t i = 0;
  while (ok) {
    std::string name, value;
    while (i < s.size() && s[i] != '=' && s[i] != '&') name += s[i++];
    if (i == s.size() || s[i] == '&') {
      ok = false;
      break;
    }
    i++;
    while (i < s.size() && s[i] != '&') value += s[i++];
    want.push_back({name, value});
    if (i++ == s.size()) break;
  }
  if (ok)
    for (size_t j = 0; j < want.size(); j++)
      for (size_t k = 0; k < j; k++)
        if (want[j].first.size() == want[k].first.size()) {
          bool same = true;
          for (size_t c = 0; c < want[j].first.size(); c++) same &= tolower(want[j].first[c]) == tolower(want[k].first[c]);
          if (same) ok = false;
        }
  bool got = true;
  Server::ParamValueMap params;
  try {
    params = server().parseHttpRequest("GET /?" + s + " HTTP/1.1");
  } catch (const std::exception&) {
    got = false;
  }
  symx_assert(!got | ok, "a malformed parameter is an error");
  symx_assert(got | !ok, "well-formed parameters are accepted");
  if (got && ok) {
    symx_assert(params.size() == want.size(), "every parameter is delivered");
    for (auto& p : want) {
      std::string name;
      for (char c : p.first) name += (unsigned char)c < 128 ? (char)tolower(c) : c;
      symx_assert(params.contains(name) && equal(params[name], ad_utility::decodeUrl(p.second)),
                  "a parameter has the value that was sent");
    }
  }
  symx_cover("end");
}

// ---- C35 ----
static std::string wire;
static size_t wirePos, wireChunk;
static std::string sent;
static bool truncated;
extern "C" ssize_t recv(int, void* buf, size_t n, int) {
  size_t left = wire.size() - wirePos;
  size_t k = left < n ? left : n;
  if (wireChunk && wireChunk < k) k = wireChunk;
  memcpy(buf, wire.data() + wirePos, k);
  wirePos += k;
  return k;
}
extern "C" ssize_t send(int, const void* buf, size_t n, int) {
  sent.append((const char*)buf, n);
  return n;
}
// parsing of the query is not part of this check: every query is an error
struct QueryError : std::exception {
  std::string text;
  const char* what() const noexcept override { return text.c_str(); }
};
ParsedQuery SparqlParser::parse() {
  QueryError e;
  e.text = "cannot parse " + _query;
  throw e;
}
SparqlLexer::SparqlLexer(const std::string&) {}
SparqlParser::SparqlParser(const string& query) : _lexer(query), _query(query) {}

static void answered() {
  Socket client;
  sent.clear();
  wirePos = 0;
  server().process(&client);
  symx_assert(sent.size() > 12 && sent.compare(0, 7, "HTTP/1.") == 0, "the request is answered");
  for (size_t i = 0; i < 3; i++) symx_assert((sent[9 + i] >= '0') & (sent[9 + i] <= '9'), "with a status");
  symx_observe(sent.size());
  symx_cover("end");
}
extern "C" void c35_line() {
  static const char* before[] = {"", "GET /", "HTTP", "GET", "GET /?query="};
  static const char* after[] = {"", " HTTP/1.1", "GET", "HTTP"};
  size_t b = symx_choice("before", 5);
  std::string line = before[b];
  line += bytes(b == 4 ? 1 : symx_param("n", 2));
  line += after[symx_choice("after", 4)];
  wireChunk = symx_choice("split", 2) ? 3 : 0;
  wire = line + "\r\nA: b\r\n\r\n";
  answered();
}
extern "C" void c35_query() {
  wireChunk = 0;
  std::string q = "GET /?";
  size_t kind = symx_choice("kind", 3);
  if (kind == 0) q += "query=" + encode(bytes(symx_param("n", 2)), true, 0);
  if (kind == 1) q += "query=x&" + bytes(symx_param("m", 2)) + "=1";
  if (kind == 2) q += "query=" + bytes(symx_param("n", 2));
  wire = q + " HTTP/1.1\r\nA: b\r\n\r\n";
  answered();
}
