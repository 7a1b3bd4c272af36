// C14: the order of encoded numbers and dates.
#include "values.h"
using namespace ad_utility;

static void checkNumbers(const Number& x, const Number& y, const std::string& a, const std::string& b) {
  // The last character is the type.
  int order = compare(a.substr(0, a.size() - 1), b.substr(0, b.size() - 1));
  symx_assert(order == x.compareTo(y), "numbers: the order of the values");
  symx_observe(order);
}
extern "C" void c14_numbers() {
  size_t A = symx_param("before", 2), F = symx_param("behind", 1);
  Number x = symbolicNumber(A, F), y = symbolicNumber(symx_param("before2", A), symx_param("behind2", F));
  checkNumbers(x, y, convertFloatStringToIndexWord(x.text), convertFloatStringToIndexWord(y.text));
  symx_cover("end");
}
// Numbers of very different sizes.
extern "C" void c14_powers() {
  Number x = symbolicPower(symx_param("zeros", 12)), y = symbolicPower(symx_param("zeros", 12));
  checkNumbers(x, y, convertFloatStringToIndexWord(x.text), convertFloatStringToIndexWord(y.text));
  symx_cover("end");
}
extern "C" void c14_integers() {
  size_t A = symx_param("before", 3);
  Number x = symbolicNumber(A, 0, true), y = symbolicNumber(A, 0, true);
  checkNumbers(x, y, convertValueLiteralToIndexWord(literal(x, symx_choice("type", 2), true)),
               convertValueLiteralToIndexWord(literal(y, 0, false)));
  symx_cover("end");
}
// Numbers of queries and numbers of the data.
extern "C" void c14_mixed() {
  Number x = symbolicNumber(symx_param("before", 2), 1), y = symbolicNumber(symx_param("before", 2), 0, true);
  size_t l = x.text.size();
  if (l > 0 && x.text[l - 1] == '.') symx_endpath();
  std::string a = symx_choice("query", 2) ? convertNumericToIndexWord(x.text)
                                          : convertValueLiteralToIndexWord(literal(x, 2 + symx_choice("type", 3), true));
  checkNumbers(x, y, a, convertValueLiteralToIndexWord(literal(y, 0, true)));
  symx_cover("end");
}
// One path for each position of the first difference.
static int compareFirst(const std::string& a, const std::string& b) {
  size_t n = 0;
  while (n < a.size() && n < b.size() && a[n] == b[n]) n++;
  if (n == a.size() || n == b.size()) return a.size() < b.size() ? -1 : a.size() > b.size();
  return (unsigned char)a[n] < (unsigned char)b[n] ? -1 : 1;
}
extern "C" void c14_dates() {
  Date x = symbolicDate(symx_param("year", 4), symx_param("zones", 0)), y = symbolicDate(symx_param("year", 4), symx_param("zones", 0));
  std::string a = convertDateToIndexWord(x.text), b = convertDateToIndexWord(y.text);
  int order = compareFirst(a, b);
  int expected = x.negative != y.negative ? (x.negative ? -1 : 1) : compareFirst(x.year, y.year);
  if (expected == 0) {
    expected = compareFirst(x.rest, y.rest);
  } else if (x.negative && y.negative) {
    expected = -expected;
  }
  symx_assert(order == expected, "dates: the order of the dates");
  symx_observe(order);
  symx_cover("end");
}
