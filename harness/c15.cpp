// C15: decoding of encoded numbers and dates.
#include "values.h"
using namespace ad_utility;

// The value of a number: its sign and its digits at fixed positions.
static Number parse(const std::string& text) {
  Number r;
  r.text = text;
  size_t i = 0;
  if (i < text.size() && text[i] == '-') {
    r.negative = true;
    i++;
  }
  size_t dot = text.find('.');
  if (dot == std::string::npos) dot = text.size();
  symx_assert(dot > i, "a decoded number has digits before the point");
  symx_assert(dot + 1 != text.size(), "a decoded number has digits behind the point");
  for (size_t k = i; k < text.size(); k++) {
    if (k != dot) symx_assert((text[k] >= '0') & (text[k] <= '9'), "a decoded number consists of digits");
  }
  symx_assert(dot - i <= BEFORE && text.size() - dot <= BEHIND + 1, "a decoded number is not longer than the original");
  r.digits = std::string(BEFORE - (dot - i), '0') + text.substr(i, dot - i);
  if (dot < text.size()) r.digits += text.substr(dot + 1);
  r.digits.resize(BEFORE + BEHIND, '0');
  return r;
}

static void roundTrip(const Number& x, size_t type) {
  std::string word = convertValueLiteralToIndexWord(literal(x, type, symx_choice("iri", 2)));
  std::string decoded = convertIndexWordToValueLiteral(word);
  std::string suffix = std::string("\"^^<http://www.w3.org/2001/XMLSchema#") + types[type == 0 ? 1 : type] + ">";
  bool form = decoded.size() > suffix.size() && decoded[0] == '"' &&
              decoded.compare(decoded.size() - suffix.size(), suffix.size(), suffix) == 0;
  symx_assert(form, "the decoded literal has the type of the original");
  Number y = parse(decoded.substr(1, decoded.size() - suffix.size() - 1));
  symx_assert(x.compareTo(y) == 0, "the decoded literal has the value of the original");
  if (type < 2) symx_assert(y.text.find('.') == std::string::npos, "integers are decoded without a point");
  symx_assert(equal(convertValueLiteralToIndexWord(decoded), word), "encoding the decoded literal again");
  symx_observe(decoded.size());
}
extern "C" void c15_numbers() {
  Number x = symbolicNumber(symx_param("before", 2), symx_param("behind", 2));
  roundTrip(x, 2 + symx_choice("type", 3));
  symx_cover("end");
}
// Very large and very small numbers.
extern "C" void c15_powers() {
  roundTrip(symbolicPower(symx_param("zeros", 20)), 2 + symx_choice("type", 3));
  symx_cover("end");
}
extern "C" void c15_integers() {
  Number x = symbolicNumber(symx_param("before", 3), 0, true);
  roundTrip(x, symx_choice("type", 2));
  symx_cover("end");
}
extern "C" void c15_dates() {
  Date d = symbolicDate(symx_param("year", 5), true);
  std::string type = dateTypes[symx_choice("type", 4)];
  std::string word = convertValueLiteralToIndexWord("\"" + d.text + "\"^^xsd:" + type);
  std::string decoded = convertIndexWordToValueLiteral(word);
  std::string suffix = "\"^^<http://www.w3.org/2001/XMLSchema#dateTime>";
  bool form = decoded.size() > suffix.size() && decoded[0] == '"' &&
              decoded.compare(decoded.size() - suffix.size(), suffix.size(), suffix) == 0;
  symx_assert(form, "a decoded date is a date with time");
  std::string text = decoded.substr(1, decoded.size() - suffix.size() - 1);
  Date e;
  size_t i = 0;
  if (text[0] == '-') {
    e.negative = true;
    i = 1;
  }
  size_t end = text.find('-', i);
  symx_assert(end != std::string::npos && end > i, "a decoded date has a year");
  symx_assert(end - i <= YEARS, "a decoded year has at most the supported number of digits");
  e.year = std::string(YEARS - (end - i), '0') + text.substr(i, end - i);
  e.rest = text.substr(end + 1);
  symx_assert((d.negative == e.negative) & equal(d.year, e.year), "the decoded date has the year of the original");
  symx_assert(equal(d.rest, e.rest), "the decoded date has the month, day and time of the original");
  symx_assert(equal(convertValueLiteralToIndexWord(decoded), word), "encoding the decoded date again");
  symx_observe(decoded.size());
  symx_cover("end");
}

static void checkFloat(const std::string& text, double exact) {
  double f = convertIndexWordToFloat(convertFloatStringToIndexWord(text));
  double low = exact * (exact < 0 ? 1.000001 : 0.999999), high = exact * (exact < 0 ? 0.999999 : 1.000001);
  symx_assert((low <= f) & (f <= high), "the float of a number is its value");
}
// Numbers for filters and aggregates.
extern "C" void c15_floats() {
  Number x = symbolicNumber(symx_param("before", 1), symx_param("behind", 1));
  long m = 0;
  // The computation uses floating point numbers: one path for each digit.
  for (char& c : x.text) c = symx_concretize(c);
  for (size_t i = 0; i < BEFORE + 2; i++) m = m * 10 + ((char)symx_concretize(x.digits[i]) - '0');
  if (x.negative) m = -m;
  checkFloat(x.text, m / 100.0);
  symx_cover("end");
}
// Many digits: long runs of nines or ones with a symbolic digit in front.
extern "C" void c15_long() {
  size_t n = symx_range("n", 1, symx_param("n", 29));
  n = symx_concretize(n);
  char first = symx_concretize(symx_range("first", '1', '9')), fill = symx_choice("fill", 2) ? '9' : '1';
  size_t point = symx_choice("point", 3);
  std::string text = symx_choice("sign", 2) ? "-" : "";
  double exact = first - '0', scale = 1;
  if (point == 0) {
    text += "0.";
    scale = 0.1;
  }
  text += first;
  if (point == 1 && n > 1) text += '.';
  text += std::string(n - 1, fill);
  for (size_t i = 1; i < n; i++) {
    exact = exact * 10 + (fill - '0');
    scale = point == 2 ? scale : scale / 10;
  }
  exact *= scale;
  if (text[0] == '-') exact = -exact;
  checkFloat(text, exact);
  symx_cover("end");
}
