// Symbolic numbers and dates as written in literals, with what they stand for.
#pragma once
#include "global/Constants.h"
#include "sx.h"
#include "util/Conversions.h"
#include <string>

// Sign of a lexicographic comparison, without branches on the characters.
static int compare(const std::string& a, const std::string& b) {
  size_t n = a.size() < b.size() ? a.size() : b.size();
  int r = a.size() < b.size() ? -1 : a.size() > b.size();
  for (size_t i = n; i-- > 0;) {
    unsigned char x = a[i], y = b[i];
    r = x < y ? -1 : x > y ? 1 : r;
  }
  return r;
}
static bool equal(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}

struct Number {
  std::string text;
  std::string digits;  // a fixed number of digits before and behind the point
  bool negative = false;
  int sign() const {
    bool zero = true;
    for (char c : digits) zero &= c == '0';
    return zero ? 0 : negative ? -1 : 1;
  }
  int compareTo(const Number& o) const {
    int s = sign(), t = o.sign(), c = compare(digits, o.digits);
    return s < t ? -1 : s > t ? 1 : s < 0 ? -c : c;
  }
};
static constexpr size_t BEFORE = 24, BEHIND = 24;
// Up to A digits before and F digits behind the decimal point.
static Number symbolicNumber(size_t A, size_t F, bool integer = false) {
  Number r;
  size_t a = symx_choice("before", A + 1);
  size_t f = integer ? 0 : symx_choice("behind", F + 2);  // 0: no point
  if (a == 0 && f < 2) symx_endpath();
  size_t sign = symx_choice("sign", 3);
  if (sign) r.text += sign == 1 ? '-' : '+';
  r.negative = sign == 1;
  auto digit = [&] {
    char c = symx_range("digit", '0', '9');
    r.text += c;
    r.digits += c;
  };
  r.digits.append(BEFORE - a, '0');
  for (size_t i = 0; i < a; i++) digit();
  if (f > 0) r.text += '.';
  for (size_t i = 1; i < f; i++) digit();
  r.digits.resize(BEFORE + BEHIND, '0');
  return r;
}
// A digit with up to K zeros behind it or between it and the decimal point.
static Number symbolicPower(size_t K) {
  Number r;
  r.negative = symx_choice("sign", 2);
  if (r.negative) r.text += '-';
  char c = symx_range("digit", '0', '9');
  size_t k = symx_concretize(symx_range("zeros", 0, K));
  if (symx_choice("small", 2)) {
    r.text += "0." + std::string(k, '0') + c;
    r.digits = std::string(BEFORE + k, '0') + c;
  } else {
    r.text += c + std::string(k, '0') + ".0";
    r.digits = std::string(BEFORE - k - 1, '0') + c;
  }
  r.digits.resize(BEFORE + BEHIND, '0');
  return r;
}
static const char* const types[] = {"integer", "int", "float", "double", "decimal"};
static std::string literal(const Number& n, size_t type, bool iri) {
  std::string r = "\"" + n.text + "\"^^";
  if (iri) return r + "<http://www.w3.org/2001/XMLSchema#" + types[type] + ">";
  return r + "xsd:" + types[type];
}

struct Date {
  std::string text;
  bool negative = false;
  std::string year, rest = "00-00T00:00:00";
  int compareTo(const Date& o) const {
    int y = compare(year, o.year), r = compare(rest, o.rest);
    if (negative != o.negative) return negative ? -1 : 1;
    return y != 0 ? (negative ? -y : y) : r;
  }
};
static constexpr size_t YEARS = 19;
// A date or date with time. Years have four to maxYear digits.
static Date symbolicDate(size_t maxYear, bool zones) {
  Date d;
  auto number = [&](size_t n) {
    std::string r;
    for (size_t i = 0; i < n; i++) r += (char)symx_range("digit", '0', '9');
    d.text += r;
    return r;
  };
  d.negative = symx_choice("negative", 2);
  if (d.negative) d.text += '-';
  d.year = number(4 + symx_choice("years", maxYear - 3));
  if (d.negative) {  // the year 0 has no sign
    bool zero = true;
    for (char c : d.year) zero &= c == '0';
    symx_assume(!zero);
  }
  d.year.insert(0, YEARS - d.year.size(), '0');
  size_t parts = symx_choice("parts", 4);  // year, month, day, time
  auto part = [&](char separator, size_t at) {
    d.text += separator;
    d.rest.replace(at, 2, number(2));
  };
  if (parts > 0) part('-', 0);
  if (parts > 1) part('-', 3);
  if (parts > 2) {
    part('T', 6);
    part(':', 9);
    part(':', 12);
    if (symx_choice("fraction", 2)) {
      d.text += '.';
      number(1);
    }
  }
  if (zones) {
    // Time zones are ignored; offsets are only supported behind days and times.
    size_t zone = symx_choice("zone", parts > 1 ? 4 : 2);
    if (zone == 1) d.text += 'Z';
    if (zone > 1) {
      d.text += zone == 2 ? '+' : '-';
      number(2);
      d.text += ':';
      number(2);
    }
  }
  return d;
}
static const char* const dateTypes[] = {"gYear", "gYearMonth", "date", "dateTime"};
