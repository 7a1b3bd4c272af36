// Stream part of the runtime library: string streams work on the library's own
// templates; number formatting and the locale are replaced by "C" locale code.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <fstream>
#include <iostream>
#include <iomanip>
#include <istream>
#include <locale>
#include <ostream>
#include <sstream>
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <clocale>
#include <sys/time.h>

#include "sx.h"

extern "C" void symx_unsupported(const char* what);
extern "C" int symx_fmtdouble(char* out, int n, double v, int prec, int conv);

static char implBuf[64];

namespace std {
locale::locale() throw() { _M_impl = (_Impl*)implBuf; }
locale::locale(const locale& o) throw() { _M_impl = o._M_impl; }
locale::locale(const char*) { _M_impl = (_Impl*)implBuf; }
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() {
  _M_impl = o._M_impl;
  return *this;
}
bool locale::operator==(const locale&) const throw() { return true; }
const locale& locale::classic() {
  static locale l;
  return l;
}
locale locale::global(const locale& o) { return o; }
string locale::name() const { return "C"; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
ios_base::ios_base() throw()
    : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0),
      _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() {
  _M_precision = 6;
  _M_width = 0;
  _M_flags = skipws | dec;
}
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale& l) throw() { return l; }
bool ios_base::sync_with_stdio(bool) { return true; }
void ios_base::_M_move(ios_base& o) noexcept {
  _M_precision = o._M_precision;
  _M_width = o._M_width;
  _M_flags = o._M_flags;
  _M_exception = o._M_exception;
  _M_streambuf_state = o._M_streambuf_state;
  _M_word = _M_local_word;
  _M_word_size = _S_local_word_size;
}
void ios_base::_M_swap(ios_base& o) noexcept {
  swap(_M_precision, o._M_precision);
  swap(_M_width, o._M_width);
  swap(_M_flags, o._M_flags);
  swap(_M_streambuf_state, o._M_streambuf_state);
}
locale::facet::~facet() {}
locale::_Impl::_Impl(const _Impl&, size_t) {
  _M_refcount = 1;
  _M_facets = 0;
  _M_caches = 0;
  _M_names = new char*[1];
  _M_names[0] = nullptr;
}
locale::_Impl::~_Impl() throw() {}
void locale::_Impl::_M_install_facet(const locale::id*, const facet*) {}
template <>
numpunct<char>::~numpunct() {}
template <>
void numpunct<char>::_M_initialize_numpunct(__c_locale) {}
template class numpunct<char>;
template class allocator<char>;
void __throw_ios_failure(const char* s) { throw runtime_error(s); }

}  // namespace std
namespace std {
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template ostream& endl(ostream&);
template ostream& ends(ostream&);
template ostream& flush(ostream&);
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, const char*);
template ostream& operator<<(ostream&, const string&);
template ostream& operator<<(ostream&, _Setprecision);
template ostream& operator<<(ostream&, _Setw);
template ostream& operator<<(ostream&, _Setfill<char>);
template istream& operator>>(istream&, char&);
template istream& ws(istream&);
}  // namespace std

// the standard streams: constructed without a buffer, output is dropped
#define STD_STREAM(T, MANGLED)                                            \
  extern "C" { alignas(16) char MANGLED[sizeof(T)]; }
STD_STREAM(std::ostream, _ZSt4cout)
STD_STREAM(std::ostream, _ZSt4cerr)
STD_STREAM(std::ostream, _ZSt4clog)
STD_STREAM(std::istream, _ZSt3cin)
__attribute__((constructor(101))) static void initStreams() {
  new (_ZSt4cout) std::ostream(nullptr);
  new (_ZSt4cerr) std::ostream(nullptr);
  new (_ZSt4clog) std::ostream(nullptr);
  new (_ZSt3cin) std::istream(nullptr);
}
extern "C" {
void _ZSt21ios_base_library_initv() {}
void* __dso_handle = 0;

// -------------------------------------------------------- printf, strtod ----
static void fmtOut(char* o, size_t cap, size_t& n, char c) {
  if (n + 1 < cap) o[n] = c;
  n++;
}
int vsnprintf(char* o, size_t cap, const char* f, va_list ap) {
  size_t n = 0;
  for (; *f; f++) {
    if (*f != '%') {
      fmtOut(o, cap, n, *f);
      continue;
    }
    f++;
    bool zero = false, left = false;
    while (*f == '0' || *f == '-' || *f == '#' || *f == '+' || *f == ' ') {
      if (*f == '0') zero = true;
      if (*f == '-') left = true;
      f++;
    }
    int width = 0, prec = -1;
    if (*f == '*') {
      width = va_arg(ap, int);
      f++;
    } else
      while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') {
      f++;
      prec = 0;
      if (*f == '*') {
        prec = va_arg(ap, int);
        f++;
      } else
        while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0';
    }
    int lng = 0;
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') {
      if (*f != 'h') lng = 1;
      f++;
    }
    char t[400];
    size_t p = sizeof t, e = sizeof t;
    char c = *f;
    const char* src = 0;
    if (c == '%') {
      t[--p] = '%';
    } else if (c == 'c') {
      t[--p] = (char)va_arg(ap, int);
    } else if (c == 's') {
      src = va_arg(ap, const char*);
      p = 0;
      e = 0;
      while ((prec < 0 || (int)e < prec) && src[e]) e++;
    } else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X') {
      unsigned long v;
      bool neg = false;
      if (c == 'd' || c == 'i') {
        long s = lng ? va_arg(ap, long) : va_arg(ap, int);
        neg = s < 0;
        v = neg ? 0ul - (unsigned long)s : (unsigned long)s;
      } else
        v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
      unsigned base = (c == 'x' || c == 'X') ? 16 : 10;
      do {
        unsigned d = v % base;
        t[--p] = (char)(d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10);
        v /= base;
      } while (v);
      while (prec > (int)(e - p)) t[--p] = '0';
      if (zero && !left)
        while ((int)(e - p) + neg < width) t[--p] = '0';
      if (neg) t[--p] = '-';
    } else if (c == 'f' || c == 'g' || c == 'e') {
      int k = symx_fmtdouble(t, sizeof t, va_arg(ap, double), prec < 0 ? 6 : prec, c);
      p = 0;
      e = k;
    } else
      symx_unsupported("printf conversion");
    const char* s = src ? src : t;
    if (!left)
      for (int w = (int)(e - p); w < width; w++) fmtOut(o, cap, n, ' ');
    for (size_t i = p; i < e; i++) fmtOut(o, cap, n, s[i]);
    if (left)
      for (int w = (int)(e - p); w < width; w++) fmtOut(o, cap, n, ' ');
  }
  if (cap) o[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int snprintf(char* o, size_t cap, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(o, cap, f, ap);
  va_end(ap);
  return r;
}
int sprintf(char* o, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(o, 1 << 30, f, ap);
  va_end(ap);
  return r;
}
double strtod(const char* s, char** end) {
  const char* p = s;
  while (isspace((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((*p | 32) == 'i' || (*p | 32) == 'n') symx_unsupported("strtod of inf or nan");
  if (*p == '0' && (p[1] | 32) == 'x') symx_unsupported("strtod of a hexadecimal number");
  unsigned long m = 0;
  int e = 0, digits = 0;
  bool any = false;
  for (; *p >= '0' && *p <= '9'; p++) {
    any = true;
    m = m * 10 + (unsigned)(*p - '0');
    if (m) digits++;
  }
  if (*p == '.') {
    p++;
    for (; *p >= '0' && *p <= '9'; p++) {
      any = true;
      m = m * 10 + (unsigned)(*p - '0');
      if (m) digits++;
      e--;
    }
  }
  if (!any) {
    if (end) *end = (char*)s;
    return 0;
  }
  if ((*p | 32) == 'e') {
    const char* q = p + 1;
    bool en = false;
    if (*q == '+' || *q == '-') en = *q++ == '-';
    if (*q >= '0' && *q <= '9') {
      int x = 0;
      for (; *q >= '0' && *q <= '9'; q++)
        if (x < 10000) x = x * 10 + (*q - '0');
      e += en ? -x : x;
      p = q;
    }
  }
  if (end) *end = (char*)p;
  if (m == 0) return neg ? -0.0 : 0.0;
  if (digits > 15 || e > 22 || e < -22) symx_unsupported("strtod of a long number");
  double v = (double)m, f = 1;
  for (int i = 0; i < (e < 0 ? -e : e); i++) f *= 10;
  v = e < 0 ? v / f : v * f;
  return neg ? -v : v;
}
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
static lconv lc;
lconv* localeconv() {
  lc.decimal_point = (char*)".";
  lc.thousands_sep = (char*)"";
  return &lc;
}
char* setlocale(int, const char*) { return (char*)"C"; }
int gettimeofday(struct timeval* t, void*) {
  t->tv_sec = 1000;
  t->tv_usec = 0;
  return 0;
}
}
