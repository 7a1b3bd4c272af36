// Members of the stream classes that depend on the locale, replaced by "C"
// locale versions when the runtime library is linked.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <istream>
#include <locale>
#include <ostream>
#include <sstream>
#include <string>
#include <cstdlib>

#include "sx.h"

extern "C" int symx_fmtdouble(char* out, int n, double v, int prec, int conv);

static char ctypeBuf[sizeof(std::ctype<char>)] __attribute__((aligned(16)));
static std::ctype_base::mask ctypeTable[256];
static bool ctypeReady = false;
static const std::ctype<char>* fakeCtype() {
  auto* c = (std::ctype<char>*)ctypeBuf;
  if (!ctypeReady) {
    ctypeReady = true;
    for (int i = 0; i < 256; i++) {
      c->_M_widen[i] = (char)i;
      c->_M_narrow[i] = (char)i;
      std::ctype_base::mask m = 0;
      if (isspace(i)) m |= std::ctype_base::space;
      if (isdigit(i)) m |= std::ctype_base::digit;
      if (isupper(i)) m |= std::ctype_base::upper;
      if (islower(i)) m |= std::ctype_base::lower;
      if (isalpha(i)) m |= std::ctype_base::alpha;
      if (isxdigit(i)) m |= std::ctype_base::xdigit;
      if (isprint(i)) m |= std::ctype_base::print;
      if (ispunct(i)) m |= std::ctype_base::punct;
      if (iscntrl(i)) m |= std::ctype_base::cntrl;
      ctypeTable[i] = m;
    }
    c->_M_widen_ok = 1;
    c->_M_narrow_ok = 1;
    c->_M_table = ctypeTable;
  }
  return c;
}
namespace std {
void cacheLocale(basic_ios<char>& i, const locale&) __asm__("_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale");
void cacheLocale(basic_ios<char>& i, const locale&) {
  i._M_ctype = fakeCtype();
  i._M_num_put = 0;
  i._M_num_get = 0;
}

// formatted output of numbers
static ostream& putNum(ostream& o, bool neg, unsigned long long v) {
  char buf[72];
  int p = sizeof buf;
  auto f = o.flags();
  unsigned base = (f & ios_base::basefield) == ios_base::hex ? 16 : (f & ios_base::basefield) == ios_base::oct ? 8 : 10;
  do {
    unsigned d = v % base;
    buf[--p] = (char)(d < 10 ? '0' + d : ((f & ios_base::uppercase) ? 'A' : 'a') + d - 10);
    v /= base;
  } while (v);
  if (neg) buf[--p] = '-';
  else if ((f & ios_base::showpos) && base == 10) buf[--p] = '+';
  return __ostream_insert(o, buf + p, (streamsize)(sizeof buf - p));
}
ostream& ins_l(ostream& o, long v) __asm__("_ZNSo9_M_insertIlEERSoT_");
ostream& ins_l(ostream& o, long v) {
  bool dec = (o.flags() & ios_base::basefield) != ios_base::hex && (o.flags() & ios_base::basefield) != ios_base::oct;
  bool neg = dec && v < 0;
  return putNum(o, neg, neg ? 0ull - (unsigned long long)v : (unsigned long long)v);
}
ostream& ins_m(ostream& o, unsigned long v) __asm__("_ZNSo9_M_insertImEERSoT_");
ostream& ins_m(ostream& o, unsigned long v) { return putNum(o, false, v); }
ostream& ins_x(ostream& o, long long v) __asm__("_ZNSo9_M_insertIxEERSoT_");
ostream& ins_x(ostream& o, long long v) { return ins_l(o, (long)v); }
ostream& ins_y(ostream& o, unsigned long long v) __asm__("_ZNSo9_M_insertIyEERSoT_");
ostream& ins_y(ostream& o, unsigned long long v) { return putNum(o, false, v); }
ostream& ins_b(ostream& o, bool v) __asm__("_ZNSo9_M_insertIbEERSoT_");
ostream& ins_b(ostream& o, bool v) {
  if (o.flags() & ios_base::boolalpha) return v ? __ostream_insert(o, "true", 4) : __ostream_insert(o, "false", 5);
  return putNum(o, false, v);
}
ostream& ins_PKv(ostream& o, const void* v) __asm__("_ZNSo9_M_insertIPKvEERSoT_");
ostream& ins_PKv(ostream& o, const void* v) { return putNum(o, false, (unsigned long)v); }
ostream& ins_d(ostream& o, double v) __asm__("_ZNSo9_M_insertIdEERSoT_");
ostream& ins_d(ostream& o, double v) {
  char b[400];
  auto ff = o.flags() & ios_base::floatfield;
  int n = symx_fmtdouble(b, sizeof b, v, (int)o.precision(), ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? 'e' : 'g');
  return __ostream_insert(o, b, n);
}
ostream& ins_e(ostream& o, long double v) __asm__("_ZNSo9_M_insertIeEERSoT_");
ostream& ins_e(ostream& o, long double v) { return ins_d(o, (double)v); }
ostream& opl_i(ostream& o, int v) __asm__("_ZNSolsEi");
ostream& opl_i(ostream& o, int v) {
  auto f = o.flags() & ios_base::basefield;
  if (f == ios_base::oct || f == ios_base::hex) return ins_l(o, (long)(unsigned)v);
  return ins_l(o, (long)v);
}
ostream& opl_s(ostream& o, short v) __asm__("_ZNSolsEs");
ostream& opl_s(ostream& o, short v) {
  return ins_l(o, (long)v);
}

// formatted input of numbers
static bool getNum(istream& in, bool& neg, unsigned long long& v) {
  istream::sentry s(in, false);
  if (!s) return false;
  streambuf* b = in.rdbuf();
  int c = b->sgetc();
  neg = false;
  v = 0;
  if (c == '-' || c == '+') {
    neg = c == '-';
    c = b->snextc();
  }
  bool any = false, ovf = false;
  if ((in.flags() & ios_base::basefield) == ios_base::hex) {
    if (c == '0') {
      any = true;
      c = b->snextc();
      if ((c | 32) == 'x') {
        any = false;
        c = b->snextc();
      }
    }
    while (isxdigit(c)) {
      any = true;
      if (v >> 60) ovf = true;
      unsigned d = (unsigned)c;
      v = v << 4 | ((d & 15) + 9 * (d >> 6));
      c = b->snextc();
    }
  } else {
    for (int digits = 1; c >= '0' && c <= '9'; digits++) {
      any = true;
      if (digits < 20) {
        v = v * 10 + (unsigned)(c - '0');
      } else {
        unsigned __int128 w = (unsigned __int128)v * 10 + (unsigned)(c - '0');
        if (w >> 64) ovf = true;
        v = (unsigned long long)w;
      }
      c = b->snextc();
    }
  }
  if (c == -1) in.setstate(ios_base::eofbit);
  if (!any || ovf) {
    in.setstate(ios_base::failbit);
    if (ovf) v = ~0ull;
    return false;
  }
  return true;
}
#define GETS(T, C, LO, HI)                                              \
  istream& ext_##C(istream& o, T& r) __asm__("_ZNSi10_M_extractI" #C "EERSiRT_"); \
  istream& ext_##C(istream& o, T& r) {                               \
    bool n;                                                          \
    unsigned long long v;                                            \
    if (!getNum(o, n, v)) {                                      \
      r = v ? (n ? LO : HI) : 0;                                     \
      return o;                                                  \
    }                                                                \
    if (!n && v > (unsigned long long)HI) {                          \
      r = HI;                                                        \
      o.setstate(ios_base::failbit);                                   \
    } else if (n && (long long)LO < 0 && v > (unsigned long long)HI + 1) { \
      r = LO;                                                        \
      o.setstate(ios_base::failbit);                                   \
    } else                                                           \
      r = n ? (T)(0 - v) : (T)v;                                     \
    return o;                                                    \
  }
GETS(long, l, (long)0x8000000000000000ll, (long)0x7fffffffffffffffll)
GETS(long long, x, (long long)0x8000000000000000ll, (long long)0x7fffffffffffffffll)
GETS(unsigned long, m, 0ul, ~0ul)
GETS(unsigned long long, y, 0ull, ~0ull)
GETS(unsigned int, j, 0u, ~0u)
GETS(unsigned short, t, (unsigned short)0, (unsigned short)~0)
istream& opr_i(istream& o, int& r) __asm__("_ZNSirsERi");
istream& opr_i(istream& o, int& r) {
  long l;
  ext_l(o, l);
  if (l > 0x7fffffff || l < -0x80000000l) {
    o.setstate(ios_base::failbit);
    r = l > 0 ? 0x7fffffff : (int)-0x80000000l;
  } else
    r = (int)l;
  return o;
}
static double getDouble(istream& in) {
  istream::sentry s(in, false);
  if (!s) return 0;
  streambuf* b = in.rdbuf();
  char t[64];
  int n = 0;
  int c = b->sgetc();
  while (n < 63 && ((c >= '0' && c <= '9') || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E')) {
    t[n++] = (char)c;
    c = b->snextc();
  }
  t[n] = 0;
  if (c == -1) in.setstate(ios_base::eofbit);
  if (!n) in.setstate(ios_base::failbit);
  return strtod(t, 0);
}
istream& ext_d(istream& o, double& r) __asm__("_ZNSi10_M_extractIdEERSiRT_");
istream& ext_d(istream& o, double& r) {
  r = getDouble(o);
  return o;
}
istream& ext_f(istream& o, float& r) __asm__("_ZNSi10_M_extractIfEERSiRT_");
istream& ext_f(istream& o, float& r) {
  r = (float)getDouble(o);
  return o;
}

istream& ign1(istream& o, streamsize n) __asm__("_ZNSi6ignoreEl");
istream& ign1(istream& o, streamsize n) {
  if (n == 1) {
    o.get();
    return o;
  }
  for (streamsize i = 0; i < n && o.good(); i++) o.get();
  return o;
}
istream& ign2(istream& o, streamsize n, int d) __asm__("_ZNSi6ignoreEli");
istream& ign2(istream& o, streamsize n, int d) {
  for (streamsize i = 0; i < n && o.good(); i++) {
    int c = o.get();
    if (c == d) break;
  }
  return o;
}
istream& getl(istream& o, char* s, streamsize n, char d) __asm__("_ZNSi7getlineEPclc");
istream& getl(istream& o, char* s, streamsize n, char d) {
  o._M_gcount = 0;
  streamsize i = 0;
  istream::sentry ok(o, true);
  bool fin = false;
  if (ok) {
    while (i + 1 < n) {
      int c = o.rdbuf()->sbumpc();
      if (c == -1) {
        o.setstate(ios_base::eofbit);
        fin = true;
        break;
      }
      o._M_gcount++;
      if ((char)c == d) {
        fin = true;
        break;
      }
      s[i++] = (char)c;
    }
    if (!fin) o.setstate(ios_base::failbit);
  }
  if (n > 0) s[i] = 0;
  if (!o._M_gcount) o.setstate(ios_base::failbit);
  return o;
}
istream& getls(istream& in, string& s, char d) __asm__("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
istream& getls(istream& in, string& s, char d) {
  s.clear();
  bool any = false;
  istream::sentry ok(in, true);
  if (ok) {
    streambuf* b = in.rdbuf();
    for (;;) {
      int c = b->sbumpc();
      if (c == -1) {
        in.setstate(ios_base::eofbit);
        break;
      }
      any = true;
      if ((char)c == d) break;
      s.push_back((char)c);
    }
  }
  if (!any) in.setstate(ios_base::failbit);
  return in;
}
istream& inStr(istream& in, string& s) __asm__(
    "_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
istream& inStr(istream& in, string& s) {
  istream::sentry ok(in, false);
  bool any = false;
  if (ok) {
    s.clear();
    streambuf* b = in.rdbuf();
    int c = b->sgetc();
    while (c != -1 && !isspace(c)) {
      s.push_back((char)c);
      any = true;
      c = b->snextc();
    }
    if (c == -1) in.setstate(ios_base::eofbit);
  }
  if (!any) in.setstate(ios_base::failbit);
  return in;
}
}  // namespace std

// the only conversion of file contents is none
extern "C" {
const void* sx_plainConversion();
bool _ZSt9has_facetISt7codecvtIcc11__mbstate_tEEbRKSt6locale(const void*) { return true; }
const void* _ZSt9use_facetISt7codecvtIcc11__mbstate_tEERKT_RKSt6locale(const void*) { return sx_plainConversion(); }
const void* _ZSt15__try_use_facetISt7codecvtIcc11__mbstate_tEEPKT_RKSt6locale(const void*) {
  return sx_plainConversion();
}
}
