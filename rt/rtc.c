#include <stdbool.h>
#include <stddef.h>
#define ERANGE 34
// ------------------------------------------------------------------- libc ----
static int errnoVal;
int* __errno_location() { return &errnoVal; }
char __libc_single_threaded = 1;
size_t strlen(const char* s) {
  size_t n = 0;
  while (s[n]) n++;
  return n;
}
int strcmp(const char* a, const char* b) {
  while (*a && *a == *b) {
    a++;
    b++;
  }
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n) {
  while (n && *a && *a == *b) {
    a++;
    b++;
    n--;
  }
  return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0;
}
char* strcpy(char* d, const char* s) {
  char* r = d;
  while ((*d++ = *s++)) {}
  return r;
}
static const void* memchr_(const void* p, int c, size_t n) {
  const unsigned char* s = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++)
    if (s[i] == (unsigned char)c) return s + i;
  return (void*)0;
}
void* memchr(const void* p, int c, size_t n) { return (void*)memchr_(p, c, n); }
static const char* strchr_(const char* s, int c) {
  for (;; s++) {
    if (*s == (char)c) return s;
    if (!*s) return (void*)0;
  }
}
char* strchr(const char* s, int c) { return (char*)strchr_(s, c); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) {
  return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'));
}
int isprint(int c) { return (c >= 32) & (c < 127); }
int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != ' '); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int tolower(int c) { return c + (isupper(c) << 5); }
int toupper(int c) { return c - (islower(c) << 5); }

static unsigned long long strtoAny(const char* s, char** end, int base, bool sgn, bool* neg_,
                                   bool* ovf_) {
  const char* p = s;
  while (isspace((unsigned char)*p)) p++;
  *neg_ = false;
  *ovf_ = false;
  if (*p == '+' || *p == '-') {
    *neg_ = *p == '-';
    p++;
  }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) {
    p += 2;
    base = 16;
  } else if (base == 0)
    base = *p == '0' ? 8 : 10;
  unsigned long long v = 0;
  bool any = false;
  for (;; p++) {
    int d;
    unsigned char c = *p;
    if (c >= '0' && c <= '9') d = c - '0';
    else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
    else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
    else break;
    if (d >= base) break;
    any = true;
    unsigned __int128 w = (unsigned __int128)v * base + d;
    if (w >> 64) *ovf_ = true;
    v = (unsigned long long)w;
  }
  if (end) *end = (char*)(any ? p : s);
  return v;
}
long strtol(const char* s, char** e, int b) {
  bool n, o;
  unsigned long long v = strtoAny(s, e, b, true, &n, &o);
  if (o || (!n && v > 0x7fffffffffffffffull) || (n && v > 0x8000000000000000ull)) {
    errnoVal = ERANGE;
    return n ? (long)0x8000000000000000ull : 0x7fffffffffffffffll;
  }
  return n ? -(long)v : (long)v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) {
  bool n, o;
  unsigned long long v = strtoAny(s, e, b, false, &n, &o);
  if (o) {
    errnoVal = ERANGE;
    return ~0ul;
  }
  return n ? -v : v;
}
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) {
  return strtoul(s, e, b);
}
int atoi(const char* s) { return (int)strtol(s, (void*)0, 10); }
long atol(const char* s) { return strtol(s, (void*)0, 10); }
