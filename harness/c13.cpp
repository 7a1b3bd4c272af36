// C13: Simple8b encoding is lossless.
#include <cstdint>
#include <util/Simple8bCode.h>
#include "sx.h"
#include <cstdlib>
#include <cstring>

using ad_utility::Simple8bCode;

// encode n values, decode them again and compare every one
template <class T>
static void roundTrip(T* in, size_t n) {
  // the documented buffer sizes: at most one word per element on the encoding
  // side, n + 239 elements on the decoding side
  uint64_t* enc = new uint64_t[n + 1];
  T* keep = new T[n + 1];
  for (size_t i = 0; i < n; i++) keep[i] = in[i];
  size_t bytes = Simple8bCode::encode(in, n, enc);
  symx_assert(bytes % 8 == 0 && bytes <= 8 * n, "encoded size is a multiple of 8 and at most 8 bytes per element");
  // the decoder may only see the bytes the encoder reported
  uint64_t* stored = new uint64_t[bytes / 8 + (n == 0)];
  memcpy(stored, enc, bytes);
  T* dec = new T[n + 239];
  Simple8bCode::decode(stored, n, dec);
  bool ok = true;
  for (size_t i = 0; i < n; i++) ok &= dec[i] == keep[i];
  symx_assert(ok, "decoding returns the encoded sequence");
  bool same = true;
  for (size_t i = 0; i < n; i++) same &= in[i] == keep[i];
  symx_assert(same, "encoding leaves its input unchanged");
  symx_observe(bytes);
  if (bytes) symx_observe(stored[0]);
  delete[] dec;
  delete[] stored;
  delete[] enc;
  delete[] keep;
}

// every sequence of n arbitrary 60-bit values
extern "C" void c13_all64() {
  size_t n = symx_param("n", 3);
  uint64_t* a = new uint64_t[n];
  for (size_t i = 0; i < n; i++) a[i] = symx_range("v", 0, 0x0FFFFFFFFFFFFFFFull);
  roundTrip(a, n);
  delete[] a;
  symx_cover("end");
}
// every sequence of n arbitrary 16-bit scores
extern "C" void c13_all16() {
  size_t n = symx_param("n", 4);
  uint16_t* a = new uint16_t[n];
  for (size_t i = 0; i < n; i++) a[i] = symx_u16("s");
  roundTrip(a, n);
  delete[] a;
  symx_cover("end");
}
// long sequences: runs of a small value around two arbitrary outliers; the
// run lengths cover every selector including the two zero-run selectors
template <class T>
static void longRuns(uint64_t maxv) {
  size_t n1 = symx_param("n1", 0), n2 = symx_param("n2", 0), n3 = symx_param("n3", 0);
  size_t bits = symx_param("bits", 0);
  size_t n = n1 + n2 + n3 + 2;
  T* a = new T[n];
  size_t k = 0;
  // background: zeros, or values that all need exactly `bits` bits
  uint64_t lo = bits ? (1ull << (bits - 1)) : 0, hi = bits ? (1ull << bits) - 1 : 0;
  auto bg = [&]() -> T { return bits ? (T)symx_range("b", lo, hi) : 0; };
  for (size_t i = 0; i < n1; i++) a[k++] = bg();
  a[k++] = (T)symx_range("x", 0, maxv);
  for (size_t i = 0; i < n2; i++) a[k++] = bg();
  a[k++] = (T)symx_range("y", 0, maxv);
  for (size_t i = 0; i < n3; i++) a[k++] = bg();
  roundTrip(a, n);
  delete[] a;
  symx_cover("end");
}
extern "C" void c13_runs64() { longRuns<uint64_t>(0x0FFFFFFFFFFFFFFFull); }
extern "C" void c13_runs16() { longRuns<uint16_t>(65535); }
// mixed magnitudes: each value has one of several bit widths, chosen
// symbolically, its payload is arbitrary
extern "C" void c13_mixed() {
  size_t n = symx_param("n", 8);
  uint64_t cap = (1ull << symx_param("bits", 8)) - 1;
  uint64_t* a = new uint64_t[n];
  for (size_t i = 0; i < n; i++) a[i] = symx_range("m", 0, cap);
  roundTrip(a, n);
  delete[] a;
  symx_cover("end");
}
// every length of a run of zeros, up to three values, a second run
extern "C" void c13_zeroRuns() {
  size_t n1 = symx_choice("n1", symx_param("max", 246));
  const size_t second[] = {0, 1, 119, 120, 239, 240};
  size_t n2 = second[symx_choice("n2", symx_param("second", 6))];
  size_t n = n1 + n2 + 2;
  uint64_t* a = new uint64_t[n];
  for (size_t i = 0; i < n; i++) a[i] = 0;
  a[n1] = symx_range("x", 0, 3);
  a[n - 1] = symx_range("y", 0, 1);
  roundTrip(a, n);
  delete[] a;
  symx_cover("end");
}
// runs whose values need the same number of bits, around the group sizes of
// all selectors, before an arbitrary value
extern "C" void c13_groups() {
  const size_t width[] = {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 30, 60};
  const size_t group[] = {60, 30, 20, 15, 12, 10, 8, 7, 6, 5, 4, 3, 2, 1};
  size_t s = symx_choice("selector", 14);
  size_t n = group[s] - 1 + symx_choice("more", 3);
  uint64_t lo = 1ull << (width[s] - 1), hi = (1ull << width[s]) - 1;
  uint64_t* a = new uint64_t[n + 1];
  for (size_t i = 0; i < n; i++) a[i] = symx_range("g", lo, hi);
  a[n] = symx_range("x", 0, 0x0FFFFFFFFFFFFFFFull);
  roundTrip(a, n + 1);
  delete[] a;
  symx_cover("end");
}
