// C27: vectors on memory mapped files behave like plain vectors and keep their
// contents when closed and opened again.
#include <array>
#include <cstring>
#include <string>
#include <vector>
#include "util/MmapVector.h"
#include "sx.h"

using ad_utility::AccessPattern;
using ad_utility::CreateTag;
using ad_utility::MmapVector;
using ad_utility::MmapVectorTmp;
using ad_utility::MmapVectorView;
using ad_utility::ReuseTag;

template <class T>
T value(const char* name);
template <>
uint64_t value<uint64_t>(const char* n) { return symx_u64(n); }
struct Odd {
  uint32_t a, b, c;
  bool operator==(const Odd& o) const { return (a == o.a) & (b == o.b) & (c == o.c); }
};
template <>
Odd value<Odd>(const char* n) { return {symx_u32(n), symx_u32(n), 7}; }

template <class V, class T>
static void same(const V& v, const std::vector<T>& ref, const std::vector<uint8_t>& known, const char* msg) {
  symx_assert(v.size() == ref.size(), "size");
  bool ok = true;
  for (size_t i = 0; i < ref.size(); i++) ok &= !known[i] | (v[i] == ref[i]);
  symx_assert(ok, msg);
  symx_assert((size_t)(v.end() - v.begin()) == ref.size(), "range");
  symx_assert(v.capacity() >= v.size(), "the file has room for all elements");
}

template <class T>
static void history() {
  size_t steps = symx_param("steps", 3), first = symx_param("first", 0), unit = symx_param("unit", 1),
         base = symx_param("base", 0), span = symx_param("span", 3);
  MmapVector<T> v;
  std::vector<T> ref;
  std::vector<uint8_t> known;
  auto setLength = [&](size_t n) {
    ref.resize(n);
    known.resize(n);
  };
  // how it is created
  size_t how = symx_choice("create", 4), n = base + unit * symx_choice("size", span);
  std::string name = "vec";
  if (how == 0) {
    v.open(name, CreateTag());
    n = 0;
  } else if (how == 1) {
    T d = value<T>("default");
    v.open(n, d, name);
    ref.assign(n, d);
    known.assign(n, 1);
  } else if (how == 2) {
    v.open(n, name, AccessPattern::Random);
    setLength(n);
  } else {
    for (size_t i = 0; i < n; i++) ref.push_back(value<T>("given"));
    known.assign(n, 1);
    v.open(ref.begin(), ref.end(), name, AccessPattern::Sequential);
  }
  same(v, ref, known, "a new vector holds what it was created with");
  for (size_t i = 0; i < first; i++) {
    T x = value<T>("first");
    v.push_back(x);
    ref.push_back(x);
    known.push_back(1);
  }
  MmapVector<T> w;
  bool open = true;
  for (size_t s = 0; s < steps; s++) {
    size_t op = symx_choice("op", 8);
    if (op == 0) {
      T x = value<T>("pushed");
      v.push_back(x);
      ref.push_back(x);
      known.push_back(1);
    } else if (op == 1) {
      size_t k = base + unit * symx_choice("resize", span + 1);
      v.resize(k);
      setLength(k);
    } else if (op == 2) {
      if (ref.empty()) continue;
      size_t i = symx_choice("index", 2) ? ref.size() - 1 : 0;
      T x = value<T>("set");
      v[i] = x;
      ref[i] = x;
      known[i] = 1;
    } else if (op == 3) {
      v.close();
      symx_assert(v.size() == 0, "a closed vector is empty");
      if (symx_choice("other", 2)) {
        w.open(name, ReuseTag());
        same(w, ref, known, "another vector finds the contents");
        v = std::move(w);
      } else {
        v.open(name, ReuseTag());
      }
    } else if (op == 4) {
      v.close();
      MmapVectorView<T> view(name);
      same(view, ref, known, "a view finds the contents");
      MmapVectorView<T> second(std::move(view));
      same(second, ref, known, "a moved view has the contents");
      second.close();
      v.open(name, ReuseTag());
    } else if (op == 5) {
      MmapVector<T> moved(std::move(v));
      same(moved, ref, known, "a moved vector has the contents");
      v = std::move(moved);
    } else if (op == 6) {
      size_t k = base + unit * symx_choice("reserve", span + 1);
      v.reserve(k);
      symx_assert(v.capacity() >= k, "reserve");
    } else {
      if (ref.empty()) continue;
      v.push_back(T(v[0]));
      ref.push_back(ref[0]);
      known.push_back(known[0]);
    }
    same(v, ref, known, "the vector has the contents of a plain vector");
    bool threw = false;
    try {
      v.at(ref.size());
    } catch (const std::out_of_range&) {
      threw = true;
    }
    symx_assert(threw, "access behind the end is refused");
    if (!ref.empty()) symx_assert(!known.back() | (v.back() == ref.back()) & (&v.at(0) == v.data()), "back and at");
  }
  v.close();
  MmapVectorView<T> view(name);
  same(view, ref, known, "the contents are kept in the file");
  view.close();
  {
    MmapVectorTmp<T> t("temporary");
    t.push_back(T{});
    symx_assert(t.size() == 1, "a temporary vector takes elements");
  }
  symx_assert(fopen("temporary", "r") == nullptr, "a temporary vector leaves no file");
  symx_observe(ref.size());
  symx_cover("end");
}
extern "C" void c27_words() { history<uint64_t>(); }
extern "C" void c27_odd() { history<Odd>(); }

// a file that was not written by such a vector is refused
extern "C" void c27_invalid() {
  const size_t sizes[] = {0, 1, 31, 32, 40};
  size_t n = sizes[symx_choice("bytes", 5)];
  char buf[40];
  {
    std::ofstream f("vec");
    for (size_t i = 0; i < n; i++) {
      buf[i] = (char)symx_u8("byte");
      f.write(buf + i, 1);
    }
  }
  uint64_t mark = 0;
  if (n >= 8) memcpy(&mark, buf + n - 8, 8);
  MmapVector<uint64_t> v;
  v._filename = "vec";
  bool refused = false;
  try {
    v.readMetaDataFromEnd();
  } catch (const ad_utility::InvalidFileException&) {
    refused = true;
  }
  symx_assert(refused == ((n < 32) | (mark != 7601577)), "exactly the files of another kind are refused");
  if (!refused) {
    uint64_t sizes[3];
    memcpy(sizes, buf + n - 32, 24);
    symx_assert((v._size == sizes[0]) & (v._capacity == sizes[1]) & (v._bytesize == sizes[2]), "sizes from the file");
    symx_cover("accepted");
  }
  v._filename = "";
  symx_cover("end");
}
