// Stand-in for the parts of ICU the sources call, for symbolic execution only.
// It is exact for strings of printable ASCII characters in the locale en_US
// with punctuation taken into account; native replays use the real ICU.
#pragma once
#ifndef SYMX_NATIVE
#include <unicode/bytestream.h>
#include <unicode/casemap.h>
#include <unicode/coll.h>
#include <unicode/locid.h>
#include <unicode/normalizer2.h>
#include <unicode/sortkey.h>
#include <unicode/uniset.h>
#include <unicode/unistr.h>
#include <cstring>
#include <new>

namespace icumodel {
struct Ranks {
  unsigned char rank[256];
  constexpr Ranks() : rank{} {
    const char* order = " _-,;:!?.'\"()[]{}@*/\\&#%`^+<=>|~$0123456789abcdefghijklmnopqrstuvwxyz";
    for (int i = 0; order[i]; i++) {
      unsigned char c = order[i];
      rank[c] = (unsigned char)(2 * i + 4);
      if (c >= 'a' && c <= 'z') rank[c - 'a' + 'A'] = (unsigned char)(2 * i + 4);
    }
  }
};
static const Ranks ranks{};
inline unsigned rank(unsigned char c) { return ranks.rank[c]; }
inline unsigned upper(unsigned char c) { return 2 + ((c >= 'A') & (c <= 'Z')); }

// Sign of the comparison on the first level, or on all levels.
inline int order(const char* a, size_t n, const char* b, size_t m, bool all) {
  int first = n < m ? -1 : n > m, third = 0;
  for (size_t i = n < m ? n : m; i-- > 0;) {
    unsigned x = rank(a[i]), y = rank(b[i]), u = upper(a[i]), v = upper(b[i]);
    first = x < y ? -1 : x > y ? 1 : first;
    third = u < v ? -1 : u > v ? 1 : third;
  }
  return first != 0 ? first : all ? third : 0;
}
struct Text {  // what a UnicodeString of this model holds
  void* vtable;
  char* chars;
  size_t size;
};
inline Text& text(const icu::UnicodeString& s) { return *(Text*)&s; }
}  // namespace icumodel

U_NAMESPACE_BEGIN
UObject::~UObject() {}
void* UMemory::operator new(size_t n) noexcept { return ::operator new(n); }
void UMemory::operator delete(void* p) noexcept { ::operator delete(p); }
Replaceable::~Replaceable() {}
UnicodeString::~UnicodeString() {}
UnicodeString UnicodeString::fromUTF8(StringPiece s) {
  UnicodeString r;
  auto& t = icumodel::text(r);
  t.chars = (char*)s.data();  // lives as long as the argument
  t.size = s.size();
  return r;
}
ByteSink::~ByteSink() {}
char* ByteSink::GetAppendBuffer(int32_t, int32_t, char* s, int32_t c, int32_t* r) {
  *r = c;
  return s;
}
void ByteSink::Flush() {}
Locale::Locale() : fullName(fullNameBuffer) { fIsBogus = false; }
Locale::Locale(const char*, const char*, const char*, const char*) : Locale() {}
Locale::Locale(const Locale&) : Locale() {}
Locale::~Locale() {}
Locale& Locale::operator=(const Locale&) { return *this; }
Locale& Locale::operator=(Locale&&) noexcept { return *this; }
UClassID Locale::getDynamicClassID() const { return nullptr; }

Collator::Collator() {}
Collator::~Collator() {}

namespace {
class ModelCollator : public Collator {
 public:
  ECollationStrength strength = TERTIARY;
  Collator* clone() const override { return nullptr; }
  UCollationResult compare(const UnicodeString&, const UnicodeString&, UErrorCode&) const override { return UCOL_EQUAL; }
  UCollationResult compare(const UnicodeString&, const UnicodeString&, int32_t, UErrorCode&) const override {
    return UCOL_EQUAL;
  }
  UCollationResult compare(const char16_t*, int32_t, const char16_t*, int32_t, UErrorCode&) const override {
    return UCOL_EQUAL;
  }
  UCollationResult compareUTF8(const StringPiece& a, const StringPiece& b, UErrorCode&) const override {
    int r = icumodel::order(a.data(), a.size(), b.data(), b.size(), strength >= TERTIARY);
    return r < 0 ? UCOL_LESS : r > 0 ? UCOL_GREATER : UCOL_EQUAL;
  }
  CollationKey& getCollationKey(const UnicodeString&, CollationKey& k, UErrorCode&) const override { return k; }
  CollationKey& getCollationKey(const char16_t*, int32_t, CollationKey& k, UErrorCode&) const override { return k; }
  int32_t hashCode() const override { return 0; }
  Locale getLocale(ULocDataLocaleType, UErrorCode&) const override { return Locale(); }
  void getVersion(UVersionInfo) const override {}
  UClassID getDynamicClassID() const override { return nullptr; }
  void setStrength(ECollationStrength s) override { strength = s; }
  void setAttribute(UColAttribute, UColAttributeValue v, UErrorCode&) override {
    if (v != UCOL_NON_IGNORABLE) symx_fail("the model of ICU takes punctuation into account");
  }
  UColAttributeValue getAttribute(UColAttribute, UErrorCode&) const override { return UCOL_NON_IGNORABLE; }
  Collator& setMaxVariable(UColReorderCode, UErrorCode&) override { return *this; }
  uint32_t setVariableTop(const char16_t*, int32_t, UErrorCode&) override { return 0; }
  uint32_t setVariableTop(const UnicodeString&, UErrorCode&) override { return 0; }
  void setVariableTop(uint32_t, UErrorCode&) override {}
  uint32_t getVariableTop(UErrorCode&) const override { return 0; }
  int32_t getSortKey(const UnicodeString& s, uint8_t* out, int32_t size) const override {
    auto& t = icumodel::text(s);
    int32_t n = 0;
    auto put = [&](unsigned c) {
      if (n < size) out[n] = (uint8_t)c;
      n++;
    };
    for (size_t i = 0; i < t.size; i++) put(icumodel::rank(t.chars[i]));
    if (strength >= SECONDARY) put(1);
    if (strength >= TERTIARY) {
      put(1);
      for (size_t i = 0; i < t.size; i++) put(icumodel::upper(t.chars[i]));
    }
    put(0);
    return n;
  }
  int32_t getSortKey(const char16_t*, int32_t, uint8_t*, int32_t) const override { return 0; }
};

class ModelNormalizer : public Normalizer2 {
 public:
  UnicodeString& normalize(const UnicodeString&, UnicodeString& d, UErrorCode&) const override { return d; }
  void normalizeUTF8(uint32_t, StringPiece s, ByteSink& sink, Edits*, UErrorCode&) const override {
    sink.Append(s.data(), s.size());
  }
  UnicodeString& normalizeSecondAndAppend(UnicodeString& a, const UnicodeString&, UErrorCode&) const override {
    return a;
  }
  UnicodeString& append(UnicodeString& a, const UnicodeString&, UErrorCode&) const override { return a; }
  UBool getDecomposition(UChar32, UnicodeString&) const override { return false; }
  UBool isNormalized(const UnicodeString&, UErrorCode&) const override { return true; }
  UNormalizationCheckResult quickCheck(const UnicodeString&, UErrorCode&) const override { return UNORM_YES; }
  int32_t spanQuickCheckYes(const UnicodeString&, UErrorCode&) const override { return 0; }
  UBool hasBoundaryBefore(UChar32) const override { return true; }
  UBool hasBoundaryAfter(UChar32) const override { return true; }
  UBool isInert(UChar32) const override { return true; }
};
}  // namespace
Collator* Collator::createInstance(const Locale&, UErrorCode&) { return new ModelCollator; }
const Normalizer2* Normalizer2::getInstance(const char*, const char*, UNormalization2Mode, UErrorCode&) {
  static char place[sizeof(ModelNormalizer)];
  return ::new (place) ModelNormalizer;
}
Normalizer2::~Normalizer2() {}
void CaseMap::utf8ToLower(const char*, uint32_t, StringPiece s, ByteSink& sink, Edits*, UErrorCode&) {
  for (int32_t i = 0; i < s.size(); i++) {
    char c = s.data()[i];
    c = (c >= 'A') & (c <= 'Z') ? c - 'A' + 'a' : c;
    sink.Append(&c, 1);
  }
}
// Inherited defaults that the model does not use.
bool Collator::operator==(const Collator& o) const { return this == &o; }
bool Collator::operator!=(const Collator& o) const { return this != &o; }
Collator::EComparisonResult Collator::compare(const UnicodeString&, const UnicodeString&) const { return EQUAL; }
Collator::EComparisonResult Collator::compare(const UnicodeString&, const UnicodeString&, int32_t) const {
  return EQUAL;
}
Collator::EComparisonResult Collator::compare(const char16_t*, int32_t, const char16_t*, int32_t) const {
  return EQUAL;
}
UCollationResult Collator::compare(UCharIterator&, UCharIterator&, UErrorCode&) const { return UCOL_EQUAL; }
UCollationResult Collator::compareUTF8(const StringPiece&, const StringPiece&, UErrorCode&) const {
  return UCOL_EQUAL;
}
Collator::ECollationStrength Collator::getStrength() const { return TERTIARY; }
void Collator::setStrength(ECollationStrength) {}
int32_t Collator::getReorderCodes(int32_t*, int32_t, UErrorCode&) const { return 0; }
void Collator::setReorderCodes(const int32_t*, int32_t, UErrorCode&) {}
Collator& Collator::setMaxVariable(UColReorderCode, UErrorCode&) { return *this; }
UColReorderCode Collator::getMaxVariable() const { return UCOL_REORDER_CODE_SYMBOL; }
UnicodeSet* Collator::getTailoredSet(UErrorCode&) const { return nullptr; }
Collator* Collator::safeClone() const { return nullptr; }
void Collator::setLocales(const Locale&, const Locale&, const Locale&) {}
int32_t Collator::internalGetShortDefinitionString(const char*, char*, int32_t, UErrorCode&) const { return 0; }
UCollationResult Collator::internalCompareUTF8(const char*, int32_t, const char*, int32_t, UErrorCode&) const {
  return UCOL_EQUAL;
}
int32_t Collator::internalNextSortKeyPart(UCharIterator*, uint32_t[2], uint8_t*, int32_t, UErrorCode&) const {
  return 0;
}
void Normalizer2::normalizeUTF8(uint32_t, StringPiece, ByteSink&, Edits*, UErrorCode&) const {}
UBool Normalizer2::getRawDecomposition(UChar32, UnicodeString&) const { return false; }
UChar32 Normalizer2::composePair(UChar32, UChar32) const { return -1; }
uint8_t Normalizer2::getCombiningClass(UChar32) const { return 0; }
UBool Normalizer2::isNormalizedUTF8(StringPiece, UErrorCode&) const { return true; }
U_NAMESPACE_END
extern "C" const char* u_errorName(UErrorCode) { return "error"; }
#endif
