// The triples behind kbindex.h: predicates are fixed numbers, subjects and
// objects may be symbolic. All triples are different.
#pragma once
#include <map>
#include "kbindex.h"
#include "qe.h"

using KbTriple = std::array<Id, 3>;
static std::vector<KbTriple> kb;
static std::map<std::string, Id> kbWords;

// all triples with the given first value, the other two columns in order
static void kbRows(std::vector<std::array<Id, 2>>& rows, Id key, int a, int b, int c) {
  for (auto& t : kb) {
    if (t[a] != key) continue;
    std::array<Id, 2> r{t[b], t[c]};
    size_t at = rows.size();
    while (at > 0) {
      auto& o = rows[at - 1];
      uint64_t less = (o[0] < r[0]) | ((o[0] == r[0]) & (o[1] < r[1]));
      if (symx_concretize(less)) break;
      at--;
    }
    rows.insert(rows.begin() + at, r);
  }
}
static void kbScan(Id key, IdTable* result, int a, int b, int c) {
  std::vector<std::array<Id, 2>> rows;
  kbRows(rows, key, a, b, c);
  symx_assert(result->cols() == 2, "a scan for one key fills two columns");
  for (auto& r : rows) result->push_back({r[0], r[1]});
}
static void kbScan(const string& first, const string& second, IdTable* result, int a, int b, int c) {
  symx_assert(result->cols() == 1, "a scan for two keys fills one column");
  if (!kbWords.count(first) || !kbWords.count(second)) return;
  Id key = kbWords[first], other = kbWords[second];
  std::vector<std::array<Id, 2>> rows;
  kbRows(rows, key, a, b, c);
  for (auto& r : rows)
    if (r[0] == other) result->push_back({r[1]});
}
template <>
bool KbVocab::getId(const string& word, Id* id) const {
  auto it = kbWords.find(word);
  if (it == kbWords.end()) return false;
  *id = it->second;
  return true;
}
static float kbMultiplicity[3] = {1, 1, 1};
#define KB_DEFINE(P, A, B, C)                                                                              \
  template <>                                                                                              \
  void Index::scan(Id key, IdTable* result, const decltype(Index::P)&,                                     \
                   ad_utility::SharedConcurrentTimeoutTimer) const {                                       \
    kbScan(key, result, A, B, C);                                                                          \
  }                                                                                                        \
  template <>                                                                                              \
  void Index::scan(const string& f, const string& s, IdTable* result, const decltype(Index::P)&) const {   \
    kbScan(f, s, result, A, B, C);                                                                         \
  }                                                                                                        \
  template <>                                                                                              \
  vector<float> Index::getMultiplicities(const string&, const decltype(Index::P)&) const {                 \
    return {kbMultiplicity[B], kbMultiplicity[C]};                                                         \
  }                                                                                                        \
  template <>                                                                                              \
  vector<float> Index::getMultiplicities(const decltype(Index::P)&) const {                                \
    return {kbMultiplicity[A], kbMultiplicity[B], kbMultiplicity[C]};                                      \
  }
KB_PERMUTATIONS(KB_DEFINE)
