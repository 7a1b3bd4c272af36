// Replaces what the operators ask the index for by a small list of triples.
// Included in front of every file of a check that uses it.
#pragma once
#include <list>
#include "global/Constants.h"
#include "index/Index.h"

using KbVocab = std::decay_t<decltype(std::declval<const Index&>().getVocab())>;
template <>
bool KbVocab::getId(const string& word, Id* id) const;

#define KB_PERMUTATIONS(X) X(_SPO, 0, 1, 2) X(_SOP, 0, 2, 1) X(_PSO, 1, 0, 2) X(_POS, 1, 2, 0) X(_OSP, 2, 0, 1) X(_OPS, 2, 1, 0)
#define KB_DECLARE(P, A, B, C)                                                                              \
  template <>                                                                                               \
  void Index::scan(Id, IdTable*, const decltype(Index::P)&, ad_utility::SharedConcurrentTimeoutTimer) const; \
  template <>                                                                                               \
  void Index::scan(const string&, const string&, IdTable*, const decltype(Index::P)&) const;                \
  template <>                                                                                               \
  vector<float> Index::getMultiplicities(const string&, const decltype(Index::P)&) const;                   \
  template <>                                                                                               \
  vector<float> Index::getMultiplicities(const decltype(Index::P)&) const;
KB_PERMUTATIONS(KB_DECLARE)
