// The vocabulary with the real comparators; ICU is modelled (icu.h).
#pragma once
#include <fstream>
#include "global/Constants.h"
#include "index/ConstantsIndexCreation.h"
#include "sx.h"
#include "icu.h"
#include "parser/RdfEscaping.h"
#include "index/ExternalVocabulary.cpp"
#include "index/Vocabulary.cpp"

static bool equal(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
