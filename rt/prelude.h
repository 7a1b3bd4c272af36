// Included before every translation unit.  The sources use std::vector of an
// incomplete type, which clang accepts only if vector is not constexpr.
#pragma once
#include <cstdint>
#include <utility>
#include <tuple>
#include <bits/stl_algobase.h>
#include <bits/allocator.h>
#include <bits/stl_construct.h>
#include <bits/stl_uninitialized.h>
#include <bits/refwrap.h>
#include <bits/range_access.h>
#include <bits/functional_hash.h>
#include <initializer_list>
#include <compare>
#undef _GLIBCXX20_CONSTEXPR
#define _GLIBCXX20_CONSTEXPR
#define __fill_a1 sx_fill_a1_bits
#include <vector>
#undef __fill_a1
#undef _GLIBCXX20_CONSTEXPR
#define _GLIBCXX20_CONSTEXPR constexpr
// the definition stl_algobase.h declared (renamed above, where it may not be
// constexpr)
void sx_fill_def(std::_Bit_iterator f, std::_Bit_iterator l, const bool& x) __asm__(
    "_ZSt9__fill_a1St13_Bit_iteratorS_RKb");
__attribute__((weak)) void sx_fill_def(std::_Bit_iterator f, std::_Bit_iterator l, const bool& x) {
  std::sx_fill_a1_bits(f, l, x);
}
