// C12: tables under a memory limit. A file of its own, because two
// instantiations of the allocator cannot share a translation unit.
#include <memory>

#include "spin.h"

#include "engine/IdTable.h"
#include "sx.h"
#include "util/AllocatorWithLimit.h"

using ad_utility::makeAllocationMemoryLeftThreadsafeObject;

// tables that come and go under a limit; an operation that fails leaves the
// table as it was
extern "C" void c12_tables() {
  uint64_t limit = symx_range("limit", 0, symx_param("limit", 400));
  auto left = makeAllocationMemoryLeftThreadsafeObject(limit);
  ad_utility::AllocatorWithLimit<Id> al(left);
  size_t cols = symx_param("cols", 2), steps = symx_param("n", 3);
  {
    std::unique_ptr<IdTable> t[2] = {std::make_unique<IdTable>(cols, al), std::make_unique<IdTable>(cols, al)};
    size_t rows[2] = {0, 0};
    Id first[2] = {0, 0};
    for (size_t s = 0; s < steps; s++) {
      size_t op = symx_choice("op", 7), k = symx_choice("table", 2);
      IdTable& x = *t[k];
      IdTable& y = *t[1 - k];
      bool failed = false;
      size_t newRows = rows[k];
      Id newFirst = first[k];
      uint64_t before = al.numFreeBytes();
      try {
        if (op == 0) {
          Id v = symx_u64("v");
          Id row[4] = {v, v, v, v};
          if (rows[k] == 0) newFirst = v;
          newRows++;
          if (cols == 2) x.push_back({row[0], row[1]});
          if (cols == 3) x.push_back({row[0], row[1], row[2]});
        } else if (op == 1) {
          newRows = rows[k] + symx_param("grow", 7);
          size_t old = rows[k];
          x.resize(newRows);
          for (size_t i = old; i < newRows; i++)
            for (size_t c = 0; c < cols; c++) x(i, c) = 0;
          if (old == 0) newFirst = 0;
        } else if (op == 2) {
          x.reserve(5);
        } else if (op == 3) {
          auto copy = std::make_unique<IdTable>(y);
          t[k] = std::move(copy);
          newRows = rows[1 - k];
          newFirst = first[1 - k];
        } else if (op == 4) {
          newRows = rows[k] + rows[1 - k];
          if (rows[k] == 0) newFirst = first[1 - k];
          x.insert(x.end(), y.cbegin(), y.cend());
        } else if (op == 5) {
          t[k] = std::make_unique<IdTable>(cols, al);
          newRows = 0;
        } else {
          x.clear();
          newRows = 0;
        }
      } catch (const ad_utility::detail::AllocationExceedsLimitException&) {
        failed = true;
      }
      if (failed) symx_assert(al.numFreeBytes() == before, "a failed request changes nothing");
      if (!failed) {
        rows[k] = newRows;
        first[k] = newFirst;
      }
      symx_assert(t[k]->size() == rows[k], "a failed operation leaves the table as it was");
      if (rows[k] > 0) symx_assert((*t[k])(0, 0) == first[k], "a failed operation leaves the rows as they were");
      uint64_t need = (rows[0] + rows[1]) * cols * sizeof(Id);
      symx_assert((al.numFreeBytes() <= limit) & (limit - al.numFreeBytes() >= need), "the rows in use are accounted");
    }
  }
  symx_assert(al.numFreeBytes() == limit, "after all tables are gone the whole limit is available");
  symx_cover("end");
}
