// C12: memory obtained under a limit is accounted exactly.
#include <cstdint>
#include <exception>
#include <limits>
#include <memory>
#include <new>
#include <string>
#include <mutex>
#include <shared_mutex>

#include "spin.h"

// the memory the system hands out: any request may fail
struct Cell {
  uint64_t x;
};
struct System {
  bool mayFail = false;
  bool failed = false;
  uint64_t cells = 0;
  int64_t limit = -1;
};
static System sys;
#include "sx.h"
namespace std {
template <>
struct allocator<Cell> {
  using value_type = Cell;
  Cell* allocate(size_t n) {
    if (n > numeric_limits<ptrdiff_t>::max() / sizeof(Cell) || (sys.mayFail && symx_choice("fail", 2))) {
      sys.failed = true;
      throw bad_alloc();
    }
    sys.cells += n;
    symx_assert(sys.limit < 0 || sys.cells * sizeof(Cell) <= (uint64_t)sys.limit, "more memory than the limit is in use");
    return reinterpret_cast<Cell*>(16);
  }
  void deallocate(Cell*, size_t n) { sys.cells -= n; }
};
}  // namespace std
// the wording of the error message is not looked at
namespace std {
inline string numberText(size_t) { return "number"; }
}  // namespace std
#define to_string numberText
#include "util/AllocatorWithLimit.h"
#undef to_string

using ad_utility::makeAllocationMemoryLeftThreadsafeObject;

// any sequence of requests and releases of any size under any limit
extern "C" void c12_allocator() {
  sys = System{};
  uint64_t limit = symx_u64("limit");
  auto left = makeAllocationMemoryLeftThreadsafeObject(limit);
  ad_utility::AllocatorWithLimit<Cell> a(left), b(left);
  const size_t N = symx_param("n", 2);
  uint64_t size[8];
  bool held[8] = {false};
  sys.mayFail = true;
  for (size_t i = 0; i < N; i++) {
    auto& al = i & 1 ? b : a;
    if (i > 0) {
      size_t j = symx_choice("release", i + 1);
      if (j < i && held[j]) {
        (j & 1 ? b : a).deallocate(reinterpret_cast<Cell*>(16), size[j]);
        held[j] = false;
      }
    }
    size[i] = symx_u64("n");
    uint64_t before = al.numFreeBytes();
    sys.failed = false;
    bool fits = size[i] <= before / sizeof(Cell), ok = false, limitError = false;
    try {
      al.allocate(size[i]);
      ok = held[i] = true;
    } catch (const ad_utility::detail::AllocationExceedsLimitException&) {
      limitError = true;
    } catch (const std::bad_alloc&) {
    }
    symx_assert(!ok | fits, "nothing is granted beyond the limit");
    symx_assert(fits | limitError, "a request beyond the limit fails with its own error");
    symx_assert(ok | limitError | sys.failed, "a request within the limit is granted");
    symx_assert(al.numFreeBytes() == before - (ok ? size[i] * sizeof(Cell) : 0), "only granted memory is accounted");
  }
  for (size_t i = 0; i < N; i++)
    if (held[i]) (i & 1 ? b : a).deallocate(reinterpret_cast<Cell*>(16), size[i]);
  symx_assert(sys.cells == 0, "everything was released");
  symx_assert(a.numFreeBytes() == limit, "after all memory is released the whole limit is available");
  symx_cover("end");
}

// several threads obtain and release memory at the same time
using Alloc = ad_utility::AllocatorWithLimit<Cell>;
struct Plan {
  Alloc* a;
  uint64_t size[3];
  bool keep, ok[3];
};
static void work(void* v) {
  Plan& p = *static_cast<Plan*>(v);
  Alloc a(*p.a);
  for (size_t i = 0; i < symx_param("requests", 2); i++) {
    p.ok[i] = false;
    try {
      a.allocate(p.size[i]);
      p.ok[i] = true;
    } catch (const ad_utility::detail::AllocationExceedsLimitException&) {
    } catch (const std::bad_alloc&) {
    }
    if (p.ok[i] && !p.keep) a.deallocate(reinterpret_cast<Cell*>(16), p.size[i]);
  }
}
extern "C" void c12_threads() {
  sys = System{};
  uint64_t limit = symx_range("limit", 0, 1000);
  sys.limit = limit;
  sys.mayFail = symx_param("fail", 0);
  auto left = makeAllocationMemoryLeftThreadsafeObject(limit);
  Alloc a(left);
  Plan p[3];
  size_t T = symx_param("threads", 2), R = symx_param("requests", 2);
  uint64_t ids[3], total = 0;
  for (size_t t = 0; t < T; t++) {
    p[t].a = &a;
    p[t].keep = symx_choice("keep", 2);
    for (size_t i = 0; i < R; i++) p[t].size[i] = symx_range("n", 0, 200), total += p[t].size[i] * sizeof(Cell);
  }
  for (size_t t = 0; t < T; t++) ids[t] = symx_thread_create(work, &p[t]);
  for (size_t t = 0; t < T; t++) symx_thread_join(ids[t]);
  uint64_t held = 0;
  bool all = true;
  for (size_t t = 0; t < T; t++)
    for (size_t i = 0; i < R; i++) {
      held += p[t].ok[i] & p[t].keep ? p[t].size[i] * sizeof(Cell) : 0;
      all &= p[t].ok[i];
    }
  symx_assert(all | sys.failed | (total > limit), "a request within the limit is granted");
  symx_assert(a.numFreeBytes() == limit - held, "after the threads are done exactly the memory in use is accounted");
  symx_cover("end");
}
