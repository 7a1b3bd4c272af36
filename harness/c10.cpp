// C10: the size limited cache against a list ordered by recency.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <numeric>
#include <shared_mutex>
#include <stdexcept>
#include <thread>

#include "sx.h"

static uint64_t now_ = 0;
#define steady_clock sx_clock
namespace std {
namespace chrono {
// every look at the clock is later than the one before
struct sx_clock {
  using duration = nanoseconds;
  using rep = duration::rep;
  using period = duration::period;
  static constexpr bool is_steady = true;
  using time_point = chrono::time_point<sx_clock, duration>;
  static time_point now() {
    now_ += 1;
    return time_point(duration(now_));
  }
};
}  // namespace chrono
}  // namespace std
#include "util/Cache.h"

struct Val {
  uint64_t size_, id;
  size_t size() const { return size_; }
};
static const size_t MAXK = 5;
static size_t K;
struct Model {
  bool present[MAXK] = {}, pinned[MAXK] = {};
  uint64_t size[MAXK] = {}, id[MAXK] = {}, used[MAXK] = {};
  uint64_t clock = 0, entries, total, single;
  void shrink() {
    for (;;) {
      uint64_t n = 0, sum = 0;
      size_t oldest = K;
      for (size_t k = 0; k < K; k++)
        if (present[k]) {
          n++;
          sum += size[k];
          if (!pinned[k] && (oldest == K || used[k] < used[oldest])) oldest = k;
        }
      if (oldest == K || (n <= entries && sum <= total)) return;
      present[oldest] = false;
    }
  }
};
extern "C" void c10_history() {
  now_ = 0;
  K = symx_param("keys", 3);
  Model m;
  m.entries = symx_choice("entries", symx_param("entries", 4));
  m.total = symx_range("total", 0, 1000);
  m.single = symx_range("single", 0, 1000);
  ad_utility::LRUCache<uint64_t, Val> c(m.entries, m.total, m.single);
  size_t steps = symx_param("n", 4), prefix = symx_param("prefix", 0);
  uint64_t ids = 1;
  for (size_t s = 0; s < prefix + steps; s++) {
    size_t op = s < prefix ? 0 : symx_choice("op", symx_param("ops", 8));
    size_t k = s < prefix ? s : op < 5 ? symx_choice("key", K) : 0;
    if (op == 0 || op == 2) {
      bool pin = op == 2;
      Val v{symx_range("size", 0, 1000), ids++};
      bool threw = false, tooBig = v.size_ > m.single;
      std::shared_ptr<const Val> p;
      try {
        p = pin ? c.insertPinned(k, v) : c.insert(k, v);
      } catch (const std::runtime_error&) {
        threw = true;
      }
      symx_assert(threw == (m.present[k] | (pin & tooBig)),
                  "storing fails for a key that is present or a pinned value that is too large");
      if (!threw) {
        if (tooBig) {
          symx_assert(!p, "a value that is too large is not stored");
        } else {
          symx_assert(p && p->id == v.id, "storing returns the value");
          m.present[k] = true;
          m.pinned[k] = pin;
          m.size[k] = v.size_;
          m.id[k] = v.id;
          m.used[k] = ++m.clock;
          m.shrink();
        }
      }
    } else if (op == 1) {
      auto p = c[k];
      symx_assert(!!p == m.present[k], "a lookup finds exactly the entries that are present");
      if (p) {
        symx_assert(p->id == m.id[k], "a lookup returns the value that was stored last");
        m.used[k] = ++m.clock;
      }
    } else if (op == 3) {
      bool r = c.containsAndMakePinnedIfExists(k);
      symx_assert(r == m.present[k], "pinning tells whether there was an entry");
      m.pinned[k] = m.present[k];
    } else if (op == 4) {
      c.erase(k);
      m.present[k] = false;
    } else if (op == 5) {
      m.entries = symx_choice("newEntries", 3);
      c.setMaxNumEntries(m.entries);
      m.shrink();
    } else if (op == 6) {
      c.clearUnpinnedOnly();
      for (size_t j = 0; j < K; j++) m.present[j] &= m.pinned[j];
    } else {
      c.clearAll();
      for (size_t j = 0; j < K; j++) m.present[j] = false;
    }
    uint64_t pins = 0, others = 0, pinSize = 0, otherSize = 0;
    for (size_t j = 0; j < K; j++) {
      if (!m.present[j]) m.pinned[j] = false;
      symx_assert(c.contains(j) == m.present[j], "the entries used least recently are dropped first and only if needed");
      (m.pinned[j] ? pins : others) += m.present[j];
      (m.pinned[j] ? pinSize : otherSize) += m.present[j] ? m.size[j] : 0;
    }
    symx_assert((c.numPinnedEntries() == pins) & (c.numNonPinnedEntries() == others), "entry counts");
    symx_assert((c.pinnedSize() == pinSize) & (c.nonPinnedSize() == otherSize), "entry sizes");
  }
  symx_cover("end");
}
