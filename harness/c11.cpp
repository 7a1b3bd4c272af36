// C11: threads that request results from the shared cache. Every lock, wait
// and wake-up is a scheduling point, as is the middle of every computation.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <numeric>
#include <shared_mutex>
#include <stdexcept>
#include <thread>

#include "sx.h"

static uint64_t now_ = 0;
#define steady_clock sx_clock
namespace std {
namespace chrono {
struct sx_clock {
  using duration = nanoseconds;
  using rep = duration::rep;
  using period = duration::period;
  static constexpr bool is_steady = true;
  using time_point = chrono::time_point<sx_clock, duration>;
  static time_point now() {
    now_ += 1;
    return time_point(duration(now_));
  }
};
}  // namespace chrono
}  // namespace std
#include "util/Cache.h"
#include "util/Log.h"
#include "util/Exception.h"
#include "util/ConcurrentCache.h"

static const size_t KEYS = 2, THREADS = 4, REQ = 2, MAXV = 16;
struct Val {
  uint64_t key, id;
  size_t size() const { return 1; }
};
struct Failed {};
using CC = ad_utility::ConcurrentCache<ad_utility::LRUCache<uint64_t, Val>>;

static CC* cache;
static uint64_t stamp;                      // advances with every event
static uint64_t active[KEYS];               // computations running now
static uint64_t good[KEYS], failed[KEYS];   // finished computations
static bool pinWanted[KEYS];                // pinned requests that succeeded
static uint64_t nvals, valDone[MAXV];       // when the computing request returned
static uint64_t clearBegin, clearEnd;
static uint64_t failEnd[MAXV], failKey[MAXV], nfails;

struct Request {
  bool clear;
  uint64_t key;
  bool pinned, fails;
};
struct Plan {
  Request r[REQ];
  size_t n;
};
static Plan plans[THREADS];

static void request(const Request& q, uint64_t* told) {
  uint64_t start = ++stamp;
  bool computed = false;
  uint64_t mine = 0;
  auto compute = [&]() -> Val {
    computed = true;
    symx_assert(active[q.key] == 0, "two threads compute the same result at the same time");
    active[q.key]++;
    symx_yield();
    active[q.key]--;
    if (q.fails) {
      failed[q.key]++;
      failKey[nfails] = q.key;
      failEnd[nfails] = ~0ull;
      mine = nfails++;
      throw Failed{};
    }
    good[q.key]++;
    mine = nvals++;
    valDone[mine] = 0;
    return Val{q.key, mine};
  };
  try {
    auto res = q.pinned ? cache->computeOncePinned(q.key, compute) : cache->computeOnce(q.key, compute);
    uint64_t end = ++stamp;
    symx_assert(res._resultPointer != nullptr, "request returned no result");
    symx_assert(res._resultPointer->key == q.key, "request returned the result of another key");
    uint64_t id = res._resultPointer->id;
    symx_assert(id < nvals, "request returned a result nobody computed");
    if (computed) {
      symx_assert(!q.fails && id == mine && !res._wasCached, "own computation not returned");
      valDone[mine] = end;
    } else {
      symx_assert(good[q.key] > 0, "result of a failed computation");
      // cleared before this request and after the result was stored
      bool stale = clearEnd && clearEnd < start && valDone[id] && valDone[id] < clearBegin;
      symx_assert(!stale, "result returned although it had been cleared");
    }
    if (q.pinned) {
      pinWanted[q.key] = true;
      symx_assert(symx_param("clears", 0) || cache->cacheContains(q.key), "pinned result is not in the cache");
      symx_cover("pinned");
    }
    symx_cover(computed ? "computed" : res._wasCached ? "cached" : "waited");
  } catch (const Failed&) {
    symx_assert(computed && q.fails, "error of another request");
    failEnd[mine] = ++stamp;
    symx_cover("failed");
  } catch (const ad_utility::WaitedForResultWhichThenFailedException&) {
    symx_assert(!computed, "own computation reported as another one's failure");
    bool overlap = false;
    for (size_t i = 0; i < nfails; i++) overlap |= (failKey[i] == q.key) & (failEnd[i] > start);
    symx_assert(overlap, "reported a failure that happened before the request");
    told[q.key]++;
    symx_assert(told[q.key] <= failed[q.key], "one failure reported for two requests of a thread");
    symx_cover("waited for failure");
  }
}
static void run(void* p) {
  Plan& plan = *(Plan*)p;
  uint64_t told[KEYS] = {};
  for (size_t i = 0; i < plan.n; i++) {
    if (plan.r[i].clear) {
      clearBegin = ++stamp;
      clearEnd = 0;
      cache->clearAll();
      clearEnd = ++stamp;
      symx_cover("cleared");
    } else {
      request(plan.r[i], told);
    }
  }
}

extern "C" void c11_requests() {
  now_ = stamp = nvals = nfails = clearBegin = clearEnd = 0;
  for (size_t k = 0; k < KEYS; k++) active[k] = good[k] = failed[k] = pinWanted[k] = 0;
  size_t threads = symx_param("threads", 2), n = symx_param("requests", 2), keys = symx_param("keys", 1);
  bool clears = symx_param("clears", 0);
  CC c{(size_t)8};
  cache = &c;
  for (size_t t = 0; t < threads; t++) {
    plans[t].n = n;
    for (size_t i = 0; i < n; i++) {
      Request& r = plans[t].r[i];
      r.clear = clears && t == 0 && i == 0;
      r.key = 0;
      r.pinned = r.fails = false;
      if (r.clear) continue;
      r.key = keys > 1 ? symx_choice("key", keys) : 0;
      r.pinned = symx_choice("pinned", 2);
      r.fails = symx_choice("fails", 2);
    }
  }
  if (symx_param("warm", 0)) {
    c.computeOnce(0, [] {
      good[0]++;
      valDone[nvals] = ++stamp;
      return Val{0, nvals++};
    });
  }
  uint64_t ids[THREADS];
  for (size_t t = 0; t < threads; t++) ids[t] = symx_thread_create(run, &plans[t]);
  for (size_t t = 0; t < threads; t++) symx_thread_join(ids[t]);

  for (size_t k = 0; k < keys; k++) {
    symx_assert(active[k] == 0, "computation still running");
    if (clears) continue;
    symx_assert(good[k] <= 1, "result computed again although it was cached or in progress");
    symx_assert(c.cacheContains(k) == (good[k] == 1), "cache does not hold what was computed");
  }
  size_t before = c.numPinnedEntries();
  c.clearUnpinnedOnly();
  symx_assert(before == c.numPinnedEntries(), "number of pinned results changed");
  for (size_t k = 0; k < keys && !clears; k++)
    symx_assert(c.cacheContains(k) == pinWanted[k], "wrong results are pinned");
  // whatever happened, every result can be obtained again
  c.clearAll();
  symx_assert(c.numNonPinnedEntries() == 0 && c.numPinnedEntries() == 0, "cleared cache is not empty");
  for (size_t k = 0; k < keys; k++) {
    bool again = false;
    auto res = c.computeOnce(k, [&] {
      again = true;
      return Val{k, 100};
    });
    symx_assert(again && res._resultPointer->id == 100, "result cannot be computed again");
  }
  symx_observe(nvals);
  symx_observe(nfails);
  symx_cover("end");
}
