// C26: batch pipelines under every schedule. std::async runs on the scheduler
// of the engine; creators and transformers can be interrupted in the middle.
#include <algorithm>
#include <array>
#include <functional>
#include <iterator>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <vector>

#include "sx.h"

#include <future>
#include "util/BatchedPipeline.h"

static const size_t MAXN = 8;
static uint64_t n, made, calls;
static uint64_t vals[MAXN];
static bool creating;

static const auto create = []() -> std::optional<uint64_t> {
  symx_assert(!creating, "two threads produce elements at the same time");
  creating = true;
  if (symx_param("yield", 1)) symx_yield();
  creating = false;
  if (made >= n) return std::nullopt;
  return vals[made++];
};
// stage s turns x into x + 16 * (s + 1), remembering who did it
struct Element {
  uint64_t x, stages, who;
};
static bool busy[4][4];
struct Stage {
  size_t stage, idx;
  bool exclusive;  // this transformer must not run twice at the same time
  Element work(Element e) const {
    if (exclusive) {
      symx_assert(!busy[stage][idx], "two threads run the same transformer at the same time");
      busy[stage][idx] = true;
    }
    if (symx_param("yield", 1) > 1) symx_yield();
    if (exclusive) busy[stage][idx] = false;
    symx_assert(e.stages == stage, "stage left out or repeated");
    calls++;
    return Element{e.x + (stage + 1), e.stages + 1, e.who * 4 + idx};
  }
  Element operator()(uint64_t x) const { return work(Element{x, 0, 0}); }
  Element operator()(Element e) const { return work(e); }
};
static void setup() {
  made = calls = 0;
  creating = false;
  for (auto& s : busy)
    for (auto& b : s) b = false;
  n = symx_range("n", 0, symx_param("n", 3));
  n = symx_concretize(n);
  for (size_t i = 0; i < n; i++) vals[i] = symx_u64("value");
}
template <typename P>
static void consume(P& pipe, size_t stages, uint64_t transformers) {
  uint64_t add = 0;
  for (size_t s = 0; s < stages; s++) add += s + 1;
  for (size_t i = 0; i < n; i++) {
    auto v = pipe.getNextValue();
    symx_assert(v.has_value(), "element lost");
    symx_assert(v->x == vals[i] + add, "wrong element, order or transformation");
    symx_assert(v->stages == stages, "not transformed by all stages");
    if (transformers) symx_assert(v->who < transformers, "unknown transformer");
    if (symx_param("yield", 1) > 1) symx_yield();
  }
  symx_assert(!pipe.getNextValue().has_value(), "element delivered twice");
  symx_assert(!pipe.getNextValue().has_value(), "element delivered after the end");
  symx_assert(calls == stages * n, "transformer applied twice");
  symx_observe(n);
  symx_cover("end");
}
static size_t batchSize() { return symx_concretize(symx_range("batch", 1, symx_param("batch", 3))); }

extern "C" void c26_stages() {
  setup();
  size_t b = batchSize();
  {
    auto pipe = ad_pipeline::setupPipeline(b, create, Stage{0, 0, true}, Stage{1, 0, true});
    consume(pipe, 2, 1);
  }
  symx_assert(made == n, "elements were not all produced");
  symx_cover("destroyed");
}
extern "C" void c26_single() {
  setup();
  size_t b = batchSize();
  auto pipe = ad_pipeline::setupPipeline(b, create, Stage{0, 0, true});
  consume(pipe, 1, 1);
}
// one transformer for several threads
extern "C" void c26_parallel() {
  setup();
  size_t b = batchSize();
  if (symx_param("degree", 2) == 2) {
    auto pipe = ad_pipeline::setupParallelPipeline<2>(b, create, Stage{0, 0, false});
    consume(pipe, 1, 1);
  } else {
    auto pipe = ad_pipeline::setupParallelPipeline<3>(b, create, Stage{0, 0, false});
    consume(pipe, 1, 1);
  }
}
// one transformer per thread, as the index builder uses it
extern "C" void c26_tuple() {
  setup();
  size_t b = batchSize();
  if (symx_param("degree", 2) == 2) {
    auto pipe =
        ad_pipeline::setupParallelPipeline<2>(b, create, std::tuple(Stage{0, 0, true}, Stage{0, 1, true}));
    consume(pipe, 1, 2);
  } else {
    auto pipe = ad_pipeline::setupParallelPipeline<1, 3>(
        b, create, Stage{0, 0, true}, std::tuple(Stage{1, 0, true}, Stage{1, 1, true}, Stage{1, 2, true}));
    consume(pipe, 2, 3);
  }
}
// dropped before it is exhausted
extern "C" void c26_drop() {
  setup();
  size_t b = batchSize();
  {
    auto pipe = ad_pipeline::setupParallelPipeline<2>(b, create, std::tuple(Stage{0, 0, true}, Stage{0, 1, true}));
    if (symx_choice("read", 2)) {
      auto v = pipe.getNextValue();
      symx_assert(v.has_value() == (n > 0), "element lost");
      if (v) symx_assert(v->x == vals[0] + 1, "wrong element, order or transformation");
    }
  }
  symx_assert(!creating && !busy[0][0] && !busy[0][1], "work goes on after the pipeline is gone");
  symx_cover("end");
}
