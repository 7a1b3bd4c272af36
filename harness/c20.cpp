// C20: filtering and intersecting posting lists.
#include "index/FTSAlgorithms.h"
#include "sx.h"

struct Postings {
  std::vector<Id> cids, wids;
  std::vector<Score> scores;
  size_t size() const { return cids.size(); }
};
// A list of up to max postings in context order. Contexts repeat unless
// `strict`.
static Postings postings(size_t max, bool strict, bool fixed = false) {
  Postings p;
  size_t n = fixed ? max : symx_choice("size", max + 1);
  for (size_t i = 0; i < n; i++) {
    Id c = symx_u64("context");
    if (i > 0) symx_assume(strict ? p.cids.back() < c : p.cids.back() <= c);
    p.cids.push_back(c);
    p.wids.push_back(symx_u64("word"));
    p.scores.push_back(symx_u16("score"));
  }
  return p;
}
static bool contains(const std::vector<Id>& cids, Id c) {
  bool r = false;
  for (Id x : cids) r |= x == c;
  return r;
}
// The score of context c in a list of distinct contexts. Branches so that sums
// of scores become the same terms as in the code.
static Score scoreOf(const Postings& p, Id c) {
  for (size_t i = 0; i < p.size(); i++)
    if (p.cids[i] == c) return p.scores[i];
  return 0;
}
// The result must consist of the postings of `from` that are marked, in order.
static void sameAs(const Postings& from, const std::vector<char>& mark, const std::vector<Score>& scores,
                   const std::vector<Id>& cids, const std::vector<Id>* wids, const std::vector<Score>& resScores,
                   const char* name) {
  symx_assert((cids.size() == resScores.size()) & (!wids || wids->size() == cids.size()), "posting lists: parallel lists of one size");
  size_t n = 0;
  bool ok = true;
  for (size_t j = 0; j < from.size(); j++) {
    bool here = !mark[j];
    for (size_t i = 0; i < cids.size(); i++) {
      bool same = (n == i) & (cids[i] == from.cids[j]) & (resScores[i] == scores[j]);
      if (wids) same &= (*wids)[i] == from.wids[j];
      here |= same;
    }
    ok &= here;
    n += mark[j] != 0;
  }
  symx_assert(n == cids.size(), "posting lists: number of results");
  symx_assert(ok, name);
  symx_observe(cids.size());
  for (size_t i = 0; i < cids.size(); i++) {
    symx_observe(cids[i]);
    symx_observe(resScores[i]);
    if (wids) symx_observe((*wids)[i]);
  }
  symx_cover("end");
}
// With repeated contexts: the result has the common contexts, in order.
static void sameContexts(const std::vector<Id>& cids, const std::vector<std::vector<Id>>& lists) {
  bool ok = true, complete = true, order = true;
  for (size_t i = 0; i < cids.size(); i++) {
    for (auto& l : lists) ok &= contains(l, cids[i]);
    if (i > 0) order &= cids[i - 1] <= cids[i];
  }
  for (Id c : lists[0]) {
    bool common = true;
    for (auto& l : lists) common &= contains(l, c);
    complete &= !common | contains(cids, c);
  }
  symx_assert(ok, "intersection: only contexts of all lists");
  symx_assert(complete, "intersection: every context of all lists");
  symx_assert(order, "intersection: in context order");
  symx_observe(cids.size());
  for (Id c : cids) symx_observe(c);
  symx_cover("end");
}

extern "C" void c20_filter() {
  Postings p = postings(symx_param("n", 4), false);
  IdRange r{symx_u64("first"), symx_u64("last")};
  std::vector<Id> cids;
  std::vector<Score> scores;
  FTSAlgorithms::filterByRange(r, p.cids, p.wids, p.scores, cids, scores);
  std::vector<char> mark;
  for (size_t i = 0; i < p.size(); i++) mark.push_back((r._first <= p.wids[i]) & (p.wids[i] <= r._last));
  sameAs(p, mark, p.scores, cids, nullptr, scores, "filter by range: exactly the postings of the range");
}

extern "C" void c20_entities() {
  Postings w = postings(symx_param("n", 3), false), e = postings(symx_param("m", 3), false);
  std::vector<Id> cids, eids;
  std::vector<Score> scores;
  FTSAlgorithms::intersect(w.cids, e.cids, e.wids, e.scores, cids, eids, scores);
  std::vector<char> mark;
  for (size_t i = 0; i < e.size(); i++) mark.push_back(contains(w.cids, e.cids[i]));
  sameAs(e, mark, e.scores, cids, &eids, scores, "entity postings: exactly those of matching contexts");
}

extern "C" void c20_two() {
  bool strict = symx_param("strict", 1);
  Postings a = postings(symx_param("n", 3), strict), b = postings(symx_param("m", 3), strict);
  std::vector<Id> cids;
  std::vector<Score> scores;
  FTSAlgorithms::intersectTwoPostingLists(a.cids, a.scores, b.cids, b.scores, cids, scores);
  if (!strict) return sameContexts(cids, {a.cids, b.cids});
  std::vector<char> mark;
  std::vector<Score> sums;
  for (size_t i = 0; i < a.size(); i++) {
    mark.push_back(symx_concretize(contains(b.cids, a.cids[i])));
    sums.push_back(a.scores[i] + scoreOf(b, a.cids[i]));
  }
  sameAs(a, mark, sums, cids, nullptr, scores, "two lists: exactly the common contexts with added scores");
}

extern "C" void c20_several() {
  bool strict = symx_param("strict", 1), entities = symx_param("entities", 0);
  size_t k = symx_param("k", 3), n = symx_param("n", 2);
  std::vector<Postings> lists;
  std::vector<std::vector<Id>> cidVecs;
  std::vector<std::vector<Score>> scoreVecs;
  for (size_t i = 0; i < k; i++) {
    bool last = i + 1 == k;
    lists.push_back(postings(last ? symx_param("m", n) : n, last && entities ? false : strict));
    cidVecs.push_back(lists[i].cids);
    scoreVecs.push_back(lists[i].scores);
  }
  std::vector<Id> cids, eids;
  std::vector<Score> scores;
  FTSAlgorithms::intersectKWay(cidVecs, scoreVecs, entities ? &lists[k - 1].wids : nullptr, cids, eids, scores);
  if (!strict && !entities) return sameContexts(cids, cidVecs);
  Postings& last = lists[k - 1];
  std::vector<char> mark;
  std::vector<Score> sums;
  for (size_t i = 0; i < last.size(); i++) {
    bool all = true;
    Score sum = last.scores[i];
    for (size_t j = 0; j + 1 < k; j++) {
      all &= contains(cidVecs[j], last.cids[i]);
      sum += scoreOf(lists[j], last.cids[i]);
    }
    mark.push_back(symx_concretize(all));
    sums.push_back(sum);
  }
  if (!strict) {
    // the score of a repeated context is not defined
    sums.clear();
    for (size_t i = 0; i < last.size(); i++) sums.push_back(0);
    for (auto& s : scores) s = 0;
  }
  sameAs(last, mark, sums, cids, entities ? &eids : nullptr, scores, "several lists: exactly the postings of common contexts with added scores");
}

// The k contexts with the highest scores, best first.
extern "C" void c20_top() {
  Postings p = postings(symx_param("n", 4), false);
  size_t k = symx_choice("k", symx_param("n", 4) + 2);
  FTSAlgorithms::WidthOneList r;
  // tell the postings apart by their context
  for (size_t i = 0; i < p.size(); i++) p.cids[i] = i;
  FTSAlgorithms::getTopKByScores(p.cids, p.scores, k, &r);
  size_t expected = k < p.size() ? k : p.size();
  symx_assert(r.size() == expected, "top k: number of results");
  std::vector<char> used(p.size(), false);
  bool once = true, best = true;
  for (size_t i = 0; i < r.size(); i++) {
    size_t c = symx_concretize(r[i][0]);
    symx_assert(c < p.size(), "top k: a posting of the list");
    once &= !used[c];
    used[c] = true;
    if (i > 0) best &= p.scores[r[i - 1][0]] >= p.scores[c];
  }
  for (size_t j = 0; j < p.size(); j++)
    for (size_t i = 0; i < r.size(); i++) best &= used[j] | (p.scores[r[i][0]] >= p.scores[j]);
  symx_assert(once, "top k: each posting once");
  symx_assert(best, "top k: the highest scores");
  symx_cover("end");
}
