// C02: OPTIONAL keeps every mandatory row, matched or padded.
#include "qe.h"
#include "engine/OptionalJoin.h"

static void run(size_t nKeys) {
  World w;
  size_t lw = symx_param("lw", 2), rw = symx_param("rw", 2);
  size_t n = symx_choice("n", symx_param("n", 2) + 1), m = symx_choice("m", symx_param("m", 2) + 1);
  std::vector<size_t> lk{symx_choice("l0", lw)}, rk{symx_choice("r0", rw)};
  if (nKeys == 2) {
    lk.push_back((lk[0] + 1 + symx_choice("l1", lw - 1)) % lw);
    rk.push_back((rk[0] + 1 + symx_choice("r1", rw - 1)) % rw);
  }
  // which side is optional: 0 right, 1 left, 2 both
  size_t mode = symx_choice("optional", 3);
  bool lo = mode != 0, ro = mode != 1;
  // the operator orders its inputs by their description
  bool swapped = symx_param("swap", 0);
  auto l = keyedTable(w, swapped ? "B" : "A", lw, lk, n, 1000);
  auto r = keyedTable(w, swapped ? "A" : "B", rw, rk, m, 2000);
  std::vector<std::array<Id, 2>> jcs;
  for (size_t k = 0; k < nKeys; k++) jcs.push_back({lk[k], rk[k]});
  OptionalJoin j(w.qec(), treeOf(w, l), lo, treeOf(w, r), ro, jcs);
  ResultTable res(w.alloc());
  compute(j, res);
  symx_assert(res._data.cols() == lw + rw - nKeys, "width of the result");
  // the operator's left side provides the first columns
  const IdTable& a = swapped ? r->data : l->data;
  const IdTable& b = swapped ? l->data : r->data;
  auto& ak = swapped ? rk : lk;
  auto& bk = swapped ? lk : rk;
  bool ao = swapped ? ro : lo, bo = swapped ? lo : ro;
  auto isKey = [](const std::vector<size_t>& k, size_t c) {
    for (size_t x : k)
      if (x == c) return true;
    return false;
  };
  auto agree = [&](size_t i, size_t k) {
    bool eq = true;
    for (size_t x = 0; x < nKeys; x++) eq &= a(i, ak[x]) == b(k, bk[x]);
    return eq;
  };
  Expected e;
  for (size_t i = 0; i < a.size(); i++) {
    bool any = false;
    for (size_t k = 0; k < b.size(); k++) {
      Row row = rowOf(a, i);
      for (size_t c = 0; c < b.cols(); c++)
        if (!isKey(bk, c)) row.v[row.n++] = b(k, c);
      e.add(row, agree(i, k));
      any |= agree(i, k);
    }
    if (bo) {
      Row row = rowOf(a, i);
      for (size_t c = 0; c < b.cols(); c++)
        if (!isKey(bk, c)) row.v[row.n++] = ID_NO_VALUE;
      e.add(row, !any);
    }
  }
  if (ao)
    for (size_t k = 0; k < b.size(); k++) {
      bool any = false;
      for (size_t i = 0; i < a.size(); i++) any |= agree(i, k);
      Row row;
      for (size_t c = 0; c < a.cols(); c++) {
        row.v[row.n] = ID_NO_VALUE;
        for (size_t x = 0; x < nKeys; x++)
          if (ak[x] == c) row.v[row.n] = b(k, bk[x]);
        row.n++;
      }
      for (size_t c = 0; c < b.cols(); c++)
        if (!isKey(bk, c)) row.v[row.n++] = b(k, c);
      e.add(row, !any);
    }
  assertBag(res._data, e, "number of rows of the OPTIONAL", "rows of the OPTIONAL");
  symx_assert(res._resultTypes.size() == res._data.cols(), "one type per result column");
  observeTable(res._data);
  symx_cover("end");
}
extern "C" void c02_one() { run(1); }
extern "C" void c02_two() { run(2); }
