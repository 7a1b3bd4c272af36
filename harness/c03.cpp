// C03: MINUS and UNION return exactly the difference and the bag union.
#include "qe.h"
#include "engine/Minus.h"
#include "engine/Union.h"

extern "C" void c03_minus() {
  World w;
  size_t nKeys = symx_param("keys", 1);
  size_t lw = symx_param("lw", 2), rw = symx_param("rw", 2);
  size_t n = symx_choice("n", symx_param("n", 3) + 1), m = symx_choice("m", symx_param("m", 3) + 1);
  std::vector<size_t> lk, rk;
  if (nKeys) {
    lk.push_back(symx_choice("l0", lw));
    rk.push_back(symx_choice("r0", rw));
  }
  if (nKeys == 2) {
    lk.push_back((lk[0] + 1 + symx_choice("l1", lw - 1)) % lw);
    rk.push_back((rk[0] + 1 + symx_choice("r1", rw - 1)) % rw);
  }
  auto l = keyedTable(w, "A", lw, lk, n, 1000);
  auto r = keyedTable(w, "B", rw, rk, m, 2000);
  std::vector<std::array<size_t, 2>> mc;
  for (size_t k = 0; k < nKeys; k++) mc.push_back({lk[k], rk[k]});
  Minus j(w.qec(), treeOf(w, l), treeOf(w, r), mc);
  ResultTable res(w.alloc());
  compute(j, res);
  symx_assert(res._data.cols() == lw, "width of the difference");
  Expected e;
  for (size_t i = 0; i < n; i++) {
    bool any = false;
    for (size_t k = 0; k < m; k++) {
      bool eq = nKeys > 0;
      for (size_t x = 0; x < nKeys; x++) eq &= l->data(i, lk[x]) == r->data(k, rk[x]);
      any |= eq;
    }
    e.add(rowOf(l->data, i), !any);
  }
  assertSequence(res._data, e, "number of rows of the difference", "rows of the difference, in order");
  symx_assert(isSorted(res._data, j.getResultSortedOn()), "the difference is sorted as announced");
  observeTable(res._data);
  symx_cover("end");
}

// variables of the two inputs: names out of ?a ?b ?c, any assignment to columns
extern "C" void c03_union() {
  World w;
  const char* names[] = {"?a", "?b", "?c", "?d"};
  size_t lw = 1 + symx_choice("lw", symx_param("lw", 2)), rw = 1 + symx_choice("rw", symx_param("rw", 2));
  size_t n = symx_choice("n", symx_param("n", 2) + 1), m = symx_choice("m", symx_param("m", 2) + 1);
  size_t nv = symx_param("vars", 3);
  auto mk = [&](const char* nm, size_t cols, size_t rows, Id tag, std::vector<int>& of) {
    auto t = std::make_shared<TableOp>(w, nm, cols);
    t->data.resize(rows);
    for (size_t i = 0; i < rows; i++)
      for (size_t c = 0; c < cols; c++) t->data(i, c) = symx_u64(nm);
    of.assign(nv, -1);
    for (size_t c = 0; c < cols; c++) {
      size_t v = symx_choice("var", nv);
      symx_assume(of[v] < 0);
      of[v] = (int)c;
      t->types[c] = c % 2 == tag ? Type::KB : Type::VERBATIM;
    }
    // insertion order must not matter
    if (symx_choice("order", 2))
      for (size_t v = 0; v < nv; v++) {
        if (of[v] >= 0) t->vars[names[v]] = of[v];
      }
    else
      for (size_t v = nv; v-- > 0;) {
        if (of[v] >= 0) t->vars[names[v]] = of[v];
      }
    return t;
  };
  std::vector<int> lv, rv;
  auto l = mk("A", lw, n, 0, lv);
  auto r = mk("B", rw, m, 1, rv);
  Union u(w.qec(), treeOf(w, l), treeOf(w, r));
  ResultTable res(w.alloc());
  compute(u, res);
  auto cols = u.getVariableColumns();
  size_t all = 0;
  for (size_t v = 0; v < nv; v++) all += lv[v] >= 0 || rv[v] >= 0;
  symx_assert(cols.size() == all, "the union has the variables of both sides");
  symx_assert(res._data.cols() == all, "one column per variable");
  Expected e;
  std::vector<int> seen(all, 0);
  for (size_t v = 0; v < nv; v++)
    if (lv[v] >= 0 || rv[v] >= 0) {
      symx_assert(cols.count(names[v]) == 1 && cols[names[v]] < all, "every variable has a column");
      seen[cols[names[v]]]++;
      symx_assert(seen[cols[names[v]]] == 1, "variables have different columns");
    }
  for (int s = 0; s < 2; s++) {
    const IdTable& t = s ? r->data : l->data;
    auto& of = s ? rv : lv;
    for (size_t i = 0; i < t.size(); i++) {
      Row row;
      row.n = all;
      for (size_t v = 0; v < nv; v++)
        if (lv[v] >= 0 || rv[v] >= 0) row.v[cols[names[v]]] = of[v] >= 0 ? t(i, of[v]) : ID_NO_VALUE;
      e.add(row);
    }
  }
  assertBag(res._data, e, "number of rows of the union", "rows of the union");
  symx_assert(res._resultTypes.size() == all, "one type per column of the union");
  for (size_t v = 0; v < nv; v++) {
    if (lv[v] >= 0) symx_assert(res._resultTypes[cols[names[v]]] == l->types[lv[v]], "type of a left column");
    else if (rv[v] >= 0) symx_assert(res._resultTypes[cols[names[v]]] == r->types[rv[v]], "type of a right-only column");
  }
  observeTable(res._data);
  symx_cover("end");
}

// inputs larger than the unit in which rows are copied between timeout checks
extern "C" void c03_unionLarge() {
  World w;
  size_t cols = symx_param("cols", 5), rows = 100000 / cols + symx_param("extra", 1);
  auto l = std::make_shared<TableOp>(w, "A", cols);
  auto r = std::make_shared<TableOp>(w, "B", cols);
  const char* names[] = {"?a", "?b", "?c", "?d", "?e"};
  for (size_t c = 0; c < cols; c++) l->vars[names[c]] = r->vars[names[c]] = c;
  bool big = symx_choice("big", 2);
  (big ? l : r)->data.resize(rows);
  IdTable& t = (big ? l : r)->data;
  for (size_t i = 0; i < rows; i++) t(i, 0) = i;
  // a few arbitrary rows at the borders of the units
  size_t unit = 100000 / cols;
  for (size_t i : {(size_t)0, unit - 1, rows - 1}) t(i, 0) = symx_u64("x");
  IdTable& o = (big ? r : l)->data;
  o.resize(1);
  o(0, 0) = symx_u64("y");
  for (size_t c = 1; c < cols; c++) {
    o(0, c) = c;
    for (size_t i : {(size_t)0, unit - 1, rows - 1}) t(i, c) = i + c;
  }
  Union u(w.qec(), treeOf(w, l), treeOf(w, r));
  ResultTable res(w.alloc());
  compute(u, res);
  symx_assert(res._data.size() == rows + 1, "number of rows of the union");
  // the operator appends left and right; compared as a bag up to that split
  size_t at = res._data(0, 1) == o(0, 1) && res._data(0, cols - 1) == cols - 1 && !big ? 1 : 0;
  bool ok = true;
  for (size_t i = 0; i < rows; i++) ok &= res._data(i + at, 0) == t(i, 0);
  for (size_t i : {(size_t)0, unit - 1, rows - 1})
    for (size_t c = 1; c < cols; c++) ok &= res._data(i + at, c) == i + c;
  ok &= res._data(at ? 0 : rows, 0) == o(0, 0);
  symx_assert(ok, "rows of the union");
  symx_cover("end");
}
