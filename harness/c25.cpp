// C25: solution tables behave like a sequence of rows.
#include <vector>

#include "engine/IdTable.h"
#include "sx.h"

static const size_t MAX = 40;
struct Ref {
  Id v[MAX][3];
  size_t n = 0;
  void insert(size_t pos, const Ref& o, size_t b, size_t e) {
    Ref r;
    for (size_t i = 0; i < pos; i++) r.add(*this, i);
    for (size_t i = b; i < e; i++) r.add(o, i);
    for (size_t i = pos; i < n; i++) r.add(*this, i);
    *this = r;
  }
  void erase(size_t b, size_t e) {
    Ref r;
    for (size_t i = 0; i < n; i++)
      if (i < b || i >= e) r.add(*this, i);
    *this = r;
  }
  void add(const Ref& o, size_t i) {
    for (size_t c = 0; c < 3; c++) v[n][c] = o.v[i][c];
    n++;
  }
};
template <class T>
static bool same(const T& t, const Ref& r, size_t cols) {
  bool ok = (t.size() == r.n) & (t.rows() == r.n) & (t.cols() == cols);
  if (t.size() != r.n) return false;
  for (size_t i = 0; i < r.n; i++)
    for (size_t c = 0; c < cols; c++) ok &= (t(i, c) == r.v[i][c]) & (t[i][c] == r.v[i][c]);
  size_t i = 0;
  for (auto it = t.begin(); it != t.end(); ++it, ++i)
    for (size_t c = 0; c < cols; c++) ok &= (*it)[c] == r.v[i][c];
  ok &= i == r.n;
  return ok;
}
static void fresh(Ref& r, size_t cols) {
  for (size_t c = 0; c < 3; c++) r.v[r.n][c] = c < cols ? symx_u64("v") : 0;
  r.n++;
}
template <class T>
static void pushList(T& t, const Id* v, size_t cols) {
  if (cols == 1) t.push_back({v[0]});
  if (cols == 2) t.push_back({v[0], v[1]});
  if (cols == 3) t.push_back({v[0], v[1], v[2]});
}
using Alloc = ad_utility::AllocatorWithLimit<Id>;
static Alloc alloc() { return Alloc(ad_utility::makeAllocationMemoryLeftThreadsafeObject(1ul << 40)); }

// the width is known at compile time (COLS > 0) or not (COLS == 0)
template <int COLS, int WIDTH>
static void operations() {
  auto al = alloc();
  using T = IdTableStatic<COLS>;
  T t(WIDTH, al), o(WIDTH, al);
  Ref r, q;
  size_t start = symx_choice("rows", symx_param("rows", 4));
  for (size_t i = 0; i < start; i++) {
    fresh(r, WIDTH);
    pushList(t, r.v[i], WIDTH);
  }
  for (size_t i = 0; i < 3; i++) {
    fresh(q, WIDTH);
    pushList(o, q.v[i], WIDTH);
  }
  size_t steps = symx_param("n", 2);
  for (size_t s = 0; s < steps; s++) {
    size_t op = symx_choice("op", 14);
    if (op == 0) {
      fresh(r, WIDTH);
      pushList(t, r.v[r.n - 1], WIDTH);
    } else if (op == 1) {
      size_t i = symx_choice("i", 3);
      t.push_back(o, i);
      r.add(q, i);
    } else if (op == 2) {
      size_t i = symx_choice("i", 3);
      const T& co = o;
      t.push_back(co[i]);
      r.add(q, i);
    } else if (op == 3) {
      fresh(r, WIDTH);
      if (symx_choice("emplace", 2))
        t.emplace_back();
      else
        t.push_back();
      for (size_t c = 0; c < WIDTH; c++) t(t.size() - 1, c) = r.v[r.n - 1][c];
    } else if (op == 4) {
      t.pop_back();
      if (r.n) r.n--;
    } else if (op == 5) {
      size_t pos = symx_choice("pos", r.n + 1), b = symx_choice("b", 4), e = symx_choice("e", 4);
      symx_assume(b <= e);
      t.insert(t.begin() + pos, o.cbegin() + b, o.cbegin() + e);
      r.insert(pos, q, b, e);
    } else if (op == 6) {
      if (r.n == 0) continue;
      size_t pos = symx_choice("pos", r.n);
      t.erase(t.begin() + pos);
      r.erase(pos, pos + 1);
    } else if (op == 7) {
      size_t b = symx_choice("b", r.n + 1), e = symx_choice("e", r.n + 1);
      symx_assume(b <= e);
      t.erase(t.begin() + b, t.begin() + e);
      r.erase(b, e);
    } else if (op == 8) {
      size_t n = symx_choice("size", 7);
      size_t old = r.n;
      t.resize(n);
      r.n = old < n ? old : n;
      while (r.n < n) {
        fresh(r, WIDTH);
        for (size_t c = 0; c < WIDTH; c++) t(r.n - 1, c) = r.v[r.n - 1][c];
      }
    } else if (op == 9) {
      t.reserve(symx_choice("size", 9));
    } else if (op == 10) {
      // the copy and the original are independent
      T copy(t);
      symx_assert(copy == t, "a copy equals the original");
      if (r.n) copy(0, 0) = ~r.v[0][0];
      symx_assert(same(t, r, WIDTH), "changing a copy leaves the original unchanged");
      if (r.n) {
        symx_assert(!(copy == t), "tables with different cells differ");
        copy(0, 0) = r.v[0][0];
      }
      if (symx_choice("move", 2))
        t = std::move(copy);
      else
        t = copy;
    } else if (op == 11) {
      std::swap(t, o);
      std::swap(r, q);
      while (q.n < 3) {
        fresh(q, WIDTH);
        pushList(o, q.v[q.n - 1], WIDTH);
      }
    } else if (op == 12) {
      auto dyn = t.moveToDynamic();
      symx_assert(same(dyn, r, WIDTH), "the dynamic table has the same rows");
      fresh(r, WIDTH);
      pushList(dyn, r.v[r.n - 1], WIDTH);
      t = dyn.template moveToStatic<COLS>();
    } else {
      const T& ct = t;
      auto view = ct.template asStaticView<WIDTH>();
      symx_assert(same(view, r, WIDTH), "a view has the same rows");
      auto clone = view.clone();
      symx_assert(same(clone, r, WIDTH), "a clone has the same rows");
      fresh(r, WIDTH);
      auto grown = IdTableStatic<WIDTH>(clone);
      pushList(grown, r.v[r.n - 1], WIDTH);
      symx_assert(same(grown, r, WIDTH), "a clone can be extended");
      auto dyn = grown.moveToDynamic();
      t = dyn.template moveToStatic<COLS>();
    }
    symx_assert(same(t, r, WIDTH), "the table has exactly the expected rows");
    if (r.n) {
      bool ok = true;
      const T& ct = t;
      for (size_t c = 0; c < WIDTH; c++) ok &= (t.back()[c] == r.v[r.n - 1][c]) & (ct.back()[c] == r.v[r.n - 1][c]);
      symx_assert(ok, "back is the last row");
    }
  }
  symx_observe(t.size());
  for (size_t i = 0; i < t.size(); i++) symx_observe(t(i, 0));
  symx_cover("end");
}
extern "C" void c25_table() {
  size_t width = symx_param("width", 1);
  if (symx_param("fixed", 0)) {
    if (width == 1) operations<1, 1>();
    if (width == 2) operations<2, 2>();
    if (width == 3) operations<3, 3>();
  } else {
    if (width == 1) operations<0, 1>();
    if (width == 2) operations<0, 2>();
    if (width == 3) operations<0, 3>();
  }
}
// every storage growth step, with rows appended one by one
extern "C" void c25_grow() {
  auto al = alloc();
  IdTable t(2, al);
  size_t n = symx_param("n", 30);
  Ref r;
  for (size_t i = 0; i < n; i++) {
    fresh(r, 2);
    pushList(t, r.v[i], 2);
    symx_assert(same(t, r, 2), "appending keeps the rows");
  }
  symx_cover("end");
}
// rows as values: copied, moved and swapped as a sort does
extern "C" void c25_rows() {
  auto al = alloc();
  IdTable t(2, al);
  Ref r;
  for (size_t i = 0; i < 3; i++) {
    fresh(r, 2);
    pushList(t, r.v[i], 2);
  }
  size_t steps = symx_param("n", 2);
  for (size_t s = 0; s < steps; s++) {
    size_t op = symx_choice("op", 4), i = symx_choice("i", 3), j = symx_choice("j", 3);
    Id x[2] = {r.v[i][0], r.v[i][1]};
    if (op == 0) {
      auto it = t.begin() + i, jt = t.begin() + j;
      std::swap(*it, *jt);
      for (size_t c = 0; c < 2; c++) {
        r.v[i][c] = r.v[j][c];
        r.v[j][c] = x[c];
      }
    } else if (op == 1) {
      auto it = t.begin() + i, jt = t.begin() + j;
      *jt = *it;
      for (size_t c = 0; c < 2; c++) r.v[j][c] = x[c];
    } else if (op == 2) {
      auto it = t.begin() + i, jt = t.begin() + j;
      auto row = std::move(*it);
      auto other(row);
      other = row;
      symx_assert(other == row, "a copied row equals the original");
      other = std::move(row);
      *jt = std::move(other);
      for (size_t c = 0; c < 2; c++) r.v[j][c] = x[c];
    } else {
      auto it = t.end();
      it -= 3 - i;
      auto jt = it++;
      it--;
      --it;
      ++it;
      symx_assert((it == jt) & (it - t.begin() == (ssize_t)i) & !(it < jt) & (it <= jt), "iterators count rows");
      Id y[2] = {symx_u64("y"), symx_u64("y")};
      for (size_t c = 0; c < 2; c++) (*it)[c] = r.v[i][c] = y[c];
      symx_assert(t[i][1] == y[1], "rows are references into the table");
    }
    symx_assert(same(t, r, 2), "the table has exactly the expected rows");
  }
  symx_cover("end");
}
