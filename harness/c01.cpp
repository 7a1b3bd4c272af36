// C01: equi-joins return exactly the relational join.
#include "kb.h"
#include "engine/IndexScan.h"
#include "engine/Join.h"

// n left and m right rows (sizes symbolic up to the parameters), join columns
// at positions lc and rc, every other cell a distinct tag
static std::shared_ptr<TableOp> side(World& w, const char* name, size_t cols, size_t jc, size_t n, Id tag,
                                     const char* var) {
  auto t = std::make_shared<TableOp>(w, name, cols);
  t->data.resize(n);
  for (size_t i = 0; i < n; i++)
    for (size_t c = 0; c < cols; c++) t->data(i, c) = c == jc ? symx_u64(var) : tag + i * 10 + c;
  assumeSorted(t->data, {jc});
  t->sorted = {jc};
  return t;
}

// left columns followed by the right columns without the join column
static void expectJoin(Expected& e, const IdTable& a, size_t lc, const IdTable& b, size_t rc) {
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < b.size(); j++) {
      Row r;
      for (size_t c = 0; c < a.cols(); c++) r.v[r.n++] = a(i, c);
      for (size_t c = 0; c < b.cols(); c++)
        if (c != rc) r.v[r.n++] = b(j, c);
      e.add(r, a(i, lc) == b(j, rc));
    }
}

extern "C" void c01_join() {
  World w;
  size_t lw = symx_param("lw", 2), rw = symx_param("rw", 2);
  size_t lc = symx_choice("lc", lw), rc = symx_choice("rc", rw);
  size_t n = symx_choice("n", symx_param("n", 3) + 1), m = symx_choice("m", symx_param("m", 3) + 1);
  auto l = side(w, "L", lw, lc, n, 1000, "l");
  auto r = side(w, "R", rw, rc, m, 2000, "r");
  Join j(w.qec(), treeOf(w, l), treeOf(w, r), lc, rc);
  ResultTable res(w.alloc());
  compute(j, res);
  Expected e;
  expectJoin(e, l->data, lc, r->data, rc);
  symx_assert(res._data.cols() == lw + rw - 1, "width of the join result");
  assertBag(res._data, e, "number of joined rows", "joined rows");
  observeTable(res._data);
  symx_cover("end");
}

// one side more than a thousand times larger than the other: p arbitrary
// values, a long run of fixed increasing values, q arbitrary values
extern "C" void c01_gallop() {
  World w;
  size_t p = symx_param("p", 4), q = symx_param("q", 2), m = symx_param("m", 2);
  bool leftLarger = symx_param("left", 1);
  size_t N = 1001 * m + symx_choice("extra", 2);
  const Id B = 100000;
  auto big = std::make_shared<TableOp>(w, leftLarger ? "A" : "B", 2);
  auto small = std::make_shared<TableOp>(w, leftLarger ? "B" : "A", 2);
  size_t bc = symx_param("bc", 0), sc = symx_param("sc", 0);
  big->data.resize(N);
  for (size_t i = 0; i < N; i++) {
    Id v = i < p ? symx_range("b", 0, B) : i >= N - q ? symx_range("b", B + N, ~0ull) : B + i;
    big->data(i, bc) = v;
    big->data(i, 1 - bc) = 1000000 + i;
  }
  for (size_t i = 1; i < N; i++)
    if (i < p || i >= N - q) symx_assume(big->data(i - 1, bc) <= big->data(i, bc));
  small->data.resize(m);
  for (size_t i = 0; i < m; i++) {
    Id v = symx_u64("s");
    symx_assume((v < B + p + 2) | (v >= B + N - q - 1) | (v == B + N / 2));
    small->data(i, sc) = v;
    small->data(i, 1 - sc) = 2000000 + i;
  }
  assumeSorted(small->data, {sc});
  ResultTable res(w.alloc());
  auto& l = leftLarger ? big : small;
  auto& r = leftLarger ? small : big;
  size_t lc = leftLarger ? bc : sc, rc = leftLarger ? sc : bc;
  Join j(w.qec(), treeOf(w, l), treeOf(w, r), lc, rc);
  compute(j, res);
  symx_assert(res._data.cols() == 3, "width of the join result");
  size_t want = 0;
  // the assumption above leaves only these positions as possible matches
  for (size_t i = 0; i < N; i++)
    for (size_t k = 0; k < m && (i < p + 2 || i >= N - q - 1 || i == N / 2); k++) want += big->data(i, bc) == small->data(k, sc);
  symx_assert(res._data.size() == want, "number of joined rows");
  // every row is a match and none occurs twice (the tags are concrete)
  bool ok = true;
  for (size_t i = 0; i < res._data.size(); i++) {
    Id lt = res._data(i, 1 - lc), v = res._data(i, lc), rt = res._data(i, 2);
    Id bt = leftLarger ? lt : rt, st = leftLarger ? rt : lt;
    bool in = (bt >= 1000000) & (bt < 1000000 + N) & (st >= 2000000) & (st < 2000000 + m);
    symx_assert(in, "joined rows carry the cells of the inputs");
    ok &= (big->data(bt - 1000000, bc) == v) & (small->data(st - 2000000, sc) == v);
    for (size_t k = 0; k < i; k++)
      ok &= !((res._data(k, 1 - lc) == lt) & (res._data(k, 2) == rt));
  }
  symx_assert(ok, "joined rows");
  symx_observe(res._data.size());
  symx_cover("end");
}

#include "engine/MultiColumnJoin.h"
// joins on two columns, arbitrary values, every position of the join columns
extern "C" void c01_multi() {
  World w;
  size_t lw = symx_param("lw", 3), rw = symx_param("rw", 3);
  size_t n = symx_choice("n", symx_param("n", 2) + 1), m = symx_choice("m", symx_param("m", 2) + 1);
  // join columns: two distinct columns on each side
  size_t l0 = symx_choice("l0", lw), l1 = (l0 + 1 + symx_choice("l1", lw - 1)) % lw;
  size_t r0 = symx_choice("r0", rw), r1 = (r0 + 1 + symx_choice("r1", rw - 1)) % rw;
  auto mk = [&](const char* name, size_t cols, size_t c0, size_t c1, size_t n, Id tag) {
    auto t = std::make_shared<TableOp>(w, name, cols);
    t->data.resize(n);
    for (size_t i = 0; i < n; i++)
      for (size_t c = 0; c < cols; c++)
        t->data(i, c) = c == c0 || c == c1 ? symx_u64(name) : tag + i * 10 + c;
    assumeSorted(t->data, {c0, c1});
    t->sorted = {c0, c1};
    for (size_t c = 0; c < cols; c++) t->vars[std::string("?") + name + std::to_string(c)] = c;
    return t;
  };
  auto l = mk("L", lw, l0, l1, n, 1000);
  auto r = mk("R", rw, r0, r1, m, 2000);
  MultiColumnJoin j(w.qec(), treeOf(w, l), treeOf(w, r), {{l0, r0}, {l1, r1}});
  ResultTable res(w.alloc());
  compute(j, res);
  symx_assert(res._data.cols() == lw + rw - 2, "width of the join result");
  Expected e;
  for (size_t i = 0; i < n; i++)
    for (size_t k = 0; k < m; k++) {
      Row row;
      for (size_t c = 0; c < lw; c++) row.v[row.n++] = l->data(i, c);
      for (size_t c = 0; c < rw; c++)
        if (c != r0 && c != r1) row.v[row.n++] = r->data(k, c);
      e.add(row, (l->data(i, l0) == r->data(k, r0)) & (l->data(i, l1) == r->data(k, r1)));
    }
  assertBag(res._data, e, "number of joined rows", "joined rows");
  observeTable(res._data);
  symx_cover("end");
}

// The whole search: every value of the last row of the small side against a
// large side of fixed, evenly spaced values.
extern "C" void c01_gallopAll() {
  World w;
  bool leftLarger = symx_param("left", 1);
  const size_t sizes[] = {1001, 1600};
  size_t N = sizes[symx_choice("size", 2)];
  const Id B = 100000;
  auto big = std::make_shared<TableOp>(w, leftLarger ? "A" : "B", 2);
  auto small = std::make_shared<TableOp>(w, leftLarger ? "B" : "A", 2);
  size_t first = symx_param("first", 0);
  size_t m = first ? 2 : 1;
  if (first) N = N == 1001 ? 2007 : 2600;
  big->data.resize(N);
  for (size_t i = 0; i < N; i++) {
    big->data(i, 0) = B + 2 * i;
    big->data(i, 1) = 1000000 + i;
  }
  small->data.resize(m);
  Id v0 = B + 2 * first;
  Id v = symx_u64("s");
  if (first) {
    small->data(0, 0) = v0;
    small->data(0, 1) = 2000000;
    symx_assume(v >= v0);
  }
  small->data(m - 1, 0) = v;
  small->data(m - 1, 1) = 2000000 + m - 1;
  ResultTable res(w.alloc());
  auto& l = leftLarger ? big : small;
  auto& r = leftLarger ? small : big;
  Join j(w.qec(), treeOf(w, l), treeOf(w, r), 0, 0);
  compute(j, res);
  bool hit = (v >= B) & (v < B + 2 * N) & (v % 2 == 0);
  size_t want = (m - 1) + hit;
  symx_assert(res._data.size() == want, "number of joined rows");
  bool ok = true;
  for (size_t i = 0; i < res._data.size(); i++) {
    Id key = res._data(i, 0), lt = res._data(i, 1), rt = res._data(i, 2);
    Id bt = leftLarger ? lt : rt, st = leftLarger ? rt : lt;
    ok &= (key == (i + 1 == m ? v : v0)) & (B + 2 * (bt - 1000000) == key) & (st == 2000000 + i);
  }
  symx_assert(ok, "joined rows");
  symx_observe(res._data.size());
  symx_cover("end");
}

// a join with all triples of the index, made by one scan per value
extern "C" void c01_scans() {
  World w;
  size_t n = symx_param("n", 2), m = symx_param("m", 3);
  static const int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  static const IndexScan::ScanType types[6] = {IndexScan::FULL_INDEX_SCAN_SPO, IndexScan::FULL_INDEX_SCAN_SOP,
                                               IndexScan::FULL_INDEX_SCAN_PSO, IndexScan::FULL_INDEX_SCAN_POS,
                                               IndexScan::FULL_INDEX_SCAN_OSP, IndexScan::FULL_INDEX_SCAN_OPS};
  size_t which = symx_choice("order", 6);
  const int* o = orders[which];
  for (size_t i = 0; i < n; i++) {
    KbTriple t{50 + i, 60 + i, 70 + i};
    t[o[0]] = symx_u64("triple");
    if (i) symx_assume(kb[i - 1][o[0]] <= t[o[0]]);
    kb.push_back(t);
  }
  auto scan = std::make_shared<IndexScan>(w.qec(), types[which]);
  scan->setSubject("?s");
  scan->setPredicate("?p");
  scan->setObject("?o");
  scan->_sizeEstimate = 10;
  scan->_multiplicity = {1, 1, 1};
  bool scanLeft = symx_choice("side", 2);
  size_t jc = symx_choice("column", 2), rows = symx_choice("rows", m + 1);
  auto t = side(w, scanLeft ? "Z" : "A", 2, jc, rows, 1000, "row");
  t->types = {Type::VERBATIM, Type::FLOAT};
  Join j(w.qec(), treeOf(w, scan, QueryExecutionTree::SCAN), treeOf(w, t), 0, jc);
  ResultTable res(w.alloc());
  compute(j, res);
  Expected e;
  for (auto& k : kb)
    for (size_t i = 0; i < rows; i++) {
      Id a = k[o[1]], b = k[o[2]], x = t->data(i, 0), y = t->data(i, 1);
      e.add(scanLeft ? Row{a, b, x, y} : Row{x, y, a, b}, k[o[0]] == t->data(i, jc));
    }
  symx_assert(res._data.cols() == 4, "width of the join result");
  assertBag(res._data, e, "number of joined rows", "joined rows");
  symx_assert(isSorted(res._data, {(scanLeft ? 2 : 0) + jc}), "sorted by the join column");
  symx_assert(res._sortedBy == std::vector<size_t>{(scanLeft ? 2 : 0) + jc} && j.resultSortedOn() == res._sortedBy,
              "announced as sorted by the join column");
  for (size_t c = 0; c < 2; c++)
    symx_assert(res.getResultType(c + (scanLeft ? 2 : 0)) == t->types[c] && res.getResultType(c + (scanLeft ? 0 : 2)) == Type::KB,
                "kinds of values");
  observeTable(res._data);
  symx_cover("end");
}
