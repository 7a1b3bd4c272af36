// C34: the rows and columns of a result that reach the user.
#include <sstream>

#include "./qe.h"

static std::shared_ptr<QueryExecutionTree> result(World& w, size_t rows) {
  auto op = std::make_shared<TableOp>(w, "T", 3);
  op->types = {Type::VERBATIM, Type::LOCAL_VOCAB, Type::VERBATIM};
  op->vars["?a"] = 0;
  op->vars["?b"] = 1;
  op->vars["?c"] = 2;
  for (size_t i = 0; i < rows; i++) {
    op->localVocab->push_back("w" + std::to_string(i));
    op->data.push_back({10 + i, i, 20 + i});
  }
  return treeOf(w, op);
}
static std::string cell(const std::string& var, size_t row) {
  if (var == "?a") return std::to_string(10 + row);
  if (var == "?b" || var == "TEXT(?b)") return "w" + std::to_string(row);
  if (var == "?c") return std::to_string(20 + row);
  return "";
}
static const std::vector<std::vector<std::string>> selections = {
    {"?a", "?b", "?c"}, {"?c", "?a"}, {"?b", "?x", "?a"}, {"?a", "?a"}, {"TEXT(?b)"}, {"?x"}};

extern "C" void c34_text() {
  World w;
  size_t rows = symx_choice("rows", symx_param("rows", 4));
  auto t = result(w, rows);
  uint64_t limit = symx_u64("limit"), offset = symx_u64("offset");
  const auto& vars = selections[symx_choice("vars", selections.size())];
  char sep = symx_choice("sep", 2) ? ',' : '\t';
  std::ostringstream out;
  t->writeResultToStream(out, vars, limit, offset, sep);
  std::string want;
  for (size_t i = 0; i < rows; i++)
    if (i >= offset && i - offset < limit)
      for (size_t k = 0; k < vars.size(); k++) want += cell(vars[k], i) + (k + 1 < vars.size() ? sep : '\n');
  std::string got = out.str();
  symx_assert(got == want, "exactly the rows from the offset up to the limit, with the selected columns");
  symx_observe(got.size());
  symx_cover("end");
}
extern "C" void c34_json() {
  World w;
  size_t rows = symx_choice("rows", symx_param("rows", 4));
  auto t = result(w, rows);
  uint64_t limit = symx_u64("limit"), offset = symx_u64("offset");
  const auto& vars = selections[symx_choice("vars", selections.size())];
  std::string got = t->writeResultAsJson(vars, limit, offset).dump();
  std::string want = "[";
  for (size_t i = 0; i < rows; i++)
    if (i >= offset && i - offset < limit) {
      want += want.size() > 1 ? ",[" : "[";
      for (size_t k = 0; k < vars.size(); k++) {
        if (k) want += ",";
        std::string c = cell(vars[k], i);
        want += c.empty() ? "null" : "\"" + c + "\"";
      }
      want += "]";
    }
  want += "]";
  symx_assert(got == want, "exactly the rows from the offset up to the limit, with the selected columns");
  symx_observe(got.size());
  symx_cover("end");
}
