// C22: metadata of relations and of text blocks: storage and lookups.
#include "global/Constants.h"
#include "sx.h"
#include "index/IndexMetaData.h"
#include "index/TextMetaData.h"
#include <vector>

// ___ relations ______________________________________________________________
struct Fields {
  Id id;
  off_t start;
  size_t elements;
  uint8_t mult1, mult2;
  bool functional, blocks;
};
static Fields symbolicFields(Id id) {
  Fields f{id, (off_t)symx_u64("start"), symx_u64("elements"), symx_u8("mult1"), symx_u8("mult2"),
           (bool)symx_range("functional", 0, 1), (bool)symx_choice("blocks", 2)};
  symx_assume((uint64_t)f.start < (1ull << 60));
  symx_assume(f.elements <= MAX_NOF_ELEMENTS);
  return f;
}
static FullRelationMetaData make(const Fields& f, bool otherFirst) {
  FullRelationMetaData m(f.id, f.start, f.elements, 1.0, 1.0, f.functional ^ otherFirst, f.blocks ^ otherFirst);
  if (otherFirst) {  // values that are overwritten
    m.setCol1LogMultiplicity(255);
    m.setCol2LogMultiplicity(170);
    m.setIsFunctional(f.functional);
    m.setHasBlocks(f.blocks);
  }
  m.setCol1LogMultiplicity(f.mult1);
  m.setCol2LogMultiplicity(f.mult2);
  return m;
}
template <class M>
static void checkFields(const M& m, const Fields& f) {
  symx_assert(m.getNofElements() == f.elements, "relation: number of elements");
  symx_assert(m.getNofBytesForFulltextIndex() == f.elements * 16, "relation: number of bytes");
  symx_assert(m.getCol1LogMultiplicity() == f.mult1, "relation: multiplicity of the first column");
  symx_assert(m.getCol2LogMultiplicity() == f.mult2, "relation: multiplicity of the second column");
  symx_assert(m.isFunctional() == f.functional, "relation: functional");
  symx_assert(m.hasBlocks() == f.blocks, "relation: has blocks");
  if (f.blocks) symx_assert(m.getStartOfLhs() == (off_t)(f.start + 16 * f.elements), "relation: start of the list of subjects");
}

static std::vector<unsigned char> contents(const char* name) {
  ad_utility::File in(name, "r");
  std::vector<unsigned char> b(in.sizeOfFile());
  in.readFromBeginning(b.data(), b.size());
  return b;
}

extern "C" void c22_fields() {
  Fields f = symbolicFields(symx_u64("id"));
  bool other = symx_choice("other", 2);
  FullRelationMetaData m = make(f, other);
  checkFields(m, f);
  symx_assert((m._relId == f.id) & (m._startFullIndex == f.start), "relation: id and offset");
  {
    ad_utility::File out("m", "w");
    out << m;
  }
  auto b = contents("m");
  symx_assert(b.size() == m.bytesRequired(), "relation: size of the stored metadata");
  FullRelationMetaData r;
  r.createFromByteBuffer(b.data());
  checkFields(r, f);
  symx_assert((r._relId == f.id) & (r._startFullIndex == f.start), "relation: stored id and offset");
  symx_assert(r == m, "relation: equal to what was stored");
  symx_cover("end");
}

// Blocks with ascending first ids and offsets.
static BlockBasedRelationMetaData symbolicBlocks(size_t n) {
  std::vector<BlockMetaData> v;
  for (size_t i = 0; i < n; i++) {
    BlockMetaData b{symx_u64("first"), (off_t)symx_u64("offset")};
    symx_assume((uint64_t)b._startOffset < (1ull << 60));
    if (i > 0) {
      symx_assume(v.back()._firstLhs < b._firstLhs);
      symx_assume(v.back()._startOffset < b._startOffset);
    }
    v.push_back(b);
  }
  off_t rhs = symx_u64("rhs"), after = symx_u64("after");
  symx_assume(((uint64_t)rhs < (1ull << 60)) & ((uint64_t)after < (1ull << 60)) & (rhs <= after));
  if (n > 0) symx_assume(v.back()._startOffset < rhs);
  return BlockBasedRelationMetaData(rhs, after, v);
}
static bool same(const BlockBasedRelationMetaData& a, const BlockBasedRelationMetaData& b) {
  bool r = (a._startRhs == b._startRhs) & (a._offsetAfter == b._offsetAfter) & (a._blocks.size() == b._blocks.size());
  for (size_t i = 0; i < a._blocks.size() && i < b._blocks.size(); i++)
    r &= (a._blocks[i]._firstLhs == b._blocks[i]._firstLhs) & (a._blocks[i]._startOffset == b._blocks[i]._startOffset);
  return r;
}

extern "C" void c22_blocks() {
  size_t n = 1 + symx_choice("n", symx_param("n", 5));
  auto m = symbolicBlocks(n);
  Id lhs = symx_u64("lhs");
  auto block = m.getBlockStartAndNofBytesForLhs(lhs);
  auto follow = m.getFollowBlockForLhs(lhs);
  if (lhs < m._blocks[0]._firstLhs) {
    symx_assert(block.second == 0, "block: nothing before the first subject");
    symx_assert(block.first == m._blocks[0]._startOffset, "block: a valid offset");
    symx_cover("before");
  } else {
    // The last block that starts at or before the subject has its rows.
    size_t at = 0;
    for (size_t i = 1; i < n; i++) at += m._blocks[i]._firstLhs <= lhs;
    at = symx_concretize(at);
    size_t next = at + 1 < n ? at + 1 : at;
    auto end = [&](size_t i) { return i + 1 < n ? m._blocks[i + 1]._startOffset : m._startRhs; };
    symx_assert(block.first == m._blocks[at]._startOffset, "block: start of the block with the subject");
    symx_assert((off_t)(block.first + block.second) == end(at), "block: end of the block with the subject");
    symx_assert(follow.first == m._blocks[next]._startOffset, "follow block: start");
    symx_assert((off_t)(follow.first + follow.second) == end(next), "follow block: end");
  }
  {
    ad_utility::File out("b", "w");
    out << m;
  }
  auto b = contents("b");
  symx_assert(b.size() == m.bytesRequired(), "blocks: size of the stored metadata");
  BlockBasedRelationMetaData r;
  r.createFromByteBuffer(b.data());
  symx_assert(same(r, m), "blocks: equal to what was stored");
  symx_cover("end");
}

// ___ permutations ___________________________________________________________
template <class In, class Out, class Setup, class Reopen>
static void permutation(size_t n, bool dense, Setup setup, Reopen reopen) {
  std::vector<Fields> fields;
  std::vector<BlockBasedRelationMetaData> blocks;
  off_t after = 0;
  size_t elements = 0;
  std::string name = symx_choice("named", 2) ? "graph" : "";
  {
    Out meta;
    setup(meta);
    meta.setName(name);
    for (size_t i = 0; i < n; i++) {
      Fields f = symbolicFields(dense ? symx_choice("id", 3) : symx_u64("id"));
      // ids are ascending; the largest three have another meaning
      if (i > 0) symx_assume(fields.back().id < f.id);
      symx_assume(f.id < ID_NO_VALUE);
      symx_assume(f.elements > 0);
      BlockBasedRelationMetaData b;
      if (f.blocks) b = symbolicBlocks(symx_choice("blocks", 2) + 1);
      off_t end = f.blocks ? b._offsetAfter : (off_t)(f.start + 16 * f.elements);
      if (end > after) after = end;
      elements += f.elements;
      meta.add(make(f, false), b);
      fields.push_back(f);
      blocks.push_back(b);
    }
    meta.calculateExpensiveStatistics();
    ad_utility::File out("p", "w");
    out.write("contents", 8);
    meta.appendToFile(&out);
  }
  In r;
  reopen(r);
  r.readFromFile("p");
  symx_assert(r.getName() == name, "permutation: name");
  symx_assert(r.getVersion() == V_CURRENT, "permutation: version");
  symx_assert(r.getOffsetAfter() == after, "permutation: end of the data");
  symx_assert(r.getNofTriples() == elements, "permutation: number of triples");
  symx_assert(r.getNofDistinctC1() == n, "permutation: number of relations");
  for (size_t i = 0; i < n; i++) {
    symx_assert(r.relationExists(fields[i].id), "permutation: stored relations exist");
    auto m = r.getRmd(fields[i].id);
    checkFields(m, fields[i]);
    symx_assert(m._rmdPairs._relId == fields[i].id, "permutation: relation id");
    symx_assert(m._rmdPairs._startFullIndex == fields[i].start, "permutation: relation offset");
    symx_assert((m._rmdBlocks != nullptr) == fields[i].blocks, "permutation: relation has blocks");
    if (fields[i].blocks) symx_assert(same(*m._rmdBlocks, blocks[i]), "permutation: blocks of a relation");
  }
  Id probe = dense ? symx_choice("probe", 5) : symx_u64("probe");
  bool there = false;
  for (auto& f : fields) there |= f.id == probe;
  symx_assert(r.relationExists(probe) == there, "permutation: only stored relations exist");
  symx_cover("end");
}
extern "C" void c22_sparse() {
  permutation<IndexMetaDataHmap, IndexMetaDataHmap>(symx_param("n", 2), false, [](auto&) {}, [](auto&) {});
}
extern "C" void c22_dense() {
  permutation<IndexMetaDataMmapView, IndexMetaDataMmap>(
      symx_param("n", 2), true,
      [](auto& m) { m.setup(4, FullRelationMetaData::empty, std::string("p.meta-data")); },
      [](auto& m) { m.setup(std::string("p.meta-data"), ad_utility::ReuseTag()); });
}

// ___ text blocks ____________________________________________________________
static ContextListMetaData symbolicList() {
  return ContextListMetaData{symx_u64("elements"), (off_t)symx_u64("contexts"), (off_t)symx_u64("words"), (off_t)symx_u64("scores"),
                             (off_t)symx_u64("last")};
}
static bool same(const ContextListMetaData& a, const ContextListMetaData& b) {
  return (a._nofElements == b._nofElements) & (a._startContextlist == b._startContextlist) &
         (a._startWordlist == b._startWordlist) & (a._startScorelist == b._startScorelist) & (a._lastByte == b._lastByte);
}
extern "C" void c22_text() {
  size_t words = 1 + symx_choice("words", symx_param("words", 3)), entities = symx_choice("entities", symx_param("entities", 3) + 1);
  std::vector<TextBlockMetaData> blocks;
  TextMetaData meta;
  for (size_t i = 0; i < words + entities; i++) {
    Id first, last;
    if (i < words) {  // the word ids are contiguous
      first = i == 0 ? 0 : blocks.back()._lastWordId + 1;
      last = symx_u64("lastword");
      symx_assume((first <= last) & (last < ID_NO_VALUE));
    } else {
      first = last = symx_u64("entity");
      symx_assume(first < ID_NO_VALUE);
      if (i > words) symx_assume(blocks.back()._lastWordId < first);
    }
    TextBlockMetaData b{first, last, symbolicList(), symbolicList()};
    blocks.push_back(b);
    meta.addBlock(b);
  }
  uint64_t n[4];
  for (auto& x : n) x = symx_u64("number");
  meta.setNofEntities(entities);
  meta.setNofEntityContexts(n[0]);
  meta.setNofTextRecords(n[1]);
  meta.setNofWordPostings(n[2]);
  meta.setNofEntityPostings(n[3]);
  meta.setName("text");
  symx_assert(meta.getOffsetAfter() == (off_t)(blocks.back()._entityCl._lastByte + 1), "text: end of the blocks");
  {
    ad_utility::File out("t", "w");
    out << meta;
  }
  auto b = contents("t");
  TextMetaData r;
  r.createFromByteBuffer(b.data());
  symx_assert((r.getNofEntities() == entities) & (r.getNofEntityContexts() == n[0]) & (r.getNofTextRecords() == n[1]) &
                  (r.getNofWordPostings() == n[2]) & (r.getNofEntityPostings() == n[3]) & (r.getName() == "text"),
              "text: numbers and name");
  symx_assert(r.getBlockCount() == words + entities, "text: number of blocks");
  for (size_t i = 0; i < blocks.size(); i++) {
    auto& x = r.getBlockById(i);
    symx_assert((x._firstWordId == blocks[i]._firstWordId) & (x._lastWordId == blocks[i]._lastWordId) &
                    same(x._cl, blocks[i]._cl) & same(x._entityCl, blocks[i]._entityCl),
                "text: equal to the stored block");
    symx_assert(x._cl.hasMultipleWords() == (blocks[i]._cl._startWordlist < blocks[i]._cl._startScorelist), "text: several words");
  }
  // Words of one block.
  Id lower = symx_u64("lower"), upper = symx_u64("upper");
  size_t at = symx_choice("block", words);
  symx_assume((lower <= upper) & (blocks[at]._firstWordId <= lower) & (upper <= blocks[at]._lastWordId));
  symx_assert(&r.getBlockInfoByWordRange(lower, upper) == &r.getBlockById(at), "text: block of a range of words");
  Id eid = symx_u64("eid");
  size_t found = 0;
  for (size_t i = words; i < blocks.size(); i++)
    if (blocks[i]._firstWordId == eid) found = i;
  symx_assert(r.existsTextBlockForEntityId(eid) == (found > 0), "text: whether an entity has a block");
  if (found > 0) symx_assert(&r.getBlockInfoByEntityId(eid) == &r.getBlockById(found), "text: block of an entity");
  symx_cover("end");
}
