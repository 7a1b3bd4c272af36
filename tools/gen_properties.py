#!/usr/bin/env python3
"""Single source of properties.jsonl (run from /verif: python3 tools/gen_properties.py)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=hook)))


prop("C01", "Equi-joins return exactly the relational join",
     "Joining two solution tables that are sorted on their join columns yields, as a bag of rows, exactly every "
     "combination of a left and a right row that agree on all join columns, with the left columns followed by the "
     "right non-join columns, whatever the sizes of the two inputs and the internal join strategy. "
     "No matching combination is lost, duplicated or invented.",
     ["inputs", "configurations"],
     "all table contents, sizes, column widths, join column positions and all strategies (merge, galloping in either "
     "direction, several columns at once, filter by a two-column table)",
     "EngineTest/MultiColumnJoinTest join a handful of hand-written tables; the galloping strategies are only reached "
     "with thousands of rows and one data pattern.",
     ["src/engine/Join.cpp", "src/engine/Join.h", "src/engine/MultiColumnJoin.h", "src/engine/Engine.h"],
     [("merge join", "src/engine/Join.cpp Join::join"),
      ("galloping join", "src/engine/Join.cpp Join::doGallopInnerJoin"),
      ("multi column merge join", "src/engine/MultiColumnJoin.h computeMultiColumnJoin"),
      ("two column filter", "src/engine/Engine.h Engine::filter")],
     ["contents of the result table"])

prop("C02", "OPTIONAL keeps every mandatory row, matched or padded",
     "For an OPTIONAL combination of two solution tables sorted on the join columns, every mandatory row appears once "
     "per agreeing row of the optional side, or exactly once with undefined values in the optional side's own columns "
     "when none agrees. No other row appears.",
     ["inputs", "configurations"],
     "all table contents, sizes, join column positions, and which of the two sides is optional",
     "EngineTest has two hand-written optional join examples.",
     ["src/engine/OptionalJoin.cpp", "src/engine/OptionalJoin.h"],
     [("merge with padding", "src/engine/OptionalJoin.cpp OptionalJoin::optionalJoin, createOptionalResult")],
     ["contents of the result table"])

prop("C03", "MINUS and UNION return exactly the difference and the bag union",
     "MINUS returns, in their original order, exactly the left rows for which no right row agrees on all shared columns. "
     "UNION returns all rows of both inputs, each exactly once, with every value in the column of its variable and "
     "undefined values where an input lacks that variable.",
     ["inputs", "configurations"],
     "all table contents, sizes, shared column positions, and which columns each input of a union provides",
     "MinusTest and UnionTest check one or two concrete tables each.",
     ["src/engine/Minus.cpp", "src/engine/Union.cpp"],
     [("sorted difference", "src/engine/Minus.cpp Minus::computeMinus"),
      ("column-wise copy", "src/engine/Union.cpp Union::computeUnion")],
     ["contents of the result table"])

prop("C04", "FILTER comparisons keep exactly the satisfying rows",
     "A comparison FILTER (=, !=, <, <=, >, >=) between a column and a constant or between two columns returns exactly "
     "the rows that satisfy the comparison, in input order. The answer is the same whether or not the input happens to "
     "be sorted on the filtered column, for every type of column content.",
     ["inputs", "configurations"],
     "all table contents, comparison operators, sortedness of the input, filtered column and constants",
     "The comparison filters are only covered end to end on a few queries; no unit test drives the binary-search path "
     "for sorted inputs.",
     ["src/engine/Filter.cpp", "src/engine/Filter.h", "src/engine/Engine.h"],
     [("binary search on sorted input / scan on unsorted", "src/engine/Filter.cpp Filter::computeFilterFixedValue, "
       "computeFilterRange"), ("column to column comparison", "src/engine/Filter.cpp Filter::computeFilter")],
     ["contents of the result table"])

prop("C05", "GROUP BY forms the right groups and aggregates each of them right",
     "Grouping returns exactly one row per distinct combination of the grouping columns (one row in total without "
     "grouping columns), and each aggregate (COUNT, MIN, MAX, SUM, AVG, SAMPLE, GROUP_CONCAT, with and without DISTINCT) is computed "
     "from exactly the rows of its group.",
     ["inputs", "configurations"],
     "all grouped table contents and sizes, group boundaries, aggregate kinds and DISTINCT flags",
     "GroupByTest evaluates one table with a fixed grouping; no test has an aggregate without grouping columns on "
     "arbitrary data.",
     ["src/engine/GroupBy.cpp", "src/engine/GroupBy.h"],
     [("block detection", "src/engine/GroupBy.cpp doGroupBy"), ("aggregation", "src/engine/GroupBy.cpp processGroup")],
     ["contents of the result table"])

prop("C06", "Sorting and DISTINCT reorder or deduplicate rows without altering them",
     "Sorting returns a permutation of the input rows that is ordered by the requested columns and directions. "
     "DISTINCT on a sorted input keeps exactly one row for every distinct combination of the selected columns and "
     "changes no row.",
     ["inputs", "configurations"],
     "all table contents and sizes, sort columns, directions and selected columns",
     "EngineTest sorts and deduplicates single examples.",
     ["src/engine/Engine.h", "src/engine/Comparators.h", "src/engine/OrderBy.cpp", "src/engine/Sort.cpp",
      "src/engine/Distinct.cpp"],
     [("sort by one column or comparator", "src/engine/Engine.h Engine::sort"),
      ("order by comparator", "src/engine/Comparators.h OBComp"),
      ("unique on key columns", "src/engine/Engine.h Engine::distinct")],
     ["contents of the result table"])

prop("C07", "Transitive paths return exactly the nodes reachable in the given length",
     "A transitive property path with length bounds returns each (start, end) pair exactly once if and only if some "
     "path between them has an allowed length, for unbound ends, fixed ends and ends bound by another table. Rows of a "
     "binding table keep their own other columns.",
     ["inputs", "configurations"],
     "all edge tables (including cycles, self loops and duplicate edges), length bounds, fixed ends and binding tables, "
     "and every iteration order of the internal hash containers",
     "TransitivePathTest checks a few small graphs with one hash iteration order.",
     ["src/engine/TransitivePath.cpp", "src/engine/TransitivePath.h"],
     [("depth first search with marks", "src/engine/TransitivePath.cpp computeTransitivePath"),
      ("search from bound side", "src/engine/TransitivePath.cpp computeTransitivePathLeftBound/RightBound")],
     ["contents of the result table"])

prop("C08", "Each operator's column-to-variable map and sort claim match its result",
     "For every operator of a query plan, the column it announces for a variable is the column that holds that "
     "variable's values in the computed result, and the columns it announces as sorted are sorted whenever its inputs "
     "are as announced.",
     ["inputs", "configurations", "programs"],
     "all operator parameters, input layouts and contents, and every iteration order of the internal hash maps",
     "Tests check operator results by column number only; announced maps are checked for few planner outputs.",
     ["src/engine/Join.cpp", "src/engine/OptionalJoin.cpp", "src/engine/MultiColumnJoin.cpp", "src/engine/Minus.cpp",
      "src/engine/Union.cpp", "src/engine/GroupBy.cpp", "src/engine/TransitivePath.cpp", "src/engine/Values.cpp",
      "src/engine/Bind.cpp"],
     [("getVariableColumns/resultSortedOn", "src/engine/*.cpp")],
     ["announced variable columns and sort columns against the result table"])

prop("C09", "Operators with different results never share a cache key",
     "Two query plan operators over the same inputs that differ in a parameter influencing their result (column, "
     "direction, comparison, constant, aggregate, distinct flag, length bound, limit) never have the same cache key, so "
     "a cached result is never served for a different operation.",
     ["inputs", "configurations", "programs"],
     "all pairs of parameter settings of an operator",
     "No test compares cache keys of differing operators.",
     ["src/engine/Filter.cpp", "src/engine/GroupBy.cpp", "src/engine/OrderBy.cpp", "src/engine/Sort.cpp",
      "src/engine/Distinct.cpp", "src/engine/Join.cpp", "src/engine/OptionalJoin.cpp", "src/engine/MultiColumnJoin.cpp",
      "src/engine/Minus.cpp", "src/engine/Union.cpp", "src/engine/TransitivePath.cpp", "src/engine/Values.cpp",
      "src/engine/Bind.cpp", "src/engine/IndexScan.cpp", "src/engine/TwoColumnJoin.cpp", "src/engine/HasPredicateScan.cpp"],
     [("asString", "src/engine/*.cpp"), ("cache lookup by key", "src/engine/Operation.cpp Operation::getResult")],
     ["string used as cache key"])

prop("C10", "The result cache respects its limits, pins and recency order",
     "After any sequence of operations the size-limited cache holds at most its entry count and total size of unpinned "
     "entries, returns for every key the value stored last, never drops a pinned entry before it is erased or all is cleared, "
     "and evicts the least recently used unpinned entries first.",
     ["histories", "configurations"],
     "all sequences of insert, pin, lookup, erase, clear and limit changes, all entry sizes and limits",
     "CacheTest runs a few fixed histories.",
     ["src/util/Cache.h", "src/util/PriorityQueue.h"],
     [("FlexibleCache insertion and eviction", "src/util/Cache.h"), ("priority queues", "src/util/PriorityQueue.h")],
     ["cache lookups and size queries"])

prop("C11", "Concurrent queries compute a cached result once and never a stale one",
     "When several threads request the same key, exactly one of them runs the computation at a time, all others get its "
     "result or an error if it failed, nobody waits forever, and a failed computation leaves the key computable again. "
     "A result requested as pinned stays in the cache.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of the requesting threads at their synchronisation points, and every choice of computations that fail",
     "ConcurrentCacheTest uses sleeps to provoke single schedules.",
     ["src/util/ConcurrentCache.h", "src/util/Synchronized.h", "src/util/Cache.h"],
     [("in-progress map under one lock", "src/util/ConcurrentCache.h computeOnceImpl"),
      ("condition variable hand-over", "src/util/ConcurrentCache.h ResultInProgress")],
     ["return values and exceptions of the requests, cache contents"])

prop("C12", "The query memory limit is accounted exactly",
     "Memory obtained under a memory limit never exceeds the limit; a request beyond it fails with the dedicated error "
     "and changes nothing; released memory becomes available again, so that after all tables are gone the whole limit "
     "is available, including after failures and when several threads share the limit.",
     ["histories", "inputs", "fault_sequences", "schedules"],
     "all sequences of allocations and releases, request sizes, limits, failing underlying allocations and interleavings of threads",
     "LimitedAllocatorTest performs a handful of fixed allocations.",
     ["src/util/AllocatorWithLimit.h", "src/engine/IdTable.h"],
     [("shared remaining-bytes counter", "src/util/AllocatorWithLimit.h")],
     ["remaining bytes, exceptions"])

prop("C13", "Compressed posting lists decode to exactly what was encoded",
     "Encoding any list of non-negative integers of at most 60 bits and decoding it again gives the same list, for every "
     "length. Neither direction reads or writes outside its buffers, and the reported compressed length is the number of "
     "bytes written.",
     ["inputs"],
     "all list contents and lengths",
     "Simple8bTest round-trips a few fixed and random lists.",
     ["src/util/Simple8bCode.h"],
     [("selector choice and packing", "src/util/Simple8bCode.h encode/decode")],
     ["decoded list, returned size"])

prop("C14", "Encoded numeric and date values sort like the values they stand for",
     "The index representation of numbers and dates compares bytewise exactly like the numeric values and points in time "
     "they denote, and equal values get equal representations up to the type tag.",
     ["inputs"],
     "all decimal strings within the supported number of digits and all well-formed dates",
     "ConversionsTest compares a few dozen literals.",
     ["src/util/Conversions.h", "src/util/StringUtils.h"],
     [("mantissa/exponent encoding", "src/util/Conversions.h convertFloatStringToIndexWord"),
      ("year normalization", "src/util/Conversions.h normalizeDate, convertDateToIndexWord")],
     ["the encoded strings"])

prop("C15", "Encoded numeric and date values decode to the original value",
     "Converting a number literal to its index representation and back yields a literal of the same value and "
     "type, and converting a date yields the same point in time as a date with time whose missing parts are zero. "
     "Re-encoding the literal gives the same representation, and the float computed from a number is its value.",
     ["inputs"],
     "all decimal strings within the supported number of digits and all well-formed dates",
     "ConversionsTest round-trips a few dozen literals.",
     ["src/util/Conversions.h"],
     [("decode", "src/util/Conversions.h convertIndexWordToFloatString, convertIndexWordToDate, "
       "convertIndexWordToValueLiteral")],
     ["the decoded strings"])

prop("C16", "Escaping of words and literals is lossless and rejects malformed input safely",
     "Writing any word to a line of the vocabulary and reading it back gives the same word, and no written word contains "
     "a raw line break. Unescaping of literals and IRIs yields the characters the escapes stand for, accepts every valid "
     "escape at every position, and rejects malformed input with an error without reading outside the input.",
     ["inputs"],
     "all byte strings",
     "No test round-trips arbitrary strings; TurtleParserTest has single examples.",
     ["src/parser/RdfEscaping.cpp", "src/parser/RdfEscaping.h"],
     [("escape/unescape", "src/parser/RdfEscaping.cpp")],
     ["returned strings and exceptions"])

prop("C17", "Strings in JSON output are valid JSON and decode to the original",
     "Any string rendered into a JSON result is a syntactically valid JSON string without raw control characters, and a "
     "JSON reader decodes it to the original string.",
     ["inputs"],
     "all byte strings",
     "StringUtilsTest covers a few characters.",
     ["src/util/StringUtils.h", "src/engine/QueryExecutionTree.cpp", "src/engine/Server.cpp"],
     [("character escaping", "src/util/StringUtils.h toJson, escapeForJson")],
     ["the produced JSON text"])

prop("C18", "Prefix compression of the vocabulary is lossless",
     "For every set of compression prefixes and every word, compressing a word and expanding it again gives the word, so "
     "different words never become the same entry.",
     ["inputs", "configurations"],
     "all words and prefix sets",
     "VocabularyTest compresses a few words with two prefixes.",
     ["src/index/Vocabulary.h", "src/index/Vocabulary.cpp", "src/index/CompressedString.h", "src/index/PrefixHeuristic.cpp"],
     [("compressPrefix/expandPrefix/initializePrefixes", "src/index/Vocabulary.cpp"),
      ("prefix selection", "src/index/PrefixHeuristic.cpp")],
     ["expanded words"])

prop("C19", "Vocabulary lookups and ranges agree with the sorted word list",
     "In a vocabulary of distinct sorted words, looking up a word gives the position of exactly that word or reports its "
     "absence, position lookups return the stored word, and lower/upper bound and prefix ranges contain exactly the "
     "words that satisfy the comparison or start with the prefix.",
     ["inputs"],
     "all sorted word lists and query words or prefixes",
     "VocabularyTest looks up a few words.",
     ["src/index/Vocabulary.h", "src/index/Vocabulary.cpp"],
     [("binary search", "src/index/Vocabulary.cpp lower_bound, upper_bound, getId, getIdRangeForFullTextPrefix")],
     ["returned ids and ranges"])

prop("C20", "Text posting list operations return exactly the matching postings",
     "Filtering postings by a word range, intersecting two, several or entity posting lists returns exactly the postings "
     "of the contexts common to all lists, in context order, with scores accumulated as documented and each posting once.",
     ["inputs"],
     "all sorted posting lists, word ranges and scores",
     "FTSAlgorithmsTest intersects single hand-written lists.",
     ["src/index/FTSAlgorithms.cpp", "src/index/FTSAlgorithms.h"],
     [("intersect, intersectTwoPostingLists, intersectKWay, filterByRange", "src/index/FTSAlgorithms.cpp")],
     ["returned posting lists"])

prop("C21", "Text search results are aggregated per entity with the right scores and top k",
     "Aggregating text postings returns for every entity (or entity combination) its number of postings and its best "
     "contexts, at most the requested number, exactly those with the highest scores. Entities in an optional filter list "
     "are kept and all others are dropped.",
     ["inputs", "configurations"],
     "all posting lists, scores, limits and filter lists",
     "FTSAlgorithmsTest has single examples with few entities.",
     ["src/index/FTSAlgorithms.cpp", "src/index/FTSAlgorithms.h"],
     [("aggScoresAndTakeTopKContexts and variants", "src/index/FTSAlgorithms.cpp")],
     ["result tables"])

prop("C22", "Relation metadata survives storage and locates every row's block",
     "Metadata of a relation written to disk and read back is equal in every field. The block located for a subject "
     "contains all rows of that subject that the relation has, together with the follow-up block, and block boundaries "
     "never reach outside the relation.",
     ["inputs", "configurations"],
     "all field values, block lists and looked-up ids",
     "IndexMetaDataTest stores two hand-written relations.",
     ["src/index/MetaDataTypes.h", "src/index/MetaDataTypes.cpp", "src/index/IndexMetaData.h",
      "src/index/IndexMetaDataImpl.h", "src/index/TextMetaData.h", "src/index/TextMetaData.cpp"],
     [("packed flags and counts", "src/index/MetaDataTypes.cpp FullRelationMetaData"),
      ("block lookup", "src/index/MetaDataTypes.cpp BlockBasedRelationMetaData")],
     ["field accessors, returned offsets"])

prop("C23", "Index scans return exactly the stored triples that match",
     "Scanning a stored relation completely or for one fixed value returns exactly the pairs that were written for it, "
     "in order, for functional and non-functional relations, with and without blocks, wherever block boundaries fall.",
     ["inputs", "configurations"],
     "all sorted relation contents, block boundaries and looked-up ids",
     "IndexTest builds two tiny indexes whose relations fit into a single block.",
     ["src/index/Index.cpp", "src/index/Index.h", "src/index/MetaDataTypes.cpp"],
     [("writeRel, writeFunctionalRelation, writeNonFunctionalRelation", "src/index/Index.cpp"),
      ("scan, scanFunctionalRelation, scanNonFunctionalRelation", "src/index/Index.cpp, src/index/Index.h")],
     ["scan result tables"])

prop("C24", "Predicate counts by the pattern trick equal a direct count",
     "For every set of entities the number reported per predicate is the number of (entity, predicate) combinations "
     "present in the data, whether an entity's predicates are stored as a shared pattern or individually, and no "
     "predicate without occurrences is reported.",
     ["inputs", "configurations"],
     "all pattern tables, explicit predicate lists, entity lists and duplicates in them",
     "EngineTest counts one hand-written pattern table.",
     ["src/engine/CountAvailablePredicates.cpp", "src/engine/HasPredicateScan.cpp", "src/global/Pattern.h"],
     [("computePatternTrick", "src/engine/CountAvailablePredicates.cpp"),
      ("hasPattern/hasRelation scans", "src/engine/HasPredicateScan.cpp")],
     ["result tables"])

prop("C25", "Solution tables behave like a sequence of fixed-width rows",
     "Appending, inserting, erasing, resizing, copying, moving and converting between statically and dynamically sized "
     "tables preserves the untouched rows in order and places exactly the given rows, for every width and also when the "
     "table has to grow, without touching memory outside the table.",
     ["histories", "inputs"],
     "all sequences of table operations, widths, positions and contents",
     "IdTableTest runs fixed operation sequences.",
     ["src/engine/IdTable.h"],
     [("IdTableTemplated storage management", "src/engine/IdTable.h")],
     ["table contents"])

prop("C26", "Pipelined batch processing keeps every element, in order, on any schedule",
     "A multi-stage batch pipeline delivers every produced element exactly once, transformed by all stages, in the order "
     "of production, whatever the batch size, the degree of parallelism and the thread schedule.",
     ["schedules", "inputs", "configurations"],
     "all batch sizes, parallelism degrees, numbers of elements and interleavings at synchronisation points",
     "BatchedPipelineTest runs three configurations on whatever schedule happens.",
     ["src/util/BatchedPipeline.h", "src/util/TupleHelpers.h"],
     [("Batcher and BatchedPipeline", "src/util/BatchedPipeline.h")],
     ["sequence of delivered elements"])

prop("C27", "Disk-backed arrays read back what was stored, also after reopening",
     "A disk-backed array returns for every position the value written last, across growth, shrinking, cloning, closing "
     "and reopening, and opening it for appending keeps the old contents.",
     ["histories", "inputs"],
     "all sequences of append, write, resize, reserve, close and reopen",
     "MmapVectorTest runs fixed sequences.",
     ["src/util/MmapVector.h", "src/util/MmapVectorImpl.h", "src/util/BufferedVector.h"],
     [("metadata trailer, remapping", "src/util/MmapVectorImpl.h")],
     ["element reads after each step"])

prop("C28", "Merging partial vocabularies assigns one consistent id per word",
     "Merging any number of sorted partial vocabularies gives every distinct word exactly one global id, in sort order, "
     "and the id map of each partial vocabulary sends every local id to the global id of the same word. The reported id "
     "range of language predicates covers exactly these words.",
     ["inputs", "configurations", "schedules"],
     "all sets of sorted partial vocabularies, batch boundaries of the merge and schedules of its writing threads",
     "VocabularyGeneratorTest merges two fixed files.",
     ["src/index/VocabularyGenerator.h", "src/index/VocabularyGeneratorImpl.h", "src/index/ConstantsIndexCreation.h"],
     [("k-way merge with batched writing", "src/index/VocabularyGeneratorImpl.h VocabularyMerger")],
     ["merged word list and id maps"])

prop("C29", "Turtle input is parsed the same however it is split into chunks",
     "Parsing a Turtle document yields the triples it denotes, and reading it through a buffer of any size gives the same "
     "triples as parsing it in one piece. No input, however malformed, causes access outside the input or an endless loop.",
     ["inputs", "configurations"],
     "all documents of the supported syntax and all positions of buffer boundaries",
     "TurtleParserTest parses fixed fragments in one piece.",
     ["src/parser/TurtleParser.h", "src/parser/TurtleParser.cpp", "src/parser/Tokenizer.h", "src/parser/TokenizerCtre.h"],
     [("recursive descent parser with back-up and retry on exhausted buffers", "src/parser/TurtleParser.cpp")],
     ["produced triples, exceptions"])

prop("C30", "Request URLs are decoded faithfully",
     "Decoding the percent-encoded form of any string gives that string, undecodable input never causes access outside "
     "the request, and each parameter of a request is delivered with exactly the value that was sent.",
     ["inputs"],
     "all byte strings as request targets",
     "Only StringUtilsTest-style examples exist for decoding.",
     ["src/util/StringUtils.h", "src/engine/Server.cpp"],
     [("decodeUrl", "src/util/StringUtils.h"), ("parseHttpRequest", "src/engine/Server.cpp")],
     ["decoded strings"])

prop("C31", "VALUES and BIND produce exactly the requested bindings",
     "An inline data block yields exactly its rows whose values are known to the index, each value in the column of its "
     "variable, and a BIND adds exactly one column that holds the bound value for each row and leaves all other columns "
     "unchanged.",
     ["inputs", "configurations"],
     "all inline data blocks, input tables and bound expressions",
     "BindTest checks a sum and a rename on one table; VALUES is only covered end to end.",
     ["src/engine/Values.cpp", "src/engine/Bind.cpp"],
     [("Values::writeValues", "src/engine/Values.cpp"), ("Bind::computeBinaryOperationBind, computeRenameBind, computeConstantBind",
                                                          "src/engine/Bind.cpp")],
     ["contents of the result table"])

prop("C32", "N-Triples and TSV lines are split into exactly their components",
     "Every well-formed triple line with its parts separated by white space yields exactly its subject, predicate and "
     "object text, and no line, however malformed, makes the parser read outside the line.",
     ["inputs"],
     "all byte strings as lines",
     "NTriplesParserTest and TsvParserTest parse a few fixed lines.",
     ["src/parser/NTriplesParser.cpp", "src/parser/TsvParser.cpp"],
     [("getLine", "src/parser/NTriplesParser.cpp, src/parser/TsvParser.cpp")],
     ["produced triples, exceptions"])

prop("C33", "Query text is tokenized and parsed without loss or crash",
     "Parsing a query of the supported language yields exactly the written variables, triples, property paths, filters, graph "
     "patterns and modifiers, with prefixed names replaced by the IRIs they stand for. Incomplete queries and queries followed "
     "by further text are reported as errors, and no text causes an endless loop or access outside it.",
     ["inputs", "programs"],
     "all query texts",
     "SparqlParserTest parses a fixed list of queries.",
     ["src/parser/SparqlLexer.cpp", "src/parser/SparqlParser.cpp", "src/parser/ParsedQuery.cpp",
      "src/parser/PropertyPathParser.cpp"],
     [("lexer", "src/parser/SparqlLexer.cpp"), ("parser", "src/parser/SparqlParser.cpp"),
      ("property path parser", "src/parser/PropertyPathParser.cpp")],
     ["parsed query, exceptions"])

prop("C34", "The rows shown to the user are exactly the requested window",
     "The rows written as JSON, TSV or CSV are exactly the result rows from the requested offset on, at most the requested "
     "number, each with the selected columns in the selected order. This holds for every offset and limit, also for the "
     "largest possible ones.",
     ["inputs", "configurations"],
     "all result tables, selections, offsets and limits",
     "No unit test writes a result with an offset and a limit.",
     ["src/engine/QueryExecutionTree.cpp", "src/engine/QueryExecutionTree.h", "src/engine/Server.cpp"],
     [("QueryExecutionTree::writeTable", "src/engine/QueryExecutionTree.h"),
      ("QueryExecutionTree::writeResultToStream, writeResultToStreamAsJson", "src/engine/QueryExecutionTree.cpp")],
     ["text written to the client"])

prop("C35", "Every request is answered and none ends the server",
     "Whatever bytes a client sends, the server answers with a well-formed response or an error response, reads nothing "
     "outside the request, never hangs and keeps running for the next request.",
     ["inputs"],
     "all byte strings as requests",
     "The server has no unit test; end-to-end tests send well-formed requests only.",
     ["src/engine/Server.cpp", "src/engine/Server.h", "src/util/StringUtils.h"],
     [("Server::process, parseHttpRequest, createQueryFromHttpParams", "src/engine/Server.cpp"),
      ("getLowercaseUtf8", "src/util/StringUtils.h")],
     ["response, exceptions, memory accesses"])

prop("C36", "Text search returns exactly what the text file says",
     "A search for words, prefixes and entities in the text returns exactly the contexts in which all of them occur, and "
     "exactly the entities that occur in these contexts, with the scores the text file gives them; terms that do not "
     "occur give an empty result. Size estimates can be computed for all of these searches.",
     ["inputs"],
     "all text files (words, entities, contexts, scores), all divisions of the postings into blocks and all searches for one or "
     "more words, prefixes and entities",
     "IndexTest has no text index at all; end-to-end tests run a handful of text queries on one collection.",
     ["src/index/Index.Text.cpp", "src/index/Index.h", "src/index/FTSAlgorithms.cpp", "src/index/TextMetaData.cpp",
      "src/index/Vocabulary.cpp"],
     [("writing and reading of postings", "src/index/Index.Text.cpp createTextIndex, readGapComprList, readFreqComprList"),
      ("choice of blocks", "src/index/TextMetaData.cpp getBlockInfoByWordRange, getBlockInfoByEntityId"),
      ("search", "src/index/Index.Text.cpp getContextListForWords, getECListForWords, getSizeEstimate")],
     ["contexts, entities and scores of the result"])

prop("C37", "Text excerpts are the text of the document that contains the context",
     "The excerpt of a context is the text of the first document whose number is not smaller than the context's number, "
     "read back exactly as in the documents file. A context behind the last document has an empty excerpt.",
     ["inputs"],
     "all documents files and all context numbers",
     "No unit test reads excerpts.",
     ["src/index/DocsDB.cpp", "src/index/Index.Text.cpp", "src/util/File.h"],
     [("offsets", "src/index/Index.Text.cpp buildDocsDB"), ("lookup", "src/index/DocsDB.cpp getTextExcerpt"),
      ("lines", "src/util/File.h readLine")],
     ["the excerpt"])

prop("C38", "The answer to a query does not depend on the execution plan",
     "Whatever plan is chosen for a query, its result consists of exactly the solutions the query has on the triples of the "
     "knowledge base, each as often as the query demands, and in the order the query asks for. This holds for every "
     "combination of triples, filters, optional parts, alternatives, exclusions, property paths, groups, conditions on groups, "
     "inline data and subqueries, and for all sizes of the parts.",
     ["inputs", "programs", "configurations"],
     "all knowledge bases, all queries and all sizes reported by the index, that is all plans that can come out cheapest",
     "Planner tests compare the text of the chosen plan for fixed sizes and never run it; the end-to-end queries see one "
     "collection and thus one plan per query.",
     ["src/engine/QueryPlanner.cpp", "src/engine/QueryPlanner.h", "src/engine/QueryExecutionTree.cpp", "src/parser/SparqlParser.cpp",
      "src/parser/ParsedQuery.cpp", "src/engine/IndexScan.cpp", "src/engine/Join.cpp", "src/engine/GroupBy.cpp"],
     [("plan enumeration", "src/engine/QueryPlanner.cpp fillDpTab, merge, createJoinCandidates, pruning"),
      ("graph patterns", "src/engine/QueryPlanner.cpp optimize, optionalJoin, minus, multiColumnJoin"),
      ("solution modifiers", "src/engine/QueryPlanner.cpp getGroupByRow, getHavingRow, getDistinctRow, getOrderByRow"),
      ("filters", "src/engine/QueryPlanner.cpp applyFiltersIfPossible"),
      ("property paths", "src/engine/QueryPlanner.cpp seedFromPropertyPath and the functions it calls")],
     ["the rows of the result, their number and order"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
