"""What each check explores: harness, entry points and their bounds."""

CHECKS = {}

CHECKS["C13"] = dict(
    src="c13.cpp",
    entries=[
        dict(entry="c13_all64", params=dict(n=0), bounds="the empty sequence"),
        dict(entry="c13_all64", params=dict(n=3), bounds="all sequences of 3 values of 60 bits"),
        dict(entry="c13_all16", params=dict(n=4), bounds="all sequences of 4 16-bit values"),
        dict(entry="c13_runs64", params=dict(n1=118, n2=3, n3=0), bounds="118 zeros and 3 zeros, each followed by any value of 60 bits"),
        dict(entry="c13_zeroRuns", params=dict(max=246), workers=4, bounds="0-245 zeros, a value of 0-3, 0/1/119/120/239/240 zeros, a value of 0-1"),
        dict(entry="c13_groups", workers=4, bounds="for each of the 14 packed widths: a group of arbitrary values of that width, one less and one more, then any value of 60 bits"),
        dict(entry="c13_runs16", params=dict(n1=119, n2=0, n3=61), bounds="119 zeros, two 16-bit values, 61 zeros"),
    ],
)

QE = ["src/engine/Operation.cpp", "src/engine/QueryExecutionTree.cpp", "src/engine/ResultTable.cpp",
      "src/engine/QueryPlanningCostFactors.cpp"]
QEF = ["-fno-access-control"]

CHECKS["C01"] = dict(
    src="c01.cpp", cflags=QEF + ["-include", "kbindex.h"], libs=["-licuuc", "-licui18n"],
    link_src=QE + ["src/engine/Join.cpp", "src/engine/MultiColumnJoin.cpp", "src/engine/IndexScan.cpp"],
    entries=[
        dict(entry="c01_scans", params=dict(n=2, m=3), workers=2, bounds="join of 0-3 rows with all triples of an index of 2 triples, each of the six orders, either side, every value of the join column"),
        dict(entry="c01_join", params=dict(n=3, m=3), workers=3, bounds="0-3 x 0-3 rows of 2 columns, every value of the join columns, every join column position"),
        dict(entry="c01_gallop", params=dict(left=1, p=3, q=0, m=3), thorough=dict(left=1, p=3, q=0, m=4), workers=4, time=80, flags=["--fork-select"],
             bounds="left side of 3003/3004 rows (3 arbitrary, then fixed increasing values), 3 arbitrary right rows"),
        dict(entry="c01_gallop", params=dict(left=0, p=3, q=0, m=3), thorough=dict(left=0, p=3, q=0, m=4), workers=4, time=80, flags=["--fork-select"],
             bounds="the same with a larger right side"),
        dict(entry="c01_gallop", params=dict(left=1, p=2, q=2, m=2, bc=1), workers=2, flags=["--fork-select"],
             bounds="left side of 2002/2003 rows with 2 arbitrary rows at each end, 2 arbitrary right rows"),
        dict(entry="c01_gallop", params=dict(left=0, p=2, q=2, m=2, sc=1), workers=2, flags=["--fork-select"],
             bounds="the same with a larger right side"),
        dict(entry="c01_gallopAll", params=dict(left=0), workers=3, flags=["--fork-select"],
             bounds="right side of 1001 and 1600 fixed rows, one left row with every value"),
        dict(entry="c01_gallopAll", params=dict(left=1), workers=3, flags=["--fork-select"],
             bounds="the same with a larger left side"),
        dict(entry="c01_gallopAll", params=dict(left=0, first=1800), workers=3, flags=["--fork-select"],
             bounds="right side of 2007 and 2600 fixed rows, the search starts in the middle"),
        dict(entry="c01_gallopAll", params=dict(left=1, first=1800), workers=3, flags=["--fork-select"],
             bounds="the same with a larger left side"),
        dict(entry="c01_multi", params=dict(n=2, m=2), workers=2, bounds="two join columns"),
    ],
)

CHECKS["C02"] = dict(
    src="c02.cpp", cflags=QEF, link_src=QE + ["src/engine/OptionalJoin.cpp"],
    entries=[
        dict(entry="c02_one", params=dict(n=2, m=2), workers=3, bounds="0-2 x 0-2 rows, one shared column, all values, every combination of optional sides, with the mandatory side left"),
        dict(entry="c02_one", params=dict(n=2, m=2, swap=1), workers=3, bounds="the same with the inputs swapped"),
        dict(entry="c02_two", params=dict(n=2, m=2, lw=3, rw=2), workers=4, bounds="0-2 x 0-2 rows of 3 and 2 columns, two shared columns, all values"),
    ],
)
CHECKS["C03"] = dict(
    src="c03.cpp", cflags=QEF, link_src=QE + ["src/engine/Minus.cpp", "src/engine/Union.cpp"],
    entries=[
        dict(entry="c03_minus", params=dict(n=3, m=3), workers=2, bounds="0-3 x 0-3 rows, one shared column, all values"),
        dict(entry="c03_minus", params=dict(n=2, m=2, keys=2, lw=3), workers=2, bounds="0-2 x 0-2 rows, two shared columns, all values"),
        dict(entry="c03_minus", params=dict(n=1, m=1, keys=0), bounds="0-1 x 0-1 rows without a shared column"),
        dict(entry="c03_union", params=dict(n=2, m=2), workers=4, bounds="0-2 + 0-2 rows, every layout of up to 3 variables over the two inputs"),
        dict(entry="c03_unionLarge", params=dict(cols=5), bounds="inputs longer than the 20000 rows that are copied at a time, three arbitrary cells"),
    ],
)

CHECKS["C04"] = dict(
    src="c04.cpp", cflags=QEF, link_src=QE + ["src/engine/Filter.cpp"],
    entries=[
        dict(entry="c04_const", params=dict(n=3, type=0, text=0), workers=3, bounds="0-3 rows of 2 columns holding ids, all cell values, all positions of the constant in the vocabulary, six operators, sorted and unsorted input"),
        dict(entry="c04_const", params=dict(n=1, type=0, text=0, cols=6), bounds="the same with 0-1 rows of 6 columns (table width not fixed at compile time)"),
        dict(entry="c04_const", params=dict(n=1, type=0, text=5), workers=2, bounds="0-1 rows, five ways of writing the constant"),
        dict(entry="c04_const", params=dict(n=2, type=1), workers=2, bounds="0-2 rows of integers against 0, 5 and the largest integer"),
        dict(entry="c04_const", params=dict(n=2, type=2), workers=2, bounds="0-2 rows of floats (all bit patterns but NaN) against 0, 1.5 and -2.5"),
        dict(entry="c04_columns", params=dict(n=2, type=0), workers=2, bounds="two columns of one type, all values, six operators"),
        dict(entry="c04_columns", params=dict(n=2, type=1), workers=2, bounds="two columns of one type, all values, six operators"),
        dict(entry="c04_columns", params=dict(n=2, type=2), workers=2, bounds="two columns of one type, all values, six operators"),
        dict(entry="c04_columns", params=dict(n=1, type=3, cols=3), workers=2, bounds="two columns of one type, all values, six operators"),
        dict(entry="c04_local", params=dict(n=2), workers=2, bounds="0-2 rows, 0-3 assembled strings out of 3, = and !="),
    ],
)

CHECKS["C05"] = dict(
    src="c05.cpp", cflags=QEF, link_src=QE + ["src/engine/GroupBy.cpp"],
    entries=[
        dict(entry="c05_values", params=dict(n=4, cols=1, type=0), workers=3, bounds="0-4 rows, one grouping column, all values (integers)"),
        dict(entry="c05_values", params=dict(n=2, cols=2, type=1), workers=2, bounds="0-2 rows, two grouping columns, all values (ids)"),
        dict(entry="c05_keys", params=dict(n=4), workers=3, bounds="0-4 rows, two grouping columns, all values, every order of the columns in the input"),
        dict(entry="c05_values", params=dict(n=3, cols=0, type=0), workers=2, bounds="0-3 rows, no grouping column, all values"),
        dict(entry="c05_numbers", params=dict(n=3, cols=1, type=0), workers=2, bounds="1-3 rows with values out of 3 integers, all groupings"),
        dict(entry="c05_numbers", params=dict(n=3, cols=1, type=1), workers=2, bounds="1-3 rows with values out of 3 floats, all groupings"),
        dict(entry="c05_numbers", params=dict(n=3, cols=1, type=2), workers=2, bounds="1-3 rows with values out of an entity and 2 numbers, all groupings"),
        dict(entry="c05_numbers", params=dict(n=2, cols=0, type=0), bounds="1-2 rows, no grouping column"),
        dict(entry="c05_repeated", params=dict(n=2), bounds="0-2 rows, the grouping variable written twice"),
    ],
)

CHECKS["C06"] = dict(
    src="c06.cpp", cflags=QEF, link_src=QE + ["src/engine/Sort.cpp", "src/engine/OrderBy.cpp", "src/engine/Distinct.cpp",
                                              "src/engine/SortPerformanceEstimator.cpp"],
    entries=[
        dict(entry="c06_sort", params=dict(n=4), workers=2, bounds="0-4 rows of 2 columns, all values of the sort column"),
        dict(entry="c06_sort", params=dict(n=2, cols=6), bounds="0-2 rows of 6 columns"),
        dict(entry="c06_orderBy", params=dict(n=3), workers=3, bounds="0-3 rows of 3 columns, 1-2 sort columns in both directions, all values"),
        dict(entry="c06_sortLarge", params=dict(n=20, free=2), workers=2, bounds="20 rows: 4 fixed patterns with 2 arbitrary values among them"),
        dict(entry="c06_sortLarge", params=dict(n=40, free=1, desc=1, cols=6), workers=2, bounds="40 rows of 6 columns: 4 fixed patterns with one arbitrary value among them, descending"),
        dict(entry="c06_distinct", params=dict(n=4), workers=3, bounds="0-4 rows of 3 columns sorted by the 1-2 selected ones, all values of those"),
    ],
)
CHECKS["C07"] = dict(
    src="c07.cpp", cflags=QEF, link_src=QE + ["src/engine/TransitivePath.cpp", "src/engine/IndexScan.cpp"],
    entries=[
        dict(entry="c07_plain", params=dict(e=3, ends=0), workers=3, bounds="all graphs of 0-3 edges, both ends variable, minimum length 1-2, maximum 1-3 or unlimited"),
        dict(entry="c07_plain", params=dict(e=3, ends=1), workers=3, bounds="the same with a fixed start"),
        dict(entry="c07_plain", params=dict(e=3, ends=2), workers=3, bounds="the same with a fixed end"),
        dict(entry="c07_plain", params=dict(e=2, ends=3), workers=2, bounds="0-2 edges, both ends fixed"),
        dict(entry="c07_plain", params=dict(e=2, ends=1, hash=2), workers=2, bounds="0-2 edges, fixed start, every iteration order of the hash containers"),
        dict(entry="c07_plain", params=dict(e=2, ends=0, hash=1, subw=3), workers=2, bounds="0-2 edges in a table of 3 columns, reversed iteration order of the hash containers"),
        dict(entry="c07_plain", params=dict(e=4, fixe=1, ends=1, atedge=1, maxmin=1, maxmax=2), workers=3, bounds="all graphs of 4 edges, start at the first edge, lengths 1-1, 1-2 and 1-unlimited"),
        dict(entry="c07_bound", params=dict(e=2, n=2, left=1), workers=3, bounds="0-2 edges, start bound by 0-2 rows of a two-column table"),
        dict(entry="c07_bound", params=dict(e=2, n=2, left=0), workers=3, bounds="0-2 edges, end bound by 0-2 rows of a two-column table"),
        dict(entry="c07_bound", params=dict(e=1, n=2, left=1, width=3, fixed=1), workers=2, bounds="0-1 edges, start bound by 0-2 rows of a three-column table, other end fixed"),
        dict(entry="c07_bound", params=dict(e=1, n=2, left=0, width=3, fixed=1), workers=2, bounds="0-1 edges, end bound by 0-2 rows of a three-column table, other end fixed"),
        dict(entry="c07_bound", params=dict(e=2, n=3, fixn=1, left=1, maxmin=1, maxmax=1), workers=3, bounds="0-2 edges, start bound by 3 rows, length 1"),
        dict(entry="c07_bound", params=dict(e=2, n=3, fixn=1, left=0, maxmin=1, maxmax=1), workers=3, bounds="0-2 edges, end bound by 3 rows, length 1"),
    ],
)
CHECKS["C08"] = dict(
    src="c08.cpp", cflags=QEF,
    link_src=QE + ["src/engine/%s.cpp" % x for x in
                   "Bind Distinct Filter GroupBy Join Minus MultiColumnJoin OptionalJoin OrderBy Sort SortPerformanceEstimator TransitivePath TwoColumnJoin Union IndexScan".split()],
    entries=[
        dict(entry="c08_join", params=dict(n=2, m=2), workers=2, bounds="0-2 x 0-2 rows, every order of 2 and 3 columns"),
        dict(entry="c08_multi", params=dict(n=1, m=1), workers=2, bounds="0-1 x 0-1 rows, every order of the 4 right columns"),
        dict(entry="c08_multi", params=dict(n=1, m=1, hash=1), workers=2, bounds="the same with the reverse iteration order of hash maps"),
        dict(entry="c08_multi", params=dict(n=2, m=1, pl=1, pr=0), workers=2, bounds="0-2 x 0-1 rows, every order of all columns"),
        dict(entry="c08_optional", params=dict(n=1, m=1), workers=2, bounds="0-1 x 0-1 rows, every order of the right columns, both optional flags"),
        dict(entry="c08_optional", params=dict(n=2, m=2, pl=1), workers=3, bounds="0-2 x 0-2 rows, every order of the left columns, both optional flags"),
        dict(entry="c08_minus", params=dict(n=2, m=1), workers=2, bounds="0-2 x 0-1 rows, every order of the left columns"),
        dict(entry="c08_union", params=dict(n=1, m=1), workers=2, bounds="0-1 + 0-1 rows, every order of 3 and 3 columns, same and different variables"),
        dict(entry="c08_union", params=dict(n=1, m=1, hash=1), workers=2, bounds="the same with the reverse iteration order of hash maps"),
        dict(entry="c08_unary", params=dict(n=2), workers=3, bounds="0-2 rows, filter, sort, distinct and rename, every order of 3 columns"),
        dict(entry="c08_orderBy", params=dict(n=3), workers=3, bounds="0-3 rows, 1-3 sort columns in both directions"),
        dict(entry="c08_groupBy", params=dict(n=2), workers=2, bounds="0-2 rows, every order of 4 columns, two grouping variables and two aggregates in both orders"),
        dict(entry="c08_path", params=dict(e=2, n=2), workers=3, bounds="0-2 edges, unbound and bound by 0-2 rows of 3 columns in every order"),
        dict(entry="c08_twoColumns", params=dict(n=2, m=2), workers=2, bounds="0-2 rows filtered by 0-2 rows"),
    ],
)
CHECKS["C09"] = dict(
    src="c09.cpp", cflags=QEF + ["-include", "list"],
    link_src=QE + ["src/engine/%s.cpp" % x for x in
                   "Bind CountAvailablePredicates Distinct Filter GroupBy HasPredicateScan Join Minus MultiColumnJoin OptionalJoin OrderBy Sort SortPerformanceEstimator TextOperationWithFilter TextOperationWithoutFilter TransitivePath Union Values IndexScan".split()],
    entries=[
        dict(entry="c09_filter", workers=3, bounds="all pairs of comparison filters with a constant out of two on two columns, 2 rows, both namings of the columns"),
        dict(entry="c09_filter", params=dict(columns=1), workers=3, bounds="the same with comparisons of the two columns"),
        dict(entry="c09_pattern", params=dict(n=2, m=2), workers=2, bounds="all pairs of text filters with patterns of 2 printable characters"),
        dict(entry="c09_pattern", params=dict(n=2, m=16), workers=2, bounds="a pattern of 2 against one of 16 printable characters"),
        dict(entry="c09_pattern", params=dict(n=2, m=13), workers=2, bounds="a pattern of 2 against one of 13 printable characters"),
        dict(entry="c09_sort", workers=2, bounds="all pairs of sort orders of 1-2 out of 3 columns"),
        dict(entry="c09_distinct", bounds="all pairs of kept prefixes of 3 columns, 2 rows"),
        dict(entry="c09_groupBy", params=dict(aggregates=3), thorough=dict(aggregates=5), workers=3, time=120, bounds="all pairs of 0-2 grouping columns and an aggregate out of COUNT, two COUNTs and MIN (thorough: also MAX and SAMPLE), with and without DISTINCT, 2 rows"),
        dict(entry="c09_separator", bounds="separators of 1 and 0-3 printable characters"),
        dict(entry="c09_bind", workers=2, bounds="all pairs of renamings, constants out of 3 and binary operations, 1 row"),
        dict(entry="c09_path", workers=3, bounds="all pairs of path operations with minimum length 1-2, maximum 1, 11 or unlimited, fixed ends 1 or 11, 2 edges"),
        dict(entry="c09_path", params=dict(bound=1), workers=2, bounds="all pairs of ends and columns bound by one row"),
        dict(entry="c09_binary", params=dict(kind=0), bounds="all pairs of joins of 0-1 x 0-1 rows"),
        dict(entry="c09_binary", params=dict(kind=1), workers=2, bounds="all pairs of optional joins of 0-1 x 0-1 rows"),
        dict(entry="c09_binary", params=dict(kind=2), bounds="all pairs of differences of 0-1 x 0-1 rows"),
        dict(entry="c09_binary", params=dict(kind=3), workers=2, bounds="all pairs of unions of 0-1 x 0-1 rows"),
        dict(entry="c09_binary", params=dict(kind=4), bounds="all pairs of joins on 1-2 columns of 0-1 x 0-1 rows"),
        dict(entry="c09_scan", bounds="all pairs of index scans with names of one printable character"),
        dict(entry="c09_predicates", bounds="all pairs of predicate operations over 3 columns, names of one printable character"),
        dict(entry="c09_text", bounds="all pairs of text operations with a word of one printable character, 0-2 variables, text limit 1 or 11, also set below a sort"),
        dict(entry="c09_values", bounds="all pairs of 1-2 x 1-2 values of one printable character"),
    ],
)

CHECKS["C10"] = dict(
    src="c10.cpp",
    entries=[
        dict(entry="c10_history", params=dict(n=3, entries=3), workers=4, bounds="all histories of 3 operations over 3 keys, entry limits 0-2, size limits and sizes of 0-1000"),
        dict(entry="c10_history", params=dict(n=4, keys=2, entries=3), workers=6, time=60, bounds="all histories of 4 operations over 2 keys"),
        dict(entry="c10_history", params=dict(n=2, prefix=3), workers=4, bounds="three entries stored, then all histories of 2 operations"),
        dict(entry="c10_history", params=dict(n=3, prefix=3, keys=4, ops=2), thorough=dict(n=4, prefix=3, keys=4, ops=2), workers=6, time=60, bounds="three entries stored, then all histories of 3 (thorough: 4) stores and lookups over 4 keys"),
    ],
)
CHECKS["C12"] = dict(
    src="c12.cpp", link_src=["harness/c12b.cpp"], threads=True,
    entries=[
        dict(entry="c12_allocator", params=dict(n=4), workers=3, bounds="all sequences of 4 requests of any 64-bit size with releases in between, any limit, any failure of the system allocator"),
        dict(entry="c12_tables", params=dict(n=4), workers=5, bounds="all histories of 4 operations on two tables, limits of 0-400 bytes"),
        dict(entry="c12_threads", params=dict(requests=2, symx_preempt=1), workers=4, bounds="2 threads with 2 requests each, released at once or kept, every schedule with at most one preemption at the accesses to the lock"),
        dict(entry="c12_threads", params=dict(requests=1, fail=1), workers=3, bounds="2 threads with a request each that may fail, every schedule with at most 2 preemptions"),
    ],
)
CHECKS["C25"] = dict(
    src="c25.cpp",
    entries=[
        dict(entry="c25_table", params=dict(width=1), workers=2, bounds="1 column, all histories of 2 operations on 0-3 rows"),
        dict(entry="c25_table", params=dict(width=3), workers=2, bounds="3 columns"),
        dict(entry="c25_table", params=dict(width=1, fixed=1), workers=2, bounds="1 column fixed at compile time"),
        dict(entry="c25_table", params=dict(width=2, fixed=1), workers=2, bounds="2 columns fixed at compile time"),
        dict(entry="c25_table", params=dict(width=2, n=3, rows=2), thorough=dict(width=2, n=3, rows=4), workers=4, time=120, bounds="2 columns, all histories of 3 operations on 0-1 rows (thorough: 0-3)"),
        dict(entry="c25_grow", bounds="30 rows appended one by one"),
        dict(entry="c25_rows", bounds="all histories of 2 row assignments, swaps and iterator steps on 3 rows"),
    ],
)

CHECKS["C16"] = dict(
    src="c16.cpp", cflags=QEF, link_src=["src/parser/RdfEscaping.cpp"], libs=["-licuuc"],
    entries=[
        dict(entry="c16_lines", params=dict(n=6), workers=2, bounds="all words of 6 bytes"),
        dict(entry="c16_unescapeLines", params=dict(n=5), bounds="all lines of 5 bytes"),
        dict(entry="c16_literal", params=dict(n=4), workers=2, bounds="all literals of 4 bytes in each kind of quotes"),
        dict(entry="c16_literal", params=dict(digits=4, n=1), workers=4, bounds="a short numeric escape with any digits, followed by any byte"),
        dict(entry="c16_literal", params=dict(digits=4), workers=2, bounds="a short numeric escape with any digits at the end"),
        dict(entry="c16_literal", params=dict(digits=4, missing=1), bounds="a truncated numeric escape"),
        dict(entry="c16_literal", params=dict(digits=8, zeros=2), workers=4, bounds="a long numeric escape with any last six digits"),
        dict(entry="c16_iri", params=dict(n=4), bounds="all IRIs of 4 bytes"),
        dict(entry="c16_iri", params=dict(digits=4, before=1), workers=2, bounds="any byte, then a numeric escape with any digits"),
        dict(entry="c16_iri", params=dict(digits=8, missing=4), workers=2, bounds="a truncated numeric escape"),
        dict(entry="c16_malformed", params=dict(n=1), bounds="all inputs of 1 byte"),
        dict(entry="c16_malformed", params=dict(n=3), bounds="all inputs of 3 bytes"),
        dict(entry="c16_malformed", params=dict(n=5), bounds="all inputs of 5 bytes"),
        dict(entry="c16_prefixed", params=dict(n=4), workers=2, bounds="all local names of 4 bytes"),
    ],
)
CHECKS["C17"] = dict(
    src="c17.cpp", cflags=QEF, link_src=QE,
    entries=[
        dict(entry="c17_string", params=dict(n=4), workers=4, bounds="all strings of 4 bytes"),
        dict(entry="c17_cell", params=dict(n=2), workers=4, bounds="all UTF-8 result cells of 2 bytes"),
    ],
)

CHECKS["C30"] = dict(
    src="c30.cpp", cflags=QEF + ["-include", "list"],
    entries=[
        dict(entry="c30_roundtrip", params=dict(n=2), workers=2, bounds="all strings of 2 bytes, encoded completely or where needed, with digits of either case"),
        dict(entry="c30_decode", params=dict(n=5), workers=2, bounds="all strings of 5 bytes"),
        dict(entry="c30_params", params=dict(n=2), workers=2, bounds="three parameters with any values of 1, 2 and 1 bytes"),
        dict(entry="c30_params", params=dict(n=1, count=2, http=1), workers=2, bounds="a value that contains words of the protocol"),
        dict(entry="c30_any", params=dict(n=5), workers=4, bounds="all parameter strings of 5 bytes"),
    ],
)
CHECKS["C35"] = dict(
    src="c30.cpp", cflags=QEF + ["-include", "list"],
    entries=[
        dict(entry="c35_line", params=dict(n=2), workers=4, bounds="request lines with fixed parts and any one or two bytes, received in one piece or in pieces of three bytes"),
        dict(entry="c35_query", params=dict(n=1), thorough=dict(n=2), workers=6, time=60, bounds="queries of any byte (thorough: 2) and parameter names of any two bytes"),
    ],
)

CHECKS["C32"] = dict(
    src="c32.cpp", cflags=QEF,
    entries=[
        dict(entry="c32_triple", params=dict(n=2, kind=0), workers=2, bounds="IRIs and blank nodes of 2 arbitrary bytes, with blanks and tabs in between"),
        dict(entry="c32_triple", params=dict(n=3, kind=1), workers=2, bounds="literals of 3 arbitrary bytes, without suffix, with a language or a datatype"),
        dict(entry="c32_tsv", params=dict(n=2), bounds="fields of 0-2 arbitrary bytes"),
        dict(entry="c32_anyLine", params=dict(n=6), workers=4, bounds="all lines of 6 bytes"),
        dict(entry="c32_anyTail", params=dict(n=5), workers=4, bounds="all lines that start with a subject and predicate and go on with 5 arbitrary bytes"),
        dict(entry="c32_anyTsv", params=dict(n=6), workers=2, bounds="all lines of 6 bytes"),
    ],
)

# reader thread and parser hand over at blocking calls; one entry also preempts
CHECKS["C29"] = dict(
    src="c29.cpp", cflags=QEF, link_src=["src/parser/RdfEscaping.cpp"], threads=True, regex=True, libs=["-lre2", "-licuuc", "-licui18n"],
    entries=[
        dict(entry="c29_" + x, params=dict(dict(symx_preempt=0), **p), workers=4, bounds=b + "; every buffer size, stream and mapped file", **k) for x, p, b, k in [
            ("names", dict(n=2), "3 documents with 2 prefixed names of 2 symbolic ASCII characters, escaped characters", dict(thorough=dict(n=3, symx_preempt=0), ttime=300)),
            ("declarations", dict(symx_preempt=1, batch=1), "documents of c29_declarations with one preemption of the reader or the parser at any synchronisation", {}),
            ("lists", dict(n=1), "3 documents with object and predicate lists, IRI of 1 and label of 2 symbolic characters", dict(thorough=dict(n=2, symx_preempt=0), ttime=300)),
            ("numbers", dict(n=1), "6 forms of numbers with 1-3 symbolic digits, 3 signs", dict(thorough=dict(n=2, symx_preempt=0), ttime=300)),
            ("literals", dict(n=2), "4 kinds of quotes, 2 symbolic characters, escapes, language tags and datatypes", dict(thorough=dict(n=3, symx_preempt=0), ttime=300)),
            ("space", dict(n=1), "7 kinds of white space and 3 comments with a symbolic character at 6 places", dict(thorough=dict(n=2, symx_preempt=0), ttime=300)),
            ("anonymous", dict(n=1), "5 documents with anonymous nodes nested to depth 2", {}),
            ("declarations", dict(batch=1), "4 documents that declare prefixes again between statements", {}),
            ("relaxed", {}, "3 documents for the relaxed tokenizer", {}),
            ("any", dict(n=2), "2 arbitrary ASCII characters after 6 beginnings, one buffer size: memory safety and termination", dict(thorough=dict(n=3, symx_preempt=0), ttime=600)),
        ]])
CHECKS["C33"] = dict(
    src="c33.cpp", cflags=QEF, regex=True,
    link_src=["src/parser/%s.cpp" % x for x in ["RdfEscaping", "SparqlLexer", "SparqlParser", "ParsedQuery", "PropertyPathParser"]],
    libs=["-lre2", "-licuuc", "-licui18n"],
    entries=[
        dict(entry="c33_" + x, params=p, workers=4, bounds=b, **k) for x, p, b, k in [
            ("triples", dict(n=1), "1-3 triples joined by . ; or , one position free: variable, IRI, prefixed name (with escape), literal (either quote, escapes, language, datatype) with 1 symbolic ASCII character each, or white space and comments", dict(thorough=dict(n=2), ttime=300)),
            ("prefixes", dict(n=2), "a declared prefix: 13 names (most start with a keyword) or 2 symbolic characters, IRI of 2 and local name of 1 symbolic characters, 5 places of use", dict(thorough=dict(n=3), ttime=300)),
            ("select", dict(m=1), "DISTINCT, REDUCED or neither, one selected item of every kind, all aggregates, 3 spellings of keywords", {}),
            ("select", dict(m=2), "two selected items", dict(thorough_only=True, ttime=300)),
            ("modifiers", dict(m=1), "every solution modifier, 1-2 digits, 1-2 sort keys, 3 spellings of keywords", {}),
            ("modifiers", dict(m=2), "every ordered pair of modifiers", {}),
            ("groups", {}, "2 selected variables and 1 grouping variable with a symbolic character each", {}),
            ("compare", dict(n=1), "one operand of every kind with 1 symbolic character, all relations, str, nested parentheses, position and dot", dict(thorough=dict(n=2), ttime=300)),
            ("regex", dict(n=2), "1-2 symbolic printable ASCII characters, plain or escaped, with and without ^, flags, alternatives", dict(thorough=dict(n=3), ttime=300)),
            ("language", dict(n=1), "language filters in 3 forms, tag of 2 symbolic letters, predicate with 1 symbolic character", {}),
            ("prefixfilter", dict(n=2), "prefix of 2 symbolic letters below z", {}),
            ("words", dict(n=2), "word of 2 symbolic letters", {}),
            ("patterns", dict(m=1, depth=2), "one element of every kind nested to depth 2, prefixed names with 1 symbolic character", {}),
            ("patterns", dict(m=2, depth=1, names=0), "1-2 elements of every kind, each with one element inside", {}),
            ("patterns", dict(m=2, depth=1, names=0, inner=2), "1-2 elements of every kind, each with 1-2 elements inside", dict(thorough_only=True, ttime=600)),
            ("paths", dict(depth=1), "all property paths with up to 3 parts per alternative and sequence, inverse, repetition and one nested group", {}),
            ("badpaths", {}, "16 malformed property paths", {}),
            ("rest", {}, "20 kinds of text after a complete query", {}),
            ("incomplete", {}, "5 queries cut off at every position", {}),
            ("any", dict(n=1), "0-1 arbitrary ASCII characters in 15 contexts with 3 kinds of rest", {}),
            ("any", dict(n=2), "0-2 arbitrary ASCII characters", dict(thorough_only=True, ttime=600)),
        ]])
CHECKS["C38"] = dict(
    src="c38.cpp", cflags=QEF + ["-include", "kbindex.h"], regex=True, libs=["-lre2", "-licuuc", "-licui18n"],
    link_src=["harness/c38_a.cpp", "harness/c38_b.cpp", "harness/c38_c.cpp"] +
    ["src/engine/%s.cpp" % x for x in "Filter GroupBy TransitivePath QueryPlanner".split()] +
    ["src/parser/%s.cpp" % x for x in ["RdfEscaping", "SparqlLexer", "SparqlParser", "ParsedQuery", "PropertyPathParser"]],
    entries=[
        dict(entry="c38_plan", params=dict(set=0, last=1), workers=4, time=90, bounds="basic graph patterns of one to three triples (chains, stars, cycles), fixed subjects and objects; 2, 2 and 1 triples for three predicates with every subject and object out of 9 values, every combination of small and large estimates"),
        dict(entry="c38_plan", params=dict(set=3, last=4), workers=4, time=90, bounds="comparisons of variables, OPTIONAL; 2, 2 and 1 triples for three predicates with every subject and object out of 9 values, every combination of small and large estimates"),
        dict(entry="c38_plan", params=dict(set=5, last=6), workers=4, time=90, bounds="UNION, MINUS; 2, 2 and 1 triples for three predicates with every subject and object out of 9 values, every combination of small and large estimates"),
        dict(entry="c38_plan", params=dict(set=7), workers=3, time=90, bounds="property paths: / | ^ +; 2, 2 and 1 triples for three predicates with every subject and object out of 9 values, every combination of small and large estimates"),
        dict(entry="c38_plan", params=dict(set=8, last=9), workers=4, time=90, bounds="DISTINCT and ORDER BY, GROUP BY with COUNT, in the query and in subqueries; 2, 2 and 1 triples for three predicates with every subject and object out of 9 values, every combination of small and large estimates"),
        dict(entry="c38_plan", params=dict(set=10, last=12), workers=4, time=90, bounds="VALUES, BIND, subqueries, HAVING with one or two conditions, the same variable as subject and object; 2, 2 and 1 triples for three predicates with every subject and object out of 9 values, every combination of small and large estimates"),
        dict(entry="c38_plan", params=dict(set=13), workers=3, time=90, bounds="transitive paths joined with inline data and triples on either side; 2, 2 and 1 triples for three predicates with every subject and object out of 9 values, every combination of small and large estimates"),
        dict(entry="c38_plan", params=dict(set=2, nr=0), workers=3, time=90, bounds="free predicates: joins with all triples, scans by subject or object; 2 triples each for two predicates with every subject and object out of 9 values, every combination of small and large estimates"),
        dict(entry="c38_plan", params=dict(set=14, nq=1), workers=3, time=90, bounds="OPTIONAL and MINUS with chains of three triples on either side, two shared variables, filters around nested groups; 2, 1 and 1 triples for three predicates with every subject and object out of 9 values, every combination of small and large estimates"),
    ],
)

CHECKS["C34"] = dict(
    src="c34.cpp", cflags=QEF, link_src=QE,
    entries=[
        dict(entry="c34_text", workers=3, bounds="0-3 rows, any 64-bit limit and offset, 6 selections of columns, 2 separators"),
        dict(entry="c34_json", workers=3, bounds="0-3 rows, any 64-bit limit and offset, 6 selections of columns"),
    ],
)

NOT_APPLICABLE = {}
CHECKS["C31"] = dict(
    src="c31.cpp", cflags=QEF + ["-include", "list"],
    link_src=QE + ["src/engine/Bind.cpp", "src/engine/Values.cpp", "src/engine/IndexScan.cpp"],
    entries=[
        dict(entry="c31_values", params=dict(rows=2), thorough=dict(rows=3), workers=2, bounds="1-2 columns, 1-2 rows (thorough 1-3), each cell one of two words or UNDEF, each word known or not, all ids"),
        dict(entry="c31_values", params=dict(cols=1, rows=3, fixrows=1), workers=2, bounds="1 column, 3 rows, every cell free"),
        dict(entry="c31_values", params=dict(cols=3, rows=3, fixrows=1, all=0), workers=2, bounds="3 columns, 3 rows, 4 cells free"),
        dict(entry="c31_values", params=dict(cols=6, rows=2, fixrows=1, all=0), workers=2, bounds="6 columns, 2 rows, 3 cells free"),
        dict(entry="c31_simple", params=dict(n=2), workers=2, bounds="0-2 rows, 1-2 columns, all values; renaming, all integer constants, known and unknown words"),
        dict(entry="c31_simple", params=dict(n=2, cols=5), workers=2, bounds="the same with 5 columns"),
        dict(entry="c31_simple", params=dict(n=2, cols=6), thorough_only=True, workers=2, bounds="the same with 6 columns"),
        dict(entry="c31_binary", params=dict(n=1, order=1), workers=3, bounds="1 row, all pairs of columns, all types, all values (words: 4), all four operators"),
        dict(entry="c31_binary", params=dict(n=1, cols=6, order=0), thorough=dict(n=2), workers=3, bounds="1 row (thorough 2), last and first of 6 columns, all types, all values, all operators"),
    ],
)
CHECKS["C27"] = dict(
    src="c27.cpp", cflags=["-fno-access-control", "-include", "fstream", "-include", "sstream"],
    entries=[
        dict(entry="c27_words", params=dict(steps=3, pagesize=64), workers=4, bounds="8 byte elements, creation in all four ways with 0-2 elements, histories of 3 operations (append, resize, set, close and open again, view, move, reserve), page size 64, all values"),
        dict(entry="c27_words", params=dict(steps=2, unit=52, pagesize=64), workers=2, bounds="0, 52 or 104 elements (104 fill the first allocation), resizing to 0-156, histories of 2 operations"),
        dict(entry="c27_words", params=dict(steps=2, first=104, pagesize=64), workers=2, bounds="104 appended elements, histories of 2 operations"),
        dict(entry="c27_odd", params=dict(steps=2, unit=53, first=1, pagesize=64), workers=2, bounds="12 byte elements, 0, 53 or 106 elements and one appended, histories of 2 operations"),
        dict(entry="c27_words", params=dict(steps=1, base=98, span=12, pagesize=64), workers=2, bounds="98-110 elements of 8 bytes, so every fill level of the last page, 1 operation"),
        dict(entry="c27_odd", params=dict(steps=1, base=98, span=17, pagesize=64), workers=2, bounds="98-115 elements of 12 bytes, so every fill level of the last page, 1 operation"),
        dict(entry="c27_words", params=dict(steps=2, unit=512, first=1), thorough_only=True, workers=4, time=200, bounds="page size 4096, up to 1025 elements, histories of 2 operations"),
        dict(entry="c27_invalid", workers=1, bounds="all files of 0, 1, 31, 32 and 40 bytes"),
    ],
)
CHECKS["C23"] = dict(
    src="c23.cpp", cflags=QEF + ["-include", "idtable.h"],
    link_src=QE + ["src/index/MetaDataTypes.cpp", "src/engine/IndexScan.cpp", "src/index/Index.Text.cpp"],
    libs=["-licuuc", "-licui18n"],
    entries=[
        dict(entry="c23_predicates", params=dict(n=2), workers=1, flags=["--fork-select"],
             bounds="2 triples of any ids in any order (duplicates included), PSO and POS, any first and second key"),
        dict(entry="c23_predicates", params=dict(n=4, fix=5, sorted=1, which=0), workers=3, flags=["--fork-select"],
             time=60, thorough=dict(n=5),
             bounds="relation of 4 triples, PSO, 2 distinct keys per block, blocks from 3 triples on; any keys"),
        dict(entry="c23_predicates", params=dict(n=4, fix=5, sorted=1, which=1), workers=3, flags=["--fork-select"],
             time=60, thorough=dict(n=5),
             bounds="relation of 4 triples, POS, 2 distinct keys per block, blocks from 3 triples on; any keys"),
        dict(entry="c23_predicates", params=dict(n=3, sorted=1, threshold=1, block=1), workers=2,
             flags=["--fork-select"], bounds="3 triples of any ids, PSO and POS, 1 key per block, blocks from 2 triples on"),
        dict(entry="c23_predicates", params=dict(n=3, fix=5, sorted=1, buffer=1), workers=2, flags=["--fork-select"],
             bounds="relation of 3 triples kept in a memory mapped buffer while it is written"),
        dict(entry="c23_subjects", params=dict(n=2, dense=3), workers=1, flags=["--fork-select"],
             bounds="2 triples over a vocabulary of 3, SPO and SOP, any keys, also beyond the vocabulary"),
        dict(entry="c23_objects", params=dict(n=2, dense=3), workers=1, flags=["--fork-select"],
             bounds="2 triples over a vocabulary of 3, OSP and OPS, any keys, also beyond the vocabulary"),
        dict(entry="c23_subjects", params=dict(n=3, dense=2, threshold=1, block=1), workers=2, flags=["--fork-select"],
             bounds="3 triples over a vocabulary of 2, SPO and SOP, 1 key per block, blocks from 2 triples on"),
        dict(entry="c23_operator", params=dict(n=2, pair=0), workers=1, flags=["--fork-select"],
             bounds="scan operator by predicate with one or two keys, 2 triples of any ids, any keys"),
        dict(entry="c23_operator", params=dict(n=2, pair=1, dense=3), workers=1, flags=["--fork-select"],
             bounds="scan operator by subject, 2 triples over a vocabulary of 3, any keys"),
        dict(entry="c23_operator", params=dict(n=2, pair=2, dense=3), workers=1, flags=["--fork-select"],
             bounds="scan operator by object, 2 triples over a vocabulary of 3, any keys"),
    ],
)

CHECKS["C24"] = dict(
    src="c24.cpp", cflags=QEF + ["-include", "idtable.h"],
    link_src=QE + ["src/index/MetaDataTypes.cpp", "src/engine/IndexScan.cpp", "src/index/Index.Text.cpp",
                   "src/engine/CountAvailablePredicates.cpp", "src/engine/HasPredicateScan.cpp"],
    libs=["-licuuc", "-licui18n"],
    entries=[
        dict(entry="c24_countAll", params=dict(n=3), flags=["--fork-select"],
             bounds="3 triples over 3 subjects with any predicates, any range of language predicates; 1 pattern stored"),
        dict(entry="c24_countAll", params=dict(n=3, patterns=9), flags=["--fork-select"],
             bounds="3 triples over 3 subjects with any predicates, any range of language predicates; all patterns stored"),
        dict(entry="c24_countSome", params=dict(n=3, rows=2), flags=["--fork-select"],
             bounds="3 triples over 3 subjects with any predicates, any range of language predicates; 1 pattern stored; 2 sorted entities"),
        dict(entry="c24_countSome", params=dict(n=2, rows=2, patterns=9, cols=3, col=1), flags=["--fork-select"],
             bounds="2 triples over 3 subjects; all patterns stored; middle column of 3"),
        dict(entry="c24_countOne", params=dict(n=3), flags=["--fork-select"],
             bounds="3 triples over 3 subjects with any predicates, any range of language predicates; 1 pattern stored; one entity, known or not"),
        dict(entry="c24_scan", params=dict(n=3, mode=0), flags=["--fork-select"],
             bounds="3 triples over 3 subjects with any predicates, any range of language predicates; entities of a predicate"),
        dict(entry="c24_scan", params=dict(n=3, mode=1), flags=["--fork-select"],
             bounds="3 triples over 3 subjects with any predicates, any range of language predicates; predicates of an entity"),
        dict(entry="c24_scan", params=dict(n=3, mode=2), flags=["--fork-select"],
             bounds="3 triples over 3 subjects with any predicates, any range of language predicates; all pairs"),
        dict(entry="c24_scan", params=dict(n=3, mode=3, rows=2), flags=["--fork-select"],
             bounds="3 triples over 3 subjects with any predicates, any range of language predicates; 2 rows of a subquery"),
        dict(entry="c24_scan", params=dict(n=3, mode=2, later=1), flags=["--fork-select"],
             bounds="3 triples over 3 subjects with any predicates, any range of language predicates; patterns added to an existing index"),
    ],
)

CHECKS["C20"] = dict(
    src="c20.cpp", cflags=["-include", "idtable.h"], link_src=["src/index/FTSAlgorithms.cpp"],
    entries=[
        dict(entry="c20_filter", flags=["--fork-select"], params=dict(n=5), bounds="lists of 0-5 postings, any range"),
        dict(entry="c20_entities", flags=["--fork-select"], params=dict(n=3, m=4), bounds="0-3 contexts, 0-4 entity postings, repetitions allowed"),
        dict(entry="c20_two", flags=["--fork-select"], params=dict(n=3, m=4), thorough=dict(n=4, m=4), bounds="lists of 0-3 and 0-4 distinct contexts"),
        dict(entry="c20_two", flags=["--fork-select"], params=dict(n=3, m=3, strict=0), bounds="two lists of 0-3 contexts with repetitions"),
        dict(entry="c20_several", flags=["--fork-select"], params=dict(k=3, n=2, m=3), thorough=dict(k=3, n=3), bounds="two lists of 0-2 and one of 0-3 distinct contexts"),
        dict(entry="c20_several", flags=["--fork-select"], params=dict(k=4, n=1, m=2), thorough=dict(k=4, n=2), bounds="three lists of 0-1 and one of 0-2 distinct contexts"),
        dict(entry="c20_several", flags=["--fork-select"], params=dict(k=3, n=2, strict=0), bounds="three lists of 0-2 contexts with repetitions"),
        dict(entry="c20_several", flags=["--fork-select"], params=dict(k=3, n=2, m=3, entities=1), bounds="two lists of 0-2 distinct contexts, 0-3 entity postings"),
        dict(entry="c20_several", flags=["--fork-select"], params=dict(k=3, n=2, m=2, entities=1, strict=0), bounds="two lists of 0-2 contexts with repetitions, 0-2 entity postings"),
        dict(entry="c20_top", flags=["--fork-select"], params=dict(n=4), bounds="0-4 postings, k of 0-5"),
    ],
)

CHECKS["C21"] = dict(
    src="c21.cpp", cflags=["-include", "idtable.h"], link_src=["src/index/FTSAlgorithms.cpp"],
    entries=[
        dict(entry="c21_plain", params=dict(n=5, k=1), flags=["--fork-select"],
             bounds="0-5 postings, the best context per entity"),
        dict(entry="c21_plain", params=dict(n=5, k=2), flags=["--fork-select"],
             bounds="0-5 postings, the 2 best contexts per entity"),
        dict(entry="c21_plain", params=dict(n=4, k=3), flags=["--fork-select"],
             bounds="0-4 postings, the 3 best contexts per entity"),
        dict(entry="c21_plain", params=dict(n=4, k=1, vars=2), flags=["--fork-select"],
             bounds="0-4 postings, the best context per pair of entities"),
        dict(entry="c21_plain", params=dict(n=3, k=2, vars=2), thorough=dict(n=4), flags=["--fork-select"],
             bounds="0-3 postings, the 2 best contexts per pair of entities"),
        dict(entry="c21_plain", params=dict(n=3, k=2, vars=3), flags=["--fork-select"],
             bounds="0-3 postings, the 2 best contexts per triple of entities"),
        dict(entry="c21_set", params=dict(n=4, k=1), flags=["--fork-select"],
             bounds="4 postings, 0-2 accepted entities, best context"),
        dict(entry="c21_set", params=dict(n=4, k=2), flags=["--fork-select"],
             bounds="4 postings, 0-2 accepted entities, 2 best contexts"),
        dict(entry="c21_set", params=dict(n=3, k=1, vars=2), flags=["--fork-select"],
             bounds="3 postings, 0-2 accepted entities, best context per pair"),
        dict(entry="c21_set", params=dict(n=3, k=2, m=1, vars=2), flags=["--fork-select"],
             bounds="3 postings, 0-1 accepted entities, 2 best contexts per pair"),
        dict(entry="c21_set", params=dict(n=2, k=2, vars=3), flags=["--fork-select"],
             bounds="2 postings, 0-2 accepted entities, 2 best contexts per triple"),
        dict(entry="c21_rows", params=dict(n=4, k=2), flags=["--fork-select"],
             bounds="4 postings, 0-2 filter rows, 2 best contexts"),
        dict(entry="c21_rows", params=dict(n=3, k=1, vars=2), flags=["--fork-select"],
             bounds="3 postings, 0-2 filter rows, best context per pair"),
        dict(entry="c21_rows", params=dict(n=3, k=2, vars=2), flags=["--fork-select"],
             bounds="3 postings, 0-2 filter rows, 2 best contexts per pair"),
    ],
)

CHECKS["C36"] = dict(
    src="c36.cpp", cflags=QEF + ["-include", "idtable.h"],
    link_src=QE + ["src/index/MetaDataTypes.cpp", "src/engine/IndexScan.cpp", "src/index/Index.Text.cpp", "src/index/FTSAlgorithms.cpp",
                   "src/index/TextMetaData.cpp", "src/index/DocsDB.cpp", "src/parser/ContextFileParser.cpp"],
    libs=["-licuuc", "-licui18n"],
    entries=[
        dict(entry="c36_search", params=dict(n=3, items=0b1110111), thorough=dict(items=127), bounds="3 lines over 3 words, 2 known entities with any ids and an unknown one; contexts with 0-3 lines; all searches for one term"),
        dict(entry="c36_search", params=dict(n=4, items=0b10110), bounds="4 lines over 2 words of one block and an entity; all searches for one term"),
        dict(entry="c36_search", params=dict(n=4, items=0b110001, same=1), bounds="4 lines over a word and 2 entities with equal scores; all searches for one term"),
        dict(entry="c36_two", params=dict(n=3, items=0b1110011), thorough=dict(items=127), bounds="3 lines over 2 words, 2 known entities and an unknown one; searches for two terms"),
        dict(entry="c36_two", time=90, params=dict(n=4, items=0b10011), bounds="4 lines over 2 words and an entity; searches for two terms"),
        dict(entry="c36_three", params=dict(n=3, items=0b10111), thorough=dict(n=4), bounds="3 lines over 3 words and an entity; searches for 3-4 terms"),
        dict(entry="c36_three", params=dict(n=4, items=0b110010), bounds="4 lines over a word and 2 entities; searches for 3-4 terms"),
    ],
)

CHECKS["C22"] = dict(
    src="c22.cpp", link_src=["src/index/MetaDataTypes.cpp", "src/index/TextMetaData.cpp"],
    entries=[
        dict(entry="c22_fields", bounds="all ids, offsets, flags and multiplicities, all numbers of elements below 2^40"),
        dict(entry="c22_blocks", params=dict(n=8), bounds="1-8 blocks with any ascending first ids and offsets, any looked-up id"),
        dict(entry="c22_sparse", params=dict(n=3), bounds="3 relations with any ids and fields, with and without 1-2 blocks"),
        dict(entry="c22_dense", params=dict(n=2), bounds="2 of 4 relations with any fields, with and without 1-2 blocks"),
        dict(entry="c22_text", params=dict(words=3, entities=3), bounds="1-3 word blocks, 0-3 entity blocks, any ids and offsets, any looked-up ids"),
    ],
)

CHECKS["C37"] = dict(
    src="c37.cpp", cflags=QEF + ["-include", "idtable.h"],
    link_src=QE + ["src/index/MetaDataTypes.cpp", "src/engine/IndexScan.cpp", "src/index/Index.Text.cpp", "src/index/DocsDB.cpp"],
    libs=["-licuuc", "-licui18n"],
    entries=[
        dict(entry="c37_excerpts", flags=["--hang=20000000"], params=dict(n=3, len=2, gap=3), bounds="0-3 documents of 1-2 bytes, gaps of 0-2 ids between them, all contexts up to 2 behind the last"),
        dict(entry="c37_none", bounds="any context"),
    ],
)

CHECKS["C14"] = dict(
    src="c14.cpp",
    entries=[
        dict(entry="c14_numbers", params=dict(before=2, behind=1), bounds="pairs of numbers with 0-2 digits before and no point or 0-1 digits behind the decimal point, any digits and sign (none, + or -)"),
        dict(entry="c14_powers", params=dict(zeros=12), workers=2, time=80, bounds="pairs of one digit followed by 0-12 zeros, or with 0-12 zeros between it and the decimal point, with any sign"),
        dict(entry="c14_integers", params=dict(before=3), time=80, bounds="pairs of integers of 1-3 digits with any sign, as IRI or prefixed type"),
        dict(entry="c14_mixed", params=dict(before=2), bounds="a decimal number of a query or of the data against an integer of the data, 1-2 digits before and 1 behind the point"),
        dict(entry="c14_dates", params=dict(year=5), workers=5, time=90, bounds="pairs of dates: years of 4-5 digits, positive or negative, with nothing, month, day, or time with or without fraction, any digits"),
    ],
)

CHECKS["C15"] = dict(
    src="c15.cpp",
    entries=[
        dict(entry="c15_numbers", params=dict(before=2, behind=2), workers=3, time=80, bounds="numbers with 0-2 digits before and 0-2 behind the decimal point, any digits and sign, types float, double, decimal"),
        dict(entry="c15_powers", params=dict(zeros=20), time=80, bounds="one digit followed by 0-20 zeros, or with 0-20 zeros between it and the decimal point, with any sign"),
        dict(entry="c15_integers", params=dict(before=3), time=80, bounds="integers of 1-3 digits, any sign, types int and integer"),
        dict(entry="c15_dates", params=dict(year=5), bounds="years of 4-5 digits, positive or negative, with nothing, month, day, or time with or without fraction, time zone Z or an offset (behind days and times), any digits, all four types"),
        dict(entry="c15_floats", params=dict(before=1, behind=1), bounds="numbers with 0-1 digits before and 0-1 behind the decimal point; one path for each value"),
        dict(entry="c15_long", params=dict(n=29), bounds="1-29 digits (any first digit, then ones or nines) before or behind the point, both signs"),
    ],
)

CHECKS["C18"] = dict(
    src="c18.cpp", cflags=QEF,
    link_src=["src/index/PrefixHeuristic.cpp", "src/parser/RdfEscaping.cpp"],
    libs=["-licuuc", "-licui18n"],
    entries=[
        dict(entry="c18_words", params=dict(prefixes=2, n=3), bounds="2 prefixes and a word of 0-3 bytes each, all bytes"),
        dict(entry="c18_words", params=dict(prefixes=3, n=3), workers=2, bounds="3 prefixes and a word of 0-3 bytes each, all bytes"),
        dict(entry="c18_many", bounds="125-127 prefixes of 3 bytes (126 have a code), words that share the first byte with them and continue with any 3 bytes"),
        dict(entry="c18_file", params=dict(words=3, n=2), workers=2, bounds="vocabulary files of 3 words of 1-2 bytes, all bytes"),
        dict(entry="c18_file", params=dict(words=3, n=3, any=0), workers=2, bounds="vocabulary files of 3 words of 1-3 letters or newlines"),
    ],
)

CHECKS["C19"] = dict(
    src="c19.cpp", cflags=QEF, link_src=["src/parser/RdfEscaping.cpp"], libs=["-licuuc", "-licui18n"],
    entries=[
        dict(entry="c19_lookup", params=dict(words=3, n=1), workers=3, time=90, bounds="3 sorted words, each a literal, an English literal or an IRI of 0-1 printable characters; lookups of all such words"),
        dict(entry="c19_lookup", params=dict(words=2, n=2), thorough_only=True, workers=2, time=90, bounds="2 sorted words of 0-2 printable characters"),
        dict(entry="c19_bounds", params=dict(words=2, n=1), time=90, bounds="2 sorted words of 0-1 printable characters; bounds on 3 levels"),
        dict(entry="c19_prefix", params=dict(words=2, n=2), workers=3, time=90, bounds="2 sorted words of 0-2 printable characters; prefixes of literals and IRIs of 0-2 characters"),
        dict(entry="c19_text", params=dict(words=2, n=2), workers=3, time=90, bounds="2 sorted words of 1-2 characters in lower case; lookups, prefixes and bounds"),
        dict(entry="c19_order", params=dict(n=1), thorough=dict(n=2), bounds="3 words of 0-1 printable characters (thorough: 0-2)"),
        dict(entry="c19_external", params=dict(words=4, n=1), flags=["--hang=20000000"], time=90, bounds="0-4 externalized literals of 0-1 printable characters behind 0-1 internal words"),
    ],
)

CHECKS["C11"] = dict(
    src="c11.cpp", threads=True,
    entries=[
        dict(entry="c11_requests", params=dict(threads=2, requests=2, keys=1), thorough=dict(symx_preempt=3), workers=2,
             bounds="2 threads with 2 requests each for one key, every choice of pinned requests and failing computations, every schedule with at most 2 (thorough: 3) preemptions"),
        dict(entry="c11_requests", params=dict(threads=3, requests=1, keys=1), thorough=dict(symx_preempt=3), workers=3,
             bounds="3 threads with 1 request each for one key, every choice of pinned requests and failing computations, every schedule with at most 2 (thorough: 3) preemptions"),
        dict(entry="c11_requests", params=dict(threads=2, requests=2, keys=1, clears=1, warm=1), thorough=dict(symx_preempt=4),
             bounds="one cached result; a thread that clears the cache and then requests, a thread with 2 requests, every schedule with at most 2 (thorough: 4) preemptions"),
        dict(entry="c11_requests", params=dict(threads=2, requests=2, keys=2, symx_preempt=1), thorough=dict(symx_preempt=2), workers=3,
             bounds="2 threads with 2 requests each for 2 keys, every schedule with at most 1 (thorough: 2) preemptions"),
    ])

# Schedules: the next thread in line runs when one blocks or ends, up to
# symx_preempt departures from that.
CHECKS["C26"] = dict(
    src="c26.cpp", threads=True,
    entries=[
        dict(entry="c26_single", params=dict(n=3, symx_preempt=3, symx_delays=1), thorough=dict(symx_preempt=4), workers=2,
             bounds="one stage, 0-3 arbitrary elements, batch size 1-3, every schedule with at most 3 (thorough: 4) departures from round robin"),
        dict(entry="c26_stages", params=dict(n=3, symx_preempt=2, symx_delays=1), thorough=dict(symx_preempt=3), workers=2,
             bounds="two stages, 0-3 arbitrary elements, batch size 1-3, every schedule with at most 2 (thorough: 3) departures from round robin"),
        dict(entry="c26_parallel", params=dict(n=6, batch=6, symx_preempt=1, symx_delays=1), thorough=dict(symx_preempt=2), workers=2,
             bounds="one transformer in 2 threads, 0-6 arbitrary elements, batch size 1-6, every schedule with at most 1 (thorough: 2) departures from round robin"),
        dict(entry="c26_parallel", params=dict(n=7, batch=7, degree=3, symx_preempt=1, symx_delays=1), thorough=dict(symx_preempt=2), workers=2,
             bounds="one transformer in 3 threads, 0-7 arbitrary elements, batch size 1-7, every schedule with at most 1 (thorough: 2) departures from round robin"),
        dict(entry="c26_tuple", params={"n": 3, "symx_preempt": 2, "symx_delays": 1, "yield": 2}, thorough=dict(symx_preempt=3), workers=2,
             bounds="two transformers in one stage, interrupted in the middle, 0-3 arbitrary elements, batch size 1-3, every schedule with at most 2 (thorough: 3) departures from round robin"),
        dict(entry="c26_tuple", params=dict(n=5, batch=5, degree=3, symx_preempt=1, symx_delays=1), thorough=dict(symx_preempt=2), workers=2,
             bounds="a stage with one and a stage with three transformers, 0-5 arbitrary elements, batch size 1-5, every schedule with at most 1 (thorough: 2) departures from round robin"),
        dict(entry="c26_drop", params=dict(n=3, symx_preempt=2, symx_delays=1), thorough=dict(symx_preempt=3),
             bounds="pipeline dropped before or after the first of 0-3 elements, every schedule with at most 2 (thorough: 3) departures from round robin"),
    ])

CHECKS["C28"] = dict(
    src="c28.cpp", threads=True, cflags=QEF, link_src=["src/parser/RdfEscaping.cpp"], libs=["-licuuc", "-licui18n"],
    entries=[
        dict(entry="c28_bytes", params=dict(files=2, words=2, len=1, symx_preempt=0, symx_delays=1), workers=5, time=100,
             bounds="2 partial vocabularies of 2 words of one byte (also externalized, equal, language predicates) in byte order, batches of 3 and 10 words"),
        dict(entry="c28_bytes", params=dict(files=2, words=1, len=2, escapes=1, buffer=3, symx_preempt=0, symx_delays=1), workers=2, time=60,
             bounds="2 partial vocabularies of 1 word of 1-2 arbitrary bytes, newlines and backslashes included"),
        dict(entry="c28_bytes", params=dict(files=3, words=1, len=1, buffer=2, symx_preempt=1, symx_delays=1), thorough=dict(symx_preempt=2), workers=2, time=60,
             bounds="3 partial vocabularies of 1 word of one byte, batches of 2 words, schedules of the writing threads with at most 1 (thorough: 2) departures from round robin"),
        dict(entry="c28_sorted", params=dict(files=3, words=1, len=1, buffer=5, kinds=4, symx_preempt=0, symx_delays=1), workers=3, time=60,
             bounds="3 partial vocabularies of 1 literal or IRI, externalized or not, of 0-1 printable characters in the order of the index"),
        dict(entry="c28_sorted", params=dict(files=2, words=1, len=2, buffer=5, symx_preempt=0, symx_delays=1), workers=2, time=60,
             bounds="2 partial vocabularies of 1 literal, IRI or language predicate of 0-2 printable characters in the order of the index"),
    ])
