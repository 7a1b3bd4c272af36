// The operators in few translation units, as most of the time goes into
// reading the headers.
#include "engine/Operation.cpp"
#include "engine/QueryExecutionTree.cpp"
#include "engine/ResultTable.cpp"
#include "engine/QueryPlanningCostFactors.cpp"
#include "engine/SortPerformanceEstimator.cpp"
#include "engine/Bind.cpp"
#include "engine/Values.cpp"
#include "engine/Distinct.cpp"
#include "engine/Sort.cpp"
#include "engine/OrderBy.cpp"
#include "engine/IndexScan.cpp"
