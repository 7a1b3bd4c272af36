#include "engine/CountAvailablePredicates.cpp"
#include "engine/HasPredicateScan.cpp"
#include "engine/TextOperationWithFilter.cpp"
#include "engine/TextOperationWithoutFilter.cpp"
#include "engine/Union.cpp"
#include "engine/Minus.cpp"
#include "engine/TwoColumnJoin.cpp"
