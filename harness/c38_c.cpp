#include "engine/Join.cpp"
#include "engine/OptionalJoin.cpp"
#include "engine/MultiColumnJoin.cpp"
