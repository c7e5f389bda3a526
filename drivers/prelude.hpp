// Brings in /repo's public header set in the STANDALONE configuration.
// clang (unlike g++) rejects the circular include order of etr.hpp, so the
// vector class is pulled in first; no declaration is added or changed.
#ifndef VF_PRELUDE
#define VF_PRELUDE
#define STANDALONE_ETR
#define ALLOCATION_ETR_H
#include "etr_bits/BufferVector.hpp"
#undef ALLOCATION_ETR_H
#include "etr.hpp"
#endif
