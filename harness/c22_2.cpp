// C22, the element types of part 2.
#define MC_PART 2
#ifndef MC_CORE
#include "c22.cpp"
#endif
