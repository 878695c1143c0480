// C22, the element types of part 1.
#define MC_PART 1
#ifndef MC_CORE
#include "c22.cpp"
#endif
