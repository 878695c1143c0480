// C20, further element types.
#define MC_PART 1
#ifndef MC_CORE
#include "c20.cpp"
#endif
