#include "elems.h"
#define SLICE 1
#define EL_LIST EL_L1
#include "arrcase.inc"
