#include "elems.h"
#define SLICE 2
#define EL_LIST EL_L2
#include "arrcase.inc"
