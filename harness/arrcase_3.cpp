#include "elems.h"
#define SLICE 3
#define EL_LIST EL_L3
#include "arrcase.inc"
