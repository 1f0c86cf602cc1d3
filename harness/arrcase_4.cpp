#include "elems.h"
#define SLICE 4
#define EL_LIST EL_L4
#include "arrcase.inc"
