#include "elems.h"
#define SLICE 6
#define EL_LIST EL_L6
#include "arrcase.inc"
