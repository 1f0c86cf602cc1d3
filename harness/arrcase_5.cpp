#include "elems.h"
#define SLICE 5
#define EL_LIST EL_L5
#include "arrcase.inc"
