#include "elems.h"
#define SLICE 7
#define EL_LIST EL_L7
#include "arrcase.inc"
