#include "elems.h"
#define SLICE 0
#define EL_LIST EL_L0
#include "arrcase.inc"
