#include "P15_hist.h"
void p15_a1(pbt::Gen& g, bool faults)
{
    forAlloc<PmrA>(g, faults);
}
