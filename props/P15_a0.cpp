#include "P15_hist.h"
void p15_a0(pbt::Gen& g, bool faults)
{
    forAlloc<StdA>(g, faults);
}
