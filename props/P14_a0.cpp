#include "P14_hist.h"
void p14_a0(pbt::Gen& g, bool faults)
{
    forAlloc<StdA>(g, faults);
}
