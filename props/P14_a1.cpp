#include "P14_hist.h"
void p14_a1(pbt::Gen& g, bool faults)
{
    forAlloc<PmrA>(g, faults);
}
