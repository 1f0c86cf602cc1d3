#include "P14_hist.h"
void p14_a2(pbt::Gen& g, bool faults)
{
    forAlloc<PpmrA>(g, faults);
}
