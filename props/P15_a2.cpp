#include "P15_hist.h"
void p15_a2(pbt::Gen& g, bool faults)
{
    forAlloc<PpmrA>(g, faults);
}
