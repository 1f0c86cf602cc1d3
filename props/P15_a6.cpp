#include "P15_hist.h"
void p15_a6(pbt::Gen& g, bool faults)
{
    forAlloc<TAlloc<uint8_t, 4>>(g, faults);
}
