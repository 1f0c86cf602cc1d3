#include "P15_hist.h"
void p15_a7(pbt::Gen& g, bool faults)
{
    forAlloc<TAlloc<uint8_t, 7>>(g, faults);
}
