#include "P15_hist.h"
void p15_a4(pbt::Gen& g, bool faults)
{
    forAlloc<TAlloc<uint8_t, 9>>(g, faults);
}
