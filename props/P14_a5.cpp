#include "P14_hist.h"
void p14_a5(pbt::Gen& g, bool faults)
{
    forAlloc<TAlloc<uint8_t, 2>>(g, faults);
}
