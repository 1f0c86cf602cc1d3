#include "P16_hist.h"
void p16_a7(pbt::Gen& g, bool faults)
{
    forAlloc<TAlloc<uint8_t, 7>>(g, faults);
}
