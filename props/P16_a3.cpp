#include "P16_hist.h"
void p16_a3(pbt::Gen& g, bool faults)
{
    forAlloc<TAlloc<uint8_t, 0>>(g, faults);
}
