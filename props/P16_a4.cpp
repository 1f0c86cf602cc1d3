#include "P16_hist.h"
void p16_a4(pbt::Gen& g, bool faults)
{
    forAlloc<TAlloc<uint8_t, 9>>(g, faults);
}
