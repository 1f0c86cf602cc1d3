#include "P16_hist.h"
void p16_a6(pbt::Gen& g, bool faults)
{
    forAlloc<TAlloc<uint8_t, 4>>(g, faults);
}
