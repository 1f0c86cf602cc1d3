#include "P16_hist.h"
void p16_a5(pbt::Gen& g, bool faults)
{
    forAlloc<TAlloc<uint8_t, 2>>(g, faults);
}
