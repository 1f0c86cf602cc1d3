#include "P16_hist.h"
void p16_a0(pbt::Gen& g, bool faults)
{
    forAlloc<StdA>(g, faults);
}
