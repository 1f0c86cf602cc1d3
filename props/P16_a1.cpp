#include "P16_hist.h"
void p16_a1(pbt::Gen& g, bool faults)
{
    forAlloc<PmrA>(g, faults);
}
