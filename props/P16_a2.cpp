#include "P16_hist.h"
void p16_a2(pbt::Gen& g, bool faults)
{
    forAlloc<PpmrA>(g, faults);
}
