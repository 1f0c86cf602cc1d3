#include "pbt.h"
#ifndef PBT_SCALE
#define PBT_SCALE 1
#endif
int main(int argc, char** argv)
{
    return pbt::runMain(argc, argv, PBT_PROPERTY, PBT_SCALE);
}
