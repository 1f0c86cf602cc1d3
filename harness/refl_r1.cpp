#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = StdA;
RegisterAll<A, Rich<A, Int13>, Rich<A, UInt16>, Rich<A, UInt9>, Rich<A, Int32>, Rich<A, Int17>, Rich<A, UInt32>> reg;
}
