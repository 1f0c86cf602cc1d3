#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = StdA;
RegisterAll<A, Rich<A, DynUInt8>, Rich<A, DynUInt16>, Rich<A, DynUInt32>, Rich<A, DynUInt64>, RUni<A, DynUInt32>> reg;
}
