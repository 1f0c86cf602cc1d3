#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = StdA;
RegisterAll<A, Rich<A, VarUInt64>, Rich<A, VarUInt>, Rich<A, VarSize>, Rich<A, Float16>, Rich<A, Float32>, Rich<A, Float64>> reg;
}
