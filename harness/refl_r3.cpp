#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = StdA;
RegisterAll<A, Rich<A, VarInt16>, Rich<A, VarInt32>, Rich<A, VarInt64>, Rich<A, VarInt>, Rich<A, VarUInt16>, Rich<A, VarUInt32>> reg;
}
