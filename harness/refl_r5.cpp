#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = StdA;
RegisterAll<A, Rich<A, DynInt8>, Rich<A, DynInt16>, Rich<A, DynInt32>, Rich<A, DynInt64>, RChc<A, DynInt16>> reg;
}
