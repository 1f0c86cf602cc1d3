#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = StdA;
RegisterAll<A, Rich<A, UInt31>, Rich<A, Int64>, Rich<A, Int33>, Rich<A, UInt64>, Rich<A, UInt57>, RUni<A, UInt64>> reg;
}
