#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = StdA;
RegisterAll<A, Rich<A, Rich<A, Int64>>, Rich<A, RUni<A, Str<A>>>, Rich<A, RChc<A, ES16>>, RUni<A, Rich<A, Bbf<A>>>> reg;
}
