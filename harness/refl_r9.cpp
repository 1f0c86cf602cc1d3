#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = StdA;
RegisterAll<A, Rich<A, M32>, Rich<A, M64>, Rich<A, Str<A>>, Rich<A, Byt<A>>, Rich<A, Bbf<A>>> reg;
}
