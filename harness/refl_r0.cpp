#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = StdA;
RegisterAll<A, Rich<A, Bool>, Rich<A, Int8>, Rich<A, Int3>, Rich<A, UInt8>, Rich<A, UInt5>, Rich<A, Int16>> reg;
}
