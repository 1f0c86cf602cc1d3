#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = StdA;
RegisterAll<A, Rich<A, EU32>, Rich<A, ES64>, Rich<A, EU64>, Rich<A, M8>, Rich<A, M16>, RChc<A, M64>> reg;
}
