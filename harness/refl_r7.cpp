#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = StdA;
RegisterAll<A, Rich<A, ES8>, Rich<A, EU8>, Rich<A, ES16>, Rich<A, EU16>, Rich<A, ES32>, RUni<A, ES64>> reg;
}
