#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = StdA;
RegisterAll<A, RChc<A, Tree<A>>, Tree<A>, RChc<A, RUni<A, M16>>, RUni<A, Float64>> reg;
}
