#include "reflobj.h"
#include "zserio/pmr/Any.h"
#include <memory_resource>
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"
namespace
{
using namespace rf;
using namespace zserio;
using A = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;
RegisterAll<A, Rich<A, Int16>, Rich<A, DynUInt8>, Rich<A, Str<A>>, Rich<A, Byt<A>>, Rich<A, Bbf<A>>, Rich<A, RUni<A, ES16>>, RChc<A, M16>, Tree<A>> reg;
}
