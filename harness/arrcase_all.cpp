#include "arrcase.h"
namespace el
{
#define DECL(k) size_t caseCount##k(); void caseMake##k(pbt::Gen&, size_t, ArrCase&, size_t);
DECL(0) DECL(1) DECL(2) DECL(3) DECL(4) DECL(5) DECL(6) DECL(7)
namespace
{
using CountFn = size_t (*)();
using MakeFn = void (*)(pbt::Gen&, size_t, ArrCase&, size_t);
const CountFn counts[] = {caseCount0, caseCount1, caseCount2, caseCount3, caseCount4, caseCount5, caseCount6, caseCount7};
const MakeFn makes[] = {caseMake0, caseMake1, caseMake2, caseMake3, caseMake4, caseMake5, caseMake6, caseMake7};
} // namespace
size_t caseTypes()
{
    size_t n = 0;
    for (auto f : counts) n += f();
    return n;
}
ArrCase genCase(pbt::Gen& g, int packed, int kind, size_t maxLen)
{
    ArrCase c;
    c.packed = packed < 0 ? g.flip() : packed != 0;
    c.kind = static_cast<Kind>(kind >= 0 ? static_cast<size_t>(kind) : g.below(5));
    size_t i = g.below(caseTypes());
    for (size_t k = 0;; ++k)
    {
        if (i < counts[k]()) { makes[k](g, i, c, maxLen); break; }
        i -= counts[k]();
    }
    if (g.noting()) g.note(c.shown);
    return c;
}
} // namespace el
