#include "P24_builtin.h"
SUBCHECK(builtin_ppmr, 8000, 100000, "built-in type with a generated value: type info against the encoding; non-trivial: every case (152 types)")
{
    g.nontrivial();
    p24::builtinCase<p24::PpmrA>(g);
}
