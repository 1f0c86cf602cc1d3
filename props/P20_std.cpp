#include "P20_creator.h"

SUBCHECK(build_std, 40000, 500000, "random object built field by field in random order, values in random admissible forms, illegal steps in between; non-trivial: >= 4 steps") { buildCase(g, StdA{}); }
SUBCHECK(history_std, 60000, 800000, "random step history mirrored by the model; non-trivial: >= 4 effective steps and an illegal one") { histCase(g, StdA{}); }
SUBCHECK(typed_std, 8000, 80000, "typed enums, bitmasks, wrappers, strings and binary values; non-trivial: array elements added") { typedAny(g, StdA{}); }
