#include "P20_creator.h"

SUBCHECK(build_pmr, 10000, 100000, "random object built field by field in random order, values in random admissible forms, illegal steps in between; non-trivial: >= 4 steps") { buildCase(g, PmrA{}); }
SUBCHECK(history_pmr, 12000, 150000, "random step history mirrored by the model; non-trivial: >= 4 effective steps and an illegal one") { histCase(g, PmrA{}); }
SUBCHECK(typed_pmr, 6000, 60000, "typed enums, bitmasks, wrappers, strings and binary values; non-trivial: array elements added") { typedAny(g, PmrA{}); }
