// Stand-in for the library's architecture detection: selects the code for 32-bit targets (property P30).
#ifndef ZSERIO_RUNTIME_ARCH_H_INC
#define ZSERIO_RUNTIME_ARCH_H_INC
#define ZSERIO_RUNTIME_32BIT
#endif
