// Type erased array test cases over all element types and array kinds.
#pragma once
#include "elems.h"

namespace el
{
enum Kind { NORMAL, AUTO, ALIGNED, ALIGNED_AUTO, IMPLICIT };
struct ArrCase
{
    std::string shown;
    Kind kind = NORMAL;
    bool packed = false, packable = false, nestedPacked = false;
    uint8_t param = 0;
    size_t n = 0;
    size_t elemBits = 0; // size of a default element
    size_t sizeofT = 0;
    std::function<ref::Bits(size_t)> expected;                 // reference bits at a start position
    std::function<size_t(size_t)> bitSize;
    std::function<size_t(size_t, std::vector<std::pair<size_t, size_t>>&)> initOffsets; // (index, byte offset) pairs reported
    std::function<void(zserio::BitStreamWriter&)> write;
    std::function<void()> validate;
    std::function<void(size_t)> validateLength;
    std::function<void(zserio::BitStreamReader&, size_t)> read; // replaces the content of `back`
    std::function<void(size_t)> prefill;                        // fills `back` with copies of the source elements
    std::function<bool()> equal;                                // back == source
    std::function<size_t()> backSize;
};
// makes a random case: element type, kind (IMPLICIT only unpacked and where possible), values
// kinds: -1 any; packed: 0 no, 1 yes, -1 any
ArrCase genCase(pbt::Gen& g, int packed = -1, int kind = -1, size_t maxLen = 40);
size_t caseTypes();
} // namespace el
