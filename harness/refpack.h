// Independent reference of the packed array ("delta") encoding and of element encodings.
#pragma once
#include <cstdint>
#include <vector>
#include "ref.h"

namespace ref
{
using i128 = __int128;
inline void append(Bits& out, const Bits& in) { out.b.insert(out.b.end(), in.b.begin(), in.b.end()); }

// one packed stream of numbers: collect all elements first, then emit one by one
struct Delta
{
    struct El { i128 v; Bits enc; };
    std::vector<El> els;
    size_t idx = 0;
    bool decided = false, packed = false;
    unsigned maxBits = 0;
    void init(i128 v, Bits enc) { els.push_back({v, std::move(enc)}); }
    static unsigned bitLen(i128 d)
    {
        if (d < 0) d = -d;
        unsigned n = 0;
        while (d != 0) { ++n; d >>= 1; }
        return n;
    }
    void decide()
    {
        decided = true;
        packed = false;
        maxBits = 0;
        if (els.size() < 2) return;
        for (size_t i = 1; i < els.size(); ++i)
        {
            unsigned b = bitLen(els[i].v - els[i - 1].v);
            if (b > maxBits) maxBits = b;
        }
        if (maxBits > 62) return;
        u128 width = maxBits ? maxBits + 1 : 0;
        u128 packedSize = 7 + els[0].enc.size() + width * (els.size() - 1);
        u128 unpackedSize = 1;
        for (auto& e : els) unpackedSize += e.enc.size();
        packed = packedSize < unpackedSize;
    }
    void next(Bits& out)
    {
        if (!decided) decide();
        size_t i = idx++;
        if (i == 0)
        {
            out.put(packed, 1);
            if (packed) out.put(maxBits, 6);
            append(out, els[0].enc);
        }
        else if (!packed) append(out, els[i].enc);
        else if (maxBits > 0)
        {
            i128 d = els[i].v - els[i - 1].v;
            out.put(static_cast<uint64_t>(static_cast<u128>(d)), maxBits + 1);
        }
    }
};
} // namespace ref
