// The library's code for 32-bit targets. The runner links the sub-checks of P01, P02, P04, P10 and P11 (their oracles know nothing of
// the target) with the library compiled for a 32-bit target (harness/arch32), plus the following.
#include "streamops.h"
#include "zserio/BitStreamReader.h"
#include "zserio/SizeConvertUtil.h"

SUBCHECK(wide_reads, 600000, 20000000,
        "reads of 33 to 64 bits (signed, unsigned, float64, fixed types) in two halves at any bit position, in a buffer of any bit size, mixed with "
        "narrow ones, also past the end; non-trivial: a wide read from an unaligned position")
{
    const size_t bytes = 1 + g.size(30);
    std::vector<uint8_t> data(bytes);
    for (auto& x : data) x = static_cast<uint8_t>(g.chance(1, 4) ? (g.flip() ? 0xFF : 0) : g.below(256));
    const size_t total = bytes * 8 - g.below(8);
    ref::ExactBuf buf(data);
    ref::Bits bits;
    for (size_t i = 0; i < total; ++i) bits.put((data[i / 8] >> (7 - i % 8)) & 1, 1);
    zserio::BitStreamReader r(buf.data(), total, zserio::BitsTag());
    size_t pos = g.below(total + 1);
    r.setBitPosition(pos);
    const size_t n = 1 + g.size(12);
    for (size_t i = 0; i < n; ++i)
    {
        if (g.chance(1, 6))
        {
            pos = g.below(total + 1);
            r.setBitPosition(pos);
        }
        unsigned w = static_cast<unsigned>(g.chance(2, 3) ? 33 + g.below(32) : 1 + g.below(32));
        const int kind = static_cast<int>(g.below(3));
        if (kind == 2) w = 64;
        const bool fits = pos + w <= total;
        if (w > 32 && pos % 8 != 0 && fits) g.nontrivial();
        if (g.noting()) g.note("read " + std::to_string(w) + " kind " + std::to_string(kind) + " at " + std::to_string(pos));
        if (!fits)
        {
            CHECK_THROWS(zserio::CppRuntimeException, kind == 1 ? static_cast<void>(r.readSignedBits64(static_cast<uint8_t>(w)))
                                                                : static_cast<void>(r.readUnsignedBits64(static_cast<uint8_t>(w))));
            CHECK(r.getBitPosition() <= total);
            r.setBitPosition(pos);
            continue;
        }
        const uint64_t exp = w == 0 ? 0 : bits.get(pos, w);
        if (kind == 1)
        {
            const int64_t se = w == 0 ? 0 : static_cast<int64_t>(exp << (64 - w)) >> (64 - w);
            CHECK_EQM(r.readSignedBits64(static_cast<uint8_t>(w)), se, "signed " << w << " bits at " << pos << " of " << pbt::hex(data.data(), data.size()));
        }
        else if (kind == 0 || g.flip())
            CHECK_EQM(r.readUnsignedBits64(static_cast<uint8_t>(w)), exp, "unsigned " << w << " bits at " << pos << " of " << pbt::hex(data.data(), data.size()));
        else
        {
            const double d = r.readFloat64();
            uint64_t got = 0;
            memcpy(&got, &d, 8);
            CHECK_EQM(got, exp, "float64 at " << pos);
        }
        pos += w;
        CHECK_EQ(r.getBitPosition(), pos);
    }
}
SUBCHECK(sizes, 50000, 1000000, "size conversions for values below and above 2^32; non-trivial: above")
{
    const uint64_t v = g.integral<uint64_t>();
    g.nontrivial(v > UINT32_MAX);
    CHECK_EQ(zserio::convertUInt64ToSize(v), static_cast<size_t>(v)); // size_t itself has 64 bits here
    if (v <= UINT32_MAX) CHECK_EQ(zserio::convertSizeToUInt32(static_cast<size_t>(v)), static_cast<uint32_t>(v));
}
