#include "pbt.h"
#include "ref.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/FloatUtil.h"

#include <cmath>
#include <limits>

using namespace zserio;

namespace
{
// nearest half by search over all halves of one sign: ties away from zero (2^-25 itself is flushed to zero)
uint16_t oracleHalf(uint32_t u)
{
    float f = ref::u2f(u);
    uint16_t s = static_cast<uint16_t>((u >> 31) << 15);
    double a = std::fabs(static_cast<double>(f));
    if (std::isinf(a)) return static_cast<uint16_t>(s | 0x7C00);
    if (a >= 65520.0) return static_cast<uint16_t>(s | 0x7C00);
    if (a <= 0x1p-25) return s;
    // binary search for the largest half <= a
    unsigned lo = 0, hi = 0x7C00;
    while (hi - lo > 1)
    {
        unsigned mid = (lo + hi) / 2;
        if (ref::halfToDouble(static_cast<uint16_t>(mid)) <= a) lo = mid;
        else hi = mid;
    }
    double l = ref::halfToDouble(static_cast<uint16_t>(lo));
    double h = hi == 0x7C00 ? 65536.0 : ref::halfToDouble(static_cast<uint16_t>(hi));
    return static_cast<uint16_t>(s | (a - l < h - a ? lo : hi));
}
void checkNarrow(uint32_t u)
{
    uint16_t got = convertFloatToUInt16(ref::u2f(u));
    bool nan = (u & 0x7F800000U) == 0x7F800000U && (u & 0x7FFFFFU) != 0;
    if (nan)
    {
        CHECKM((got & 0x7C00) == 0x7C00 && (got & 0x3FF) != 0, "NaN " << std::hex << u << " narrowed to " << got);
        CHECKM((got >> 15) == (u >> 31), "sign of NaN " << std::hex << u << " -> " << got);
        return;
    }
    uint16_t exp = oracleHalf(u);
    CHECKM(got == exp, "narrowing of 0x" << std::hex << u << " (" << ref::u2f(u) << ") gave 0x" << got << ", nearest is 0x" << exp);
}
} // namespace

SUBCHECK(widen_all, 16, 16, "each case widens all 65536 half encodings and compares with the exact value; narrowing back is the identity; non-trivial: always")
{
    g.draw(0);
    g.nontrivial();
    g.note("all 65536 encodings");
    for (uint32_t h = 0; h < 65536; ++h)
    {
        float f = convertUInt16ToFloat(static_cast<uint16_t>(h));
        double e = ref::halfToDouble(static_cast<uint16_t>(h));
        bool nan = (h & 0x7C00) == 0x7C00 && (h & 0x3FF);
        if (nan)
        {
            CHECKM(std::isnan(f), "half 0x" << std::hex << h);
            CHECKM((ref::f2u(f) >> 31) == (h >> 15), "sign of NaN half 0x" << std::hex << h);
        }
        else CHECKM(static_cast<double>(f) == e && std::signbit(f) == ((h >> 15) != 0), "half 0x" << std::hex << h << " gave " << f << " expected " << e);
        uint16_t back = convertFloatToUInt16(f);
        if (nan) CHECKM((back & 0x7C00) == 0x7C00 && (back & 0x3FF), "NaN half 0x" << std::hex << h << " came back as 0x" << back);
        else CHECKM(back == h, "half 0x" << std::hex << h << " came back as 0x" << back);
    }
}
SUBCHECK(narrow, 3000000, 60000000, "single-precision pattern (biased to the half range, rounding boundaries, subnormals, overflow, NaN) narrowed and compared with a search-based nearest value; non-trivial: finite and not exactly representable")
{
    uint32_t u;
    if (g.flip()) u = g.floatBits();
    else
    {
        // around the midpoint between two adjacent halves
        uint16_t h = static_cast<uint16_t>(g.ubits(15));
        if (h >= 0x7BFF) h = 0x7BFF;
        double l = ref::halfToDouble(h), r = h == 0x7BFF ? 65536.0 : ref::halfToDouble(static_cast<uint16_t>(h + 1));
        float mid = static_cast<float>((l + r) / 2);
        u = ref::f2u(mid) + static_cast<uint32_t>(g.range(-2, 2));
        if (g.flip()) u |= 0x80000000U;
    }
    if (g.noting()) { char b[32]; snprintf(b, sizeof b, "0x%08x", u); g.note(b); }
    uint16_t e = oracleHalf(u);
    g.nontrivial((u & 0x7F800000U) != 0x7F800000U && static_cast<double>(ref::u2f(u)) != ref::halfToDouble(e));
    checkNarrow(u);
}
SUBCHECK(narrow_range, 4000, 65536, "each case narrows a run of 2^10 (quick) consecutive single-precision patterns starting anywhere; the thorough tier covers each top half-word; non-trivial: always")
{
    // consecutive patterns: order preservation and exactness in one sweep
    uint32_t start = static_cast<uint32_t>(g.draw(0xFFFF)) << 16 | static_cast<uint32_t>(g.draw(63)) << 10;
    g.nontrivial();
    if (g.noting()) { char b[32]; snprintf(b, sizeof b, "from 0x%08x", start); g.note(b); }
    uint16_t prev = 0;
    for (uint32_t i = 0; i < 1024; ++i)
    {
        uint32_t u = start + i;
        checkNarrow(u);
        uint16_t h = convertFloatToUInt16(ref::u2f(u));
        bool nan = (u & 0x7F800000U) == 0x7F800000U && (u & 0x7FFFFFU);
        if (i > 0 && !nan) CHECKM((h & 0x7FFF) >= (prev & 0x7FFF), "magnitude order broken at 0x" << std::hex << u);
        prev = h;
    }
}
SUBCHECK(monotonic, 400000, 8000000, "two single values a<=b narrow to ordered halves; non-trivial: both finite and distinct")
{
    float a = g.anyFloat(false), b = g.anyFloat(false);
    if (b < a) std::swap(a, b);
    g.nontrivial(a != b);
    double x = ref::halfToDouble(convertFloatToUInt16(a)), y = ref::halfToDouble(convertFloatToUInt16(b));
    CHECKM(x <= y, a << " -> " << x << ", " << b << " -> " << y);
}
SUBCHECK(patterns, 400000, 8000000, "single and double bit patterns convert to values and back unchanged and agree with the IEEE interpretation; also through a bit stream; non-trivial: not zero")
{
    uint32_t u = g.floatBits();
    g.nontrivial(u != 0);
    bool snan = (u & 0x7F800000U) == 0x7F800000U && (u & 0x7FFFFFU) && !(u & 0x400000U);
    if (!snan)
    {
        CHECK_EQ(convertFloatToUInt32(convertUInt32ToFloat(u)), u);
        // value from fields
        unsigned e = (u >> 23) & 255;
        uint32_t m = u & 0x7FFFFF;
        float f = convertUInt32ToFloat(u);
        if (e != 255)
        {
            double v = e ? std::ldexp(static_cast<double>(m | 0x800000), static_cast<int>(e) - 150) : std::ldexp(static_cast<double>(m), -149);
            if (u >> 31) v = -v;
            CHECK_EQ(static_cast<double>(f), v);
        }
    }
    uint64_t d = g.flip() ? ref::d2u(g.anyDouble()) : g.ubits(64);
    if (((d >> 52) & 2047) == 2047 && (d << 12)) d |= 1ULL << 51;
    CHECK_EQ(convertDoubleToUInt64(convertUInt64ToDouble(d)), d);
    CHECK(memcmp(&d, [&] { static double x; x = convertUInt64ToDouble(d); return &x; }(), 8) == 0);
    // through the stream at an odd position
    uint8_t buf[40] = {0};
    size_t off = g.draw(15);
    BitStreamWriter w(buf, sizeof buf);
    w.setBitPosition(off);
    w.writeFloat16(convertUInt32ToFloat(u));
    w.writeFloat32(convertUInt32ToFloat(u | (snan ? 0x400000U : 0)));
    w.writeFloat64(convertUInt64ToDouble(d));
    BitStreamReader r(buf, sizeof buf);
    r.setBitPosition(off);
    CHECK_EQ(r.readUnsignedBits32(16), static_cast<uint32_t>(convertFloatToUInt16(convertUInt32ToFloat(u))));
    CHECK_EQ(ref::f2u(r.readFloat32()), u | (snan ? 0x400000U : 0));
    CHECK_EQ(ref::d2u(r.readFloat64()), d);
    r.setBitPosition(off);
    float h = r.readFloat16();
    float hx = convertUInt16ToFloat(convertFloatToUInt16(convertUInt32ToFloat(u)));
    CHECK((std::isnan(h) && std::isnan(hx)) || ref::f2u(h) == ref::f2u(hx));
}
