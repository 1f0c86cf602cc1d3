// Independent reference model of the zserio wire format: a plain sequence of bits.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace ref
{
using u128 = unsigned __int128;

struct Bits
{
    std::vector<uint8_t> b; // one entry per bit, MSB first
    size_t size() const { return b.size(); }
    void put(uint64_t v, unsigned n)
    {
        for (unsigned i = n; i-- > 0;) b.push_back(static_cast<uint8_t>((v >> i) & 1));
    }
    void align(size_t a)
    {
        while (b.size() % a != 0) b.push_back(0);
    }
    void putBytes(std::string_view s)
    {
        for (unsigned char c : s) put(c, 8);
    }
    std::vector<uint8_t> bytes(uint8_t pad = 0) const
    {
        std::vector<uint8_t> r((b.size() + 7) / 8, 0);
        for (size_t i = 0; i < r.size() * 8; ++i)
        {
            uint8_t bit = i < b.size() ? b[i] : static_cast<uint8_t>((pad >> (7 - i % 8)) & 1);
            r[i / 8] = static_cast<uint8_t>(r[i / 8] | (bit << (7 - i % 8)));
        }
        return r;
    }
    uint64_t get(size_t pos, unsigned n) const
    {
        uint64_t v = 0;
        for (unsigned i = 0; i < n; ++i) v = (v << 1) | b[pos + i];
        return v;
    }
};
inline int bitAt(const uint8_t* p, size_t i)
{
    return (p[i / 8] >> (7 - i % 8)) & 1;
}

// variable-length integer description: number of value bits per byte position
struct VarSpec
{
    const char* name;
    unsigned maxBytes;
    bool isSigned;
};
inline const VarSpec VARINT16{"varint16", 2, true};
inline const VarSpec VARINT32{"varint32", 4, true};
inline const VarSpec VARINT64{"varint64", 8, true};
inline const VarSpec VARINT{"varint", 9, true};
inline const VarSpec VARUINT16{"varuint16", 2, false};
inline const VarSpec VARUINT32{"varuint32", 4, false};
inline const VarSpec VARUINT64{"varuint64", 8, false};
inline const VarSpec VARUINT{"varuint", 9, false};
inline const VarSpec VARSIZE{"varsize", 5, false};

// value bits available when using n bytes
inline unsigned varBits(const VarSpec& s, unsigned n)
{
    unsigned bits = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned byteBits = 8;
        if (s.isSigned && i == 0) --byteBits;      // sign
        if (i != s.maxBytes - 1) --byteBits;        // has-next flag
        bits += byteBits;
    }
    return bits;
}
// shortest number of bytes for magnitude
inline unsigned varBytes(const VarSpec& s, uint64_t mag)
{
    for (unsigned n = 1; n <= s.maxBytes; ++n)
    {
        unsigned bits = varBits(s, n);
        if (bits >= 64 || mag < (1ULL << bits)) return n;
    }
    return 0;
}
inline void putVarN(Bits& out, const VarSpec& s, bool neg, uint64_t mag, unsigned n)
{
    unsigned left = varBits(s, n);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned byteBits = 8;
        if (s.isSigned && i == 0) { out.put(neg, 1); --byteBits; }
        if (i != s.maxBytes - 1) { out.put(i + 1 < n, 1); --byteBits; }
        left -= byteBits;
        for (unsigned k = byteBits; k-- > 0;)
        {
            unsigned sh = left + k;
            out.put(sh >= 64 ? 0 : (mag >> sh) & 1, 1);
        }
    }
}
inline uint64_t magnitude(int64_t v)
{
    return v < 0 ? 0 - static_cast<uint64_t>(v) : static_cast<uint64_t>(v);
}
inline void putVarS(Bits& out, const VarSpec& s, int64_t v)
{
    if (s.maxBytes == 9 && v == INT64_MIN) { out.put(0x80, 8); return; }
    putVarN(out, s, v < 0, magnitude(v), varBytes(s, magnitude(v)));
}
inline void putVarU(Bits& out, const VarSpec& s, uint64_t v)
{
    putVarN(out, s, false, v, varBytes(s, v));
}
inline uint64_t varMax(const VarSpec& s)
{
    if (s.name == VARSIZE.name) return 0x7FFFFFFF;
    unsigned b = varBits(s, s.maxBytes);
    return b >= 64 ? UINT64_MAX : (1ULL << b) - 1;
}
inline void putSize(Bits& out, uint64_t v)
{
    putVarU(out, VARSIZE, v);
}

// exact value of a half float
inline double halfToDouble(uint16_t h)
{
    unsigned s = h >> 15, e = (h >> 10) & 31, m = h & 1023;
    double v = 0;
    if (e == 31) v = m ? __builtin_nan("") : __builtin_inf();
    else if (e == 0) v = __builtin_ldexp(static_cast<double>(m), -24);
    else v = __builtin_ldexp(static_cast<double>(1024 + m), static_cast<int>(e) - 25);
    return s ? -v : v;
}
inline uint32_t f2u(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float u2f(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline uint64_t d2u(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
inline double u2d(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }

// correctly rounded (nearest, ties to even) half of a single; NaN -> any NaN pattern reported as 0x7E00|sign
inline uint16_t doubleToHalf(double d, bool neg)
{
    uint16_t s = neg ? 0x8000 : 0;
    double a = __builtin_fabs(d);
    if (a != a) return static_cast<uint16_t>(s | 0x7E00);
    if (a >= 65520.0) return static_cast<uint16_t>(s | 0x7C00); // 65504 + half ulp rounds to even -> overflow
    // scan exponent
    if (a < __builtin_ldexp(1.0, -14))
    {
        double q = a * __builtin_ldexp(1.0, 24); // units of 2^-24, exact
        double r = __builtin_nearbyint(q);        // ties to even
        return static_cast<uint16_t>(s | static_cast<uint16_t>(r)); // may become 1024 = smallest normal
    }
    int e = 0;
    double m = __builtin_frexp(a, &e); // a = m*2^e, m in [0.5,1)
    double q = m * 2048.0;             // 11 significant bits
    double r = __builtin_nearbyint(q);
    unsigned mant = static_cast<unsigned>(r);
    int ex = e - 1 + 15;
    if (mant == 2048) { mant = 1024; ++ex; }
    return static_cast<uint16_t>(s | (static_cast<unsigned>(ex) << 10) | (mant - 1024));
}

// heap buffer whose bounds are exact (ASan red zones on both sides)
struct ExactBuf
{
    std::unique_ptr<uint8_t[]> p;
    size_t n;
    explicit ExactBuf(size_t size, uint8_t fill = 0) : p(new uint8_t[size == 0 ? 1 : size]), n(size) { memset(p.get(), fill, size); }
    explicit ExactBuf(const std::vector<uint8_t>& v) : p(new uint8_t[v.size() == 0 ? 1 : v.size()]), n(v.size())
    {
        if (n) memcpy(p.get(), v.data(), n);
    }
    uint8_t* data() { return p.get(); }
};
} // namespace ref
