#include "streamops.h"
#include "zserio/OutOfRangeException.h"

using namespace ops;
using namespace zserio;

namespace
{
// expects that every bit of buf outside [lo,hi) equals the snapshot
void outsideUnchanged(const uint8_t* buf, const std::vector<uint8_t>& snap, size_t lo, size_t hi, const char* what)
{
    for (size_t i = 0; i < snap.size() * 8; ++i)
        if (i < lo || i >= hi) CHECKM(ref::bitAt(buf, i) == ref::bitAt(snap.data(), i), what << ": bit " << i << " outside [" << lo << "," << hi << ") changed");
}
} // namespace

SUBCHECK(only_own_bits, 900000, 30000000,
        "a buffer of random content; each successful write changes only the bits between old and new position and stores exactly its reference bits; a write beyond the declared bit size throws and changes nothing outside the declared bits; non-trivial: at least one failing and one succeeding write")
{
    size_t cap = g.edge(g.chance(1, 4) ? 400 : 90); // declared bits
    size_t extra = g.draw(3);                        // storage bytes beyond
    std::vector<uint8_t> content((cap + 7) / 8 + extra);
    for (auto& c : content) c = static_cast<uint8_t>(g.flip() ? 0xFF : g.ubits(8));
    ref::ExactBuf buf(content);
    BitStreamWriter w(zserio::Span<uint8_t>(buf.data(), buf.n), cap);
    CHECK_EQ(w.getBufferBitSize(), cap);
    CHECK(w.getWriteBuffer() == buf.data());
    size_t start = g.edge(cap);
    w.setBitPosition(start);
    size_t n = 1 + g.size(8);
    bool failed = false, ok = false;
    for (size_t k = 0; k < n; ++k)
    {
        Op o = genOp(g, 12, true);
        std::vector<uint8_t> snap(buf.data(), buf.data() + buf.n);
        size_t pos = w.getBitPosition();
        ref::Bits b;
        for (size_t i = 0; i < pos; ++i) b.put(0, 1);
        refPut(b, o);
        size_t end = b.size();
        if (g.noting()) g.note(show(o));
        if (end <= cap)
        {
            writeOp(w, o);
            ok = true;
            CHECK_EQ(w.getBitPosition(), end);
            outsideUnchanged(buf.data(), snap, pos, end, show(o).c_str());
            if (o.kind == SKIP) outsideUnchanged(buf.data(), snap, 0, 0, "skip");
            else
                for (size_t i = pos; i < end; ++i) CHECKM(ref::bitAt(buf.data(), i) == b.b[i], show(o) << " bit " << i);
        }
        else
        {
            failed = true;
            CHECK_THROWSM(BitStreamWriter::InsufficientCapacityException, writeOp(w, o), show(o) << " at " << pos << " capacity " << cap);
            outsideUnchanged(buf.data(), snap, pos, cap, show(o).c_str());
            CHECK(w.getBitPosition() <= cap);
            w.setBitPosition(pos);
        }
    }
    // positions beyond the capacity are refused
    size_t before = w.getBitPosition();
    CHECK_THROWS(BitStreamWriter::InsufficientCapacityException, w.setBitPosition(cap + 1 + g.draw(40)));
    CHECK_EQ(w.getBitPosition(), before);
    g.nontrivial(failed && ok);
}

SUBCHECK(reject_values, 1200000, 40000000,
        "values outside the requested width, invalid widths and values outside a variable-length type are rejected and leave buffer and position untouched; boundary values are accepted; non-trivial: rejected value within distance 2 of the limit")
{
    size_t cap = 160;
    std::vector<uint8_t> content(cap / 8, static_cast<uint8_t>(g.ubits(8)));
    ref::ExactBuf buf(content);
    BitStreamWriter w(buf.data(), buf.n);
    size_t start = g.edge(20);
    w.setBitPosition(start);
    auto untouched = [&] {
        CHECK_EQ(w.getBitPosition(), start);
        CHECK(memcmp(buf.data(), content.data(), buf.n) == 0);
    };
    switch (g.draw(10))
    {
    case 0:
    {
        uint8_t nb = static_cast<uint8_t>(g.edge(255));
        uint32_t v = static_cast<uint32_t>(nb >= 1 && nb <= 32 && g.flip() ? (1ULL << nb) + g.draw(2) - 1 : g.ubits(32));
        bool good = nb >= 1 && nb <= 32 && (nb == 32 || v < (1ULL << nb));
        g.note("u32 " + std::to_string(v) + " width " + std::to_string(nb));
        g.nontrivial(!good);
        if (good) { w.writeUnsignedBits32(v, nb); CHECK_EQ(w.getBitPosition(), start + nb); }
        else { CHECK_THROWS(CppRuntimeException, w.writeUnsignedBits32(v, nb)); untouched(); }
        break;
    }
    case 1:
    {
        uint8_t nb = static_cast<uint8_t>(g.edge(255));
        uint64_t v = nb >= 1 && nb <= 63 && g.flip() ? (1ULL << nb) + g.draw(2) - 1 : g.ubits(64);
        bool good = nb >= 1 && nb <= 64 && (nb == 64 || v < (1ULL << nb));
        g.note("u64 " + std::to_string(v) + " width " + std::to_string(nb));
        g.nontrivial(!good);
        if (good) { w.writeUnsignedBits64(v, nb); CHECK_EQ(w.getBitPosition(), start + nb); }
        else { CHECK_THROWS(CppRuntimeException, w.writeUnsignedBits64(v, nb)); untouched(); }
        break;
    }
    case 2:
    {
        uint8_t nb = static_cast<uint8_t>(g.edge(255));
        int64_t lim = nb >= 1 && nb <= 32 ? (1LL << (nb - 1)) : 1;
        int64_t w64 = g.flip() ? (g.flip() ? lim + g.range(-2, 1) : -lim + g.range(-2, 1)) : g.sbits(32);
        int32_t v = static_cast<int32_t>(w64);
        bool good = nb >= 1 && nb <= 32 && v >= -lim && v < lim;
        g.note("s32 " + std::to_string(v) + " width " + std::to_string(nb));
        g.nontrivial(!good);
        if (good) { w.writeSignedBits32(v, nb); CHECK_EQ(w.getBitPosition(), start + nb); }
        else { CHECK_THROWS(CppRuntimeException, w.writeSignedBits32(v, nb)); untouched(); }
        break;
    }
    case 3:
    {
        uint8_t nb = static_cast<uint8_t>(g.edge(255));
        __int128 lim = nb >= 1 && nb <= 64 ? (static_cast<__int128>(1) << (nb - 1)) : 1;
        int64_t v = g.flip() ? static_cast<int64_t>(g.flip() ? lim + g.range(-2, 1) : -lim + g.range(-2, 1)) : g.sbits(64);
        bool good = nb >= 1 && nb <= 64 && v >= -lim && v < lim;
        g.note("s64 " + std::to_string(v) + " width " + std::to_string(nb));
        g.nontrivial(!good);
        if (good) { w.writeSignedBits64(v, nb); CHECK_EQ(w.getBitPosition(), start + nb); }
        else { CHECK_THROWS(CppRuntimeException, w.writeSignedBits64(v, nb)); untouched(); }
        break;
    }
#define VARCASE(N, CALL, NATIVE, SPEC, LIMTYPE) \
    case N: \
    { \
        LIMTYPE mx = static_cast<LIMTYPE>(ref::varMax(ref::SPEC)); \
        NATIVE v; \
        if (g.flip()) { LIMTYPE base = (std::is_signed_v<NATIVE> && g.flip()) ? static_cast<LIMTYPE>(-mx) : mx; v = static_cast<NATIVE>(base + static_cast<LIMTYPE>(g.range(-2, 2))); } \
        else v = g.integral<NATIVE>(); \
        bool good = v <= mx && (!std::is_signed_v<NATIVE> || v >= -static_cast<LIMTYPE>(mx)); \
        g.note(std::string(ref::SPEC.name) + " " + std::to_string(v)); \
        g.nontrivial(!good); \
        if (good) \
        { \
            w.CALL(v); \
            CHECK_EQ(w.getBitPosition(), start + 8 * ref::varBytes(ref::SPEC, v < 0 ? 0 - static_cast<uint64_t>(v) : static_cast<uint64_t>(v))); \
        } \
        else { CHECK_THROWS(CppRuntimeException, w.CALL(v)); untouched(); } \
        break; \
    }
    VARCASE(4, writeVarInt16, int16_t, VARINT16, int64_t)
    VARCASE(5, writeVarInt32, int32_t, VARINT32, int64_t)
    VARCASE(6, writeVarInt64, int64_t, VARINT64, int64_t)
    VARCASE(7, writeVarUInt16, uint16_t, VARUINT16, int64_t)
    VARCASE(8, writeVarUInt32, uint32_t, VARUINT32, int64_t)
    VARCASE(9, writeVarUInt64, uint64_t, VARUINT64, __int128)
    VARCASE(10, writeVarSize, uint32_t, VARSIZE, int64_t)
    default: break;
    }
}

SUBCHECK(construction, 200000, 5000000,
        "a writer over a span accepts exactly declared bit sizes that fit the storage; non-trivial: declared size within 16 bits of the storage size")
{
    size_t bytes = g.size(20);
    ref::ExactBuf buf(bytes, 0);
    size_t bits = g.chance(1, 8) ? SIZE_MAX - g.draw(20) : (g.flip() ? g.edge(200) : bytes * 8 + g.draw(16) - std::min<size_t>(bytes * 8, g.draw(16)));
    g.nontrivial(bits + 16 >= bytes * 8 && bits <= bytes * 8 + 16);
    bool fits = bits <= bytes * 8;
    g.note(std::to_string(bytes) + " bytes for " + std::to_string(bits) + " bits");
    if (fits)
    {
        BitStreamWriter w(zserio::Span<uint8_t>(buf.data(), bytes), bits);
        CHECK_EQ(w.getBufferBitSize(), bits);
        for (size_t i = 0; i < bits; ++i) w.writeBool(true);
        CHECK_THROWS(BitStreamWriter::InsufficientCapacityException, w.writeBool(true));
    }
    else CHECK_THROWS(CppRuntimeException, BitStreamWriter(zserio::Span<uint8_t>(buf.data(), bytes), bits));
}
