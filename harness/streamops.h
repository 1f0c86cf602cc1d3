// Generated bit-stream operations: executed on the real writer/reader and on the reference bits.
#pragma once
#include "pbt.h"
#include "ref.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"

namespace ops
{
enum Kind
{
    U32, S32, U64, S64, BOOL, VI16, VI32, VI64, VI, VU16, VU32, VU64, VU, VSIZE, F16, F32, F64, BYTES, STRING, BITBUF, ALIGN, SKIP, NUM_KINDS
};
inline const char* kindName(int k)
{
    static const char* n[] = {"u32", "s32", "u64", "s64", "bool", "varint16", "varint32", "varint64", "varint", "varuint16", "varuint32",
        "varuint64", "varuint", "varsize", "f16", "f32", "f64", "bytes", "string", "bitbuffer", "align", "skip"};
    return n[k];
}
struct Op
{
    int kind = 0;
    unsigned bits = 0;  // width / alignment / skip
    uint64_t u = 0;     // unsigned value or pattern
    int64_t s = 0;
    std::string data;   // bytes, string, bit buffer storage
    size_t bitLen = 0;  // bit buffer
};
inline std::string show(const Op& o)
{
    std::ostringstream os;
    os << kindName(o.kind);
    switch (o.kind)
    {
    case U32: case U64: os << ":" << o.bits << "=" << o.u; break;
    case S32: case S64: os << ":" << o.bits << "=" << o.s; break;
    case VI16: case VI32: case VI64: case VI: os << "=" << o.s; break;
    case BYTES: case STRING: os << "[" << o.data.size() << "]"; break;
    case BITBUF: os << "[" << o.bitLen << " bits]"; break;
    case ALIGN: case SKIP: os << " " << o.bits; break;
    default: os << "=" << o.u;
    }
    return os.str();
}
inline int64_t genVarS(pbt::Gen& g, const ref::VarSpec& s)
{
    if (s.maxBytes == 9)
    {
        if (g.chance(1, 20)) return INT64_MIN;
        return g.sbits(64);
    }
    uint64_t m = g.edge(ref::varMax(s));
    return g.flip() ? -static_cast<int64_t>(m) : static_cast<int64_t>(m);
}
inline Op genOp(pbt::Gen& g, size_t maxBlob = 40, bool allowAlign = true)
{
    Op o;
    o.kind = static_cast<int>(g.below(allowAlign ? NUM_KINDS : ALIGN));
    switch (o.kind)
    {
    case U32: o.bits = 1 + static_cast<unsigned>(g.edge(31)); o.u = g.ubits(o.bits); break;
    case S32: o.bits = 1 + static_cast<unsigned>(g.edge(31)); o.s = g.sbits(o.bits); break;
    case U64: o.bits = 1 + static_cast<unsigned>(g.edge(63)); o.u = g.ubits(o.bits); break;
    case S64: o.bits = 1 + static_cast<unsigned>(g.edge(63)); o.s = g.sbits(o.bits); break;
    case BOOL: o.u = g.flip(); break;
    case VI16: o.s = genVarS(g, ref::VARINT16); break;
    case VI32: o.s = genVarS(g, ref::VARINT32); break;
    case VI64: o.s = genVarS(g, ref::VARINT64); break;
    case VI: o.s = genVarS(g, ref::VARINT); break;
    case VU16: o.u = g.edge(ref::varMax(ref::VARUINT16)); break;
    case VU32: o.u = g.edge(ref::varMax(ref::VARUINT32)); break;
    case VU64: o.u = g.edge(ref::varMax(ref::VARUINT64)); break;
    case VU: o.u = g.edge(UINT64_MAX); break;
    case VSIZE: o.u = g.edge(0x7FFFFFFF); break;
    case F16: o.u = g.ubits(16); if ((o.u & 0x7C00) == 0x7C00 && (o.u & 0x3FF)) o.u = (o.u & 0x8000) | 0x7E00; break;
    case F32: o.u = g.floatBits(); if ((o.u & 0x7F800000) == 0x7F800000 && (o.u & 0x7FFFFF)) o.u |= 0x400000; break;
    case F64: o.u = ref::d2u(g.anyDouble()); if (((o.u >> 52) & 2047) == 2047 && (o.u << 12)) o.u |= 1ULL << 51; break;
    case BYTES: case STRING: o.data = g.bytes(g.chance(1, 30) ? 700 : maxBlob); break;
    case BITBUF:
        o.bitLen = g.size(g.chance(1, 30) ? 4000 : maxBlob * 8);
        o.data.resize((o.bitLen + 7) / 8 + (g.chance(1, 6) ? 1 + g.draw(3) : 0));
        for (auto& c : o.data) c = static_cast<char>(g.ubits(8));
        break;
    case ALIGN: o.bits = g.chance(2, 3) ? 1U << g.draw(7) : 1 + static_cast<unsigned>(g.edge(g.chance(1, 10) ? 1999 : 199)); break;
    case SKIP: o.bits = static_cast<unsigned>(g.edge(100)); break;
    default: break;
    }
    return o;
}
inline void refPut(ref::Bits& b, const Op& o)
{
    switch (o.kind)
    {
    case U32: case U64: b.put(o.u, o.bits); break;
    case S32: case S64: b.put(static_cast<uint64_t>(o.s), o.bits); break;
    case BOOL: b.put(o.u, 1); break;
    case VI16: ref::putVarS(b, ref::VARINT16, o.s); break;
    case VI32: ref::putVarS(b, ref::VARINT32, o.s); break;
    case VI64: ref::putVarS(b, ref::VARINT64, o.s); break;
    case VI: ref::putVarS(b, ref::VARINT, o.s); break;
    case VU16: ref::putVarU(b, ref::VARUINT16, o.u); break;
    case VU32: ref::putVarU(b, ref::VARUINT32, o.u); break;
    case VU64: ref::putVarU(b, ref::VARUINT64, o.u); break;
    case VU: ref::putVarU(b, ref::VARUINT, o.u); break;
    case VSIZE: ref::putSize(b, o.u); break;
    case F16: b.put(o.u, 16); break;
    case F32: b.put(o.u, 32); break;
    case F64: b.put(o.u, 64); break;
    case BYTES: case STRING: ref::putSize(b, o.data.size()); b.putBytes(o.data); break;
    case BITBUF:
        ref::putSize(b, o.bitLen);
        for (size_t i = 0; i < o.bitLen; ++i) b.put(static_cast<uint64_t>(ref::bitAt(reinterpret_cast<const uint8_t*>(o.data.data()), i)), 1);
        break;
    case ALIGN: b.align(o.bits); break;
    case SKIP: b.put(0, 0); for (unsigned i = 0; i < o.bits; ++i) b.put(0, 1); break;
    default: break;
    }
}
inline zserio::BitBuffer makeBitBuffer(const Op& o)
{
    std::vector<uint8_t> v(o.data.begin(), o.data.end());
    return zserio::BitBuffer(zserio::Span<const uint8_t>(v.data(), v.size()), o.bitLen);
}
inline void writeOp(zserio::BitStreamWriter& w, const Op& o)
{
    using namespace zserio;
    switch (o.kind)
    {
    case U32: w.writeUnsignedBits32(static_cast<uint32_t>(o.u), static_cast<uint8_t>(o.bits)); break;
    case S32: w.writeSignedBits32(static_cast<int32_t>(o.s), static_cast<uint8_t>(o.bits)); break;
    case U64: w.writeUnsignedBits64(o.u, static_cast<uint8_t>(o.bits)); break;
    case S64: w.writeSignedBits64(o.s, static_cast<uint8_t>(o.bits)); break;
    case BOOL: w.writeBool(o.u != 0); break;
    case VI16: w.writeVarInt16(static_cast<int16_t>(o.s)); break;
    case VI32: w.writeVarInt32(static_cast<int32_t>(o.s)); break;
    case VI64: w.writeVarInt64(o.s); break;
    case VI: w.writeVarInt(o.s); break;
    case VU16: w.writeVarUInt16(static_cast<uint16_t>(o.u)); break;
    case VU32: w.writeVarUInt32(static_cast<uint32_t>(o.u)); break;
    case VU64: w.writeVarUInt64(o.u); break;
    case VU: w.writeVarUInt(o.u); break;
    case VSIZE: w.writeVarSize(static_cast<uint32_t>(o.u)); break;
    case F16: w.writeFloat16(static_cast<float>(ref::halfToDouble(static_cast<uint16_t>(o.u)))); break;
    case F32: w.writeFloat32(ref::u2f(static_cast<uint32_t>(o.u))); break;
    case F64: w.writeFloat64(ref::u2d(o.u)); break;
    case BYTES:
    {
        std::vector<uint8_t> v(o.data.begin(), o.data.end());
        w.writeBytes(BytesView(v.data(), v.size()));
        break;
    }
    case STRING: w.writeString(o.data); break;
    case BITBUF: w.writeBitBuffer(makeBitBuffer(o)); break;
    case ALIGN: w.alignTo(o.bits); break;
    case SKIP: w.setBitPosition(w.getBitPosition() + o.bits); break;
    default: break;
    }
}
// reads and compares
inline void readOp(zserio::BitStreamReader& r, const Op& o)
{
    using namespace zserio;
    switch (o.kind)
    {
    case U32: CHECK_EQM(r.readUnsignedBits32(static_cast<uint8_t>(o.bits)), static_cast<uint32_t>(o.u), show(o)); break;
    case S32: CHECK_EQM(r.readSignedBits32(static_cast<uint8_t>(o.bits)), static_cast<int32_t>(o.s), show(o)); break;
    case U64: CHECK_EQM(r.readUnsignedBits64(static_cast<uint8_t>(o.bits)), o.u, show(o)); break;
    case S64: CHECK_EQM(r.readSignedBits64(static_cast<uint8_t>(o.bits)), o.s, show(o)); break;
    case BOOL: CHECK_EQM(static_cast<bool>(r.readBool()), o.u != 0, show(o)); break;
    case VI16: CHECK_EQM(static_cast<int64_t>(r.readVarInt16()), o.s, show(o)); break;
    case VI32: CHECK_EQM(static_cast<int64_t>(r.readVarInt32()), o.s, show(o)); break;
    case VI64: CHECK_EQM(static_cast<int64_t>(r.readVarInt64()), o.s, show(o)); break;
    case VI: CHECK_EQM(static_cast<int64_t>(r.readVarInt()), o.s, show(o)); break;
    case VU16: CHECK_EQM(static_cast<uint64_t>(r.readVarUInt16()), o.u, show(o)); break;
    case VU32: CHECK_EQM(static_cast<uint64_t>(r.readVarUInt32()), o.u, show(o)); break;
    case VU64: CHECK_EQM(static_cast<uint64_t>(r.readVarUInt64()), o.u, show(o)); break;
    case VU: CHECK_EQM(static_cast<uint64_t>(r.readVarUInt()), o.u, show(o)); break;
    case VSIZE: CHECK_EQM(static_cast<uint64_t>(r.readVarSize()), o.u, show(o)); break;
    case F16:
    {
        float f = r.readFloat16();
        float e = static_cast<float>(ref::halfToDouble(static_cast<uint16_t>(o.u)));
        CHECKM((f != f && e != e) || ref::f2u(f) == ref::f2u(e), show(o) << " read " << f);
        break;
    }
    case F32: CHECK_EQM(ref::f2u(r.readFloat32()), static_cast<uint32_t>(o.u), show(o)); break;
    case F64: CHECK_EQM(ref::d2u(r.readFloat64()), o.u, show(o)); break;
    case BYTES:
    {
        auto v = r.readBytes();
        CHECK_EQM(std::string(v.begin(), v.end()), o.data, show(o));
        break;
    }
    case STRING: CHECK_EQM(std::string(r.readString()), o.data, show(o)); break;
    case BITBUF:
    {
        auto v = r.readBitBuffer();
        CHECK_EQM(v.getBitSize(), o.bitLen, show(o));
        for (size_t i = 0; i < o.bitLen; ++i)
            CHECKM(ref::bitAt(v.getBuffer(), i) == ref::bitAt(reinterpret_cast<const uint8_t*>(o.data.data()), i), show(o) << " bit " << i);
        CHECK(v == makeBitBuffer(o));
        break;
    }
    case ALIGN: r.alignTo(o.bits); break;
    case SKIP: r.setBitPosition(r.getBitPosition() + o.bits); break;
    default: break;
    }
}
} // namespace ops
