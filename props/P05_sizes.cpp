#include "arrcase.h"
#include "testobj.h"
#include "streamops.h"
#include "zserio/SerializeUtil.h"

using namespace el;
using A = std::allocator<uint8_t>;

namespace
{
template <class T> struct IsDynView : std::false_type {};
template <class T> struct IsDynView<zserio::View<zserio::detail::DynIntWrapper<T>>> : std::true_type {};
// writes with fn into a buffer whose capacity ends exactly `bits` after `start`; checks the reached position
template <class F>
void writesExactly(size_t start, size_t bits, F&& fn)
{
    ref::ExactBuf buf((start + bits + 7) / 8);
    zserio::BitStreamWriter w(buf.data(), start + bits, zserio::BitsTag());
    w.setBitPosition(start);
    fn(w);
    CHECK_EQ(w.getBitPosition(), start + bits);
}
} // namespace

SUBCHECK(single_values, 2000000, 60000000,
        "value of any built-in wrapper type at any position: bitSizeOf == reference size == bits written into an exactly sized buffer == bits read; non-trivial: variable size type")
{
    using namespace zserio;
    size_t start = g.edge(20);
    const BitSize pos = static_cast<BitSize>(g.flip() ? start : g.ubits(31));
    auto one = [&](auto value, size_t refBits) {
        CHECK_EQM(static_cast<size_t>(detail::bitSizeOf(value, pos)), refBits, typeid(value).name());
        if constexpr (!std::is_enum_v<decltype(value)> && !is_bitmask_v<decltype(value)> && !IsDynView<decltype(value)>::value)
            CHECK_EQM(static_cast<size_t>(detail::initializeOffsets(value, pos)), refBits, typeid(value).name());
        writesExactly(start, refBits, [&](BitStreamWriter& w) { detail::write(w, value); });
    };
    auto sz = [](uint64_t n) { ref::Bits b; ref::putSize(b, n); return b.size(); };
    g.nontrivial();
    switch (g.below(24))
    {
    case 0: { auto v = ops::genVarS(g, ref::VARINT16); one(VarInt16(static_cast<int16_t>(v)), ref::varBytes(ref::VARINT16, ref::magnitude(v)) * 8); break; }
    case 1: { auto v = ops::genVarS(g, ref::VARINT32); one(VarInt32(static_cast<int32_t>(v)), ref::varBytes(ref::VARINT32, ref::magnitude(v)) * 8); break; }
    case 2: { auto v = ops::genVarS(g, ref::VARINT64); one(VarInt64(v), ref::varBytes(ref::VARINT64, ref::magnitude(v)) * 8); break; }
    case 3: { auto v = ops::genVarS(g, ref::VARINT); one(VarInt(v), v == INT64_MIN ? 8 : ref::varBytes(ref::VARINT, ref::magnitude(v)) * 8); break; }
    case 4: { auto v = g.edge(ref::varMax(ref::VARUINT16)); one(VarUInt16(static_cast<uint16_t>(v)), ref::varBytes(ref::VARUINT16, v) * 8); break; }
    case 5: { auto v = g.edge(ref::varMax(ref::VARUINT32)); one(VarUInt32(static_cast<uint32_t>(v)), ref::varBytes(ref::VARUINT32, v) * 8); break; }
    case 6: { auto v = g.edge(ref::varMax(ref::VARUINT64)); one(VarUInt64(v), ref::varBytes(ref::VARUINT64, v) * 8); break; }
    case 7: { auto v = g.edge(UINT64_MAX); one(VarUInt(v), ref::varBytes(ref::VARUINT, v) * 8); break; }
    case 8: { auto v = g.edge(0x7FFFFFFF); one(VarSize(static_cast<uint32_t>(v)), sz(v)); break; }
    case 9: { unsigned k = static_cast<unsigned>(g.below(31)); auto v = (1ULL << k) - (g.flip() ? 1 : 0); one(VarSize(static_cast<uint32_t>(v)), sz(v)); break; }
    case 10: { unsigned k = static_cast<unsigned>(g.below(64)); auto v = (1ULL << k) - (g.flip() ? 1 : 0); one(VarUInt(v), ref::varBytes(ref::VARUINT, v) * 8);
        int64_t s = static_cast<int64_t>(v >> 1) * (g.flip() ? 1 : -1); one(VarInt(s), ref::varBytes(ref::VARINT, ref::magnitude(s)) * 8); break; }
    case 11: { std::string s = g.bytes(g.chance(1, 20) ? 20000 : 300); one(std::string_view(s), sz(s.size()) + s.size() * 8); break; }
    case 12: { std::string s = g.bytes(300); one(BytesView(reinterpret_cast<const uint8_t*>(s.data()), s.size()), sz(s.size()) + s.size() * 8); break; }
    case 13: { auto b = to::genBits<BitBuffer>(g, g.chance(1, 20) ? 40000 : 2100, A{}); one(BitBufferView(b), sz(b.getBitSize()) + b.getBitSize()); break; }
    case 14: one(Bool(g.flip()), 1); break;
    case 15: one(UInt1(static_cast<uint8_t>(g.ubits(1))), 1); one(UInt7(static_cast<uint8_t>(g.ubits(7))), 7); one(UInt33(g.ubits(33)), 33); break;
    case 16: one(Int17(static_cast<int32_t>(g.sbits(17))), 17); one(Int64(g.sbits(64)), 64); one(Int1(static_cast<int8_t>(g.sbits(1))), 1); break;
    case 17: one(Float16(1.5F), 16); one(Float32(g.anyFloat(false)), 32); one(Float64(g.anyDouble(false)), 64); break;
    case 18: { uint8_t n = static_cast<uint8_t>(1 + g.below(32)); one(View<DynUInt32>(DynUInt32(static_cast<uint32_t>(g.ubits(n))), n), n); break; }
    case 19: { uint8_t n = static_cast<uint8_t>(1 + g.below(64)); one(View<DynInt64>(DynInt64(g.sbits(n)), n), n); break; }
    case 20: { uint8_t n = static_cast<uint8_t>(1 + g.below(8)); one(View<DynInt8>(DynInt8(static_cast<int8_t>(g.sbits(n))), n), n); break; }
    case 21: one(EnumTraits<sch::Color>::values[g.below(4)], 10); break;
    case 22: { auto l = EnumTraits<sch::Level>::values[g.below(5)]; one(l, ref::varBytes(ref::VARINT64, ref::magnitude(static_cast<int64_t>(l))) * 8); break; }
    default: one(sch::Perm(UInt3(static_cast<uint8_t>(g.below(8)))), 3); break;
    }
}

SUBCHECK(arrays, 250000, 8000000,
        "plain or packed array of any element type, any array kind: bitSizeOf and initializeOffsets at any (also huge) position vs bits written vs reference; non-trivial: >=2 elements, or unaligned start")
{
    ArrCase c = genCase(g);
    size_t start = g.edge(40);
    g.nontrivial(c.n >= 2 && start % 8);
    g.note(c.shown);
    size_t bits = c.expected(start).size();
    CHECK_EQM(c.bitSize(start), bits, c.shown);
    size_t far = start % 8 + 8 * g.edge((1U << 27) - 1);
    CHECK_EQM(c.bitSize(far), bits, c.shown << " at " << far);
    std::vector<std::pair<size_t, size_t>> offs;
    CHECK_EQM(c.initOffsets(start, offs), bits, c.shown);
    offs.clear();
    CHECK_EQM(c.initOffsets(far, offs), bits, c.shown);
    writesExactly(start, bits, c.write);
    if (bits > 0)
    {
        ref::ExactBuf buf((start + bits + 6) / 8);
        zserio::BitStreamWriter w(buf.data(), start + bits - 1, zserio::BitsTag());
        w.setBitPosition(start);
        CHECK_THROWSM(zserio::CppRuntimeException, c.write(w), c.shown);
    }
}

namespace
{
template <class T, class... P>
void objectCase(pbt::Gen& g, const T& data, const ref::Bits* bits, P... params)
{
    using namespace zserio;
    View<T> v(data, params...);
    size_t size = detail::bitSizeOf(v, 0);
    if (bits) CHECK_EQ(size, bits->size());
    size_t end = detail::initializeOffsets(v, 0);
    CHECK_EQ(end, size);
    CHECK_EQ(static_cast<size_t>(detail::bitSizeOf(v, 0)), size);
    writesExactly(0, size, [&](BitStreamWriter& w) { detail::write(w, v); });
    if (size > 0)
    {
        ref::ExactBuf buf((size + 6) / 8);
        BitStreamWriter w(buf.data(), size - 1, BitsTag());
        CHECK_THROWS(CppRuntimeException, detail::write(w, v));
    }
    auto bb = zserio::serialize(v, typename T::allocator_type{});
    CHECK_EQ(bb.getBitSize(), size);
    auto by = zserio::serializeToBytes(v, typename T::allocator_type{});
    CHECK_EQ(by.size(), (size + 7) / 8);
    CHECK(std::equal(by.begin(), by.end(), bb.getData().begin()));
    g.note("bits=" + std::to_string(size));
}
} // namespace

SUBCHECK(objects, 60000, 2000000,
        "generated-like object graph (params, optional, alignment, offsets, choice, union, packed, extended) at any start: predicted size == reference == written == read; non-trivial: encoding > 400 bits")
{
    using namespace zserio;
    uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
    auto d = sch::genMain<A>(g, p);
    size_t start = g.edge(100);
    auto L = sch::refMain(d, p, start);
    g.note(sch::descr(d));
    g.nontrivial(L.bits.size() > 400);
    View<sch::Main<A>> v(d, UInt8(p));
    CHECK_EQ(static_cast<size_t>(detail::bitSizeOf(v, static_cast<BitSize>(start))), L.bits.size());
    size_t far = start % 24 + 24 * g.edge(1U << 25);
    CHECK_EQ(static_cast<size_t>(detail::bitSizeOf(v, static_cast<BitSize>(far))), sch::refMain(d, p, start % 24).bits.size());
    CHECK_EQ(static_cast<size_t>(detail::initializeOffsets(v, static_cast<BitSize>(start))), L.bits.size());
    writesExactly(start, L.bits.size(), [&](BitStreamWriter& w) { detail::write(w, v); });
    writesExactly(start, L.bits.size(), [&](BitStreamWriter& w) { w.alignTo(1); detail::write(w, v); });
}

SUBCHECK(parts, 200000, 6000000,
        "struct / union / choice on their own, unpacked; non-trivial: non-empty encoding")
{
    using namespace zserio;
    uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
    ref::Bits b;
    switch (g.below(3))
    {
    case 0: { auto d = sch::genInner<A>(g, p, A{}); sch::refInner(b, d, p); objectCase(g, d, &b, UInt8(p)); break; }
    case 1: { auto d = sch::genUni<A>(g, A{}); sch::refUni(b, d); objectCase(g, d, &b); break; }
    default: { uint8_t s = static_cast<uint8_t>(g.below(8)); auto d = sch::genChc<A>(g, s, A{}); sch::refChc(b, d, s); objectCase(g, d, &b, UInt8(s)); break; }
    }
    g.nontrivial(b.size() > 0);
}

SUBCHECK(sample_objects, 60000, 2000000,
        "the repository's sample generated types in three allocator flavours: predicted size == bits written == buffer sizes; non-trivial: always")
{
    g.nontrivial();
    auto run = [&](auto ns) {
        using N = decltype(ns);
        typename N::Alloc a{};
        switch (g.below(4))
        {
        case 0: objectCase(g, to::genCObj<N>(g, a), nullptr); break;
        case 1: objectCase(g, to::genWObj<N>(g, a), nullptr); break;
        case 2: objectCase(g, to::genRObj<N>(g, a), nullptr); break;
        default: objectCase(g, to::genUUni<N>(g, a), nullptr); break;
        }
    };
    switch (g.below(3))
    {
    case 0: run(to::Std{}); break;
    case 1: run(to::Pmr{}); break;
    default: run(to::Ppmr{}); break;
    }
}
