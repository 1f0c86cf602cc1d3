#include "arrcase.h"
#include "zserio/OutOfRangeException.h"
#include "zserio/DeltaContext.h"

using namespace el;
using zserio::detail::ArrayType;
using A = std::allocator<uint8_t>;

namespace
{
// writes at `start`, checks every bit against the reference, reads back
void roundTrip(pbt::Gen& g, ArrCase& c, size_t start)
{
    ref::Bits expected = c.expected(start);
    CHECK_EQM(c.bitSize(start), expected.size(), c.shown);
    const size_t slack = g.below(20);
    const size_t total = start + expected.size() + slack;
    ref::ExactBuf buf((total + 7) / 8);
    {
        zserio::BitStreamWriter w(buf.data(), total, zserio::BitsTag());
        w.setBitPosition(start);
        c.write(w);
        CHECK_EQM(w.getBitPosition(), start + expected.size(), c.shown);
        for (size_t i = 0; i < expected.size(); ++i)
            CHECKM(ref::bitAt(buf.data(), start + i) == expected.b[i], "bit " << i << " of " << expected.size() << " " << c.shown);
    }
    zserio::BitStreamReader r(buf.data(), total, zserio::BitsTag(), g.flip() ? zserio::ArrayPreallocation() : zserio::ArrayPreallocation(g.edge(100)));
    r.setBitPosition(start);
    if (g.flip()) c.prefill(g.below(8));
    c.read(r, c.n);
    CHECK_EQM(c.backSize(), c.n, c.shown);
    CHECKM(c.equal(), c.shown);
    CHECK_EQM(r.getBitPosition(), start + expected.size(), c.shown);
    if (expected.size() > 0)
    {
        size_t cut = start + g.below(expected.size());
        ref::ExactBuf shortBuf((cut + 7) / 8);
        memcpy(shortBuf.data(), buf.data(), (cut + 7) / 8);
        zserio::BitStreamReader r2(shortBuf.data(), cut, zserio::BitsTag());
        r2.setBitPosition(start);
        CHECK_THROWSM(zserio::CppRuntimeException, c.read(r2, c.n), c.shown);
    }
}
} // namespace

SUBCHECK(arrays, 500000, 16000000,
        "packed array of one of 40+ element types (numbers, enums, bitmasks, objects, unions), any kind and start: prescribed bits, read back, truncation; non-trivial: >=2 elements")
{
    ArrCase c = genCase(g, 1, static_cast<int>(g.below(4)));
    if (!c.packed) throw pbt::Discard();
    g.note(c.shown);
    g.nontrivial(c.n >= 2);
    roundTrip(g, c, g.edge(g.chance(1, 5) ? 90 : 8));
}

namespace
{
// numeric element sequences aimed at one exact maximum delta width and at the packed/unpacked threshold
template <class W>
void deltaWidth(pbt::Gen& g, unsigned typeBits, bool isSigned, std::function<ref::Bits(ref::i128)> enc, ref::i128 lo, ref::i128 hi)
{
    using namespace zserio;
    using VT = typename W::ValueType;
    size_t n = 2 + g.size(g.chance(1, 4) ? 60 : 9);
    unsigned width = static_cast<unsigned>(g.below(typeBits + 1));
    Vector<W> v;
    ref::i128 cur = lo + static_cast<ref::i128>(static_cast<ref::u128>(g.ubits(64)) % static_cast<ref::u128>(hi - lo + 1));
    if (g.chance(1, 3)) cur = g.flip() ? lo : hi;
    auto clamp = [&](ref::i128 x) { return x < lo ? lo : x > hi ? hi : x; };
    v.push_back(W(static_cast<VT>(cur)));
    size_t big = 1 + g.below(n - 1);
    for (size_t i = 1; i < n; ++i)
    {
        ref::i128 mag = 0;
        if (width > 0)
        {
            uint64_t maxMag = width >= 64 ? UINT64_MAX : (1ULL << width) - 1;
            mag = i == big || g.chance(1, 4) ? (g.flip() ? static_cast<ref::i128>(maxMag) : static_cast<ref::i128>(maxMag / 2 + 1)) : static_cast<ref::i128>(g.edge(maxMag));
        }
        ref::i128 next = g.flip() ? cur + mag : cur - mag;
        if (next < lo || next > hi) next = (next < lo) ? cur + mag : cur - mag;
        cur = clamp(next);
        v.push_back(W(static_cast<VT>(cur)));
    }
    ref::Delta d;
    ref::Bits expected;
    for (auto x : v) d.init(static_cast<ref::i128>(static_cast<VT>(x)), enc(static_cast<ref::i128>(static_cast<VT>(x))));
    ref::putSize(expected, n);
    for (size_t i = 0; i < n; ++i) d.next(expected);
    g.nontrivial(d.packed && d.maxBits > 0);
    if (g.noting())
    {
        std::ostringstream os;
        os << (isSigned ? "int" : "uint") << typeBits << " n=" << n << " deltaBits=" << d.maxBits << " packed=" << d.packed;
        g.note(os.str());
    }
    ArrayView<const W> view(v);
    CHECK_EQ(static_cast<size_t>(detail::bitSizeOfPacked<ArrayType::AUTO>(view, 0)), expected.size());
    ref::ExactBuf buf((expected.size() + 7) / 8);
    BitStreamWriter w(buf.data(), expected.size(), BitsTag());
    detail::writePacked<ArrayType::AUTO>(w, view);
    CHECK_EQ(w.getBitPosition(), expected.size());
    for (size_t i = 0; i < expected.size(); ++i) CHECKM(ref::bitAt(buf.data(), i) == expected.b[i], "bit " << i << " packed=" << d.packed << " maxBits=" << d.maxBits);
    BitStreamReader r(buf.data(), expected.size(), BitsTag());
    Vector<W> back;
    detail::readPacked<ArrayType::AUTO>(r, back);
    CHECK(back == v);
    CHECK_EQ(r.getBitPosition(), expected.size());
}
ref::Bits fixed(ref::i128 v, unsigned n) { ref::Bits b; b.put(static_cast<uint64_t>(static_cast<ref::u128>(v)), n); return b; }
} // namespace

SUBCHECK(delta_widths, 1000000, 32000000,
        "numeric sequence with a chosen maximum delta width 0..64, runs at range ends, lengths near the packed/unpacked threshold: prescribed bits and read back; non-trivial: packing chosen with non-zero delta width")
{
    using namespace zserio;
    auto fx = [](unsigned n) { return [n](ref::i128 v) { return fixed(v, n); }; };
    auto vs = [](const ref::VarSpec& s) { return [&s](ref::i128 v) { ref::Bits b; ref::putVarS(b, s, static_cast<int64_t>(v)); return b; }; };
    auto vu = [](const ref::VarSpec& s) { return [&s](ref::i128 v) { ref::Bits b; ref::putVarU(b, s, static_cast<uint64_t>(v)); return b; }; };
    switch (g.below(16))
    {
    case 0: deltaWidth<UInt64>(g, 64, false, fx(64), 0, UINT64_MAX); break;
    case 1: deltaWidth<Int64>(g, 64, true, fx(64), INT64_MIN, INT64_MAX); break;
    case 2: deltaWidth<UInt63>(g, 63, false, fx(63), 0, INT64_MAX); break;
    case 3: deltaWidth<Int63>(g, 63, true, fx(63), -(ref::i128(1) << 62), (ref::i128(1) << 62) - 1); break;
    case 4: deltaWidth<Int62>(g, 62, true, fx(62), -(ref::i128(1) << 61), (ref::i128(1) << 61) - 1); break;
    case 5: deltaWidth<UInt32>(g, 32, false, fx(32), 0, UINT32_MAX); break;
    case 6: deltaWidth<Int32>(g, 32, true, fx(32), INT32_MIN, INT32_MAX); break;
    case 7: deltaWidth<UInt8>(g, 8, false, fx(8), 0, 255); break;
    case 8: deltaWidth<Int8>(g, 8, true, fx(8), -128, 127); break;
    case 9: deltaWidth<UInt16>(g, 16, false, fx(16), 0, 65535); break;
    case 10: deltaWidth<VarInt>(g, 64, true, vs(ref::VARINT), INT64_MIN, INT64_MAX); break;
    case 11: deltaWidth<VarUInt>(g, 64, false, vu(ref::VARUINT), 0, UINT64_MAX); break;
    case 12: deltaWidth<VarInt64>(g, 57, true, vs(ref::VARINT64), -static_cast<ref::i128>(ref::varMax(ref::VARINT64)), ref::varMax(ref::VARINT64)); break;
    case 13: deltaWidth<VarUInt32>(g, 29, false, vu(ref::VARUINT32), 0, ref::varMax(ref::VARUINT32)); break;
    case 14: deltaWidth<VarSize>(g, 31, false, [](ref::i128 v) { ref::Bits b; ref::putSize(b, static_cast<uint64_t>(v)); return b; }, 0, 0x7FFFFFFF); break;
    default: deltaWidth<UInt1>(g, 1, false, fx(1), 0, 1); break;
    }
}

SUBCHECK(packed_objects, 60000, 2000000,
        "packed arrays of structs with optional fields and of unions mixing cases (several delta streams in one array): prescribed bits, read back; non-trivial: >=3 elements")
{
    using namespace zserio;
    size_t start = g.edge(16);
    ref::Bits expected;
    size_t n = g.size(12);
    g.nontrivial(n >= 3);
    int flavour = g.flip();
    ref::putSize(expected, n);
    auto check = [&](auto view, auto readBack) {
        size_t bits = detail::bitSizeOfPacked<ArrayType::AUTO>(view, static_cast<BitSize>(start));
        CHECK_EQ(bits, expected.size());
        ref::ExactBuf buf((start + bits + 7) / 8);
        BitStreamWriter w(buf.data(), start + bits, BitsTag());
        w.setBitPosition(start);
        detail::writePacked<ArrayType::AUTO>(w, view);
        CHECK_EQ(w.getBitPosition(), start + bits);
        for (size_t i = 0; i < bits; ++i) CHECKM(ref::bitAt(buf.data(), start + i) == expected.b[i], "bit " << i << " of " << bits);
        BitStreamReader r(buf.data(), start + bits, BitsTag());
        r.setBitPosition(start);
        readBack(r);
        CHECK_EQ(r.getBitPosition(), start + bits);
    };
    if (g.flip())
    {
        Vector<sch::Uni<A>> v;
        sch::UniDelta c;
        for (size_t i = 0; i < n; ++i) { v.push_back(sch::genUni<A>(g, A{}, flavour)); sch::initUni(c, v.back()); }
        for (auto& e : v) sch::refUni(expected, e, &c);
        check(ArrayView<const sch::Uni<A>>(v), [&](BitStreamReader& r) {
            Vector<sch::Uni<A>> back;
            detail::readPacked<ArrayType::AUTO>(r, back);
            CHECK(back == v);
        });
        g.note("unions n=" + std::to_string(n));
    }
    else
    {
        // through a whole object, so that the array owner passes the element parameter
        uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
        sch::Main<A> m{};
        sch::InnerDelta c;
        for (size_t i = 0; i < n; ++i) { m.pk.push_back(sch::genInner<A>(g, p, A{}, flavour)); sch::initInner(c, m.pk.back(), p); }
        for (auto& e : m.pk) sch::refInner(expected, e, p, &c);
        View<sch::Main<A>> mv(m, UInt8(p));
        check(mv.pk(), [&](BitStreamReader& r) {
            sch::Main<A> m2{};
            View<sch::Main<A>> mv2(m2, UInt8(p));
            detail::readPackedWithTraits<ArrayType::AUTO, typename View<sch::Main<A>>::InnerTraits>(r, m2.pk, mv2);
            CHECK(m2.pk == m.pk);
        });
        g.note("structs n=" + std::to_string(n) + " p=" + std::to_string(p));
    }
}

SUBCHECK(context_passthrough, 200000, 6000000,
        "non packable members inside packed objects (floats, strings, bytes, bit buffers, bool and dynamic ints) are written and read with a context exactly as without; non-trivial: value longer than 16 bits")
{
    using namespace zserio;
    size_t start = g.edge(10);
    auto one = [&](auto value, auto back) {
        ref::ExactBuf b1(1000), b2(1000);
        BitStreamWriter w1(b1.data(), 8000, BitsTag()), w2(b2.data(), 8000, BitsTag());
        w1.setBitPosition(start);
        w2.setBitPosition(start);
        detail::DeltaContext ctx, ctx2, ctx3;
        detail::initContext(ctx, value);
        detail::initContext(ctx2, value);
        size_t sz = detail::bitSizeOf(ctx2, value, static_cast<BitSize>(start));
        CHECK_EQ(sz, static_cast<size_t>(detail::bitSizeOf(value, static_cast<BitSize>(start))));
        detail::write(w1, value);
        detail::write(ctx, w2, value);
        CHECK_EQ(w1.getBitPosition(), w2.getBitPosition());
        CHECK_EQ(w1.getBitPosition(), start + sz);
        CHECK(memcmp(b1.data(), b2.data(), (start + sz + 7) / 8) == 0);
        BitStreamReader r(b2.data(), w2.getBitPosition(), BitsTag());
        r.setBitPosition(start);
        detail::read(ctx3, r, back);
        if constexpr (std::is_same_v<decltype(value), BytesView>) CHECK(std::equal(back.begin(), back.end(), value.begin(), value.end()));
        else CHECK(back == decltype(back)(value));
        CHECK_EQ(r.getBitPosition(), start + sz);
        g.nontrivial(sz > 16);
    };
    switch (g.below(7))
    {
    case 6:
    {
        // a compound without packing support is written the same way with and without a context
        const uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
        sch::Main<A> m = sch::genMain<A>(g, p), back;
        View<sch::Main<A>> view(m, UInt8(p));
        (void)detail::initializeOffsets(view, static_cast<BitSize>(start));
        detail::DeltaContext ctx, ctx2;
        const BitSize sz = detail::bitSizeOf(view, static_cast<BitSize>(start));
        detail::initContext(ctx, view);
        CHECK_EQ(detail::bitSizeOf(ctx, view, static_cast<BitSize>(start)), sz);
        ref::ExactBuf b1((start + sz + 7) / 8), b2((start + sz + 7) / 8);
        BitStreamWriter w1(b1.data(), start + sz, BitsTag()), w2(b2.data(), start + sz, BitsTag());
        w1.setBitPosition(start);
        w2.setBitPosition(start);
        detail::write(w1, view);
        detail::write(ctx, w2, view);
        CHECK_EQ(w1.getBitPosition(), start + sz);
        CHECK_EQ(w2.getBitPosition(), start + sz);
        CHECK(memcmp(b1.data(), b2.data(), (start + sz + 7) / 8) == 0);
        BitStreamReader r(b2.data(), start + sz, BitsTag());
        r.setBitPosition(start);
        detail::read(ctx2, r, back, UInt8(p));
        CHECK(back == m);
        CHECK_EQ(r.getBitPosition(), start + sz);
        g.nontrivial(sz > 16);
        break;
    }
    case 0: one(Float16(static_cast<float>(g.range(-2000, 2000)) / 4), Float16()); break;
    case 1: one(Float32(g.anyFloat(false)), Float32()); break;
    case 2: one(Float64(g.anyDouble(false)), Float64()); break;
    case 3: { std::string s = g.bytes(100); one(std::string_view(s), String()); break; }
    case 4: { auto s = g.bytes(100); Bytes b(s.begin(), s.end()); one(BytesView(b), Bytes()); break; }
    default: { auto b = sch::genBuf<A>(g, 500, A{}); one(BitBufferView(b), BitBuffer()); break; }
    }
}

namespace
{
// long arrays: content from a cheap deterministic recurrence so that only a few choices describe thousands of elements
template <class W>
void largeArray(pbt::Gen& g, std::function<ref::Bits(ref::i128)> enc, ref::i128 lo, ref::i128 hi)
{
    using namespace zserio;
    using VT = typename W::ValueType;
    const size_t n = g.pick<size_t>({300, 1000, 1100, 2000, 5000, 8193, 20000, 65535, 65536, 66000}) + g.below(40);
    const uint64_t maxStep = g.chance(1, 4) ? 0 : g.ubits(static_cast<unsigned>(1 + g.below(20)));
    uint64_t state = g.draw(UINT64_MAX) | 1;
    const bool jump = g.chance(1, 4);
    const size_t jumpAt = g.below(n);
    auto rnd = [&] { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return state; };
    Vector<W> v;
    v.reserve(n);
    ref::i128 cur = lo + static_cast<ref::i128>(static_cast<ref::u128>(g.edge(static_cast<uint64_t>(hi - lo))));
    for (size_t i = 0; i < n; ++i)
    {
        v.push_back(W(static_cast<VT>(cur)));
        ref::i128 d = static_cast<ref::i128>(maxStep == UINT64_MAX ? rnd() : rnd() % (maxStep + 1));
        ref::i128 next = (rnd() & 1) ? cur + d : cur - d;
        if (jump && i == jumpAt) next = rnd() & 1 ? hi : lo;
        cur = next < lo || next > hi ? cur : next;
    }
    ref::Delta d;
    ref::Bits expected;
    for (auto x : v) d.init(static_cast<ref::i128>(static_cast<VT>(x)), enc(static_cast<ref::i128>(static_cast<VT>(x))));
    const bool aut = g.flip();
    if (aut) ref::putSize(expected, n);
    for (size_t i = 0; i < n; ++i) d.next(expected);
    g.nontrivial(d.packed);
    if (g.noting()) g.note("n=" + std::to_string(n) + " deltaBits=" + std::to_string(d.maxBits) + " packed=" + std::to_string(d.packed));
    ArrayView<const W> view(v);
    const size_t predicted = aut ? static_cast<size_t>(detail::bitSizeOfPacked<ArrayType::AUTO>(view, 0)) : static_cast<size_t>(detail::bitSizeOfPacked<ArrayType::NORMAL>(view, 0));
    CHECK_EQM(predicted, expected.size(), "n=" << n << " packed=" << d.packed << " maxBits=" << d.maxBits);
    std::vector<uint8_t> buf((expected.size() + 7) / 8);
    BitStreamWriter w(buf.data(), expected.size(), BitsTag());
    if (aut) detail::writePacked<ArrayType::AUTO>(w, view);
    else detail::writePacked<ArrayType::NORMAL>(w, view);
    CHECK_EQ(w.getBitPosition(), expected.size());
    for (size_t i = 0; i < expected.size(); ++i) CHECKM(ref::bitAt(buf.data(), i) == expected.b[i], "bit " << i << " n=" << n << " packed=" << d.packed << " maxBits=" << d.maxBits);
    BitStreamReader r(buf.data(), expected.size(), BitsTag());
    Vector<W> back;
    if (aut) detail::readPacked<ArrayType::AUTO>(r, back);
    else detail::readPacked<ArrayType::NORMAL>(r, back, n);
    CHECK(back == v);
    CHECK_EQ(r.getBitPosition(), expected.size());
}
} // namespace

SUBCHECK(large_arrays, 400, 12000,
        "packed arrays of 300..66000 numbers (sizes past 16-bit counters): predicted size, prescribed bits, read back; non-trivial: packing chosen")
{
    using namespace zserio;
    auto fx = [](unsigned n) { return [n](ref::i128 v) { return fixed(v, n); }; };
    switch (g.below(6))
    {
    case 0: largeArray<UInt64>(g, fx(64), 0, UINT64_MAX); break;
    case 1: largeArray<Int64>(g, fx(64), INT64_MIN, INT64_MAX); break;
    case 2: largeArray<UInt32>(g, fx(32), 0, UINT32_MAX); break;
    case 3: largeArray<Int16>(g, fx(16), -32768, 32767); break;
    case 4: largeArray<VarUInt>(g, [](ref::i128 v) { ref::Bits b; ref::putVarU(b, ref::VARUINT, static_cast<uint64_t>(v)); return b; }, 0, UINT64_MAX); break;
    default: largeArray<UInt5>(g, fx(5), 0, 31); break;
    }
}
