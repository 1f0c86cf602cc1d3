#include "schema.h"
#include "elems.h"
#include "streamops.h"
#include "zserio/SerializeUtil.h"
#include "zserio/BitPositionUtil.h"

using A = std::allocator<uint8_t>;

// ---- a struct with its own offset, so that arrays of it carry offsets inside the elements
struct Box
{
    using allocator_type = A;
    explicit Box(const A& = A{}) {}
    zserio::UInt7 lead;
    zserio::UInt32 off;
    zserio::String payload; // off: (aligned to 8)
    zserio::VarUInt tail;
    bool operator==(const Box& o) const { return lead == o.lead && off == o.off && payload == o.payload && tail == o.tail; }
    bool operator<(const Box& o) const { return std::tie(lead, off, payload, tail) < std::tie(o.lead, o.off, o.payload, o.tail); }
};
namespace zserio
{
template <>
class View<Box>
{
public:
    explicit View(const Box& d) noexcept : m_data(&d) {}
    const Box& zserioData() const { return *m_data; }
private:
    const Box* m_data;
};
namespace detail
{
template <>
struct ObjectTraits<Box>
{
    struct PackingContext { DeltaContext lead, tail; };
    static void validate(const View<Box>& v, std::string_view) { detail::validate(v.zserioData().lead, "lead"); detail::validate(v.zserioData().tail, "tail"); }
    template <bool INIT, class L, class T>
    static BitSize layout(const View<Box>& v, BitSize pos, L&& lead, T&& tail)
    {
        const Box& d = v.zserioData();
        BitSize end = pos;
        end += lead(end);
        end += detail::bitSizeOf(d.off, end);
        end = alignTo(8, end);
        if (INIT) const_cast<Box&>(d).off = end / 8;
        end += detail::bitSizeOf(std::string_view(d.payload), end);
        end += tail(end);
        return end - pos;
    }
    template <bool INIT>
    static BitSize plain(const View<Box>& v, BitSize pos)
    {
        return layout<INIT>(v, pos, [&](BitSize p) { return detail::bitSizeOf(v.zserioData().lead, p); }, [&](BitSize p) { return detail::bitSizeOf(v.zserioData().tail, p); });
    }
    template <bool INIT>
    static BitSize packed(PackingContext& c, const View<Box>& v, BitSize pos)
    {
        return layout<INIT>(v, pos, [&](BitSize p) { return detail::bitSizeOf(c.lead, v.zserioData().lead, p); }, [&](BitSize p) { return detail::bitSizeOf(c.tail, v.zserioData().tail, p); });
    }
    static BitSize bitSizeOf(const View<Box>& v, BitSize pos) { return plain<false>(v, pos); }
    static BitSize initializeOffsets(const View<Box>& v, BitSize pos) { return plain<true>(v, pos); }
    static BitSize bitSizeOf(PackingContext& c, const View<Box>& v, BitSize pos) { return packed<false>(c, v, pos); }
    static BitSize initializeOffsets(PackingContext& c, const View<Box>& v, BitSize pos) { return packed<true>(c, v, pos); }
    static void initContext(PackingContext& c, const View<Box>& v) { detail::initContext(c.lead, v.zserioData().lead); detail::initContext(c.tail, v.zserioData().tail); }
    static void write(BitStreamWriter& w, const View<Box>& v)
    {
        const Box& d = v.zserioData();
        detail::write(w, d.lead); detail::write(w, d.off); w.alignTo(8); detail::write(w, std::string_view(d.payload)); detail::write(w, d.tail);
    }
    static void write(PackingContext& c, BitStreamWriter& w, const View<Box>& v)
    {
        const Box& d = v.zserioData();
        detail::write(c.lead, w, d.lead); detail::write(w, d.off); w.alignTo(8); detail::write(w, std::string_view(d.payload)); detail::write(c.tail, w, d.tail);
    }
    static View<Box> read(BitStreamReader& r, Box& d)
    {
        detail::read(r, d.lead); detail::read(r, d.off); r.alignTo(8); detail::read(r, d.payload); detail::read(r, d.tail);
        return View<Box>(d);
    }
    static View<Box> read(PackingContext& c, BitStreamReader& r, Box& d)
    {
        detail::read(c.lead, r, d.lead); detail::read(r, d.off); r.alignTo(8); detail::read(r, d.payload); detail::read(c.tail, r, d.tail);
        return View<Box>(d);
    }
};
} // namespace detail
} // namespace zserio

namespace
{
Box genBox(pbt::Gen& g, int flavour)
{
    Box b;
    b.lead = zserio::UInt7(static_cast<uint8_t>(flavour ? g.below(2) : g.ubits(7)));
    b.off = static_cast<uint32_t>(g.ubits(32)); // junk to be overwritten
    std::string s = g.utf8(g.chance(1, 10) ? 200 : 9);
    b.payload.assign(s.data(), s.size());
    b.tail = flavour ? 1000000 + g.below(3) : g.ubits(64);
    return b;
}
struct Rec
{
    std::vector<std::pair<size_t, size_t>>* out;
    void setOffset(size_t i, zserio::BitSize b) const { out->emplace_back(i, b); }
};
struct BoxDelta { ref::Delta lead, tail; };
// reference layout of an array of boxes: returns positions of element starts and of payloads
void refBoxes(ref::Bits& o, const zserio::Vector<Box>& v, bool autoLen, bool aligned, bool packed, std::vector<size_t>& starts, std::vector<size_t>& payloads)
{
    if (autoLen) ref::putSize(o, v.size());
    BoxDelta c;
    for (auto& b : v)
    {
        c.lead.init(static_cast<uint8_t>(b.lead), sch::encSigned(static_cast<uint8_t>(b.lead), 7));
        c.tail.init(static_cast<uint64_t>(b.tail), sch::encVarU(ref::VARUINT, b.tail));
    }
    for (auto& b : v)
    {
        if (aligned) o.align(8);
        starts.push_back(o.size());
        if (packed) c.lead.next(o); else o.put(static_cast<uint8_t>(b.lead), 7);
        size_t offPos = o.size();
        o.put(0, 32);
        o.align(8);
        payloads.push_back(o.size());
        for (unsigned k = 0; k < 32; ++k) o.b[offPos + k] = ((o.size() / 8) >> (31 - k)) & 1;
        sch::refString(o, b.payload);
        if (packed) c.tail.next(o); else ref::putVarU(o, ref::VARUINT, b.tail);
    }
}
template <zserio::detail::ArrayType AT, bool PACKED>
void boxArray(pbt::Gen& g)
{
    using namespace zserio;
    constexpr bool autoLen = AT == detail::ArrayType::AUTO || AT == detail::ArrayType::ALIGNED_AUTO;
    constexpr bool aligned = AT == detail::ArrayType::ALIGNED || AT == detail::ArrayType::ALIGNED_AUTO;
    Vector<Box> v;
    size_t n = g.size(9);
    int fl = g.flip();
    for (size_t i = 0; i < n; ++i) v.push_back(genBox(g, fl));
    size_t start = g.edge(70);
    g.nontrivial(n >= 2);
    g.note("n=" + std::to_string(n) + (PACKED ? " packed" : "") + (aligned ? " aligned" : "") + " start=" + std::to_string(start));
    ref::Bits o;
    o.b.assign(start, 0);
    std::vector<size_t> starts, payloads;
    refBoxes(o, v, autoLen, aligned, PACKED, starts, payloads);
    ArrayView<const Box> view(v);
    std::vector<std::pair<size_t, size_t>> offs;
    size_t sz, init;
    if constexpr (PACKED) { sz = detail::bitSizeOfPacked<AT>(view, static_cast<BitSize>(start)); init = detail::initializeOffsetsPacked<AT>(view, static_cast<BitSize>(start), Rec{&offs}); }
    else { sz = detail::bitSizeOf<AT>(view, static_cast<BitSize>(start)); init = detail::initializeOffsets<AT>(view, static_cast<BitSize>(start), Rec{&offs}); }
    CHECK_EQ(sz, o.size() - start);
    CHECK_EQ(init, o.size() - start);
    if (aligned)
    {
        CHECK_EQ(offs.size(), n);
        for (size_t i = 0; i < n; ++i) { CHECK_EQ(offs[i].first, i); CHECK_EQ(offs[i].second * 8, starts[i]); }
    }
    else CHECK_EQ(offs.size(), size_t(0));
    for (size_t i = 0; i < n; ++i) CHECK_EQM(static_cast<size_t>(v[i].off) * 8, payloads[i], "element " << i);
    ref::ExactBuf buf((o.size() + 7) / 8);
    BitStreamWriter w(buf.data(), o.size(), BitsTag());
    w.setBitPosition(start);
    if constexpr (PACKED) detail::writePacked<AT>(w, view); else detail::write<AT>(w, view);
    CHECK_EQ(w.getBitPosition(), o.size());
    for (size_t i = start; i < o.size(); ++i) CHECKM(ref::bitAt(buf.data(), i) == o.b[i], "bit " << i << " of " << o.size());
    BitStreamReader r(buf.data(), o.size(), BitsTag());
    for (size_t i = 0; i < n; ++i)
    {
        // the target is where the offset says
        r.setBitPosition(static_cast<size_t>(v[i].off) * 8);
        CHECK(r.readString() == v[i].payload);
    }
    r.setBitPosition(start);
    Vector<Box> back;
    if constexpr (PACKED) detail::readPacked<AT>(r, back, n); else detail::read<AT>(r, back, n);
    CHECK(back == v);
    CHECK_EQ(r.getBitPosition(), o.size());
}
} // namespace

SUBCHECK(alignment, 2000000, 60000000,
        "any position and alignment 1..100000: size prediction, writer and reader move to the smallest not smaller multiple, the skipped bits are zero; non-trivial: alignment not a power of two")
{
    using namespace zserio;
    uint32_t a = g.chance(1, 2) ? 1U << g.draw(12) : static_cast<uint32_t>(1 + g.edge(g.chance(1, 20) ? 99999 : 300));
    g.nontrivial((a & (a - 1)) != 0);
    size_t pos = g.edge(g.chance(1, 20) ? 5000 : 300);
    size_t expect = (pos + a - 1) / a * a;
    g.note("align " + std::to_string(a) + " at " + std::to_string(pos));
    CHECK_EQ(static_cast<size_t>(alignTo(a, static_cast<BitSize>(pos))), expect);
    size_t big = g.edge((1ULL << 31) - 1);
    if (a > 0) CHECK_EQ(static_cast<size_t>(alignTo(a, static_cast<BitSize>(big))), (big + a - 1) / a * a);
    CHECK_EQ(static_cast<size_t>(alignTo(0, static_cast<BitSize>(big))), big);
    ref::ExactBuf buf((expect + 7) / 8 + 1);
    BitStreamWriter w(buf.data(), (expect + 7) / 8 + 1);
    w.setBitPosition(pos);
    w.alignTo(a);
    CHECK_EQ(w.getBitPosition(), expect);
    w.writeBool(true);
    for (size_t i = pos; i < expect; ++i) CHECK(ref::bitAt(buf.data(), i) == 0);
    CHECK(ref::bitAt(buf.data(), expect) == 1);
    BitStreamReader r(buf.data(), (expect + 7) / 8 + 1);
    r.setBitPosition(pos);
    r.alignTo(a);
    CHECK_EQ(r.getBitPosition(), expect);
    CHECK(static_cast<bool>(r.readBool()));
    // read from somewhere before, so that the reader cache is filled at the time of the alignment
    if (pos > 0)
    {
        BitStreamReader r2(buf.data(), (expect + 7) / 8 + 1);
        size_t from = g.below(pos + 1);
        r2.setBitPosition(from);
        while (r2.getBitPosition() < pos) (void)r2.readUnsignedBits32(static_cast<uint8_t>(std::min<size_t>(1 + g.below(32), pos - r2.getBitPosition())));
        r2.alignTo(a);
        CHECK_EQ(r2.getBitPosition(), expect);
        CHECK(static_cast<bool>(r2.readBool()));
    }
}

SUBCHECK(array_offsets, 200000, 6000000,
        "plain/packed, aligned or not, arrays of elements which contain an offset themselves: every stored offset is the byte position of its target in the written bits; non-trivial: >=2 elements")
{
    using zserio::detail::ArrayType;
    switch (g.below(8))
    {
    case 0: boxArray<ArrayType::NORMAL, false>(g); break;
    case 1: boxArray<ArrayType::AUTO, false>(g); break;
    case 2: boxArray<ArrayType::ALIGNED, false>(g); break;
    case 3: boxArray<ArrayType::ALIGNED_AUTO, false>(g); break;
    case 4: boxArray<ArrayType::NORMAL, true>(g); break;
    case 5: boxArray<ArrayType::AUTO, true>(g); break;
    case 6: boxArray<ArrayType::ALIGNED, true>(g); break;
    default: boxArray<ArrayType::ALIGNED_AUTO, true>(g); break;
    }
}

namespace
{
template <class E>
void elementOffsets(pbt::Gen& g)
{
    using namespace zserio;
    uint8_t p = el::genParam<E>(g);
    auto v = el::genVec<E>(g, p, 20);
    size_t start = g.edge(70);
    bool autoLen = g.flip();
    ref::Bits o;
    o.b.assign(start, 0);
    if (autoLen) ref::putSize(o, v.size());
    std::vector<size_t> pos;
    for (auto&& e : v)
    {
        o.align(8);
        pos.push_back(o.size());
        typename E::T copy(e);
        ref::append(o, E::enc(copy, p));
    }
    g.nontrivial(v.size() > 1 && start % 8);
    g.note(E::name() + " n=" + std::to_string(v.size()));
    auto view = el::makeView<E>(v, p);
    std::vector<std::pair<size_t, size_t>> offs;
    size_t sz = autoLen ? detail::initializeOffsets<detail::ArrayType::ALIGNED_AUTO>(view, static_cast<BitSize>(start), Rec{&offs})
                        : detail::initializeOffsets<detail::ArrayType::ALIGNED>(view, static_cast<BitSize>(start), Rec{&offs});
    CHECK_EQ(sz, o.size() - start);
    CHECK_EQ(offs.size(), v.size());
    for (size_t i = 0; i < v.size(); ++i) { CHECK_EQ(offs[i].first, i); CHECK_EQ(offs[i].second * 8, pos[i]); }
}
} // namespace

SUBCHECK(element_offsets, 150000, 5000000,
        "indexed offsets of aligned arrays of simple elements (numbers, strings, bit buffers, enums, dynamic bit fields); non-trivial: >=2 elements at an unaligned start")
{
    using namespace el;
    switch (g.below(9))
    {
    case 0: elementOffsets<IntE<3, false>>(g); break;
    case 1: elementOffsets<IntE<33, true>>(g); break;
    case 2: elementOffsets<BoolE>(g); break;
    case 3: elementOffsets<VarE<zserio::VarInt32, ref::VARINT32>>(g); break;
    case 4: elementOffsets<DynE<zserio::DynUInt32>>(g); break;
    case 5: elementOffsets<ColorE>(g); break;
    case 6: elementOffsets<StrE>(g); break;
    case 7: elementOffsets<BufE>(g); break;
    default: elementOffsets<InnerE>(g); break;
    }
}

namespace
{
// every kind of field an offset can be kept in
template <class W>
void offsetField(pbt::Gen& g)
{
    using namespace zserio;
    using VT = typename W::ValueType;
    const uint64_t max = static_cast<uint64_t>(std::numeric_limits<W>::max());
    const uint64_t bytes = g.edge(max);
    const VT junk = static_cast<VT>(g.edge(max));
    if (g.noting()) g.note(std::to_string(bytes));
    g.nontrivial(bytes != static_cast<uint64_t>(junk));
    W plain(junk);
    detail::setGenericOffset(genericAccessor(plain), static_cast<size_t>(bytes));
    CHECK_EQ(static_cast<uint64_t>(static_cast<VT>(plain)), bytes);
    Optional<W> opt(W{junk});
    detail::setGenericOffset(genericAccessor(opt), static_cast<size_t>(bytes));
    CHECK(opt.has_value());
    CHECK_EQ(static_cast<uint64_t>(static_cast<VT>(*opt)), bytes);
    Extended<W> ext(W{junk});
    detail::setGenericOffset(genericAccessor(ext), static_cast<size_t>(bytes));
    CHECK(ext.isPresent());
    CHECK_EQ(static_cast<uint64_t>(static_cast<VT>(*ext)), bytes);
    Extended<Optional<W>> both(Optional<W>(W{junk}));
    detail::setGenericOffset(genericAccessor(both), static_cast<size_t>(bytes));
    CHECK(both.isPresent() && both->has_value());
    CHECK_EQ(static_cast<uint64_t>(static_cast<VT>(**both)), bytes);
    const auto& constBoth = both;
    CHECK(&genericAccessor(constBoth) == &**both);
    CHECK(&genericAccessor(static_cast<const W&>(plain)) == &plain);
    Optional<W> none;
    CHECK_THROWS(CppRuntimeException, detail::setGenericOffset(genericAccessor(none), static_cast<size_t>(bytes)));
    CHECK(!none.has_value());
}
} // namespace

SUBCHECK(offset_fields, 100000, 2000000,
        "an offset computed for a field of any offset type, plain, optional, extended or both, is exactly what the field holds afterwards; non-trivial: it differs from the junk stored before")
{
    using namespace zserio;
    switch (g.below(8))
    {
    case 0: offsetField<UInt8>(g); break;
    case 1: offsetField<UInt16>(g); break;
    case 2: offsetField<UInt32>(g); break;
    case 3: offsetField<UInt64>(g); break;
    case 4: offsetField<UInt31>(g); break;
    case 5: offsetField<VarUInt32>(g); break;
    case 6: offsetField<VarSize>(g); break;
    default: offsetField<VarUInt>(g); break;
    }
}

SUBCHECK(object_offsets, 60000, 2000000,
        "object graph with a scalar offset, an indexed offset array, alignment 24 and aligned extended fields, any start position, junk in the offset fields before: stored offset == position of the target; non-trivial: indexed offsets present")
{
    using namespace zserio;
    uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
    auto d = sch::genMain<A>(g, p);
    size_t start = g.edge(100);
    View<sch::Main<A>> v(d, UInt8(p));
    if (g.flip()) (void)detail::initializeOffsets(v, static_cast<BitSize>(g.edge(1000))); // repeated initialization at other places
    (void)detail::initializeOffsets(v, static_cast<BitSize>(start));
    auto L = sch::refMain(d, p, start); // from the stored offsets
    g.nontrivial(!d.inners.empty());
    g.note(sch::descr(d));
    CHECK_EQ(static_cast<size_t>(d.off) * 8, L.targetPos);
    CHECK_EQ(d.offs.size(), L.innerPos.size());
    for (size_t i = 0; i < L.innerPos.size(); ++i) CHECK_EQ(static_cast<size_t>(d.offs[i]) * 8, L.innerPos[i]);
    size_t end = start + L.bits.size();
    ref::ExactBuf buf((end + 7) / 8);
    BitStreamWriter w(buf.data(), end, BitsTag());
    w.setBitPosition(start);
    detail::write(w, v);
    CHECK_EQ(w.getBitPosition(), end);
    for (size_t i = 0; i < L.bits.size(); ++i) CHECKM(ref::bitAt(buf.data(), start + i) == L.bits.b[i], "bit " << i);
    BitStreamReader r(buf.data(), end, BitsTag());
    r.setBitPosition(static_cast<size_t>(d.off) * 8);
    CHECK_EQ(static_cast<uint64_t>(r.readVarUInt()), static_cast<uint64_t>(d.target));
    for (size_t i = 0; i < d.offs.size(); ++i)
    {
        r.setBitPosition(static_cast<size_t>(d.offs[i]) * 8);
        sch::Inner<A> x(A{});
        (void)detail::read(r, x, UInt8(p));
        CHECK(x == d.inners[i]);
    }
    r.setBitPosition(start);
    sch::Main<A> back{};
    (void)detail::read(r, back, UInt8(p));
    CHECK(back == d);
    CHECK_EQ(r.getBitPosition(), end);
}

SUBCHECK(entry_points, 30000, 1000000,
        "serialize, serializeToBytes and DataView initialize the offsets of their object for position 0, whatever was stored before; non-trivial: indexed offsets present")
{
    using namespace zserio;
    uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
    auto d = sch::genMain<A>(g, p);
    g.nontrivial(!d.inners.empty());
    g.note(sch::descr(d));
    auto d2 = d;
    View<sch::Main<A>> v2(d2, UInt8(p));
    (void)detail::initializeOffsets(v2, 0);
    auto L = sch::refMain(d2, p, 0);
    auto same = [&](const uint8_t* data, size_t bits) {
        CHECK_EQ(bits, L.bits.size());
        for (size_t i = 0; i < bits; ++i) CHECKM(ref::bitAt(data, i) == L.bits.b[i], "bit " << i);
    };
    switch (g.below(6))
    {
    case 0: { auto b = serialize(d, UInt8(p)); same(b.getBuffer(), b.getBitSize()); CHECK(d == d2); break; }
    case 1: { auto b = serializeToBytes(d, UInt8(p)); CHECK_EQ(b.size(), (L.bits.size() + 7) / 8); same(b.data(), L.bits.size()); CHECK(d == d2); break; }
    case 2: { View<sch::Main<A>> v(d, UInt8(p)); auto b = serialize(v); same(b.getBuffer(), b.getBitSize()); CHECK(d == d2); break; }
    case 3: { DataView<sch::Main<A>> dv(d, UInt8(p)); auto b = serialize(dv); same(b.getBuffer(), b.getBitSize()); CHECK(dv.zserioData() == d2); break; }
    case 4: { DataView<sch::Main<A>> dv(std::move(d), UInt8(p)); auto b = serializeToBytes(dv); same(b.data(), L.bits.size()); CHECK(dv.zserioData() == d2); break; }
    default: { View<sch::Main<A>> v(d, UInt8(p)); auto b = serializeToBytes(v, A{}); same(b.data(), L.bits.size()); CHECK(d == d2); break; }
    }
}
