#include <memory_resource>
#include "schema.h"
#include "testobj.h"
#include "zserio/ArrayLengthException.h"
#include "zserio/ChoiceCaseException.h"
#include "zserio/ExtendedFieldException.h"
#include "zserio/IService.h"
#include "zserio/MissedOptionalException.h"
#include "zserio/OutOfRangeException.h"
#include "zserio/SerializeUtil.h"
#include "zserio/UnexpectedOptionalException.h"
#include "zserio/UnionCaseException.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

using namespace zserio;
using StdA = std::allocator<uint8_t>;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;

namespace
{
template <class BUF>
void sameBits(const ref::Bits& ex, const BUF& buf, size_t bits)
{
    CHECK_EQ(bits, ex.size());
    for (size_t i = 0; i < bits; ++i) CHECKM(ref::bitAt(buf, i) == ex.b[i], "bit " << i << " of " << bits);
    if (bits % 8) CHECK((buf[bits / 8] & (0xFF >> (bits % 8))) == 0);
}
// serialize in every way, check against expected bits (if known), deserialize in every way, compare, serialize again
template <class T, class... P>
void roundTrip(pbt::Gen& g, T& data, T other, const typename T::allocator_type& alloc, const ref::Bits* ex, P... params)
{
    using Al = typename T::allocator_type;
    T original(data, alloc);
    BasicBitBuffer<Al> bits = zserio::serialize(data, alloc, params...);
    if (ex) sameBits(*ex, bits.getBuffer(), bits.getBitSize());
    auto bytes = zserio::serializeToBytes(data, alloc, params...);
    CHECK(bytes == bits.getData());
    View<T> view(data, params...);
    CHECK(zserio::serialize(view, alloc) == bits);
    CHECK(zserio::serializeToBytes(view, alloc) == bytes);
    if constexpr (std::is_same_v<Al, StdA>)
    {
        CHECK(zserio::serialize(data, params...) == bits);
        CHECK(zserio::serializeToBytes(data, params...) == bytes);
        CHECK(zserio::serialize(view) == bits);
    }
    DataView<T> dv(data, params...);
    CHECK(zserio::serialize(dv, alloc) == bits);
    CHECK(zserio::serializeToBytes(dv, alloc) == bytes);
    CHECK(dv.zserioData() == data);
    // into an existing object (possibly already filled with something else)
    auto pre = g.flip() ? ArrayPreallocation() : ArrayPreallocation(g.edge(64));
    {
        T back(alloc);
        if (g.flip()) back = original;
        View<T> v2 = g.flip() ? zserio::deserialize(bits, back, params...) : zserio::deserialize(bits, pre, back, params...);
        CHECK(back == data);
        CHECK(v2 == view);
        CHECK(&v2.zserioData() == &back);
        CHECK(zserio::serialize(v2, alloc) == bits);
        // a second time into the same object
        View<T> v3 = zserio::deserialize(bits, back, params...);
        CHECK(back == data);
        CHECK(v3 == view);
    }
    {
        T back(alloc);
        Span<const uint8_t> span(bytes.data(), bytes.size());
        View<T> v2 = g.flip() ? zserio::deserializeFromBytes(span, back, params...) : zserio::deserializeFromBytes(span, pre, back, params...);
        CHECK(back == data);
        CHECK(v2 == view);
    }
    {
        DataView<T> d1 = zserio::deserialize<T>(bits, alloc, params...);
        CHECK(d1.zserioData() == data);
        CHECK(static_cast<const View<T>&>(d1) == view);
        DataView<T> copy(d1);
        DataView<T> moved(std::move(d1));
        CHECK(static_cast<const View<T>&>(copy) == view);
        CHECK(static_cast<const View<T>&>(moved) == view);
        CHECK(&copy.zserioData() != &moved.zserioData());
        CHECK(zserio::serialize(moved, alloc) == bits);
        DataView<T> d2 = zserio::deserialize<T>(bits, pre, alloc, params...);
        CHECK(static_cast<const View<T>&>(d2) == view);
        Span<const uint8_t> span(bytes.data(), bytes.size());
        DataView<T> d3 = zserio::deserializeFromBytes<T>(span, alloc, params...);
        CHECK(static_cast<const View<T>&>(d3) == view);
        if constexpr (std::is_same_v<Al, StdA>)
        {
            DataView<T> d4 = zserio::deserialize<T>(bits, params...);
            CHECK(d4.zserioData() == data);
            DataView<T> d5 = zserio::deserializeFromBytes<T>(span, pre, params...);
            CHECK(d5.zserioData() == data);
        }
    }
    {
        // an unrelated object is completely overwritten
        View<T> v2 = zserio::deserialize(bits, other, params...);
        CHECK(other == data);
        CHECK(v2 == view);
        CHECK(zserio::serialize(v2, alloc) == bits);
    }
    // copies and moves of the object serialize the same
    T copy(data);
    T copyA(data, alloc);
    T moved(std::move(copy));
    T movedA(std::move(copyA), alloc);
    CHECK(moved == data);
    CHECK(movedA == data);
    CHECK(zserio::serialize(moved, alloc, params...) == bits);
    CHECK(zserio::serialize(movedA, alloc, params...) == bits);
    // a shortened buffer never yields an object that passes for the whole one silently with the same size
    if (bits.getBitSize() > 0 && g.chance(1, 3))
    {
        size_t cut = g.below(bits.getBitSize());
        Vector<uint8_t> part(bytes.begin(), bytes.begin() + static_cast<ptrdiff_t>((cut + 7) / 8));
        if (cut % 8) part.back() = static_cast<uint8_t>(part.back() & (0xFF00 >> (cut % 8)));
        BitStreamReader r(part.data(), cut, BitsTag());
        T back(alloc);
        bool failed = false;
        try { (void)detail::read(r, back, params...); }
        catch (const CppRuntimeException&) { failed = true; }
        if (!failed) { CHECK(r.getBitPosition() <= cut); CHECK(!(back == data)); } // only trailing extended fields can be cut away
    }
}
} // namespace

SUBCHECK(round_trip, 30000, 1000000,
        "object graph with parameters, optionals, choice, union, enums, bitmasks, externs, bytes, packed and indexed arrays, extended fields; std/pmr/ppmr; every serialize/deserialize entry point; prescribed bits; non-trivial: encoding > 300 bits")
{
    uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
    auto run = [&](auto alloc) {
        using Al = decltype(alloc);
        sch::Main<Al> d = sch::genMain<Al>(g, p, alloc);
        (void)detail::initializeOffsets(View<sch::Main<Al>>(d, UInt8(p)), 0);
        auto L = sch::refMain(d, p, 0);
        g.note(sch::descr(d));
        g.nontrivial(L.bits.size() > 300);
        auto other = sch::genMain<Al>(g, p, alloc);
        roundTrip(g, d, std::move(other), alloc, &L.bits, UInt8(p));
    };
    switch (g.below(3))
    {
    case 0: run(StdA{}); break;
    case 1: { std::pmr::monotonic_buffer_resource mr; run(PmrA(&mr)); break; }
    default: { std::pmr::monotonic_buffer_resource mr; run(PpmrA(&mr)); break; }
    }
}

SUBCHECK(parts, 60000, 2000000, "parameterized struct, union and choice alone, three allocators; non-trivial: > 40 bits")
{
    uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
    auto run = [&](auto alloc) {
        using Al = decltype(alloc);
        ref::Bits b;
        switch (g.below(3))
        {
        case 0: { auto d = sch::genInner<Al>(g, p, alloc); sch::refInner(b, d, p); roundTrip(g, d, sch::genInner<Al>(g, p, alloc), alloc, &b, UInt8(p)); break; }
        case 1: { auto d = sch::genUni<Al>(g, alloc); sch::refUni(b, d); roundTrip(g, d, sch::genUni<Al>(g, alloc), alloc, &b); break; }
        default: { uint8_t s = static_cast<uint8_t>(g.below(8)); auto d = sch::genChc<Al>(g, s, alloc); sch::refChc(b, d, s); if (b.size()) roundTrip(g, d, sch::genChc<Al>(g, s, alloc), alloc, &b, UInt8(s)); break; }
        }
        g.nontrivial(b.size() > 40);
    };
    switch (g.below(3))
    {
    case 0: run(StdA{}); break;
    case 1: { std::pmr::monotonic_buffer_resource mr; run(PmrA(&mr)); break; }
    default: { std::pmr::monotonic_buffer_resource mr; run(PpmrA(&mr)); break; }
    }
}

namespace
{
// The template generated choices of the sample types do not reset the previous case when the selected case is
// empty, so a reused target object keeps it (recorded finding P12-reused-empty-choice).
template <class T> bool staleChoice(const T&, const T&) { return false; }
bool staleChoice(const to::Std::WObj& d, const to::Std::WObj& other) { return d.choiceField.index() == 0 && other.choiceField.index() != 0; }
bool staleChoice(const to::Std::RObj& d, const to::Std::RObj& other) { return d.reflectableChoice.index() == 0 && other.reflectableChoice.index() != 0; }
template <class T> void resetChoice(T&) {}
void resetChoice(to::Std::WObj& o) { o.choiceField = to::Std::WChc(); }
void resetChoice(to::Std::RObj& o) { o.reflectableChoice = std::decay_t<decltype(o.reflectableChoice)>(); }
template <class S>
S reusable(const S& d, S other)
{
    if (staleChoice(d, other) && pbt::known("P12-reused-empty-choice")) resetChoice(other);
    return other;
}
} // namespace

namespace
{
// the same bits through all three flavours
template <class S, class P1, class P2>
void crossFlavour(pbt::Gen& g, S& d, S other)
{
    std::pmr::monotonic_buffer_resource mr;
    roundTrip(g, d, reusable(d, std::move(other)), StdA{}, nullptr);
    auto bits = zserio::serialize(d);
    P1 p(PmrA{&mr});
    (void)zserio::deserialize(bits, p);
    auto b1 = zserio::serialize(p, PmrA(&mr));
    CHECK_EQ(b1.getBitSize(), bits.getBitSize());
    CHECK(std::equal(b1.getData().begin(), b1.getData().end(), bits.getData().begin()));
    roundTrip(g, p, P1(PmrA{&mr}), PmrA(&mr), nullptr);
    P2 q(PpmrA{&mr});
    (void)zserio::deserialize(b1, q);
    auto b2 = zserio::serialize(q, PpmrA(&mr));
    CHECK_EQ(b2.getBitSize(), bits.getBitSize());
    CHECK(std::equal(b2.getData().begin(), b2.getData().end(), bits.getData().begin()));
    roundTrip(g, q, P2(PpmrA{&mr}), PpmrA(&mr), nullptr);
    CHECK_EQ(std::hash<S>()(d), std::hash<P1>()(p));
    CHECK_EQ(std::hash<S>()(d), std::hash<P2>()(q));
    g.nontrivial(bits.getBitSize() > 100);
    g.note("bits=" + std::to_string(bits.getBitSize()));
}
} // namespace

SUBCHECK(sample_objects, 20000, 600000,
        "sample generated types: std object serialized, read as pmr and ppmr object, identical bits, hashes and round trips in each flavour; non-trivial: > 100 bits")
{
    switch (g.below(4))
    {
    case 0: { auto d = to::genCObj<to::Std>(g, StdA{}); crossFlavour<to::Std::CObj, to::Pmr::CObj, to::Ppmr::CObj>(g, d, to::genCObj<to::Std>(g, StdA{})); break; }
    case 1: { auto d = to::genWObj<to::Std>(g, StdA{}); crossFlavour<to::Std::WObj, to::Pmr::WObj, to::Ppmr::WObj>(g, d, to::genWObj<to::Std>(g, StdA{})); break; }
    case 2: { auto d = to::genRObj<to::Std>(g, StdA{}); crossFlavour<to::Std::RObj, to::Pmr::RObj, to::Ppmr::RObj>(g, d, to::genRObj<to::Std>(g, StdA{})); break; }
    default: { auto d = to::genUUni<to::Std>(g, StdA{}); crossFlavour<to::Std::UUni, to::Pmr::UUni, to::Ppmr::UUni>(g, d, to::genUUni<to::Std>(g, StdA{})); break; }
    }
}

namespace
{
enum Exc { NONE, RANGE, MISSED, UNEXPECTED, LENGTH, CHOICE, UNION, EXTENDED };
template <class F>
Exc classify(F&& f)
{
    try { f(); }
    catch (const OutOfRangeException&) { return RANGE; }
    catch (const MissedOptionalException&) { return MISSED; }
    catch (const UnexpectedOptionalException&) { return UNEXPECTED; }
    catch (const ArrayLengthException&) { return LENGTH; }
    catch (const ChoiceCaseException&) { return CHOICE; }
    catch (const UnionCaseException&) { return UNION; }
    catch (const ExtendedFieldException&) { return EXTENDED; }
    return NONE;
}
template <class T, class... P>
void rejected(const T& d, Exc expect, const std::string& what, P... params)
{
    View<T> v(d, params...);
    CHECK_EQM(classify([&] { detail::validate(v); }), expect, what);
    CHECK_EQM(classify([&] { (void)zserio::serialize(v); }), expect, what);
    CHECK_EQM(classify([&] { (void)zserio::serialize(d, params...); }), expect, what);
    CHECK_EQM(classify([&] { (void)zserio::serializeToBytes(v); }), expect, what);
    CHECK_EQM(classify([&] { (void)zserio::serializeToBytes(d, StdA{}, params...); }), expect, what);
    CHECK_EQM(classify([&] { DataView<T> dv(d, params...); }), expect, what);
    CHECK_EQM(classify([&] { T c(d); DataView<T> dv(std::move(c), params...); }), expect, what);
}
sch::Inner<StdA> badInner(pbt::Gen& g, sch::Inner<StdA> i, uint8_t p)
{
    switch (g.below(5))
    {
    case 0: i.vi = static_cast<int32_t>(268435456 + g.size(1000)); break;
    case 1: if (p < 32) { i.dyn = static_cast<uint32_t>((1ULL << p) + g.edge((1ULL << 32) - 1 - (1ULL << p))); break; } [[fallthrough]];
    case 2: i.small = UInt5(static_cast<uint8_t>(32 + g.below(224))); break;
    case 3: i.perm = sch::Perm(UInt3(static_cast<uint8_t>(8 + g.below(248)))); break;
    default: i.arr.insert(i.arr.begin() + static_cast<ptrdiff_t>(g.below(i.arr.size() + 1)), VarUInt16(static_cast<uint16_t>(32768 + g.edge(32767)))); break;
    }
    return i;
}
} // namespace

SUBCHECK(defects, 150000, 5000000,
        "valid object with exactly one schema violation injected anywhere in the graph: validation, all serialize functions and DataView construction reject it with the right error; the valid object is accepted; non-trivial: always")
{
    using A = StdA;
    uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
    auto d = sch::genMain<A>(g, p);
    CHECK_EQ(classify([&] { detail::validate(View<sch::Main<A>>(d, UInt8(p))); }), NONE);
    g.nontrivial();
    Exc ex = NONE;
    std::string what;
    using UTag = sch::Uni<A>::Tag;
    using CTag = sch::Chc<A>::Tag;
    auto innerAt = [&](auto& vec) { if (vec.empty()) vec.push_back(sch::genInner<A>(g, p, A{})); return g.below(vec.size()); };
    switch (g.below(20))
    {
    case 0: what = "missing conditional field"; d.id = 10; d.cond.reset(); ex = MISSED; break;
    case 1: what = "unexpected conditional field"; d.id = 9; d.cond = sch::genInner<A>(g, p, A{}); ex = UNEXPECTED; break;
    case 2: what = "defect in optional field"; d.id = 77; d.cond = badInner(g, sch::genInner<A>(g, p, A{}), p); ex = RANGE; break;
    case 3: what = "uint7 range"; d.aligned = UInt7(static_cast<uint8_t>(128 + g.below(128))); ex = RANGE; break;
    case 4: what = "array length (indexed)"; if (g.flip() || d.inners.empty()) d.offs.emplace_back(0U); else d.inners.pop_back(); ex = LENGTH; break;
    case 5: { what = "defect in indexed array element"; if (d.inners.empty()) { d.offs.emplace_back(0U); d.inners.push_back(sch::genInner<A>(g, p, A{})); } size_t i = g.below(d.inners.size()); d.inners[i] = badInner(g, d.inners[i], p); ex = RANGE; break; }
    case 6: { what = "defect in packed array element"; size_t i = innerAt(d.pk); d.pk[i] = badInner(g, d.pk[i], p); ex = RANGE; break; }
    case 7: what = "dynamic bit field range"; if (p > 31) return; d.dyns.insert(d.dyns.begin() + static_cast<ptrdiff_t>(g.below(d.dyns.size() + 1)), DynInt64(g.flip() ? (1LL << p) : -(1LL << p) - 1)); ex = RANGE; break;
    case 8: what = "union without case"; d.uni = sch::Uni<A>(); ex = UNION; break;
    case 9: what = "defect inside union"; d.uni.emplace<UTag::inner>(badInner(g, sch::genInner<A>(g, 7, A{}), 7)); ex = RANGE; break;
    case 10: { what = "defect in union list"; Vector<UInt12> l(3); l[g.below(3)] = UInt12(static_cast<uint16_t>(4096 + g.edge(61439))); d.uni.emplace<UTag::list>(l); ex = RANGE; break; }
    case 11: what = "choice case does not match selector";
        d.sel = static_cast<uint8_t>(g.below(7));
        d.plain.clear();
        for (int i = 0; i < static_cast<int>(d.sel) % 3; ++i) d.plain.push_back(sch::genChc<A>(g, static_cast<uint8_t>(i + 1), A{}));
        {
            int want = d.sel == 1 ? CTag::a : d.sel == 2 || d.sel == 3 ? CTag::b : d.sel == 5 ? CTag::ZSERIO_UNDEFINED : CTag::c;
            int other = static_cast<int>(g.below(4));
            if (other == want) other = (other + 1) % 4;
            d.chc = sch::Chc<A>();
            if (other == CTag::a) d.chc.emplace<CTag::a>(1);
            if (other == CTag::b) d.chc.emplace<CTag::b>(sch::genInner<A>(g, 2, A{}));
            if (other == CTag::c) d.chc.emplace<CTag::c>("x");
        }
        ex = CHOICE;
        break;
    case 12: what = "defect inside choice"; d.sel = 3; d.plain.clear(); d.chc.emplace<CTag::b>(badInner(g, sch::genInner<A>(g, 3, A{}), 3)); ex = RANGE; break;
    case 13: what = "plain array length"; d.sel = 4; d.chc.emplace<CTag::c>("abc"); d.plain.clear(); if (g.flip()) d.plain.push_back(sch::genChc<A>(g, 1, A{})), d.plain.push_back(sch::genChc<A>(g, 2, A{})); ex = LENGTH; break;
    case 14: what = "wrong case in array of choices"; d.sel = 4; d.chc.emplace<CTag::c>("abc"); d.plain.clear(); d.plain.push_back(sch::genChc<A>(g, 2, A{})); ex = CHOICE; break;
    case 15: { what = "union without case in packed array"; size_t i = g.below(d.pku.size() + 1); d.pku.insert(d.pku.begin() + static_cast<ptrdiff_t>(i), sch::Uni<A>()); ex = UNION; break; }
    case 16: what = "second extended field without the first"; d.e1 = Extended<UInt32>(); d.e1.setPresent(false); d.e2.setPresent(true); d.e2->reset(); ex = EXTENDED; break;
    case 17: what = "third extended field without the second"; d.e1.setPresent(true); d.e2.setPresent(false); d.e3.setPresent(true); ex = EXTENDED; break;
    case 18: { what = "defect in extended array"; d.e1.setPresent(true); d.e2.setPresent(true); d.e3.setPresent(true); size_t i = innerAt(*d.e3); (*d.e3)[i] = badInner(g, (*d.e3)[i], p); ex = RANGE; break; }
    default: what = "parameter makes a field too narrow"; { if (p > 31) return; d.id = 5; d.cond.reset(); size_t i = innerAt(d.pk); d.pk[i].dyn = static_cast<uint32_t>(1ULL << p); rejected(d, RANGE, what, UInt8(p)); for (auto& e : d.inners) e.dyn = 0; for (size_t k = 0; k < d.dyns.size(); ++k) d.dyns[k] = 0; CHECK_EQ(classify([&] { (void)zserio::serialize(d, UInt8(static_cast<uint8_t>(p + 1))); }), NONE); } return;
    }
    g.note(what);
    rejected(d, ex, what, UInt8(p));
}

SUBCHECK(sample_defects, 60000, 2000000,
        "sample generated types with one violation: conditional field, choice case, union case (nested), accepted before, rejected after; non-trivial: always")
{
    g.nontrivial();
    auto d = to::genWObj<to::Std>(g, StdA{});
    CHECK_EQ(classify([&] { detail::validate(View<to::Std::WObj>(d)); }), NONE);
    switch (g.below(5))
    {
    case 0: d.identifier = 0; d.nested.emplace(); rejected(d, UNEXPECTED, "nested set"); break;
    case 1: d.identifier = static_cast<uint32_t>(1 + g.edge(1000)); d.nested.reset(); rejected(d, MISSED, "nested missing"); break;
    case 2: d.unionArray.insert(d.unionArray.begin() + static_cast<ptrdiff_t>(g.below(d.unionArray.size() + 1)), to::Std::WUni()); rejected(d, UNION, "union case"); break;
    case 3: if (!d.optionalUnionArray) d.optionalUnionArray.emplace(); d.optionalUnionArray->emplace_back(); rejected(d, UNION, "union case"); break;
    default:
    {
        d.choiceSelector = g.pick<uint8_t>({8, 16, 32, 64, 3});
        using T = to::Std::WChc::Tag;
        if (d.choiceSelector == 8) d.choiceField.emplace<T::value16>(static_cast<uint16_t>(1));
        else d.choiceField.emplace<T::value8>(static_cast<uint8_t>(1));
        rejected(d, CHOICE, "choice case");
    }
    }
}

SUBCHECK(extended_versions, 60000, 2000000,
        "data written with any number of trailing extended fields (an older schema version) is read with exactly those present; data with unknown trailing fields is readable up to the known ones; non-trivial: 1 or 2 of 3 fields present")
{
    using A = StdA;
    uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
    auto d = sch::genMain<A>(g, p);
    int k = d.e1.isPresent() + d.e2.isPresent() + d.e3.isPresent();
    g.nontrivial(k == 1 || k == 2);
    auto bits = zserio::serialize(d, UInt8(p));
    sch::Main<A> back{};
    // a target that had other extended fields present before
    back.e1.setPresent(g.flip()); back.e2.setPresent(g.flip()); back.e3.setPresent(g.flip());
    (void)zserio::deserialize(bits, back, UInt8(p));
    CHECK_EQ(back.e1.isPresent(), d.e1.isPresent());
    CHECK_EQ(back.e2.isPresent(), d.e2.isPresent());
    CHECK_EQ(back.e3.isPresent(), d.e3.isPresent());
    CHECK(back == d);
    CHECK(zserio::serialize(back, UInt8(p)) == bits);
    if (k == 3)
    {
        // a newer writer appended something
        Vector<uint8_t> bytes(bits.getData().begin(), bits.getData().end());
        std::string junk = g.bytes(12);
        bytes.insert(bytes.end(), junk.begin(), junk.end());
        sch::Main<A> b2{};
        (void)zserio::deserializeFromBytes(Span<const uint8_t>(bytes.data(), bytes.size()), b2, UInt8(p));
        CHECK(b2 == d);
    }
}

SUBCHECK(service_data, 30000, 600000,
        "service data holders expose exactly the serialized bytes of the object they were built from (object, introspectable, raw holder, raw view), repeatedly; non-trivial: > 8 bytes")
{
    auto d = to::genWObj<to::Std>(g, StdA{});
    auto bytes = zserio::serializeToBytes(d);
    g.nontrivial(bytes.size() > 8);
    auto same = [&](Span<const uint8_t> s) { CHECK_EQ(s.size(), bytes.size()); CHECK(std::equal(s.begin(), s.end(), bytes.begin())); };
    ObjectServiceData o(d);
    same(o.getData());
    CHECK(o.getIntrospectable() == nullptr);
    View<to::Std::WObj> view(d);
    ObjectServiceData o2(view);
    same(o2.getData());
    IntrospectableServiceData<to::Std::WObj> is(d);
    CHECK(is.getIntrospectable() != nullptr);
    same(is.getData());
    same(is.getData());
    auto c = d;
    IntrospectableServiceData<to::Std::WObj> im(std::move(c));
    same(im.getData());
    same(im.getData());
    CHECK(im.getIntrospectable()->getTypeInfo().getSchemaName() == is.getIntrospectable()->getTypeInfo().getSchemaName());
    RawServiceDataHolder h(bytes);
    same(h.getData());
    auto b2 = bytes;
    RawServiceDataHolder h2(std::move(b2));
    same(h2.getData());
    RawServiceDataView rv(Span<const uint8_t>(bytes.data(), bytes.size()));
    same(rv.getData());
    CHECK(rv.getData().data() == bytes.data());
    to::Std::WObj back{StdA{}};
    (void)zserio::deserializeFromBytes(im.getData(), back);
    CHECK(back == d);
}
