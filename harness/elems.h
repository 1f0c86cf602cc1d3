// Element descriptors for array checks: generator, reference encoding, numeric value.
#pragma once
#include "schema.h"

namespace el
{
using A = std::allocator<uint8_t>;
using ref::Bits;
using ref::i128;
// element owner used by arrays whose elements need parameters
struct ParamOwner
{
    uint8_t p = 0;
};
template <class T, class = void>
struct Base
{
    using Traits = zserio::ArrayTraits<T>;
    static constexpr bool owned = false, packable = true, implicit = true, object = false;
    static bool same(const T& a, const T& b) { return a == b; }
};
enum Flavour { ANY, NEAR, EXTREME, CONST_, STEP, JUMP, BOUND, FLAVOURS };
// generates raw number sequences in [lo,hi] with a chosen evolution
struct NumGen
{
    i128 lo, hi, prev;
    int flavour;
    uint64_t step = 0;
    unsigned boundBits = 0;
    bool first = true;
    NumGen(pbt::Gen& g, i128 l, i128 h) : lo(l), hi(h), prev(l), flavour(static_cast<int>(g.below(FLAVOURS)))
    {
        if (flavour == STEP) step = g.below(100);
        if (flavour == BOUND) boundBits = static_cast<unsigned>(g.below(65));
    }
    i128 any(pbt::Gen& g) { return lo + static_cast<i128>(g.edge(static_cast<uint64_t>(hi - lo))); }
    i128 clamp(i128 v) { return v < lo ? lo : v > hi ? hi : v; }
    i128 next(pbt::Gen& g)
    {
        i128 v = 0;
        if (first) v = flavour == EXTREME ? (g.flip() ? hi : lo) : any(g);
        else
            switch (flavour)
            {
            case ANY: v = any(g); break;
            case NEAR: v = clamp(prev + g.range(-5, 5)); break;
            case EXTREME: v = g.pick<int>({0, 1, 2, 3}) == 0 ? lo : g.flip() ? hi : g.flip() ? clamp(lo + 1) : clamp(hi - 1); break;
            case CONST_: v = prev; break;
            case STEP: v = clamp(prev + static_cast<i128>(step)); break;
            case BOUND:
            {
                // differences exactly at powers of two
                i128 d = (static_cast<i128>(1) << boundBits) - static_cast<i128>(g.below(2));
                v = g.flip() ? clamp(prev + d) : clamp(prev - d);
                break;
            }
            default: v = g.chance(1, 8) ? any(g) : clamp(prev + g.range(-3, 3)); break;
            }
        first = false;
        prev = v;
        return v;
    }
};
template <unsigned N, bool S>
struct IntE : Base<zserio::detail::FixedIntWrapper<N, S>>
{
    using T = zserio::detail::FixedIntWrapper<N, S>;
    using V = typename T::ValueType;
    static std::string name() { return (S ? "int" : "uint") + std::to_string(N); }
    static i128 lo(uint8_t) { return S ? -(static_cast<i128>(1) << (N - 1)) : 0; }
    static i128 hi(uint8_t) { return (static_cast<i128>(1) << (S ? N - 1 : N)) - 1; }
    static T make(i128 v, uint8_t) { return T(static_cast<V>(v)); }
    static i128 num(const T& t) { return static_cast<V>(t); }
    static Bits enc(const T& t, uint8_t) { Bits b; b.put(static_cast<uint64_t>(static_cast<V>(t)), N); return b; }
};
struct BoolE : Base<zserio::Bool>
{
    using T = zserio::Bool;
    static std::string name() { return "bool"; }
    static i128 lo(uint8_t) { return 0; }
    static i128 hi(uint8_t) { return 1; }
    static T make(i128 v, uint8_t) { return T(v != 0); }
    static i128 num(const T& t) { return static_cast<bool>(t); }
    static Bits enc(const T& t, uint8_t) { Bits b; b.put(static_cast<bool>(t), 1); return b; }
};
template <class W, const ref::VarSpec& SPEC>
struct VarE : Base<W>
{
    using T = W;
    using V = typename T::ValueType;
    static constexpr bool implicit = false;
    static std::string name() { return SPEC.name; }
    static i128 hi(uint8_t) { return SPEC.isSigned ? (SPEC.maxBytes == 9 ? static_cast<i128>(INT64_MAX) : static_cast<i128>(ref::varMax(SPEC))) : static_cast<i128>(ref::varMax(SPEC)); }
    static i128 lo(uint8_t p) { return SPEC.isSigned ? (SPEC.maxBytes == 9 ? static_cast<i128>(INT64_MIN) : -hi(p)) : 0; }
    static T make(i128 v, uint8_t) { return T(static_cast<V>(v)); }
    static i128 num(const T& t) { return static_cast<V>(t); }
    static Bits enc(const T& t, uint8_t)
    {
        Bits b;
        if (SPEC.isSigned) ref::putVarS(b, SPEC, static_cast<int64_t>(static_cast<V>(t)));
        else ref::putVarU(b, SPEC, static_cast<uint64_t>(static_cast<V>(t)));
        return b;
    }
};
template <class W>
struct DynTraits
{
    using OwnerType = ParamOwner;
    static zserio::View<W> at(const OwnerType& o, const W& e, size_t) { return zserio::View<W>(e, o.p); }
    static void read(zserio::BitStreamReader& r, const OwnerType& o, W& e, size_t) { zserio::detail::read(r, e, o.p); }
    static void read(zserio::detail::DeltaContext& c, zserio::BitStreamReader& r, const OwnerType& o, W& e, size_t) { zserio::detail::read(c, r, e, o.p); }
};
template <class W>
struct DynE : Base<W>
{
    using T = W;
    using V = typename T::ValueType;
    using Traits = DynTraits<W>;
    static constexpr bool owned = true, implicit = false;
    static constexpr bool S = std::is_signed_v<V>;
    static constexpr unsigned maxParam = sizeof(V) * 8;
    static std::string name() { return std::string(S ? "dynint" : "dynuint") + std::to_string(maxParam); }
    static i128 lo(uint8_t p) { return S ? -(static_cast<i128>(1) << (p - 1)) : 0; }
    static i128 hi(uint8_t p) { return (static_cast<i128>(1) << (S ? p - 1 : p)) - 1; }
    static T make(i128 v, uint8_t) { return T(static_cast<V>(v)); }
    static i128 num(const T& t) { return static_cast<V>(t); }
    static Bits enc(const T& t, uint8_t p) { Bits b; b.put(static_cast<uint64_t>(static_cast<V>(t)), p); return b; }
};
struct ColorE : Base<sch::Color>
{
    using T = sch::Color;
    static constexpr bool implicit = false;
    static std::string name() { return "enum:uint10"; }
    static i128 lo(uint8_t) { return 0; }
    static i128 hi(uint8_t) { return 3; }
    static T make(i128 v, uint8_t) { return zserio::EnumTraits<T>::values[static_cast<size_t>(v)]; }
    static i128 num(const T& t) { return static_cast<uint16_t>(t); }
    static Bits enc(const T& t, uint8_t) { Bits b; b.put(static_cast<uint16_t>(t), 10); return b; }
};
struct LevelE : Base<sch::Level>
{
    using T = sch::Level;
    static constexpr bool implicit = false;
    static std::string name() { return "enum:varint64"; }
    static i128 lo(uint8_t) { return 0; }
    static i128 hi(uint8_t) { return 4; }
    static T make(i128 v, uint8_t) { return zserio::EnumTraits<T>::values[static_cast<size_t>(v)]; }
    static i128 num(const T& t) { return static_cast<int64_t>(t); }
    static Bits enc(const T& t, uint8_t) { Bits b; ref::putVarS(b, ref::VARINT64, static_cast<int64_t>(t)); return b; }
};
struct PermE : Base<sch::Perm>
{
    using T = sch::Perm;
    static constexpr bool implicit = false;
    static std::string name() { return "bitmask:uint3"; }
    static i128 lo(uint8_t) { return 0; }
    static i128 hi(uint8_t) { return 7; }
    static T make(i128 v, uint8_t) { return T(zserio::UInt3(static_cast<uint8_t>(v))); }
    static i128 num(const T& t) { return static_cast<uint8_t>(t.getValue()); }
    static Bits enc(const T& t, uint8_t) { Bits b; b.put(static_cast<uint8_t>(t.getValue()), 3); return b; }
};
// generic element generation for numeric descriptors
template <class E, class = void>
struct IsNum : std::false_type {};
template <class E>
struct IsNum<E, std::void_t<decltype(E::num(std::declval<const typename E::T&>()))>> : std::true_type {};

template <class W, unsigned N>
struct FloatE : Base<W>
{
    using T = W;
    static constexpr bool packable = false;
    static std::string name() { return "float" + std::to_string(N); }
    static T gen(pbt::Gen& g, uint8_t)
    {
        if (N == 16) return T(static_cast<typename T::ValueType>(ref::halfToDouble(static_cast<uint16_t>(g.ubits(16) & 0xFBFF))));
        if (N == 32) return T(static_cast<typename T::ValueType>(g.anyFloat(false)));
        return T(static_cast<typename T::ValueType>(g.anyDouble(false)));
    }
    static Bits enc(const T& t, uint8_t)
    {
        Bits b;
        auto v = static_cast<typename T::ValueType>(t);
        if (N == 16) b.put(ref::doubleToHalf(static_cast<double>(v), std::signbit(v)), 16);
        else if (N == 32) b.put(ref::f2u(static_cast<float>(v)), 32);
        else b.put(ref::d2u(static_cast<double>(v)), 64);
        return b;
    }
};
template <class E> struct IsFloat : std::false_type {};
template <class W, unsigned N> struct IsFloat<FloatE<W, N>> : std::true_type {};
struct StrE : Base<zserio::String>
{
    using T = zserio::String;
    static constexpr bool packable = false, implicit = false;
    static std::string name() { return "string"; }
    static T gen(pbt::Gen& g, uint8_t) { return g.chance(1, 40) ? T(g.edge(20000), 'x') : g.utf8(20); }
    static Bits enc(const T& t, uint8_t) { Bits b; sch::refString(b, t); return b; }
};
struct BytE : Base<zserio::Bytes>
{
    using T = zserio::Bytes;
    static constexpr bool packable = false, implicit = false;
    static std::string name() { return "bytes"; }
    static T gen(pbt::Gen& g, uint8_t) { std::string s = g.bytes(20); return T(s.begin(), s.end()); }
    static Bits enc(const T& t, uint8_t) { Bits b; sch::refString(b, std::string_view(reinterpret_cast<const char*>(t.data()), t.size())); return b; }
};
struct BufE : Base<zserio::BitBuffer>
{
    using T = zserio::BitBuffer;
    static constexpr bool packable = false, implicit = false;
    static std::string name() { return "extern"; }
    static T gen(pbt::Gen& g, uint8_t) { return sch::genBuf<A>(g, 50, A{}); }
    static Bits enc(const T& t, uint8_t) { Bits b; sch::refBuf(b, t); return b; }
};
struct InnerOwnedTraits
{
    using OwnerType = ParamOwner;
    using I = sch::Inner<A>;
    static zserio::View<I> at(const OwnerType& o, const I& e, size_t) { return zserio::View<I>(e, o.p); }
    static void read(zserio::BitStreamReader& r, const OwnerType& o, I& e, size_t) { (void)zserio::detail::read(r, e, zserio::UInt8(o.p)); }
    template <class CTX>
    static void read(CTX& c, zserio::BitStreamReader& r, const OwnerType& o, I& e, size_t) { zserio::detail::read(c, r, e, zserio::UInt8(o.p)); }
};
struct InnerE : Base<sch::Inner<A>>
{
    using T = sch::Inner<A>;
    using Traits = InnerOwnedTraits;
    static constexpr bool owned = true, implicit = false, object = true;
    static constexpr unsigned maxParam = 32;
    using Ctx = sch::InnerDelta;
    static std::string name() { return "object"; }
    static T gen(pbt::Gen& g, uint8_t p, int fl = 0) { return sch::genInner<A>(g, p, A{}, fl); }
    static Bits enc(const T& t, uint8_t p) { Bits b; sch::refInner(b, t, p); return b; }
    static void init(Ctx& c, const T& t, uint8_t p) { sch::initInner(c, t, p); }
    static void next(Ctx& c, Bits& b, const T& t, uint8_t p) { sch::refInner(b, t, p, &c); }
};
struct UniE : Base<sch::Uni<A>>
{
    using T = sch::Uni<A>;
    static constexpr bool implicit = false, object = true;
    using Ctx = sch::UniDelta;
    static std::string name() { return "union"; }
    static T gen(pbt::Gen& g, uint8_t, int fl = 0) { return sch::genUni<A>(g, A{}, fl); }
    static Bits enc(const T& t, uint8_t) { Bits b; sch::refUni(b, t); return b; }
    static void init(Ctx& c, const T& t, uint8_t) { sch::initUni(c, t); }
    static void next(Ctx& c, Bits& b, const T& t, uint8_t) { sch::refUni(b, t, &c); }
};
template <class... E> struct List {};
#define EL_L0 BoolE, IntE<1, false>, IntE<64, true>, VarE<zserio::VarInt16, ref::VARINT16>, UniE
#define EL_L1 IntE<3, false>, IntE<7, false>, IntE<48, true>, VarE<zserio::VarInt32, ref::VARINT32>, DynE<zserio::DynUInt8>, FloatE<zserio::Float16, 16>
#define EL_L2 IntE<8, false>, IntE<13, false>, IntE<32, true>, VarE<zserio::VarInt64, ref::VARINT64>, DynE<zserio::DynUInt16>, FloatE<zserio::Float32, 32>
#define EL_L3 IntE<16, false>, IntE<31, false>, IntE<27, true>, VarE<zserio::VarInt, ref::VARINT>, DynE<zserio::DynUInt32>, FloatE<zserio::Float64, 64>
#define EL_L4 IntE<32, false>, IntE<33, false>, IntE<16, true>, VarE<zserio::VarUInt16, ref::VARUINT16>, DynE<zserio::DynUInt64>, StrE
#define EL_L5 IntE<57, false>, IntE<64, false>, IntE<8, true>, VarE<zserio::VarUInt32, ref::VARUINT32>, DynE<zserio::DynInt8>, BytE
#define EL_L6 IntE<5, true>, IntE<63, true>, VarE<zserio::VarUInt64, ref::VARUINT64>, VarE<zserio::VarUInt, ref::VARUINT>, DynE<zserio::DynInt16>, BufE, ColorE
#define EL_L7 IntE<1, true>, VarE<zserio::VarSize, ref::VARSIZE>, DynE<zserio::DynInt32>, DynE<zserio::DynInt64>, LevelE, PermE, InnerE

template <class F, class... E>
void dispatch(List<E...>, size_t i, F&& f)
{
    size_t k = 0;
    (void)((k++ == i ? (f(E{}), true) : false) || ...);
}
template <class... E>
constexpr size_t count(List<E...>) { return sizeof...(E); }

template <class E>
uint8_t genParam(pbt::Gen& g)
{
    if constexpr (E::owned) return static_cast<uint8_t>(1 + g.edge(E::maxParam - 1));
    else return 0;
}
// generates a vector of valid elements
template <class E>
zserio::Vector<typename E::T> genVec(pbt::Gen& g, uint8_t p, size_t maxLen)
{
    zserio::Vector<typename E::T> v;
    if constexpr (IsNum<E>::value)
    {
        size_t n = g.size(maxLen);
        NumGen ng(g, E::lo(p), E::hi(p));
        for (size_t i = 0; i < n; ++i) v.push_back(E::make(ng.next(g), p));
    }
    else if constexpr (E::object)
    {
        size_t n = g.size(std::min<size_t>(maxLen, 8));
        int fl = g.flip();
        for (size_t i = 0; i < n; ++i) v.push_back(E::gen(g, p, fl));
    }
    else
    {
        size_t n = g.size(std::min<size_t>(maxLen, 12));
        for (size_t i = 0; i < n; ++i) v.push_back(E::gen(g, p));
    }
    return v;
}
template <class E>
using ViewOf = zserio::ArrayView<const typename E::T, typename E::Traits>;
template <class E>
ViewOf<E> makeView(const zserio::Vector<typename E::T>& v, uint8_t p)
{
    if constexpr (E::owned) return ViewOf<E>(v, ParamOwner{p});
    else return ViewOf<E>(v);
}
// reference encoding of an array starting at absolute bit position `start`
template <class E>
Bits refArray(const zserio::Vector<typename E::T>& v, uint8_t p, size_t start, bool autoLen, bool aligned)
{
    Bits o;
    o.b.assign(start, 0);
    if (autoLen) ref::putSize(o, v.size());
    for (auto&& e : v)
    {
        if (aligned) o.align(8);
        typename E::T copy(e);
        ref::append(o, E::enc(copy, p));
    }
    o.b.erase(o.b.begin(), o.b.begin() + static_cast<ptrdiff_t>(start));
    return o;
}
template <class E>
Bits refPackedArray(const zserio::Vector<typename E::T>& v, uint8_t p, size_t start, bool autoLen, bool aligned)
{
    if constexpr (!E::packable) return refArray<E>(v, p, start, autoLen, aligned);
    else
    {
        Bits o;
        o.b.assign(start, 0);
        if (autoLen) ref::putSize(o, v.size());
        if constexpr (IsNum<E>::value)
        {
            ref::Delta d;
            for (auto&& e : v) { typename E::T c(e); d.init(E::num(c), E::enc(c, p)); }
            for (size_t i = 0; i < v.size(); ++i) { if (aligned) o.align(8); d.next(o); }
        }
        else
        {
            typename E::Ctx c;
            for (auto& e : v) E::init(c, e, p);
            for (auto& e : v) { if (aligned) o.align(8); E::next(c, o, e, p); }
        }
        o.b.erase(o.b.begin(), o.b.begin() + static_cast<ptrdiff_t>(start));
        return o;
    }
}
template <zserio::detail::ArrayType AT, class E>
void readArr(zserio::BitStreamReader& r, zserio::Vector<typename E::T>& v, uint8_t p, size_t len)
{
    if constexpr (E::owned) { ParamOwner o{p}; zserio::detail::readWithTraits<AT, typename E::Traits>(r, v, o, len); }
    else if (r.getBitPosition() & 1) zserio::detail::readWithTraits<AT, typename E::Traits>(r, v, len);
    else zserio::detail::read<AT>(r, v, len);
}
template <zserio::detail::ArrayType AT, class E>
void readArrPacked(zserio::BitStreamReader& r, zserio::Vector<typename E::T>& v, uint8_t p, size_t len)
{
    if constexpr (E::owned) { ParamOwner o{p}; zserio::detail::readPackedWithTraits<AT, typename E::Traits>(r, v, o, len); }
    else if (r.getBitPosition() & 1) zserio::detail::readPackedWithTraits<AT, typename E::Traits>(r, v, len);
    else zserio::detail::readPacked<AT>(r, v, len);
}
} // namespace el
