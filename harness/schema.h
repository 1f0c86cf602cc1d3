// Hand written "generated-like" types (same shape as the code emitted by the freemarker templates) together with an
// independent bit level reference encoder. All types are templates on the byte allocator.
#pragma once
#include <cmath>
#include <map>
#include <memory>
#include <optional>
#include <variant>

#include "pbt.h"
#include "ref.h"
#include "refpack.h"

#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bitmasks.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/Bytes.h"
#include "zserio/ChoiceCaseException.h"
#include "zserio/ChoiceTag.h"
#include "zserio/DataView.h"
#include "zserio/DeltaContext.h"
#include "zserio/Enums.h"
#include "zserio/Extended.h"
#include "zserio/GenericAccessor.h"
#include "zserio/ExtendedFieldException.h"
#include "zserio/HashCodeUtil.h"
#include "zserio/MissedOptionalException.h"
#include "zserio/Optional.h"
#include "zserio/RebindAlloc.h"
#include "zserio/SerializeUtil.h"
#include "zserio/String.h"
#include "zserio/Types.h"
#include "zserio/UnexpectedOptionalException.h"
#include "zserio/UnionCaseException.h"
#include "zserio/Variant.h"
#include "zserio/View.h"

namespace sch
{
enum class Color : zserio::UInt10::ValueType { RED = 0, GREEN = 1, BLUE = 513, MAX = 1023 };
enum class Level : zserio::VarInt64::ValueType { LOW = -72057594037927935LL, MINUS = -1, ZERO = 0, SEVEN = 7, HIGH = 72057594037927935LL };
class Perm
{
public:
    using ZserioType = zserio::UInt3;
    enum class Values : ZserioType::ValueType { R = 1, W = 2, X = 4 };
    constexpr Perm() noexcept : m_value(0) {}
    constexpr Perm(Values v) noexcept : m_value(static_cast<ZserioType::ValueType>(v)) {}
    constexpr explicit Perm(ZserioType v) noexcept : m_value(v) {}
    constexpr explicit operator ZserioType() const { return m_value; }
    constexpr ZserioType getValue() const { return m_value; }
private:
    ZserioType m_value;
};
inline bool operator==(const Perm& a, const Perm& b) { return a.getValue() == b.getValue(); }
inline bool operator!=(const Perm& a, const Perm& b) { return a.getValue() != b.getValue(); }
inline bool operator<(const Perm& a, const Perm& b) { return a.getValue() < b.getValue(); }
inline bool operator>(const Perm& a, const Perm& b) { return b < a; }
} // namespace sch

namespace zserio
{
template <>
struct EnumTraits<sch::Color>
{
    static constexpr std::array<std::string_view, 4> names = {{"RED", "GREEN", "BLUE", "MAX"}};
    static constexpr std::array<sch::Color, 4> values = {{sch::Color::RED, sch::Color::GREEN, sch::Color::BLUE, sch::Color::MAX}};
    static constexpr std::string_view enumName = "Color";
    using ZserioType = zserio::UInt10;
};
template <>
struct EnumTraits<sch::Level>
{
    static constexpr std::array<std::string_view, 5> names = {{"LOW", "MINUS", "ZERO", "SEVEN", "HIGH"}};
    static constexpr std::array<sch::Level, 5> values = {{sch::Level::LOW, sch::Level::MINUS, sch::Level::ZERO, sch::Level::SEVEN, sch::Level::HIGH}};
    static constexpr std::string_view enumName = "Level";
    using ZserioType = zserio::VarInt64;
};
template <>
inline size_t enumToOrdinal<sch::Color>(sch::Color v)
{
    switch (v)
    {
    case sch::Color::RED: return 0;
    case sch::Color::GREEN: return 1;
    case sch::Color::BLUE: return 2;
    case sch::Color::MAX: return 3;
    default: throw CppRuntimeException("Unknown value for enumeration Color: ") << static_cast<uint16_t>(v) << "!";
    }
}
template <>
inline sch::Color valueToEnum<sch::Color>(UInt10 raw)
{
    switch (raw)
    {
    case 0: case 1: case 513: case 1023: return static_cast<sch::Color>(static_cast<uint16_t>(raw));
    default: throw CppRuntimeException("Unknown value for enumeration Color: ") << raw << "!";
    }
}
template <>
inline size_t enumToOrdinal<sch::Level>(sch::Level v)
{
    for (size_t i = 0; i < 5; ++i) if (EnumTraits<sch::Level>::values[i] == v) return i;
    throw CppRuntimeException("Unknown value for enumeration Level: ") << static_cast<int64_t>(v) << "!";
}
template <>
inline sch::Level valueToEnum<sch::Level>(VarInt64 raw)
{
    for (auto v : EnumTraits<sch::Level>::values) if (static_cast<int64_t>(v) == static_cast<int64_t>(raw)) return v;
    throw CppRuntimeException("Unknown value for enumeration Level: ") << raw << "!";
}
} // namespace zserio
namespace std
{
template <> struct hash<sch::Color> { size_t operator()(sch::Color v) const { return zserio::calcHashCode(zserio::HASH_SEED, static_cast<uint16_t>(v)); } };
template <> struct hash<sch::Level> { size_t operator()(sch::Level v) const { return zserio::calcHashCode(zserio::HASH_SEED, static_cast<int64_t>(v)); } };
template <> struct hash<sch::Perm> { size_t operator()(sch::Perm v) const { return zserio::calcHashCode(zserio::HASH_SEED, v.getValue()); } };
} // namespace std

namespace sch
{
using zserio::RebindAlloc;
template <class A> using Str = zserio::BasicString<RebindAlloc<A, char>>;
template <class A, class T> using Vec = zserio::Vector<T, RebindAlloc<A, T>>;
template <class A, class T> using Opt = zserio::BasicOptional<A, T>;
template <class A> using Byt = zserio::BasicBytes<A>;
template <class A> using Bbf = zserio::BasicBitBuffer<A>;

#define SCH_REL(T) \
    template <class A> bool operator!=(const T<A>& a, const T<A>& b) { return !(a == b); } \
    template <class A> bool operator>(const T<A>& a, const T<A>& b) { return b < a; } \
    template <class A> bool operator<=(const T<A>& a, const T<A>& b) { return !(b < a); } \
    template <class A> bool operator>=(const T<A>& a, const T<A>& b) { return !(a < b); }

// ---------------------------------------------------------------- Inner(uint8 len)
template <class A>
struct Inner
{
    using allocator_type = A;
    Inner() : Inner(A{}) {}
    explicit Inner(const A& a) : opt(a), text(a), arr(a) {}
    Inner(Inner&&) = default;
    Inner(const Inner&) = default;
    Inner(Inner&& o, const A& a) : vi(o.vi), dyn(o.dyn), opt(std::move(o.opt), a), small(o.small), color(o.color), perm(o.perm), flag(o.flag), text(std::move(o.text), a), arr(std::move(o.arr), a) {}
    Inner(const Inner& o, const A& a) : vi(o.vi), dyn(o.dyn), opt(o.opt, a), small(o.small), color(o.color), perm(o.perm), flag(o.flag), text(o.text, a), arr(o.arr, a) {}
    Inner& operator=(Inner&&) = default;
    Inner& operator=(const Inner&) = default;

    zserio::VarInt32 vi;
    zserio::DynUInt32 dyn;
    Opt<A, zserio::Int64> opt;
    zserio::UInt5 small;
    Color color = Color::RED;
    Perm perm;
    zserio::Bool flag;
    Str<A> text;
    Vec<A, zserio::VarUInt16> arr;
    auto tie() const { return std::tie(vi, dyn, opt, small, color, perm, flag, text, arr); }
};
template <class A> bool operator==(const Inner<A>& a, const Inner<A>& b) { return a.tie() == b.tie(); }
template <class A> bool operator<(const Inner<A>& a, const Inner<A>& b) { return a.tie() < b.tie(); }
SCH_REL(Inner)

// ---------------------------------------------------------------- union Uni { varuint num; string text; Inner(7) inner; bit:12 list[]; }
template <class A> struct Uni;
template <class A> struct Chc;
} // namespace sch
namespace zserio::detail
{
template <class A> struct ChoiceTag<sch::Uni<A>> { enum Tag : size_t { ZSERIO_UNDEFINED, num, text, inner, list }; };
template <class A> struct ChoiceTag<sch::Chc<A>> { enum Tag : size_t { ZSERIO_UNDEFINED, a, b, c }; };
} // namespace zserio::detail
namespace sch
{
template <class A>
struct Uni : zserio::BasicVariant<A, typename zserio::detail::ChoiceTag<Uni<A>>::Tag, std::monostate, zserio::VarUInt, Str<A>, Inner<A>, Vec<A, zserio::UInt12>>
{
    using allocator_type = A;
    using Tag = typename zserio::detail::ChoiceTag<Uni<A>>::Tag;
    using Base = zserio::BasicVariant<A, Tag, std::monostate, zserio::VarUInt, Str<A>, Inner<A>, Vec<A, zserio::UInt12>>;
    using Base::Base;
};
// choice Chc(uint8 sel) on sel { case 1: int32 a; case 2,3: Inner(sel) b; case 5: ; default: string c; }
template <class A>
struct Chc : zserio::BasicVariant<A, typename zserio::detail::ChoiceTag<Chc<A>>::Tag, std::monostate, zserio::Int32, Inner<A>, Str<A>>
{
    using allocator_type = A;
    using Tag = typename zserio::detail::ChoiceTag<Chc<A>>::Tag;
    using Base = zserio::BasicVariant<A, Tag, std::monostate, zserio::Int32, Inner<A>, Str<A>>;
    using Base::Base;
};

// ---------------------------------------------------------------- Main(uint8 p)
template <class A>
struct Main
{
    using allocator_type = A;
    Main() : Main(A{}) {}
    explicit Main(const A& a) :
            cond(a), offs(a), inners(a), pk(a), dyns(a), sel(), uni(a), chc(a), bytes(a), ext(a), strings(a), pku(a), plain(a), levels(a), bufs(a), e1(), e2(a), e3(a)
    {}
    Main(Main&&) = default;
    Main(const Main&) = default;
    Main(Main&& o, const A& a) :
            id(o.id), cond(std::move(o.cond), a), aligned(o.aligned), off(o.off), target(o.target), offs(std::move(o.offs), a), inners(std::move(o.inners), a),
            pk(std::move(o.pk), a), dyns(std::move(o.dyns), a), sel(o.sel), uni(std::move(o.uni), a), chc(std::move(o.chc), a), bytes(std::move(o.bytes), a),
            ext(std::move(o.ext), a), f16(o.f16), f32(o.f32), f64(o.f64), strings(std::move(o.strings), a), pku(std::move(o.pku), a), plain(std::move(o.plain), a),
            levels(std::move(o.levels), a), bufs(std::move(o.bufs), a), e1(o.e1), e2(std::move(o.e2), a), e3(std::move(o.e3), a)
    {}
    Main(const Main& o, const A& a) :
            id(o.id), cond(o.cond, a), aligned(o.aligned), off(o.off), target(o.target), offs(o.offs, a), inners(o.inners, a),
            pk(o.pk, a), dyns(o.dyns, a), sel(o.sel), uni(o.uni, a), chc(o.chc, a), bytes(o.bytes, a),
            ext(o.ext, a), f16(o.f16), f32(o.f32), f64(o.f64), strings(o.strings, a), pku(o.pku, a), plain(o.plain, a),
            levels(o.levels, a), bufs(o.bufs, a), e1(o.e1), e2(o.e2, a), e3(o.e3, a)
    {}
    Main& operator=(Main&&) = default;
    Main& operator=(const Main&) = default;

    zserio::UInt16 id;
    Opt<A, Inner<A>> cond;                 // if id > 9; Inner(p)
    zserio::UInt7 aligned;                 // align(24)
    zserio::UInt32 off;                    // offset of target
    zserio::VarUInt target;                // off:
    Vec<A, zserio::UInt32> offs;           // uint32 offs[]
    Vec<A, Inner<A>> inners;               // offs[@index]: Inner(p) inners[lengthof(offs)]
    Vec<A, Inner<A>> pk;                   // packed Inner(p) pk[]
    Vec<A, zserio::DynInt64> dyns;         // packed int<p+1> dyns[]
    zserio::UInt8 sel;
    Uni<A> uni;
    Chc<A> chc;                            // Chc(sel)
    Opt<A, Byt<A>> bytes;                  // optional bytes
    Bbf<A> ext;                            // extern
    zserio::Float16 f16;
    zserio::Float32 f32;
    zserio::Float64 f64;
    Vec<A, Str<A>> strings;                // string strings[]
    Vec<A, Uni<A>> pku;                    // packed Uni pku[]
    Vec<A, Chc<A>> plain;                  // align(8)?: Chc(2) plain[3 % ...] length = sel % 3
    Vec<A, Level> levels;                  // packed Level levels[]
    Vec<A, Bbf<A>> bufs;                   // extern bufs[]
    zserio::Extended<zserio::UInt32> e1;
    zserio::Extended<Opt<A, Str<A>>> e2;
    zserio::Extended<Vec<A, Inner<A>>> e3; // packed Inner(p) e3[]
    auto tie() const
    {
        return std::tie(id, cond, aligned, off, target, offs, inners, pk, dyns, sel, uni, chc, bytes, ext, f16, f32, f64, strings, pku, plain, levels, bufs, e1, e2, e3);
    }
};
template <class A> bool operator==(const Main<A>& a, const Main<A>& b) { return a.tie() == b.tie(); }
template <class A> bool operator<(const Main<A>& a, const Main<A>& b) { return a.tie() < b.tie(); }
SCH_REL(Main)
} // namespace sch

// ================================================================= views, traits
namespace zserio
{
template <class A>
class View<sch::Inner<A>>
{
public:
    using ArrType = ArrayView<const VarUInt16>;
    explicit View(const sch::Inner<A>& d, UInt8 len) noexcept : m_data(&d), m_len(len) {}
    UInt8 len() const { return m_len; }
    VarInt32 vi() const { return m_data->vi; }
    View<DynUInt32> dyn() const { return View<DynUInt32>(m_data->dyn, static_cast<uint8_t>(m_len)); }
    Optional<Int64> opt() const { return m_data->opt.has_value() ? Optional<Int64>(*m_data->opt) : Optional<Int64>(); }
    UInt5 small() const { return m_data->small; }
    sch::Color color() const { return m_data->color; }
    sch::Perm perm() const { return m_data->perm; }
    Bool flag() const { return m_data->flag; }
    std::string_view text() const { return m_data->text; }
    ArrType arr() const { return ArrType(m_data->arr); }
    const sch::Inner<A>& zserioData() const { return *m_data; }
protected:
    View(const sch::Inner<A>& d, const View& o) noexcept : m_data(&d), m_len(o.m_len) {}
private:
    const sch::Inner<A>* m_data;
    UInt8 m_len;
};
template <class A>
bool operator==(const View<sch::Inner<A>>& l, const View<sch::Inner<A>>& r)
{
    return l.len() == r.len() && l.vi() == r.vi() && l.dyn() == r.dyn() && l.opt() == r.opt() && l.small() == r.small() && l.color() == r.color() &&
            l.perm() == r.perm() && l.flag() == r.flag() && l.text() == r.text() && l.arr() == r.arr();
}
template <class A> bool operator!=(const View<sch::Inner<A>>& l, const View<sch::Inner<A>>& r) { return !(l == r); }
#define SCH_LT(F) if (l.F() != r.F()) return l.F() < r.F();
template <class A>
bool operator<(const View<sch::Inner<A>>& l, const View<sch::Inner<A>>& r)
{
    SCH_LT(len) SCH_LT(vi) SCH_LT(dyn) SCH_LT(opt) SCH_LT(small) SCH_LT(color) SCH_LT(perm) SCH_LT(flag) SCH_LT(text) SCH_LT(arr)
    return false;
}

template <class A>
class View<sch::Uni<A>>
{
public:
    using Tag = typename sch::Uni<A>::Tag;
    using ListType = ArrayView<const UInt12>;
    explicit View(const sch::Uni<A>& d) noexcept : m_data(&d) {}
    VarUInt num() const { return zserio::get<Tag::num>(*m_data); }
    std::string_view text() const { return zserio::get<Tag::text>(*m_data); }
    View<sch::Inner<A>> inner() const { return View<sch::Inner<A>>(zserio::get<Tag::inner>(*m_data), UInt8(7)); }
    ListType list() const { return ListType(zserio::get<Tag::list>(*m_data)); }
    Tag zserioChoiceTag() const { return m_data->index(); }
    const sch::Uni<A>& zserioData() const { return *m_data; }
protected:
    View(const sch::Uni<A>& d, const View&) noexcept : m_data(&d) {}
private:
    const sch::Uni<A>* m_data;
};
template <class A>
bool operator==(const View<sch::Uni<A>>& l, const View<sch::Uni<A>>& r)
{
    using Tag = typename sch::Uni<A>::Tag;
    if (l.zserioChoiceTag() != r.zserioChoiceTag()) return false;
    switch (l.zserioChoiceTag())
    {
    case Tag::num: return l.num() == r.num();
    case Tag::text: return l.text() == r.text();
    case Tag::inner: return l.inner() == r.inner();
    case Tag::list: return l.list() == r.list();
    default: return true;
    }
}
template <class A> bool operator!=(const View<sch::Uni<A>>& l, const View<sch::Uni<A>>& r) { return !(l == r); }
template <class A>
bool operator<(const View<sch::Uni<A>>& l, const View<sch::Uni<A>>& r)
{
    using Tag = typename sch::Uni<A>::Tag;
    if (l.zserioChoiceTag() != r.zserioChoiceTag()) return l.zserioChoiceTag() < r.zserioChoiceTag();
    switch (l.zserioChoiceTag())
    {
    case Tag::num: return l.num() < r.num();
    case Tag::text: return l.text() < r.text();
    case Tag::inner: return l.inner() < r.inner();
    case Tag::list: return l.list() < r.list();
    default: return false;
    }
}

template <class A>
class View<sch::Chc<A>>
{
public:
    using Tag = typename sch::Chc<A>::Tag;
    explicit View(const sch::Chc<A>& d, UInt8 sel) noexcept : m_data(&d), m_sel(sel) {}
    UInt8 sel() const { return m_sel; }
    Int32 a() const { return zserio::get<Tag::a>(*m_data); }
    View<sch::Inner<A>> b() const { return View<sch::Inner<A>>(zserio::get<Tag::b>(*m_data), m_sel); }
    std::string_view c() const { return zserio::get<Tag::c>(*m_data); }
    Tag zserioChoiceTag() const { return m_data->index(); }
    const sch::Chc<A>& zserioData() const { return *m_data; }
protected:
    View(const sch::Chc<A>& d, const View& o) noexcept : m_data(&d), m_sel(o.m_sel) {}
private:
    const sch::Chc<A>* m_data;
    UInt8 m_sel;
};
template <class A>
bool operator==(const View<sch::Chc<A>>& l, const View<sch::Chc<A>>& r)
{
    using Tag = typename sch::Chc<A>::Tag;
    if (l.sel() != r.sel() || l.zserioChoiceTag() != r.zserioChoiceTag()) return false;
    switch (l.zserioChoiceTag())
    {
    case Tag::a: return l.a() == r.a();
    case Tag::b: return l.b() == r.b();
    case Tag::c: return l.c() == r.c();
    default: return true;
    }
}
template <class A> bool operator!=(const View<sch::Chc<A>>& l, const View<sch::Chc<A>>& r) { return !(l == r); }
template <class A>
bool operator<(const View<sch::Chc<A>>& l, const View<sch::Chc<A>>& r)
{
    using Tag = typename sch::Chc<A>::Tag;
    if (l.sel() != r.sel()) return l.sel() < r.sel();
    if (l.zserioChoiceTag() != r.zserioChoiceTag()) return l.zserioChoiceTag() < r.zserioChoiceTag();
    switch (l.zserioChoiceTag())
    {
    case Tag::a: return l.a() < r.a();
    case Tag::b: return l.b() < r.b();
    case Tag::c: return l.c() < r.c();
    default: return false;
    }
}

template <class A>
class View<sch::Main<A>>
{
public:
    struct InnerTraits
    {
        using OwnerType = View<sch::Main<A>>;
        static View<sch::Inner<A>> at(const OwnerType& o, const sch::Inner<A>& e, size_t);
        static void read(BitStreamReader& r, const OwnerType& o, sch::Inner<A>& e, size_t);
        template <class CTX>
        static void read(CTX& ctx, BitStreamReader& r, const OwnerType& o, sch::Inner<A>& e, size_t);
    };
    struct DynTraits
    {
        using OwnerType = View<sch::Main<A>>;
        static View<DynInt64> at(const OwnerType& o, const DynInt64& e, size_t);
        static void read(BitStreamReader& r, const OwnerType& o, DynInt64& e, size_t);
        static void read(detail::DeltaContext& ctx, BitStreamReader& r, const OwnerType& o, DynInt64& e, size_t);
    };
    struct ChcTraits
    {
        using OwnerType = View<sch::Main<A>>;
        static View<sch::Chc<A>> at(const OwnerType& o, const sch::Chc<A>& e, size_t i);
        static void read(BitStreamReader& r, const OwnerType& o, sch::Chc<A>& e, size_t i);
    };
    explicit View(const sch::Main<A>& d, UInt8 p) noexcept : m_data(&d), m_p(p) {}
    UInt8 p() const { return m_p; }
    bool condUsed() const { return m_data->id > 9; }
    size_t plainLength() const { return static_cast<size_t>(m_data->sel % 3); }
    Optional<View<sch::Inner<A>>> cond() const
    {
        return m_data->cond.has_value() ? Optional<View<sch::Inner<A>>>(std::in_place, *m_data->cond, m_p) : Optional<View<sch::Inner<A>>>();
    }
    uint8_t dynBits() const { return static_cast<uint8_t>(m_p + 1); }
    ArrayView<const UInt32> offs() const { return ArrayView<const UInt32>(m_data->offs); }
    ArrayView<const sch::Inner<A>, InnerTraits> inners() const { return ArrayView<const sch::Inner<A>, InnerTraits>(m_data->inners, *this); }
    ArrayView<const sch::Inner<A>, InnerTraits> pk() const { return ArrayView<const sch::Inner<A>, InnerTraits>(m_data->pk, *this); }
    ArrayView<const DynInt64, DynTraits> dyns() const { return ArrayView<const DynInt64, DynTraits>(m_data->dyns, *this); }
    View<sch::Uni<A>> uni() const { return View<sch::Uni<A>>(m_data->uni); }
    View<sch::Chc<A>> chc() const { return View<sch::Chc<A>>(m_data->chc, m_data->sel); }
    ArrayView<const sch::Str<A>> strings() const { return ArrayView<const sch::Str<A>>(m_data->strings); }
    ArrayView<const sch::Uni<A>> pku() const { return ArrayView<const sch::Uni<A>>(m_data->pku); }
    ArrayView<const sch::Chc<A>, ChcTraits> plain() const { return ArrayView<const sch::Chc<A>, ChcTraits>(m_data->plain, *this); }
    ArrayView<const sch::Level> levels() const { return ArrayView<const sch::Level>(m_data->levels); }
    ArrayView<const sch::Bbf<A>> bufs() const { return ArrayView<const sch::Bbf<A>>(m_data->bufs); }
    ArrayView<const sch::Inner<A>, InnerTraits> e3() const { return ArrayView<const sch::Inner<A>, InnerTraits>(m_data->e3.value(), *this); }
    const sch::Main<A>& zserioData() const { return *m_data; }
protected:
    View(const sch::Main<A>& d, const View& o) noexcept : m_data(&d), m_p(o.m_p) {}
private:
    const sch::Main<A>* m_data = nullptr;
    UInt8 m_p;
};
template <class A>
View<sch::Inner<A>> View<sch::Main<A>>::InnerTraits::at(const OwnerType& o, const sch::Inner<A>& e, size_t) { return View<sch::Inner<A>>(e, o.p()); }
template <class A>
View<DynInt64> View<sch::Main<A>>::DynTraits::at(const OwnerType& o, const DynInt64& e, size_t) { return View<DynInt64>(e, o.dynBits()); }
template <class A>
View<sch::Chc<A>> View<sch::Main<A>>::ChcTraits::at(const OwnerType&, const sch::Chc<A>& e, size_t i) { return View<sch::Chc<A>>(e, UInt8(static_cast<uint8_t>(i + 1))); }

template <class A>
bool operator==(const View<sch::Main<A>>& l, const View<sch::Main<A>>& r)
{
    const auto& a = l.zserioData();
    const auto& b = r.zserioData();
    return l.p() == r.p() && a.id == b.id && l.cond() == r.cond() && a.aligned == b.aligned && a.off == b.off && a.target == b.target && l.offs() == r.offs() &&
            l.inners() == r.inners() && l.pk() == r.pk() && l.dyns() == r.dyns() && a.sel == b.sel && l.uni() == r.uni() && l.chc() == r.chc() && a.bytes == b.bytes &&
            a.ext == b.ext && a.f16 == b.f16 && a.f32 == b.f32 && a.f64 == b.f64 && l.strings() == r.strings() && l.pku() == r.pku() && l.plain() == r.plain() &&
            l.levels() == r.levels() && l.bufs() == r.bufs() && a.e1 == b.e1 && a.e2 == b.e2 && a.e3.isPresent() == b.e3.isPresent() &&
            (!a.e3.isPresent() || l.e3() == r.e3());
}
template <class A> bool operator!=(const View<sch::Main<A>>& l, const View<sch::Main<A>>& r) { return !(l == r); }

namespace detail
{
// ---------------- Inner
template <class A>
struct ObjectTraits<sch::Inner<A>>
{
    using Parameters = std::tuple<UInt8>;
    struct PackingContext { DeltaContext vi, dyn, opt, small, color, perm, flag; };
    using V = View<sch::Inner<A>>;
    static void validate(const V& v, std::string_view)
    {
        detail::validate(v.len(), "'Inner.len'");
        detail::validate(v.vi(), "'Inner.vi'");
        detail::validate(v.dyn(), "'Inner.dyn'");
        if (v.opt().has_value()) detail::validate(*v.opt(), "'Inner.opt'");
        detail::validate(v.small(), "'Inner.small'");
        detail::validate(v.color(), "'Inner.color'");
        detail::validate(v.perm(), "'Inner.perm'");
        detail::validate(v.flag(), "'Inner.flag'");
        detail::validate(v.text(), "'Inner.text'");
        detail::validate<ArrayType::AUTO>(v.arr(), "'Inner.arr'");
    }
    static BitSize bitSizeOf(const V& v, BitSize pos)
    {
        BitSize end = pos;
        end += detail::bitSizeOf(v.vi(), end);
        end += detail::bitSizeOf(v.dyn(), end);
        end += detail::bitSizeOf(Bool());
        if (v.opt().has_value()) end += detail::bitSizeOf(*v.opt(), end);
        end += detail::bitSizeOf(v.small(), end);
        end += detail::bitSizeOf(v.color(), end);
        end += detail::bitSizeOf(v.perm(), end);
        end += detail::bitSizeOf(v.flag(), end);
        end += detail::bitSizeOf(v.text(), end);
        end += detail::bitSizeOfPacked<ArrayType::AUTO>(v.arr(), end);
        return end - pos;
    }
    static void write(BitStreamWriter& w, const V& v)
    {
        detail::write(w, v.vi());
        detail::write(w, v.dyn());
        w.writeBool(v.opt().has_value());
        if (v.opt().has_value()) detail::write(w, *v.opt());
        detail::write(w, v.small());
        detail::write(w, v.color());
        detail::write(w, v.perm());
        detail::write(w, v.flag());
        detail::write(w, v.text());
        detail::writePacked<ArrayType::AUTO>(w, v.arr());
    }
    static V read(BitStreamReader& r, sch::Inner<A>& d, UInt8 len)
    {
        V v(d, len);
        detail::read(r, d.vi);
        detail::read(r, d.dyn, static_cast<uint8_t>(len));
        if (r.readBool()) { d.opt.emplace(); detail::read(r, *d.opt); }
        else d.opt.reset();
        detail::read(r, d.small);
        detail::read(r, d.color);
        detail::read(r, d.perm);
        detail::read(r, d.flag);
        detail::read(r, d.text);
        detail::readPacked<ArrayType::AUTO>(r, d.arr);
        return v;
    }
    static void initContext(PackingContext& c, const V& v)
    {
        detail::initContext(c.vi, v.vi());
        detail::initContext(c.dyn, v.dyn());
        if (v.opt().has_value()) detail::initContext(c.opt, *v.opt());
        detail::initContext(c.small, v.small());
        detail::initContext(c.color, v.color());
        detail::initContext(c.perm, v.perm());
        detail::initContext(c.flag, v.flag());
    }
    static BitSize bitSizeOf(PackingContext& c, const V& v, BitSize pos)
    {
        BitSize end = pos;
        end += detail::bitSizeOf(c.vi, v.vi(), end);
        end += detail::bitSizeOf(c.dyn, v.dyn(), end);
        end += detail::bitSizeOf(Bool());
        if (v.opt().has_value()) end += detail::bitSizeOf(c.opt, *v.opt(), end);
        end += detail::bitSizeOf(c.small, v.small(), end);
        end += detail::bitSizeOf(c.color, v.color(), end);
        end += detail::bitSizeOf(c.perm, v.perm(), end);
        end += detail::bitSizeOf(c.flag, v.flag(), end);
        end += detail::bitSizeOf(v.text(), end);
        end += detail::bitSizeOfPacked<ArrayType::AUTO>(v.arr(), end);
        return end - pos;
    }
    static void write(PackingContext& c, BitStreamWriter& w, const V& v)
    {
        detail::write(c.vi, w, v.vi());
        detail::write(c.dyn, w, v.dyn());
        w.writeBool(v.opt().has_value());
        if (v.opt().has_value()) detail::write(c.opt, w, *v.opt());
        detail::write(c.small, w, v.small());
        detail::write(c.color, w, v.color());
        detail::write(c.perm, w, v.perm());
        detail::write(c.flag, w, v.flag());
        detail::write(w, v.text());
        detail::writePacked<ArrayType::AUTO>(w, v.arr());
    }
    static V read(PackingContext& c, BitStreamReader& r, sch::Inner<A>& d, UInt8 len)
    {
        V v(d, len);
        detail::read(c.vi, r, d.vi);
        detail::read(c.dyn, r, d.dyn, static_cast<uint8_t>(len));
        if (r.readBool()) { d.opt.emplace(); detail::read(c.opt, r, *d.opt); }
        else d.opt.reset();
        detail::read(c.small, r, d.small);
        detail::read(c.color, r, d.color);
        detail::read(c.perm, r, d.perm);
        detail::read(c.flag, r, d.flag);
        detail::read(r, d.text);
        detail::readPacked<ArrayType::AUTO>(r, d.arr);
        return v;
    }
};
// ---------------- Uni
template <class A>
struct ObjectTraits<sch::Uni<A>>
{
    using V = View<sch::Uni<A>>;
    using Tag = typename sch::Uni<A>::Tag;
    struct PackingContext { DeltaContext tag, num; typename ObjectTraits<sch::Inner<A>>::PackingContext inner; };
    static void validate(const V& v, std::string_view)
    {
        switch (v.zserioChoiceTag())
        {
        case Tag::num: detail::validate(v.num(), "'Uni.num'"); break;
        case Tag::text: detail::validate(v.text(), "'Uni.text'"); break;
        case Tag::inner: detail::validate(v.inner(), "'Uni.inner'"); break;
        case Tag::list: detail::validate<ArrayType::AUTO>(v.list(), "'Uni.list'"); break;
        default: throw UnionCaseException("No case set in union 'Uni'!");
        }
    }
    static VarSize tagOf(const V& v) { return fromCheckedValue<VarSize>(convertSizeToUInt32(static_cast<size_t>(v.zserioChoiceTag()) - 1)); }
    static BitSize bitSizeOf(const V& v, BitSize pos)
    {
        BitSize end = pos + detail::bitSizeOf(tagOf(v), pos);
        switch (v.zserioChoiceTag())
        {
        case Tag::num: end += detail::bitSizeOf(v.num(), end); break;
        case Tag::text: end += detail::bitSizeOf(v.text(), end); break;
        case Tag::inner: end += detail::bitSizeOf(v.inner(), end); break;
        case Tag::list: end += detail::bitSizeOf<ArrayType::AUTO>(v.list(), end); break;
        default: break;
        }
        return end - pos;
    }
    static void write(BitStreamWriter& w, const V& v)
    {
        detail::write(w, tagOf(v));
        switch (v.zserioChoiceTag())
        {
        case Tag::num: detail::write(w, v.num()); break;
        case Tag::text: detail::write(w, v.text()); break;
        case Tag::inner: detail::write(w, v.inner()); break;
        case Tag::list: detail::write<ArrayType::AUTO>(w, v.list()); break;
        default: break;
        }
    }
    template <class RD>
    static void readBody(BitStreamReader& r, sch::Uni<A>& d, uint64_t tag, RD&& packedRead)
    {
        switch (tag + 1)
        {
        case Tag::num: d.template emplace<Tag::num>(); if (!packedRead(1)) detail::read(r, zserio::get<Tag::num>(d)); break;
        case Tag::text: d.template emplace<Tag::text>(); detail::read(r, zserio::get<Tag::text>(d)); break;
        case Tag::inner: d.template emplace<Tag::inner>(); if (!packedRead(3)) (void)detail::read(r, zserio::get<Tag::inner>(d), UInt8(7)); break;
        case Tag::list: d.template emplace<Tag::list>(); detail::read<ArrayType::AUTO>(r, zserio::get<Tag::list>(d)); break;
        default: throw UnionCaseException("No match in union Uni!");
        }
    }
    static V read(BitStreamReader& r, sch::Uni<A>& d)
    {
        VarSize tag;
        detail::read(r, tag);
        readBody(r, d, tag, [](int) { return false; });
        return V(d);
    }
    static void initContext(PackingContext& c, const V& v)
    {
        detail::initContext(c.tag, tagOf(v));
        if (v.zserioChoiceTag() == Tag::num) detail::initContext(c.num, v.num());
        if (v.zserioChoiceTag() == Tag::inner) detail::initContext(c.inner, v.inner());
    }
    static BitSize bitSizeOf(PackingContext& c, const V& v, BitSize pos)
    {
        BitSize end = pos + detail::bitSizeOf(c.tag, tagOf(v), pos);
        switch (v.zserioChoiceTag())
        {
        case Tag::num: end += detail::bitSizeOf(c.num, v.num(), end); break;
        case Tag::text: end += detail::bitSizeOf(v.text(), end); break;
        case Tag::inner: end += detail::bitSizeOf(c.inner, v.inner(), end); break;
        case Tag::list: end += detail::bitSizeOf<ArrayType::AUTO>(v.list(), end); break;
        default: break;
        }
        return end - pos;
    }
    static void write(PackingContext& c, BitStreamWriter& w, const V& v)
    {
        detail::write(c.tag, w, tagOf(v));
        switch (v.zserioChoiceTag())
        {
        case Tag::num: detail::write(c.num, w, v.num()); break;
        case Tag::text: detail::write(w, v.text()); break;
        case Tag::inner: detail::write(c.inner, w, v.inner()); break;
        case Tag::list: detail::write<ArrayType::AUTO>(w, v.list()); break;
        default: break;
        }
    }
    static V read(PackingContext& c, BitStreamReader& r, sch::Uni<A>& d)
    {
        VarSize tag;
        detail::read(c.tag, r, tag);
        readBody(r, d, tag, [&](int k) {
            if (k == 1) detail::read(c.num, r, zserio::get<Tag::num>(d));
            else (void)detail::read(c.inner, r, zserio::get<Tag::inner>(d), UInt8(7));
            return true;
        });
        return V(d);
    }
};
// ---------------- Chc
template <class A>
struct ObjectTraits<sch::Chc<A>>
{
    using V = View<sch::Chc<A>>;
    using Tag = typename sch::Chc<A>::Tag;
    using Parameters = std::tuple<UInt8>;
    static Tag expected(UInt8 sel)
    {
        switch (sel)
        {
        case 1: return Tag::a;
        case 2: case 3: return Tag::b;
        case 5: return Tag::ZSERIO_UNDEFINED;
        default: return Tag::c;
        }
    }
    static void validate(const V& v, std::string_view)
    {
        detail::validate(v.sel(), "'Chc.sel'");
        if (v.zserioChoiceTag() != expected(v.sel()))
            throw ChoiceCaseException("Wrong case set in choice 'Chc'!");
        switch (v.zserioChoiceTag())
        {
        case Tag::a: detail::validate(v.a(), "'Chc.a'"); break;
        case Tag::b: detail::validate(v.b(), "'Chc.b'"); break;
        case Tag::c: detail::validate(v.c(), "'Chc.c'"); break;
        default: break;
        }
    }
    static BitSize bitSizeOf(const V& v, BitSize pos)
    {
        BitSize end = pos;
        switch (v.zserioChoiceTag())
        {
        case Tag::a: end += detail::bitSizeOf(v.a(), end); break;
        case Tag::b: end += detail::bitSizeOf(v.b(), end); break;
        case Tag::c: end += detail::bitSizeOf(v.c(), end); break;
        default: break;
        }
        return end - pos;
    }
    static void write(BitStreamWriter& w, const V& v)
    {
        switch (v.zserioChoiceTag())
        {
        case Tag::a: detail::write(w, v.a()); break;
        case Tag::b: detail::write(w, v.b()); break;
        case Tag::c: detail::write(w, v.c()); break;
        default: break;
        }
    }
    static V read(BitStreamReader& r, sch::Chc<A>& d, UInt8 sel)
    {
        switch (expected(sel))
        {
        case Tag::a: d.template emplace<Tag::a>(); detail::read(r, zserio::get<Tag::a>(d)); break;
        case Tag::b: d.template emplace<Tag::b>(); (void)detail::read(r, zserio::get<Tag::b>(d), sel); break;
        case Tag::c: d.template emplace<Tag::c>(); detail::read(r, zserio::get<Tag::c>(d)); break;
        default: d.template emplace<Tag::ZSERIO_UNDEFINED>(); break;
        }
        return V(d, sel);
    }
};
// ---------------- Main
template <class A>
struct ObjectTraits<sch::Main<A>>
{
    using V = View<sch::Main<A>>;
    using InnerTraits = typename V::InnerTraits;
    using DynTraits = typename V::DynTraits;
    using ChcTraits = typename V::ChcTraits;
    using Parameters = std::tuple<UInt8>;
    struct OffsetSetter
    {
        explicit OffsetSetter(const V& v) : d(&v.zserioData()) {}
        void setOffset(size_t i, BitSize byteOffset) const
        {
            detail::setGenericOffset(const_cast<UInt32&>(d->offs[i]), byteOffset);
        }
        const sch::Main<A>* d;
    };
    static void validate(const V& v, std::string_view)
    {
        const auto& d = v.zserioData();
        detail::validate(v.p(), "'Main.p'");
        detail::validate(d.id, "'Main.id'");
        if (v.condUsed())
        {
            if (!d.cond.has_value()) throw MissedOptionalException("Optional field 'Main.cond' is used but not set!");
        }
        else if (d.cond.has_value()) throw UnexpectedOptionalException("Optional field 'Main.cond' is set but not used!");
        if (d.cond.has_value()) detail::validate(*v.cond(), "'Main.cond'");
        detail::validate(d.aligned, "'Main.aligned'");
        detail::validate(d.off, "'Main.off'");
        detail::validate(d.target, "'Main.target'");
        detail::validate<ArrayType::AUTO>(v.offs(), "'Main.offs'");
        detail::validate<ArrayType::ALIGNED>(v.inners(), "'Main.inners'", d.offs.size());
        detail::validate<ArrayType::AUTO>(v.pk(), "'Main.pk'");
        detail::validate<ArrayType::AUTO>(v.dyns(), "'Main.dyns'");
        detail::validate(d.sel, "'Main.sel'");
        detail::validate(v.uni(), "'Main.uni'");
        detail::validate(v.chc(), "'Main.chc'");
        if (d.bytes.has_value()) detail::validate(BytesView(*d.bytes), "'Main.bytes'");
        detail::validate(BasicBitBufferView<A>(d.ext), "'Main.ext'");
        detail::validate(d.f16, "'Main.f16'");
        detail::validate(d.f32, "'Main.f32'");
        detail::validate(d.f64, "'Main.f64'");
        detail::validate<ArrayType::AUTO>(v.strings(), "'Main.strings'");
        detail::validate<ArrayType::AUTO>(v.pku(), "'Main.pku'");
        detail::validate<ArrayType::NORMAL>(v.plain(), "'Main.plain'", v.plainLength());
        detail::validate<ArrayType::AUTO>(v.levels(), "'Main.levels'");
        detail::validate<ArrayType::AUTO>(v.bufs(), "'Main.bufs'");
        uint32_t n = 0;
        if (d.e1.isPresent()) { ++n; detail::validate(*d.e1, "'Main.e1'"); }
        if (d.e2.isPresent())
        {
            if (++n != 2) throw ExtendedFieldException("Some of preceding extended fields is not present before 'Main.e2'!");
            if (d.e2->has_value()) detail::validate(std::string_view(**d.e2), "'Main.e2'");
        }
        if (d.e3.isPresent())
        {
            if (++n != 3) throw ExtendedFieldException("Some of preceding extended fields is not present before 'Main.e3'!");
            detail::validate<ArrayType::AUTO>(v.e3(), "'Main.e3'");
        }
    }
    // shared by bitSizeOf and initializeOffsets
    template <bool INIT>
    static BitSize layout(const V& v, BitSize pos)
    {
        const auto& d = v.zserioData();
        BitSize end = pos;
        end += detail::bitSizeOf(d.id, end);
        if (d.cond.has_value()) end += detail::bitSizeOf(*v.cond(), end);
        end = alignTo(24, end);
        end += detail::bitSizeOf(d.aligned, end);
        end += detail::bitSizeOf(d.off, end);
        end = alignTo(8, end);
        if (INIT) detail::setGenericOffset(genericAccessor(const_cast<UInt32&>(d.off)), end / 8);
        end += detail::bitSizeOf(d.target, end);
        end += detail::bitSizeOf<ArrayType::AUTO>(v.offs(), end);
        if (INIT) end += detail::initializeOffsets<ArrayType::ALIGNED>(v.inners(), end, OffsetSetter(v));
        else end += detail::bitSizeOf<ArrayType::ALIGNED>(v.inners(), end);
        if (INIT) end += detail::initializeOffsetsPacked<ArrayType::AUTO>(v.pk(), end);
        else end += detail::bitSizeOfPacked<ArrayType::AUTO>(v.pk(), end);
        end += detail::bitSizeOfPacked<ArrayType::AUTO>(v.dyns(), end);
        end += detail::bitSizeOf(d.sel, end);
        end += INIT ? detail::initializeOffsets(v.uni(), end) : detail::bitSizeOf(v.uni(), end);
        end += detail::bitSizeOf(v.chc(), end);
        end += detail::bitSizeOf(Bool());
        if (d.bytes.has_value()) end += detail::bitSizeOf(BytesView(*d.bytes), end);
        end += detail::bitSizeOf(BasicBitBufferView<A>(d.ext), end);
        end += detail::bitSizeOf(d.f16, end);
        end += detail::bitSizeOf(d.f32, end);
        end += detail::bitSizeOf(d.f64, end);
        end += detail::bitSizeOf<ArrayType::AUTO>(v.strings(), end);
        end += detail::bitSizeOfPacked<ArrayType::AUTO>(v.pku(), end);
        end += detail::bitSizeOf<ArrayType::NORMAL>(v.plain(), end);
        end += detail::bitSizeOfPacked<ArrayType::AUTO>(v.levels(), end);
        end += detail::bitSizeOf<ArrayType::AUTO>(v.bufs(), end);
        if (d.e1.isPresent()) { end = alignTo(8, end); end += detail::bitSizeOf(*d.e1, end); }
        if (d.e2.isPresent())
        {
            end = alignTo(8, end);
            end += detail::bitSizeOf(Bool());
            if (d.e2->has_value()) end += detail::bitSizeOf(std::string_view(**d.e2), end);
        }
        if (d.e3.isPresent()) { end = alignTo(8, end); end += detail::bitSizeOfPacked<ArrayType::AUTO>(v.e3(), end); }
        return end - pos;
    }
    static BitSize bitSizeOf(const V& v, BitSize pos) { return layout<false>(v, pos); }
    static BitSize initializeOffsets(const V& v, BitSize pos)
    {
        return layout<true>(v, pos);
    }
    static void write(BitStreamWriter& w, const V& v)
    {
        const auto& d = v.zserioData();
        detail::write(w, d.id);
        if (d.cond.has_value()) detail::write(w, *v.cond());
        w.alignTo(24);
        detail::write(w, d.aligned);
        detail::write(w, d.off);
        w.alignTo(8);
        detail::write(w, d.target);
        detail::write<ArrayType::AUTO>(w, v.offs());
        detail::write<ArrayType::ALIGNED>(w, v.inners());
        detail::writePacked<ArrayType::AUTO>(w, v.pk());
        detail::writePacked<ArrayType::AUTO>(w, v.dyns());
        detail::write(w, d.sel);
        detail::write(w, v.uni());
        detail::write(w, v.chc());
        w.writeBool(d.bytes.has_value());
        if (d.bytes.has_value()) detail::write(w, BytesView(*d.bytes));
        detail::write(w, BasicBitBufferView<A>(d.ext));
        detail::write(w, d.f16);
        detail::write(w, d.f32);
        detail::write(w, d.f64);
        detail::write<ArrayType::AUTO>(w, v.strings());
        detail::writePacked<ArrayType::AUTO>(w, v.pku());
        detail::write<ArrayType::NORMAL>(w, v.plain());
        detail::writePacked<ArrayType::AUTO>(w, v.levels());
        detail::write<ArrayType::AUTO>(w, v.bufs());
        if (d.e1.isPresent()) { w.alignTo(8); detail::write(w, *d.e1); }
        if (d.e2.isPresent())
        {
            w.alignTo(8);
            w.writeBool(d.e2->has_value());
            if (d.e2->has_value()) detail::write(w, std::string_view(**d.e2));
        }
        if (d.e3.isPresent()) { w.alignTo(8); detail::writePacked<ArrayType::AUTO>(w, v.e3()); }
    }
    static V read(BitStreamReader& r, sch::Main<A>& d, UInt8 p)
    {
        V v(d, p);
        detail::read(r, d.id);
        if (v.condUsed()) { d.cond.emplace(); (void)detail::read(r, *d.cond, p); }
        else d.cond.reset();
        r.alignTo(24);
        detail::read(r, d.aligned);
        detail::read(r, d.off);
        r.alignTo(8);
        detail::read(r, d.target);
        detail::read<ArrayType::AUTO>(r, d.offs);
        detail::readWithTraits<ArrayType::ALIGNED, InnerTraits>(r, d.inners, v, d.offs.size());
        detail::readPackedWithTraits<ArrayType::AUTO, InnerTraits>(r, d.pk, v);
        detail::readPackedWithTraits<ArrayType::AUTO, DynTraits>(r, d.dyns, v);
        detail::read(r, d.sel);
        (void)detail::read(r, d.uni);
        (void)detail::read(r, d.chc, d.sel);
        if (r.readBool()) { d.bytes.emplace(); detail::read(r, *d.bytes); }
        else d.bytes.reset();
        detail::read(r, d.ext);
        detail::read(r, d.f16);
        detail::read(r, d.f32);
        detail::read(r, d.f64);
        detail::read<ArrayType::AUTO>(r, d.strings);
        detail::readPacked<ArrayType::AUTO>(r, d.pku);
        detail::readWithTraits<ArrayType::NORMAL, ChcTraits>(r, d.plain, v, v.plainLength());
        detail::readPacked<ArrayType::AUTO>(r, d.levels);
        detail::read<ArrayType::AUTO>(r, d.bufs);
        auto more = [&]() { return alignTo(8U, static_cast<BitSize>(r.getBitPosition())) < r.getBufferBitSize(); };
        if (more()) { r.alignTo(8); detail::read(r, *d.e1); d.e1.setPresent(true); }
        else d.e1.setPresent(false);
        if (more())
        {
            r.alignTo(8);
            d.e2.setPresent(true);
            if (r.readBool()) { d.e2->emplace(); detail::read(r, **d.e2); }
            else d.e2->reset();
        }
        else d.e2.setPresent(false);
        if (more()) { r.alignTo(8); d.e3.setPresent(true); detail::readPackedWithTraits<ArrayType::AUTO, InnerTraits>(r, *d.e3, v); }
        else d.e3.setPresent(false);
        return v;
    }
};
} // namespace detail
template <class A>
void View<sch::Main<A>>::InnerTraits::read(BitStreamReader& r, const OwnerType& o, sch::Inner<A>& e, size_t) { (void)detail::read(r, e, o.p()); }
template <class A>
template <class CTX>
void View<sch::Main<A>>::InnerTraits::read(CTX& ctx, BitStreamReader& r, const OwnerType& o, sch::Inner<A>& e, size_t) { detail::read(ctx, r, e, o.p()); }
template <class A>
void View<sch::Main<A>>::DynTraits::read(BitStreamReader& r, const OwnerType& o, DynInt64& e, size_t) { detail::read(r, e, o.dynBits()); }
template <class A>
void View<sch::Main<A>>::DynTraits::read(detail::DeltaContext& ctx, BitStreamReader& r, const OwnerType& o, DynInt64& e, size_t) { detail::read(ctx, r, e, o.dynBits()); }
template <class A>
void View<sch::Main<A>>::ChcTraits::read(BitStreamReader& r, const OwnerType&, sch::Chc<A>& e, size_t i) { (void)detail::read(r, e, UInt8(static_cast<uint8_t>(i + 1))); }
} // namespace zserio

namespace std
{
template <class A>
struct hash<sch::Inner<A>>
{
    size_t operator()(const sch::Inner<A>& d) const
    {
        uint32_t h = zserio::HASH_SEED;
        h = zserio::calcHashCode(h, d.vi); h = zserio::calcHashCode(h, d.dyn); h = zserio::calcHashCode(h, d.opt); h = zserio::calcHashCode(h, d.small);
        h = zserio::calcHashCode(h, d.color); h = zserio::calcHashCode(h, d.perm); h = zserio::calcHashCode(h, d.flag); h = zserio::calcHashCode(h, d.text);
        return zserio::calcHashCode(h, d.arr);
    }
};
template <class A>
struct hash<zserio::View<sch::Inner<A>>>
{
    size_t operator()(const zserio::View<sch::Inner<A>>& v) const
    {
        uint32_t h = zserio::HASH_SEED;
        h = zserio::calcHashCode(h, v.vi()); h = zserio::calcHashCode(h, v.zserioData().dyn); h = zserio::calcHashCode(h, v.opt()); h = zserio::calcHashCode(h, v.small());
        h = zserio::calcHashCode(h, v.color()); h = zserio::calcHashCode(h, v.perm()); h = zserio::calcHashCode(h, v.flag()); h = zserio::calcHashCode(h, v.text());
        return zserio::calcHashCode(h, v.arr());
    }
};
template <class A>
struct hash<sch::Uni<A>>
{
    size_t operator()(const sch::Uni<A>& d) const { return std::hash<typename sch::Uni<A>::Base>()(d); }
};
template <class A>
struct hash<sch::Chc<A>>
{
    size_t operator()(const sch::Chc<A>& d) const { return std::hash<typename sch::Chc<A>::Base>()(d); }
};
} // namespace std

// ================================================================= generators and the reference encoder
namespace sch
{
template <class W> W wrapU(pbt::Gen& g, unsigned bits) { return W(static_cast<typename W::ValueType>(g.ubits(bits))); }

template <class A>
Inner<A> genInner(pbt::Gen& g, uint8_t len, const A& a, int flavour = 0)
{
    Inner<A> d(a);
    // flavour 0: arbitrary, 1: slowly changing (packs well)
    if (flavour == 1)
    {
        d.vi = static_cast<int32_t>(g.range(-40, 40));
        d.dyn = static_cast<uint32_t>(g.below(std::min<uint64_t>(8, 1ULL << len)));
        if (g.flip()) d.opt = zserio::Int64(g.range(-3, 3) + 1000000000000LL);
        d.small = zserio::UInt5(static_cast<uint8_t>(g.below(2)));
        d.color = Color::RED;
    }
    else
    {
        d.vi = static_cast<int32_t>(g.within<int64_t>(-268435455, 268435455));
        d.dyn = static_cast<uint32_t>(g.ubits(len));
        if (g.flip()) d.opt = zserio::Int64(g.sbits(64));
        d.small = zserio::UInt5(static_cast<uint8_t>(g.ubits(5)));
        d.color = zserio::EnumTraits<Color>::values[g.below(4)];
    }
    d.perm = Perm(zserio::UInt3(static_cast<uint8_t>(g.below(8))));
    d.flag = g.flip();
    if (g.chance(1, 3)) { std::string s = g.utf8(20); d.text.assign(s.data(), s.size()); }
    size_t n = g.chance(1, 2) ? g.size(5) : 0;
    for (size_t i = 0; i < n; ++i) d.arr.emplace_back(static_cast<uint16_t>(g.ubits(15)));
    return d;
}
inline void refString(ref::Bits& o, std::string_view s) { ref::putSize(o, s.size()); o.putBytes(s); }
inline ref::Bits encSigned(int64_t v, unsigned n) { ref::Bits b; b.put(static_cast<uint64_t>(v), n); return b; }
inline ref::Bits encVarS(const ref::VarSpec& s, int64_t v) { ref::Bits b; ref::putVarS(b, s, v); return b; }
inline ref::Bits encVarU(const ref::VarSpec& s, uint64_t v) { ref::Bits b; ref::putVarU(b, s, v); return b; }

struct InnerDelta { ref::Delta vi, dyn, opt, small, color, perm, flag; };
template <class A>
void initInner(InnerDelta& c, const Inner<A>& d, unsigned len)
{
    c.vi.init(static_cast<int32_t>(d.vi), encVarS(ref::VARINT32, static_cast<int32_t>(d.vi)));
    c.dyn.init(static_cast<uint32_t>(d.dyn), encSigned(static_cast<uint32_t>(d.dyn), len));
    if (d.opt.has_value()) c.opt.init(static_cast<int64_t>(*d.opt), encSigned(static_cast<int64_t>(*d.opt), 64));
    c.small.init(static_cast<uint8_t>(d.small), encSigned(static_cast<uint8_t>(d.small), 5));
    c.color.init(static_cast<uint16_t>(d.color), encSigned(static_cast<uint16_t>(d.color), 10));
    c.perm.init(static_cast<uint8_t>(d.perm.getValue()), encSigned(static_cast<uint8_t>(d.perm.getValue()), 3));
    c.flag.init(static_cast<bool>(d.flag) ? 1 : 0, encSigned(static_cast<bool>(d.flag), 1));
}
template <class A>
void refInner(ref::Bits& o, const Inner<A>& d, unsigned len, InnerDelta* c = nullptr)
{
    if (c) c->vi.next(o); else ref::putVarS(o, ref::VARINT32, static_cast<int32_t>(d.vi));
    if (c) c->dyn.next(o); else o.put(static_cast<uint32_t>(d.dyn), len);
    o.put(d.opt.has_value(), 1);
    if (d.opt.has_value()) { if (c) c->opt.next(o); else o.put(static_cast<uint64_t>(static_cast<int64_t>(*d.opt)), 64); }
    if (c) c->small.next(o); else o.put(static_cast<uint8_t>(d.small), 5);
    if (c) c->color.next(o); else o.put(static_cast<uint16_t>(d.color), 10);
    if (c) c->perm.next(o); else o.put(static_cast<uint8_t>(d.perm.getValue()), 3);
    if (c) c->flag.next(o); else o.put(static_cast<bool>(d.flag), 1);
    refString(o, d.text);
    ref::putSize(o, d.arr.size());
    ref::Delta a;
    for (auto v : d.arr) a.init(static_cast<uint16_t>(v), encVarU(ref::VARUINT16, static_cast<uint16_t>(v)));
    for (size_t i = 0; i < d.arr.size(); ++i) a.next(o);
}
template <class A>
Uni<A> genUni(pbt::Gen& g, const A& a, int flavour = 0)
{
    Uni<A> u(a);
    using Tag = typename Uni<A>::Tag;
    switch (g.below(4))
    {
    case 0: u.template emplace<Tag::num>(flavour == 1 ? g.below(1000) + 100000 : g.ubits(64)); break;
    case 1: { std::string s = g.utf8(20); u.template emplace<Tag::text>(s.data(), s.size()); break; }
    case 2: u.template emplace<Tag::inner>(genInner<A>(g, 7, a, flavour)); break;
    default:
    {
        Vec<A, zserio::UInt12> l(a);
        size_t n = g.size(6);
        for (size_t i = 0; i < n; ++i) l.emplace_back(static_cast<uint16_t>(g.ubits(12)));
        u.template emplace<Tag::list>(std::move(l));
    }
    }
    return u;
}
struct UniDelta { ref::Delta tag, num; InnerDelta inner; };
template <class A>
void initUni(UniDelta& c, const Uni<A>& u)
{
    using Tag = typename Uni<A>::Tag;
    c.tag.init(static_cast<int>(u.index()) - 1, encVarU(ref::VARSIZE, static_cast<size_t>(u.index()) - 1));
    if (u.index() == Tag::num) c.num.init(static_cast<uint64_t>(zserio::get<Tag::num>(u)), encVarU(ref::VARUINT, zserio::get<Tag::num>(u)));
    if (u.index() == Tag::inner) initInner(c.inner, zserio::get<Tag::inner>(u), 7);
}
template <class A>
void refUni(ref::Bits& o, const Uni<A>& u, UniDelta* c = nullptr)
{
    using Tag = typename Uni<A>::Tag;
    if (c) c->tag.next(o); else ref::putSize(o, static_cast<size_t>(u.index()) - 1);
    switch (u.index())
    {
    case Tag::num: if (c) c->num.next(o); else ref::putVarU(o, ref::VARUINT, zserio::get<Tag::num>(u)); break;
    case Tag::text: refString(o, zserio::get<Tag::text>(u)); break;
    case Tag::inner: refInner(o, zserio::get<Tag::inner>(u), 7, c ? &c->inner : nullptr); break;
    case Tag::list:
        ref::putSize(o, zserio::get<Tag::list>(u).size());
        for (auto v : zserio::get<Tag::list>(u)) o.put(static_cast<uint16_t>(v), 12);
        break;
    default: break;
    }
}
template <class A>
Chc<A> genChc(pbt::Gen& g, uint8_t sel, const A& a)
{
    Chc<A> u(a);
    using Tag = typename Chc<A>::Tag;
    if (sel == 1) u.template emplace<Tag::a>(static_cast<int32_t>(g.sbits(32)));
    else if (sel == 2 || sel == 3) u.template emplace<Tag::b>(genInner<A>(g, sel, a));
    else if (sel == 5) {}
    else { std::string s = g.utf8(20); u.template emplace<Tag::c>(s.data(), s.size()); }
    return u;
}
template <class A>
void refChc(ref::Bits& o, const Chc<A>& u, uint8_t sel)
{
    using Tag = typename Chc<A>::Tag;
    switch (u.index())
    {
    case Tag::a: o.put(static_cast<uint32_t>(static_cast<int32_t>(zserio::get<Tag::a>(u))), 32); break;
    case Tag::b: refInner(o, zserio::get<Tag::b>(u), sel); break;
    case Tag::c: refString(o, zserio::get<Tag::c>(u)); break;
    default: break;
    }
}
template <class A>
Bbf<A> genBuf(pbt::Gen& g, size_t maxBits, const A& a)
{
    size_t bits = g.size(maxBits);
    Byt<A> b(a);
    b.resize((bits + 7) / 8);
    for (auto& x : b) x = static_cast<uint8_t>(g.below(256));
    if (bits % 8) b.back() = static_cast<uint8_t>(b.back() & (0xFF << (8 - bits % 8)));
    return Bbf<A>(std::move(b), bits, a);
}
template <class A>
void refBuf(ref::Bits& o, const Bbf<A>& b)
{
    ref::putSize(o, b.getBitSize());
    for (size_t i = 0; i < b.getBitSize(); ++i) o.put(static_cast<uint64_t>(ref::bitAt(b.getData().data(), i)), 1);
}
template <class A>
Main<A> genMain(pbt::Gen& g, uint8_t p, const A& a = A{})
{
    Main<A> d(a);
    d.id = static_cast<uint16_t>(g.chance(1, 2) ? g.below(10) : g.ubits(16));
    if (d.id > 9) d.cond = genInner<A>(g, p, a);
    d.aligned = zserio::UInt7(static_cast<uint8_t>(g.ubits(7)));
    d.off = static_cast<uint32_t>(g.ubits(8));
    d.target = g.ubits(64);
    size_t n = g.size(4);
    for (size_t i = 0; i < n; ++i) { d.offs.emplace_back(static_cast<uint32_t>(g.below(3))); d.inners.push_back(genInner<A>(g, p, a)); }
    int fl = g.flip();
    n = g.size(fl ? 8 : 4);
    for (size_t i = 0; i < n; ++i) d.pk.push_back(genInner<A>(g, p, a, fl));
    n = g.size(8);
    for (size_t i = 0; i < n; ++i) d.dyns.emplace_back(g.sbits(static_cast<unsigned>(p + 1)));
    d.sel = static_cast<uint8_t>(g.chance(3, 4) ? g.below(7) : g.ubits(8));
    d.uni = genUni<A>(g, a);
    // chc: Inner(sel) only for sel 2,3
    d.chc = genChc<A>(g, static_cast<uint8_t>(d.sel), a);
    if (g.flip()) { std::string s = g.bytes(12); d.bytes.emplace(); d.bytes->assign(s.begin(), s.end()); }
    d.ext = genBuf<A>(g, 40, a);
    d.f16 = g.pick<float>({0.0F, 1.0F, -0.5F, 65504.0F, 5.9604644775390625e-08F, -2.0F});
    d.f32 = g.anyFloat(false);
    d.f64 = g.anyDouble(false);
    n = g.size(4);
    for (size_t i = 0; i < n; ++i) { std::string s = g.utf8(12); d.strings.emplace_back(s.data(), s.size()); }
    fl = g.flip();
    n = g.size(fl ? 7 : 3);
    for (size_t i = 0; i < n; ++i) d.pku.push_back(genUni<A>(g, a, fl));
    n = static_cast<size_t>(d.sel % 3);
    for (size_t i = 0; i < n; ++i) d.plain.push_back(genChc<A>(g, static_cast<uint8_t>(i + 1), a));
    n = g.size(5);
    for (size_t i = 0; i < n; ++i) d.levels.push_back(zserio::EnumTraits<Level>::values[g.below(5)]);
    n = g.size(3);
    for (size_t i = 0; i < n; ++i) d.bufs.push_back(genBuf<A>(g, 20, a));
    size_t present = g.below(4);
    d.e1 = zserio::Extended<zserio::UInt32>(static_cast<uint32_t>(g.ubits(32)));
    if (present < 1) { *d.e1 = 0; d.e1.setPresent(false); }
    if (present < 2) d.e2.setPresent(false);
    else if (g.flip()) { std::string s = g.utf8(9); d.e2->emplace(s.data(), s.size()); }
    if (present < 3) d.e3.setPresent(false);
    else { n = g.size(4); for (size_t i = 0; i < n; ++i) d.e3->push_back(genInner<A>(g, p, a, 1)); }
    return d;
}
struct Layout
{
    ref::Bits bits;                    // the encoding (bit 0 = first bit of the object)
    size_t targetPos = 0;              // absolute bit positions of offset targets
    std::vector<size_t> innerPos;
};
// reference encoding at absolute bit position `start`, from the stored field values (offsets included)
template <class A>
Layout refMain(const Main<A>& d, uint8_t p, size_t start)
{
    Layout L;
    ref::Bits o;
    o.b.assign(start, 0);
    o.put(static_cast<uint16_t>(d.id), 16);
    if (d.cond.has_value()) refInner(o, *d.cond, p);
    o.align(24);
    o.put(static_cast<uint8_t>(d.aligned), 7);
    o.put(static_cast<uint32_t>(d.off), 32);
    o.align(8);
    L.targetPos = o.size();
    ref::putVarU(o, ref::VARUINT, d.target);
    ref::putSize(o, d.offs.size());
    for (auto v : d.offs) o.put(static_cast<uint32_t>(v), 32);
    for (auto& e : d.inners) { o.align(8); L.innerPos.push_back(o.size()); refInner(o, e, p); }
    ref::putSize(o, d.pk.size());
    {
        InnerDelta c;
        for (auto& e : d.pk) initInner(c, e, p);
        for (auto& e : d.pk) refInner(o, e, p, &c);
    }
    ref::putSize(o, d.dyns.size());
    {
        ref::Delta c;
        for (auto v : d.dyns) c.init(static_cast<int64_t>(v), encSigned(static_cast<int64_t>(v), static_cast<unsigned>(p + 1)));
        for (size_t i = 0; i < d.dyns.size(); ++i) c.next(o);
    }
    o.put(static_cast<uint8_t>(d.sel), 8);
    refUni(o, d.uni);
    refChc(o, d.chc, static_cast<uint8_t>(d.sel));
    o.put(d.bytes.has_value(), 1);
    if (d.bytes.has_value()) refString(o, std::string_view(reinterpret_cast<const char*>(d.bytes->data()), d.bytes->size()));
    refBuf(o, d.ext);
    o.put(ref::doubleToHalf(static_cast<float>(d.f16), std::signbit(static_cast<float>(d.f16))), 16);
    o.put(ref::f2u(d.f32), 32);
    o.put(ref::d2u(d.f64), 64);
    ref::putSize(o, d.strings.size());
    for (auto& s : d.strings) refString(o, s);
    ref::putSize(o, d.pku.size());
    {
        UniDelta c;
        for (auto& e : d.pku) initUni(c, e);
        for (auto& e : d.pku) refUni(o, e, &c);
    }
    for (size_t i = 0; i < d.plain.size(); ++i) refChc(o, d.plain[i], static_cast<uint8_t>(i + 1));
    ref::putSize(o, d.levels.size());
    {
        ref::Delta c;
        for (auto v : d.levels) c.init(static_cast<int64_t>(v), encVarS(ref::VARINT64, static_cast<int64_t>(v)));
        for (size_t i = 0; i < d.levels.size(); ++i) c.next(o);
    }
    ref::putSize(o, d.bufs.size());
    for (auto& b : d.bufs) refBuf(o, b);
    if (d.e1.isPresent()) { o.align(8); o.put(static_cast<uint32_t>(*d.e1), 32); }
    if (d.e2.isPresent())
    {
        o.align(8);
        o.put(d.e2->has_value(), 1);
        if (d.e2->has_value()) refString(o, **d.e2);
    }
    if (d.e3.isPresent())
    {
        o.align(8);
        ref::putSize(o, d.e3->size());
        InnerDelta c;
        for (auto& e : *d.e3) initInner(c, e, p);
        for (auto& e : *d.e3) refInner(o, e, p, &c);
    }
    L.bits.b.assign(o.b.begin() + static_cast<ptrdiff_t>(start), o.b.end());
    return L;
}
template <class A>
std::string descr(const Main<A>& d)
{
    std::ostringstream s;
    s << "Main{id=" << static_cast<int>(d.id) << " inners=" << d.inners.size() << " pk=" << d.pk.size() << " dyns=" << d.dyns.size() << " sel=" << static_cast<int>(d.sel)
      << " uni=" << static_cast<size_t>(d.uni.index()) << " strings=" << d.strings.size() << " pku=" << d.pku.size() << " ext=" << d.ext.getBitSize()
      << " e=" << d.e1.isPresent() << d.e2.isPresent() << d.e3.isPresent() << "}";
    return s.str();
}
} // namespace sch
