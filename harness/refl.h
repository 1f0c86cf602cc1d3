// Generic "generated-like" types with type info, reflection and introspection (same shape as the code emitted by the
// freemarker templates), a type erased object interface over them and over the repository's sample types, and an
// independent model of every object (built by direct member access, never through reflection).
#pragma once
#include <memory>
#include <optional>

#include "elems.h"
#include "pbt.h"
#include "schema.h"

#include "zserio/DebugStringUtil.h"
#include "zserio/IntrospectableView.h"
#include "zserio/JsonReader.h"
#include "zserio/JsonWriter.h"
#include "zserio/ReflectableData.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/SerializeUtil.h"
#include "zserio/TypeInfo.h"
#include "zserio/TypeInfoUtil.h"
#include "zserio/Walker.h"
#include "zserio/ZserioTreeCreator.h"

namespace rf
{
// ------------------------------------------------------------------------------------------------ model
struct Node
{
    enum K { ABSENT, BOOL, INT, UINT, FLT, STR, BYTES, BITS, ENUM, MASK, STRUCT, VARIANT, ARRAY };
    K k = ABSENT;
    std::string type;       // schema name for enums, bitmasks and compounds
    bool sgn = false;       // enum/mask: signed underlying type
    int width = 0;          // bytes of the C++ value type (integral types and underlying types), 4/8 for floats
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;          // string text, raw bytes
    size_t bits = 0;
    std::string text;       // enum item name or bitmask textual form
    std::vector<std::pair<std::string, Node>> fields;  // STRUCT: all declared; VARIANT: declared, only the active one not ABSENT
    std::string choice;     // VARIANT
    std::vector<Node> elems;
    std::vector<std::pair<std::string, Node>> params, funcs;
    std::vector<std::string> elemTypes;

    bool isValue() const { return k != STRUCT && k != VARIANT && k != ARRAY && k != ABSENT; }
    const Node* field(const std::string& n) const
    {
        for (const auto& f : fields) if (f.first == n) return &f.second;
        return nullptr;
    }
};
inline bool sameDouble(double a, double b)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return std::memcmp(&a, &b, sizeof a) == 0;
}
inline bool operator==(const Node& a, const Node& b)
{
    if (a.k != b.k || a.type != b.type || a.i != b.i || a.u != b.u || !sameDouble(a.d, b.d) || a.s != b.s || a.bits != b.bits || a.text != b.text ||
            a.choice != b.choice || a.fields.size() != b.fields.size() || a.elems.size() != b.elems.size())
        return false;
    for (size_t i = 0; i < a.fields.size(); ++i)
        if (a.fields[i].first != b.fields[i].first || !(a.fields[i].second == b.fields[i].second)) return false;
    for (size_t i = 0; i < a.elems.size(); ++i) if (!(a.elems[i] == b.elems[i])) return false;
    return true;
}
inline std::string show(const Node& n, int depth = 0)
{
    switch (n.k)
    {
    case Node::ABSENT: return "-";
    case Node::BOOL: return n.u ? "true" : "false";
    case Node::INT: return std::to_string(n.i);
    case Node::UINT: return std::to_string(n.u) + "u";
    case Node::FLT: return pbt::show(n.d);
    case Node::STR: return pbt::show(n.s);
    case Node::BYTES: return "bytes:" + pbt::hex(n.s.data(), n.s.size());
    case Node::BITS: return "bits" + std::to_string(n.bits) + ":" + pbt::hex(n.s.data(), n.s.size());
    case Node::ENUM: return "enum:" + n.text + "=" + (n.sgn ? std::to_string(n.i) : std::to_string(n.u));
    case Node::MASK: return "mask:" + n.text;
    case Node::STRUCT:
    case Node::VARIANT:
    {
        std::string r = n.k == Node::VARIANT ? "<" + n.choice + ">{" : "{";
        if (depth > 6) return "{...}";
        for (const auto& f : n.fields) if (n.k == Node::STRUCT || f.second.k != Node::ABSENT) r += f.first + ":" + show(f.second, depth + 1) + ",";
        return r + "}";
    }
    default:
    {
        std::string r = "[";
        for (size_t i = 0; i < n.elems.size() && i < 12; ++i) r += show(n.elems[i], depth + 1) + ",";
        return r + (n.elems.size() > 12 ? "..." : "") + "]";
    }
    }
}

// ------------------------------------------------------------------------------------------------ enums
#define RF_ENUM(NAME, ZT, COUNT, NAMES, VALUES, ...) \
    namespace rf { enum class NAME : zserio::ZT::ValueType { __VA_ARGS__ }; } \
    namespace zserio { \
    template <> struct EnumTraits<rf::NAME> \
    { \
        static constexpr std::array<std::string_view, COUNT> names = {{RF_UNPACK NAMES}}; \
        static constexpr std::array<rf::NAME, COUNT> values = {{RF_UNPACK VALUES}}; \
        static constexpr std::string_view enumName = #NAME; \
        using ZserioType = zserio::ZT; \
    }; \
    template <> inline size_t enumToOrdinal<rf::NAME>(rf::NAME v) \
    { \
        for (size_t i = 0; i < COUNT; ++i) if (EnumTraits<rf::NAME>::values[i] == v) return i; \
        throw CppRuntimeException("Unknown value for enumeration " #NAME ": ") << static_cast<zserio::ZT::ValueType>(v) << "!"; \
    } \
    template <> inline rf::NAME valueToEnum<rf::NAME>(zserio::ZT raw) \
    { \
        for (auto v : EnumTraits<rf::NAME>::values) if (static_cast<zserio::ZT::ValueType>(v) == static_cast<zserio::ZT::ValueType>(raw)) return v; \
        throw CppRuntimeException("Unknown value for enumeration " #NAME ": ") << raw << "!"; \
    } \
    }
#define RF_UNPACK(...) __VA_ARGS__
} // namespace rf

RF_ENUM(ES8, Int8, 4, ("NEG", "ZERO", "_one", "MAX"), (rf::ES8::NEG, rf::ES8::ZERO, rf::ES8::_one, rf::ES8::MAX), NEG = -128, ZERO = 0, _one = 1, MAX = 127)
RF_ENUM(EU8, UInt3, 3, ("A", "B", "C"), (rf::EU8::A, rf::EU8::B, rf::EU8::C), A = 7, B = 0, C = 3)
RF_ENUM(ES16, Int9, 3, ("LO", "MID", "HI"), (rf::ES16::LO, rf::ES16::MID, rf::ES16::HI), LO = -256, MID = -1, HI = 255)
RF_ENUM(EU16, UInt16, 3, ("NONE", "SOME", "ALL"), (rf::EU16::NONE, rf::EU16::SOME, rf::EU16::ALL), NONE = 0, SOME = 256, ALL = 65535)
RF_ENUM(ES32, VarInt32, 3, ("N", "Z", "P"), (rf::ES32::N, rf::ES32::Z, rf::ES32::P), N = -268435455, Z = 0, P = 268435455)
RF_ENUM(EU32, UInt32, 3, ("FIRST", "SECOND", "LAST"), (rf::EU32::FIRST, rf::EU32::SECOND, rf::EU32::LAST), FIRST = 1, SECOND = 2147483648u, LAST = 4294967295u)
RF_ENUM(ES64, Int64, 4, ("MIN", "M1", "BIG", "MAX"), (rf::ES64::MIN, rf::ES64::M1, rf::ES64::BIG, rf::ES64::MAX), MIN = INT64_MIN, M1 = -1, BIG = 9007199254740993LL, MAX = INT64_MAX)
RF_ENUM(EU64, VarUInt, 4, ("ZERO", "MID", "TOP", "MAX"), (rf::EU64::ZERO, rf::EU64::MID, rf::EU64::TOP, rf::EU64::MAX), ZERO = 0, MID = 9007199254740993ULL, TOP = 9223372036854775808ULL, MAX = UINT64_MAX)

// ------------------------------------------------------------------------------------------------ bitmasks
namespace rf
{
struct MaskItem { const char* name; uint64_t value; };
#define RF_MASK(NAME, ZT, ...) \
    class NAME \
    { \
    public: \
        using ZserioType = zserio::ZT; \
        enum class Values : ZserioType::ValueType { DUMMY_ = 1 }; \
        static constexpr const char* maskName = #NAME; \
        static const std::vector<MaskItem>& items() { static const std::vector<MaskItem> v = {__VA_ARGS__}; return v; } \
        constexpr NAME() noexcept : m_value(0) {} \
        constexpr NAME(Values v) noexcept : m_value(static_cast<ZserioType::ValueType>(v)) {} \
        constexpr explicit NAME(ZserioType v) noexcept : m_value(v) {} \
        constexpr explicit operator ZserioType() const { return m_value; } \
        constexpr ZserioType getValue() const { return m_value; } \
        std::string text() const \
        { \
            std::string r; \
            for (const auto& it : items()) \
                if (it.value != 0 ? (m_value & it.value) == it.value : m_value == 0) { if (!r.empty()) r += " | "; r += it.name; } \
            return std::to_string(static_cast<uint64_t>(m_value)) + "[" + r + "]"; \
        } \
        template <class CA> zserio::BasicString<CA> toString(const CA& a) const { std::string t = text(); return zserio::BasicString<CA>(t.data(), t.size(), a); } \
    private: \
        ZserioType m_value; \
    }; \
    inline bool operator==(const NAME& a, const NAME& b) { return a.getValue() == b.getValue(); } \
    inline bool operator!=(const NAME& a, const NAME& b) { return a.getValue() != b.getValue(); } \
    inline bool operator<(const NAME& a, const NAME& b) { return a.getValue() < b.getValue(); } \
    inline bool operator>(const NAME& a, const NAME& b) { return b < a; }

RF_MASK(M8, UInt3, {"R", 1}, {"W", 2}, {"RW", 3}, {"X", 4})
RF_MASK(M16, UInt16, {"NONE", 0}, {"LOW", 1}, {"_mid9", 256}, {"HIGH", 32768})
RF_MASK(M32, VarUInt32, {"A", 1}, {"AB", 2}, {"ABC", 4}, {"TOP", 268435456})
RF_MASK(M64, UInt64, {"CREATE", 1}, {"READ", 2}, {"WRITE", 4}, {"TOP", 9223372036854775808ull})

template <class T> using Underlying = typename std::conditional_t<std::is_enum_v<T>, zserio::EnumTraits<T>, T>::ZserioType;
template <class T>
auto rawOf(T v)
{
    if constexpr (std::is_enum_v<T>) return static_cast<std::underlying_type_t<T>>(v);
    else return static_cast<typename T::ZserioType::ValueType>(v.getValue());
}
template <class T> constexpr bool isItem = std::is_enum_v<T> || zserio::is_bitmask_v<T>;

// ------------------------------------------------------------------------------------------------ compounds
template <class A, class T> struct Rich;
template <class A, class T> struct RUni;
template <class A, class T> struct RChc;
template <class A> struct Tree;
} // namespace rf
namespace zserio::detail
{
template <class A, class T> struct ChoiceTag<rf::RUni<A, T>> { enum Tag : size_t { ZSERIO_UNDEFINED, v, a, s }; };
template <class A, class T> struct ChoiceTag<rf::RChc<A, T>> { enum Tag : size_t { ZSERIO_UNDEFINED, v, a, s }; };
} // namespace zserio::detail
namespace rf
{
using zserio::RebindAlloc;
template <class A> using Str = zserio::BasicString<RebindAlloc<A, char>>;
template <class A, class T> using Vec = zserio::Vector<T, RebindAlloc<A, T>>;
template <class A, class T> using Opt = zserio::BasicOptional<A, T>;
template <class A> using Byt = zserio::BasicBytes<A>;
template <class A> using Bbf = zserio::BasicBitBuffer<A>;

template <class T, class A> T makeWith(const A& a)
{
    if constexpr (std::uses_allocator_v<T, A>) return T(typename T::allocator_type(a));
    else return T();
}
template <class T, class A> T moveWith(T&& o, const A& a)
{
    if constexpr (std::uses_allocator_v<T, A>) return T(std::move(o), typename T::allocator_type(a));
    else return o;
}
template <class T, class A> T copyWith(const T& o, const A& a)
{
    if constexpr (std::uses_allocator_v<T, A>) return T(o, typename T::allocator_type(a));
    else return o;
}

#define RF_REL(HEAD, T) \
    HEAD bool operator!=(const T& a, const T& b) { return !(a == b); } \
    HEAD bool operator>(const T& a, const T& b) { return b < a; } \
    HEAD bool operator<=(const T& a, const T& b) { return !(b < a); } \
    HEAD bool operator>=(const T& a, const T& b) { return !(a < b); }
#define RF_COMMA ,

template <class A, class T>
struct Rich
{
    using allocator_type = A;
    Rich() : Rich(A{}) {}
    explicit Rich(const A& al) : v(makeWith<T>(al)), o(al), a(al), oa(al) {}
    Rich(Rich&&) = default;
    Rich(const Rich&) = default;
    Rich(Rich&& x, const A& al) : v(moveWith<T>(std::move(x.v), al)), o(std::move(x.o), al), a(std::move(x.a), al), oa(std::move(x.oa), al), n(x.n) {}
    Rich(const Rich& x, const A& al) : v(copyWith<T>(x.v, al)), o(x.o, al), a(x.a, al), oa(x.oa, al), n(x.n) {}
    Rich& operator=(Rich&&) = default;
    Rich& operator=(const Rich&) = default;
    T v;
    Opt<A, T> o;
    Vec<A, T> a;
    Opt<A, Vec<A, T>> oa;
    zserio::VarInt32 n;
    auto tie() const { return std::tie(v, o, a, oa, n); }
};
template <class A, class T> bool operator==(const Rich<A, T>& x, const Rich<A, T>& y) { return x.tie() == y.tie(); }
template <class A, class T> bool operator<(const Rich<A, T>& x, const Rich<A, T>& y) { return x.tie() < y.tie(); }
RF_REL(template <class A RF_COMMA class T>, Rich<A RF_COMMA T>)

template <class A, class T>
struct RUni : zserio::BasicVariant<A, typename zserio::detail::ChoiceTag<RUni<A, T>>::Tag, std::monostate, T, Vec<A, T>, Str<A>>
{
    using allocator_type = A;
    using Tag = typename zserio::detail::ChoiceTag<RUni<A, T>>::Tag;
    using Base = zserio::BasicVariant<A, Tag, std::monostate, T, Vec<A, T>, Str<A>>;
    using Base::Base;
};
template <class A, class T>
struct RChc : zserio::BasicVariant<A, typename zserio::detail::ChoiceTag<RChc<A, T>>::Tag, std::monostate, T, Vec<A, T>, Str<A>>
{
    using allocator_type = A;
    using Tag = typename zserio::detail::ChoiceTag<RChc<A, T>>::Tag;
    using Base = zserio::BasicVariant<A, Tag, std::monostate, T, Vec<A, T>, Str<A>>;
    using Base::Base;
};
template <class A>
struct Tree
{
    using allocator_type = A;
    using IS_RECURSIVE = void;
    Tree() : Tree(A{}) {}
    explicit Tree(const A& al) : name(al), left(al), kids(al) {}
    Tree(Tree&&) = default;
    Tree(const Tree&) = default;
    Tree(Tree&& x, const A& al) : id(x.id), name(std::move(x.name), al), left(std::move(x.left), al), kids(std::move(x.kids), al) {}
    Tree(const Tree& x, const A& al) : id(x.id), name(x.name, al), left(x.left, al), kids(x.kids, al) {}
    Tree& operator=(Tree&&) = default;
    Tree& operator=(const Tree&) = default;
    zserio::UInt16 id;
    Str<A> name;
    Opt<A, Tree> left;
    Vec<A, Tree> kids;
};
template <class A> bool operator==(const Tree<A>& x, const Tree<A>& y) { return x.id == y.id && x.name == y.name && x.left == y.left && x.kids == y.kids; }
template <class A> bool operator<(const Tree<A>& x, const Tree<A>& y) { return std::tie(x.id, x.name, x.left, x.kids) < std::tie(y.id, y.name, y.left, y.kids); }
RF_REL(template <class A>, Tree<A>)

template <class T> struct IsCompound : std::false_type {};
template <class A, class T> struct IsCompound<Rich<A, T>> : std::true_type {};
template <class A, class T> struct IsCompound<RUni<A, T>> : std::true_type {};
template <class A, class T> struct IsCompound<RChc<A, T>> : std::true_type {};
template <class A> struct IsCompound<Tree<A>> : std::true_type {};
template <class T> struct IsDyn : std::false_type {};
template <class T> struct IsDyn<zserio::detail::DynIntWrapper<T>> : std::true_type {};
template <class T> struct IsBits : std::false_type {};
template <class A> struct IsBits<zserio::BasicBitBuffer<A>> : std::true_type {};
template <class T> struct IsStr : std::false_type {};
template <class A> struct IsStr<zserio::BasicString<A>> : std::true_type {};
template <class T> struct IsByt : std::false_type {};
template <class A> struct IsByt<std::vector<uint8_t, A>> : std::true_type {};

template <class T> uint8_t dynBits(zserio::UInt8 par) { return static_cast<uint8_t>(1 + static_cast<uint8_t>(par) % (sizeof(typename T::ValueType) * 8)); }
template <class T> struct ViewOf { using type = T; };
template <class T> struct ViewOf<zserio::detail::DynIntWrapper<T>> { using type = zserio::View<zserio::detail::DynIntWrapper<T>>; };
template <class A> struct ViewOf<zserio::BasicBitBuffer<A>> { using type = zserio::BasicBitBufferView<A>; };
template <class A> struct ViewOf<zserio::BasicString<A>> { using type = std::string_view; };
template <class A> struct ViewOf<std::vector<uint8_t, A>> { using type = zserio::BytesView; };
template <class A, class T> struct ViewOf<Rich<A, T>> { using type = zserio::View<Rich<A, T>>; };
template <class A, class T> struct ViewOf<RUni<A, T>> { using type = zserio::View<RUni<A, T>>; };
template <class A, class T> struct ViewOf<RChc<A, T>> { using type = zserio::View<RChc<A, T>>; };
template <class A> struct ViewOf<Tree<A>> { using type = zserio::View<Tree<A>>; };
template <class T> using VT = typename ViewOf<T>::type;
template <class T>
VT<T> mkView(const T& d, zserio::UInt8 par)
{
    if constexpr (IsDyn<T>::value) return VT<T>(d, dynBits<T>(par));
    else if constexpr (IsCompound<T>::value) return VT<T>(d, par);
    else { (void)par; return VT<T>(d); }
}
template <class OWNER, class T>
struct ElemTraits
{
    using OwnerType = OWNER;
    static VT<T> at(const OWNER& o, const T& e, size_t) { return mkView(e, o.par()); }
};
template <class OWNER, class T>
using ArrOf = std::conditional_t<IsDyn<T>::value || IsCompound<T>::value, zserio::ArrayView<const T, ElemTraits<OWNER, T>>, zserio::ArrayView<const T>>;
template <class OWNER, class T, class V>
ArrOf<OWNER, T> mkArr(const V& v, const OWNER& o)
{
    if constexpr (IsDyn<T>::value || IsCompound<T>::value) return ArrOf<OWNER, T>(v, o);
    else { (void)o; return ArrOf<OWNER, T>(v); }
}
} // namespace rf

// ================================================================================================ views
namespace zserio
{
template <class A, class T>
class View<rf::Rich<A, T>>
{
public:
    using VTy = rf::VT<T>;
    using Arr = rf::ArrOf<View, T>;
    explicit View(const rf::Rich<A, T>& d, UInt8 par) noexcept : m_data(&d), m_par(par) {}
    UInt8 par() const { return m_par; }
    VTy v() const { return rf::mkView(m_data->v, m_par); }
    Optional<VTy> o() const { return m_data->o.has_value() ? Optional<VTy>(std::in_place, rf::mkView(*m_data->o, m_par)) : Optional<VTy>(); }
    Arr a() const { return rf::mkArr<View, T>(m_data->a, *this); }
    Optional<Arr> oa() const { return m_data->oa.has_value() ? Optional<Arr>(std::in_place, rf::mkArr<View, T>(*m_data->oa, *this)) : Optional<Arr>(); }
    VarInt32 n() const { return m_data->n; }
    UInt32 len() const { return static_cast<uint32_t>(m_data->a.size()); }
    VTy first() const
    {
        if (m_data->a.empty()) throw CppRuntimeException("first: empty array!");
        return rf::mkView(m_data->a[0], m_par);
    }
    const rf::Rich<A, T>& zserioData() const { return *m_data; }
protected:
    View(const rf::Rich<A, T>& d, const View& o) noexcept : m_data(&d), m_par(o.m_par) {}
private:
    const rf::Rich<A, T>* m_data;
    UInt8 m_par;
};
template <class A, class T>
bool operator==(const View<rf::Rich<A, T>>& l, const View<rf::Rich<A, T>>& r) { return l.par() == r.par() && l.zserioData() == r.zserioData(); }

#define RF_VARIANT_VIEW(C) \
    template <class A, class T> \
    class View<rf::C<A, T>> \
    { \
    public: \
        using Tag = typename rf::C<A, T>::Tag; \
        using VTy = rf::VT<T>; \
        using Arr = rf::ArrOf<View, T>; \
        explicit View(const rf::C<A, T>& d, UInt8 par) noexcept : m_data(&d), m_par(par) {} \
        UInt8 par() const { return m_par; } \
        VTy v() const { return rf::mkView(zserio::get<Tag::v>(*m_data), m_par); } \
        Arr a() const { return rf::mkArr<View, T>(zserio::get<Tag::a>(*m_data), *this); } \
        std::string_view s() const { return zserio::get<Tag::s>(*m_data); } \
        Tag zserioChoiceTag() const { return m_data->index(); } \
        const rf::C<A, T>& zserioData() const { return *m_data; } \
    protected: \
        View(const rf::C<A, T>& d, const View& o) noexcept : m_data(&d), m_par(o.m_par) {} \
    private: \
        const rf::C<A, T>* m_data; \
        UInt8 m_par; \
    };
RF_VARIANT_VIEW(RUni)
RF_VARIANT_VIEW(RChc)

template <class A>
class View<rf::Tree<A>>
{
public:
    using Arr = ArrayView<const rf::Tree<A>, rf::ElemTraits<View, rf::Tree<A>>>;
    explicit View(const rf::Tree<A>& d, UInt8 par) noexcept : m_data(&d), m_par(par) {}
    UInt8 par() const { return m_par; }
    UInt16 id() const { return m_data->id; }
    std::string_view name() const { return m_data->name; }
    Optional<View> left() const { return m_data->left.has_value() ? Optional<View>(std::in_place, View(*m_data->left, m_par)) : Optional<View>(); }
    Arr kids() const { return Arr(m_data->kids, *this); }
    const rf::Tree<A>& zserioData() const { return *m_data; }
protected:
    View(const rf::Tree<A>& d, const View& o) noexcept : m_data(&d), m_par(o.m_par) {}
private:
    const rf::Tree<A>* m_data;
    UInt8 m_par;
};

namespace detail
{
template <class A, class T>
struct ObjectTraits<rf::Rich<A, T>>
{
    using Parameters = std::tuple<UInt8>;
    using V = View<rf::Rich<A, T>>;
    static void validate(const V&, std::string_view) {}
    static BitSize bitSizeOf(const V& v, BitSize pos)
    {
        BitSize end = pos;
        end += detail::bitSizeOf(v.v(), end);
        end += 1;
        if (v.o().has_value()) end += detail::bitSizeOf(*v.o(), end);
        end += detail::bitSizeOf<ArrayType::AUTO>(v.a(), end);
        end += 1;
        if (v.oa().has_value()) end += detail::bitSizeOf<ArrayType::AUTO>(*v.oa(), end);
        end += detail::bitSizeOf(v.n(), end);
        return end - pos;
    }
    static void write(BitStreamWriter& w, const V& v)
    {
        detail::write(w, v.v());
        w.writeBool(v.o().has_value());
        if (v.o().has_value()) detail::write(w, *v.o());
        detail::write<ArrayType::AUTO>(w, v.a());
        w.writeBool(v.oa().has_value());
        if (v.oa().has_value()) detail::write<ArrayType::AUTO>(w, *v.oa());
        detail::write(w, v.n());
    }
};
template <class C, class A>
struct RfVariantTraits
{
    using Parameters = std::tuple<UInt8>;
    using V = View<C>;
    using Tag = typename C::Tag;
    static constexpr bool isUnion = false;
    static void validate(const V&, std::string_view) {}
    static BitSize bitSizeOf(const V& v, BitSize pos)
    {
        switch (v.zserioChoiceTag())
        {
        case Tag::v: return detail::bitSizeOf(v.v(), pos);
        case Tag::a: return detail::bitSizeOf<ArrayType::AUTO>(v.a(), pos);
        case Tag::s: return detail::bitSizeOf(v.s(), pos);
        default: return 0;
        }
    }
    static void write(BitStreamWriter& w, const V& v)
    {
        switch (v.zserioChoiceTag())
        {
        case Tag::v: detail::write(w, v.v()); break;
        case Tag::a: detail::write<ArrayType::AUTO>(w, v.a()); break;
        case Tag::s: detail::write(w, v.s()); break;
        default: break;
        }
    }
};
template <class A, class T> struct ObjectTraits<rf::RUni<A, T>> : RfVariantTraits<rf::RUni<A, T>, A> {};
template <class A, class T> struct ObjectTraits<rf::RChc<A, T>> : RfVariantTraits<rf::RChc<A, T>, A> {};
template <class A>
struct ObjectTraits<rf::Tree<A>>
{
    using Parameters = std::tuple<UInt8>;
    using V = View<rf::Tree<A>>;
    static void validate(const V&, std::string_view) {}
    static BitSize bitSizeOf(const V& v, BitSize pos)
    {
        BitSize end = pos;
        end += detail::bitSizeOf(v.id(), end);
        end += detail::bitSizeOf(v.name(), end);
        end += 1;
        if (v.left().has_value()) end += detail::bitSizeOf(*v.left(), end);
        end += detail::bitSizeOf<ArrayType::AUTO>(v.kids(), end);
        return end - pos;
    }
    static void write(BitStreamWriter& w, const V& v)
    {
        detail::write(w, v.id());
        detail::write(w, v.name());
        w.writeBool(v.left().has_value());
        if (v.left().has_value()) detail::write(w, *v.left());
        detail::write<ArrayType::AUTO>(w, v.kids());
    }
};

// ================================================================================================ type info
template <class A>
BasicFieldInfo<A> rfField(std::string_view name, const IBasicTypeInfo<A>& ti, bool optional, bool array)
{
    return BasicFieldInfo<A>{name, ti, {}, false, {}, {}, {}, optional, {}, {}, array, {}, false, false};
}
template <class A, class OBJ>
IBasicReflectableDataPtr<A> rfCreate(const A& a) { return std::allocate_shared<ReflectableDataOwner<OBJ>>(a); }

template <class T, class A>
std::string rfName()
{
    if constexpr (std::is_enum_v<T>) return "rf." + std::string(EnumTraits<T>::enumName);
    else if constexpr (rf::isItem<T>) return std::string("rf.") + T::maskName;
    else if constexpr (rf::IsCompound<T>::value) return std::string(typeInfo<T, A>().getSchemaName());
    else return std::string(typeInfo<T, A>().getSchemaName());
}

template <class T, class A, class = void> struct RfEnumInfo;
template <class A, class T>
struct RfItemsInfo
{
    static const IBasicTypeInfo<A>& get()
    {
        static const std::string name = rfName<T, A>();
        if constexpr (std::is_enum_v<T>)
        {
            static const std::vector<ItemInfo> items = [] {
                std::vector<ItemInfo> r;
                for (size_t i = 0; i < EnumTraits<T>::names.size(); ++i)
                    r.emplace_back(EnumTraits<T>::names[i], static_cast<uint64_t>(rf::rawOf(EnumTraits<T>::values[i])), false, false);
                return r;
            }();
            static const EnumTypeInfo<A> ti = {name, typeInfo<rf::Underlying<T>, A>(), items};
            return ti;
        }
        else
        {
            static const std::vector<ItemInfo> items = [] {
                std::vector<ItemInfo> r;
                for (const auto& it : T::items()) r.emplace_back(it.name, it.value, false, false);
                return r;
            }();
            static const BitmaskTypeInfo<A> ti = {name, typeInfo<rf::Underlying<T>, A>(), items};
            return ti;
        }
    }
};
#define RF_ITEMS(T) template <class A> struct TypeInfo<rf::T, A> : RfItemsInfo<A, rf::T> {};
#define RF_ALL_ITEMS(X) X(ES8) X(EU8) X(ES16) X(EU16) X(ES32) X(EU32) X(ES64) X(EU64) X(M8) X(M16) X(M32) X(M64)
RF_ALL_ITEMS(RF_ITEMS)

template <class A, class T>
struct TypeInfo<rf::Rich<A, T>, A>
{
    static const IBasicTypeInfo<A>& get()
    {
        static const std::string name = "rf.Rich_" + rfName<T, A>();
        static const std::array<BasicFieldInfo<A>, 5> fields = {
                rfField<A>("v", typeInfo<T, A>(), false, false), rfField<A>("o", typeInfo<T, A>(), true, false),
                rfField<A>("a", typeInfo<T, A>(), false, true), rfField<A>("oa", typeInfo<T, A>(), true, true),
                rfField<A>("n", typeInfo<VarInt32, A>(), false, false)};
        static const std::array<BasicParameterInfo<A>, 1> params = {BasicParameterInfo<A>{"par", typeInfo<UInt8, A>()}};
        static const std::array<BasicFunctionInfo<A>, 2> funcs = {
                BasicFunctionInfo<A>{"len", typeInfo<UInt32, A>(), "lengthof(a)"}, BasicFunctionInfo<A>{"first", typeInfo<T, A>(), "a[0]"}};
        static const StructTypeInfo<A> ti = {name, rfCreate<A, rf::Rich<A, T>>, {}, {}, fields, params, funcs};
        return ti;
    }
};
template <class A, class T, class C>
const std::array<BasicFieldInfo<A>, 3>& rfVariantFields()
{
    static const std::array<BasicFieldInfo<A>, 3> fields = {rfField<A>("v", typeInfo<T, A>(), false, false), rfField<A>("a", typeInfo<T, A>(), false, true),
            rfField<A>("s", typeInfo<BasicString<RebindAlloc<A, char>>, A>(), false, false)};
    return fields;
}
template <class A>
const std::array<BasicParameterInfo<A>, 1>& rfPar()
{
    static const std::array<BasicParameterInfo<A>, 1> params = {BasicParameterInfo<A>{"par", typeInfo<UInt8, A>()}};
    return params;
}
template <class A, class T>
struct TypeInfo<rf::RUni<A, T>, A>
{
    static const IBasicTypeInfo<A>& get()
    {
        static const std::string name = "rf.RUni_" + rfName<T, A>();
        static const UnionTypeInfo<A> ti = {name, rfCreate<A, rf::RUni<A, T>>, {}, {}, rfVariantFields<A, T, rf::RUni<A, T>>(), rfPar<A>(), {}};
        return ti;
    }
};
template <class A, class T>
struct TypeInfo<rf::RChc<A, T>, A>
{
    static const IBasicTypeInfo<A>& get()
    {
        static const std::string name = "rf.RChc_" + rfName<T, A>();
        static const auto& fields = rfVariantFields<A, T, rf::RChc<A, T>>();
        static const std::array<std::string_view, 1> c1 = {"1"};
        static const std::array<std::string_view, 2> c2 = {"2", "4"};
        static const std::array<std::string_view, 1> c3 = {"3"};
        static const std::array<BasicCaseInfo<A>, 4> cases = {
                BasicCaseInfo<A>{c1, &fields[0]}, BasicCaseInfo<A>{c2, &fields[1]}, BasicCaseInfo<A>{c3, nullptr}, BasicCaseInfo<A>{{}, &fields[2]}};
        static const ChoiceTypeInfo<A> ti = {name, rfCreate<A, rf::RChc<A, T>>, {}, {}, fields, rfPar<A>(), {}, "par()", cases};
        return ti;
    }
};
template <class A>
struct TypeInfo<rf::Tree<A>, A>
{
    static const IBasicTypeInfo<A>& get()
    {
        static const RecursiveTypeInfo<A> recursive(&TypeInfo<rf::Tree<A>, A>::get);
        static const std::array<BasicFieldInfo<A>, 4> fields = {rfField<A>("id", typeInfo<UInt16, A>(), false, false),
                rfField<A>("name", typeInfo<BasicString<RebindAlloc<A, char>>, A>(), false, false), rfField<A>("left", recursive, true, false),
                rfField<A>("kids", recursive, false, true)};
        static const StructTypeInfo<A> ti = {"rf.Tree", rfCreate<A, rf::Tree<A>>, {}, {}, fields, rfPar<A>(), {}};
        return ti;
    }
};

// ================================================================================================ reflectables: enums and bitmasks
template <class BASE, class VT, bool SGN> struct RfRaw;
#define RF_RAW(VT, GET, SGN, TO, TOT) \
    template <class BASE> struct RfRaw<BASE, VT, SGN> : BASE \
    { \
        using BASE::BASE; \
        VT GET() const override { return this->raw(); } \
        TOT TO() const override { return this->raw(); } \
    };
RF_RAW(int8_t, getInt8, true, toInt, int64_t)
RF_RAW(int16_t, getInt16, true, toInt, int64_t)
RF_RAW(int32_t, getInt32, true, toInt, int64_t)
RF_RAW(int64_t, getInt64, true, toInt, int64_t)
RF_RAW(uint8_t, getUInt8, false, toUInt, uint64_t)
RF_RAW(uint16_t, getUInt16, false, toUInt, uint64_t)
RF_RAW(uint32_t, getUInt32, false, toUInt, uint64_t)
RF_RAW(uint64_t, getUInt64, false, toUInt, uint64_t)

template <class A, class T>
BasicString<RebindAlloc<A, char>> rfItemString(T v, const A& a)
{
    if constexpr (std::is_enum_v<T>) return BasicString<RebindAlloc<A, char>>(enumToString(v), RebindAlloc<A, char>(a));
    else return v.toString(RebindAlloc<A, char>(a));
}
template <class A, class T>
struct RfItemRefl : ReflectableDataBase<A>
{
    using ReflectableDataBase<A>::getAnyValue;
    explicit RfItemRefl(T v) : ReflectableDataBase<A>(typeInfo<T, A>()), m_v(v) {}
    auto raw() const { return rf::rawOf(m_v); }
    BasicAny<A> getAnyValue(const A& a) const override { return BasicAny<A>(m_v, a); }
    BasicAny<A> getAnyValue(const A& a) override { return BasicAny<A>(m_v, a); }
    double toDouble() const override { return static_cast<double>(rf::rawOf(m_v)); }
    BasicString<RebindAlloc<A, char>> toString(const A& a) const override { return rfItemString<A>(m_v, a); }
    T m_v;
};
template <class A, class T>
struct RfItemIntr : IntrospectableViewBase<T, A>
{
    explicit RfItemIntr(T v) : IntrospectableViewBase<T, A>(typeInfo<T, A>(), v) {}
    auto raw() const { return rf::rawOf(this->getValue()); }
    double toDouble() const override { return static_cast<double>(raw()); }
    BasicString<RebindAlloc<A, char>> toString(const A& a) const override { return rfItemString<A>(this->getValue(), a); }
};
template <class A, class T>
struct RfItemReflFactory
{
    using VTy = typename rf::Underlying<T>::ValueType;
    static IBasicReflectableDataPtr<A> create(T v, const A& a) { return std::allocate_shared<RfRaw<RfItemRefl<A, T>, VTy, std::is_signed_v<VTy>>>(a, v); }
};
template <class A, class T>
struct RfItemIntrFactory
{
    using VTy = typename rf::Underlying<T>::ValueType;
    static IBasicIntrospectableViewConstPtr<A> create(T v, const A& a) { return std::allocate_shared<RfRaw<RfItemIntr<A, T>, VTy, std::is_signed_v<VTy>>>(a, v); }
};
#define RF_ITEM_REFL(T) \
    template <class A> struct Reflectable<rf::T, A> : RfItemReflFactory<A, rf::T> {}; \
    template <class A> struct Introspectable<rf::T, A> : RfItemIntrFactory<A, rf::T> {};
RF_ALL_ITEMS(RF_ITEM_REFL)

// ================================================================================================ reflectables: compounds
template <class A, class T> struct RfGetRich
{
    template <class OBJ, class RET>
    static RET get(OBJ& m, std::string_view name, const A& a)
    {
        if (name == "v") return reflectable(m.v, a);
        if (name == "o") { if (!m.o.has_value()) return nullptr; return reflectable(*m.o, a); }
        if (name == "a") return reflectableArray(m.a, a);
        if (name == "oa") { if (!m.oa.has_value()) return nullptr; return reflectableArray(*m.oa, a); }
        if (name == "n") return reflectable(m.n, a);
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'Rich'!";
    }
};
template <class A> struct RfGetTree
{
    template <class OBJ, class RET>
    static RET get(OBJ& m, std::string_view name, const A& a)
    {
        if (name == "id") return reflectable(m.id, a);
        if (name == "name") return reflectable(m.name, a);
        if (name == "left") { if (!m.left.has_value()) return nullptr; return reflectable(*m.left, a); }
        if (name == "kids") return reflectableArray(m.kids, a);
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'Tree'!";
    }
};
template <class A, class C> struct RfGetVariant
{
    using Tag = typename C::Tag;
    template <class OBJ, class RET>
    static RET get(OBJ& m, std::string_view name, const A& a)
    {
        if (name == "v") return reflectable(zserio::get<Tag::v>(m), a);
        if (name == "a") return reflectableArray(zserio::get<Tag::a>(m), a);
        if (name == "s") return reflectable(zserio::get<Tag::s>(m), a);
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'variant'!";
    }
    static std::string_view choice(const C& m)
    {
        switch (m.index())
        {
        case Tag::v: return "v";
        case Tag::a: return "a";
        case Tag::s: return "s";
        default: return "";
        }
    }
};
template <class A, class OBJ, class GET>
class RfConstRefl : public ReflectableDataConstAllocatorHolderBase<A>
{
public:
    using Base = ReflectableDataConstAllocatorHolderBase<A>;
    using Base::getAnyValue;
    using Base::getField;
    explicit RfConstRefl(const OBJ& o, const A& a = {}) : Base(typeInfo<OBJ, A>(), a), m_object(o) {}
    IBasicReflectableDataConstPtr<A> getField(std::string_view name) const override
    {
        return GET::template get<const OBJ, IBasicReflectableDataConstPtr<A>>(m_object, name, this->get_allocator());
    }
    BasicAny<A> getAnyValue(const A& a) const override { return BasicAny<A>(std::cref(m_object), a); }
protected:
    const OBJ& m_object;
};
template <class A, class OBJ, class GET>
class RfMutRefl : public ReflectableDataAllocatorHolderBase<A>
{
public:
    using Base = ReflectableDataAllocatorHolderBase<A>;
    using Base::getAnyValue;
    using Base::getField;
    explicit RfMutRefl(OBJ& o, const A& a = {}) : Base(typeInfo<OBJ, A>(), a), m_object(o) {}
    IBasicReflectableDataConstPtr<A> getField(std::string_view name) const override
    {
        return GET::template get<const OBJ, IBasicReflectableDataConstPtr<A>>(m_object, name, this->get_allocator());
    }
    IBasicReflectableDataPtr<A> getField(std::string_view name) override
    {
        return GET::template get<OBJ, IBasicReflectableDataPtr<A>>(m_object, name, this->get_allocator());
    }
    BasicAny<A> getAnyValue(const A& a) const override { return BasicAny<A>(std::cref(m_object), a); }
    BasicAny<A> getAnyValue(const A& a) override { return BasicAny<A>(std::ref(m_object), a); }
protected:
    OBJ& m_object;
};
template <class A, class T>
class RfRichRefl : public RfMutRefl<A, rf::Rich<A, T>, RfGetRich<A, T>>
{
public:
    using Base = RfMutRefl<A, rf::Rich<A, T>, RfGetRich<A, T>>;
    using Base::Base;
    void setField(std::string_view name, const BasicAny<A>& value) override
    {
        auto& m = this->m_object;
        if (name == "v") { m.v = ReflectableUtil::fromAny<T>(value); return; }
        if (name == "o")
        {
            if (value.template isType<std::nullptr_t>()) { m.o.reset(); return; }
            m.o = ReflectableUtil::fromAny<T>(value);
            return;
        }
        if (name == "a") { m.a = ReflectableUtil::fromAny<rf::Vec<A, T>>(value); return; }
        if (name == "oa")
        {
            if (value.template isType<std::nullptr_t>()) { m.oa.reset(); return; }
            m.oa = ReflectableUtil::fromAny<rf::Vec<A, T>>(value);
            return;
        }
        if (name == "n") { m.n = ReflectableUtil::fromAny<VarInt32>(value); return; }
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'Rich'!";
    }
    IBasicReflectableDataPtr<A> createField(std::string_view name) override
    {
        auto& m = this->m_object;
        const A a = this->get_allocator();
        if (name == "v") { m.v = rf::makeWith<T>(a); return reflectable(m.v, a); }
        if (name == "o") { m.o = rf::makeWith<T>(a); return reflectable(*m.o, a); }
        if (name == "a") { m.a = rf::Vec<A, T>(a); return reflectableArray(m.a, a); }
        if (name == "oa") { m.oa = rf::Vec<A, T>(a); return reflectableArray(*m.oa, a); }
        if (name == "n") { m.n = VarInt32(); return reflectable(m.n, a); }
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'Rich'!";
    }
};
template <class A>
class RfTreeRefl : public RfMutRefl<A, rf::Tree<A>, RfGetTree<A>>
{
public:
    using Base = RfMutRefl<A, rf::Tree<A>, RfGetTree<A>>;
    using Base::Base;
    void setField(std::string_view name, const BasicAny<A>& value) override
    {
        auto& m = this->m_object;
        if (name == "id") { m.id = ReflectableUtil::fromAny<UInt16>(value); return; }
        if (name == "name") { m.name = ReflectableUtil::fromAny<rf::Str<A>>(value); return; }
        if (name == "left")
        {
            if (value.template isType<std::nullptr_t>()) { m.left.reset(); return; }
            m.left = ReflectableUtil::fromAny<rf::Tree<A>>(value);
            return;
        }
        if (name == "kids") { m.kids = ReflectableUtil::fromAny<rf::Vec<A, rf::Tree<A>>>(value); return; }
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'Tree'!";
    }
    IBasicReflectableDataPtr<A> createField(std::string_view name) override
    {
        auto& m = this->m_object;
        const A a = this->get_allocator();
        if (name == "id") { m.id = UInt16(); return reflectable(m.id, a); }
        if (name == "name") { m.name = rf::Str<A>(a); return reflectable(m.name, a); }
        if (name == "left") { m.left = rf::Tree<A>(a); return reflectable(*m.left, a); }
        if (name == "kids") { m.kids = rf::Vec<A, rf::Tree<A>>(a); return reflectableArray(m.kids, a); }
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'Tree'!";
    }
};
template <class A, class C>
class RfVariantConstRefl : public RfConstRefl<A, C, RfGetVariant<A, C>>
{
public:
    using RfConstRefl<A, C, RfGetVariant<A, C>>::RfConstRefl;
    std::string_view getChoice() const override { return RfGetVariant<A, C>::choice(this->m_object); }
};
template <class A, class T, class C>
class RfVariantRefl : public RfMutRefl<A, C, RfGetVariant<A, C>>
{
public:
    using Tag = typename C::Tag;
    using RfMutRefl<A, C, RfGetVariant<A, C>>::RfMutRefl;
    std::string_view getChoice() const override { return RfGetVariant<A, C>::choice(this->m_object); }
    void setField(std::string_view name, const BasicAny<A>& value) override
    {
        auto& m = this->m_object;
        if (name == "v") { m.template emplace<Tag::v>(ReflectableUtil::fromAny<T>(value)); return; }
        if (name == "a") { m.template emplace<Tag::a>(ReflectableUtil::fromAny<rf::Vec<A, T>>(value)); return; }
        if (name == "s") { m.template emplace<Tag::s>(ReflectableUtil::fromAny<rf::Str<A>>(value)); return; }
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'variant'!";
    }
    IBasicReflectableDataPtr<A> createField(std::string_view name) override
    {
        auto& m = this->m_object;
        const A a = this->get_allocator();
        if (name == "v") { m.template emplace<Tag::v>(); return reflectable(zserio::get<Tag::v>(m), a); }
        if (name == "a") { m.template emplace<Tag::a>(); return reflectableArray(zserio::get<Tag::a>(m), a); }
        if (name == "s") { m.template emplace<Tag::s>(); return reflectable(zserio::get<Tag::s>(m), a); }
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'variant'!";
    }
};
template <class A, class OBJ, class CREFL, class MREFL>
struct RfReflFactory
{
    static IBasicReflectableDataConstPtr<A> create(const OBJ& v, const A& a) { return std::allocate_shared<CREFL>(a, v); }
    static IBasicReflectableDataPtr<A> create(OBJ& v, const A& a) { return std::allocate_shared<MREFL>(a, v); }
};
template <class A, class T>
struct Reflectable<rf::Rich<A, T>, A> : RfReflFactory<A, rf::Rich<A, T>, RfConstRefl<A, rf::Rich<A, T>, RfGetRich<A, T>>, RfRichRefl<A, T>> {};
template <class A>
struct Reflectable<rf::Tree<A>, A> : RfReflFactory<A, rf::Tree<A>, RfConstRefl<A, rf::Tree<A>, RfGetTree<A>>, RfTreeRefl<A>> {};
template <class A, class T>
struct Reflectable<rf::RUni<A, T>, A> : RfReflFactory<A, rf::RUni<A, T>, RfVariantConstRefl<A, rf::RUni<A, T>>, RfVariantRefl<A, T, rf::RUni<A, T>>> {};
template <class A, class T>
struct Reflectable<rf::RChc<A, T>, A> : RfReflFactory<A, rf::RChc<A, T>, RfVariantConstRefl<A, rf::RChc<A, T>>, RfVariantRefl<A, T, rf::RChc<A, T>>> {};

// ================================================================================================ introspectables
template <class A, class OBJ>
struct RfIntrPar : CompoundIntrospectableViewBase<OBJ, A>
{
    explicit RfIntrPar(const View<OBJ>& v, const A& a = {}) : CompoundIntrospectableViewBase<OBJ, A>(v, a) {}
    IBasicIntrospectableViewConstPtr<A> getParameter(std::string_view name) const override
    {
        if (name == "par") return introspectable(this->getValue().par(), this->get_allocator());
        throw CppRuntimeException("Parameter '") << name << "' doesn't exist!";
    }
};
template <class A, class T>
struct RfRichIntr : RfIntrPar<A, rf::Rich<A, T>>
{
    using RfIntrPar<A, rf::Rich<A, T>>::RfIntrPar;
    IBasicIntrospectableViewConstPtr<A> getField(std::string_view name) const override
    {
        const auto& w = this->getValue();
        const A a = this->get_allocator();
        if (name == "v") return introspectable(w.v(), a);
        if (name == "o") { if (!w.o().has_value()) return nullptr; return introspectable(*w.o(), a); }
        if (name == "a") return introspectableArray(w.a(), a);
        if (name == "oa") { if (!w.oa().has_value()) return nullptr; return introspectableArray(*w.oa(), a); }
        if (name == "n") return introspectable(w.n(), a);
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'Rich'!";
    }
    IBasicIntrospectableViewConstPtr<A> callFunction(std::string_view name) const override
    {
        const auto& w = this->getValue();
        if (name == "len") return introspectable(w.len(), this->get_allocator());
        if (name == "first") return introspectable(w.first(), this->get_allocator());
        throw CppRuntimeException("Function '") << name << "' doesn't exist in 'Rich'!";
    }
};
template <class A>
struct RfTreeIntr : RfIntrPar<A, rf::Tree<A>>
{
    using RfIntrPar<A, rf::Tree<A>>::RfIntrPar;
    IBasicIntrospectableViewConstPtr<A> getField(std::string_view name) const override
    {
        const auto& w = this->getValue();
        const A a = this->get_allocator();
        if (name == "id") return introspectable(w.id(), a);
        if (name == "name") return introspectable(w.name(), a);
        if (name == "left") { if (!w.left().has_value()) return nullptr; return introspectable(*w.left(), a); }
        if (name == "kids") return introspectableArray(w.kids(), a);
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'Tree'!";
    }
};
template <class A, class C>
struct RfVariantIntr : RfIntrPar<A, C>
{
    using RfIntrPar<A, C>::RfIntrPar;
    IBasicIntrospectableViewConstPtr<A> getField(std::string_view name) const override
    {
        const auto& w = this->getValue();
        const A a = this->get_allocator();
        if (name == "v") return introspectable(w.v(), a);
        if (name == "a") return introspectableArray(w.a(), a);
        if (name == "s") return introspectable(w.s(), a);
        throw CppRuntimeException("Field '") << name << "' doesn't exist in 'variant'!";
    }
    std::string_view getChoice() const override { return RfGetVariant<A, C>::choice(this->getValue().zserioData()); }
};
template <class A, class OBJ, class INTR>
struct RfIntrFactory
{
    static IBasicIntrospectableViewConstPtr<A> create(const View<OBJ>& v, const A& a) { return std::allocate_shared<INTR>(a, v); }
};
template <class A, class T> struct Introspectable<rf::Rich<A, T>, A> : RfIntrFactory<A, rf::Rich<A, T>, RfRichIntr<A, T>> {};
template <class A> struct Introspectable<rf::Tree<A>, A> : RfIntrFactory<A, rf::Tree<A>, RfTreeIntr<A>> {};
template <class A, class T> struct Introspectable<rf::RUni<A, T>, A> : RfIntrFactory<A, rf::RUni<A, T>, RfVariantIntr<A, rf::RUni<A, T>>> {};
template <class A, class T> struct Introspectable<rf::RChc<A, T>, A> : RfIntrFactory<A, rf::RChc<A, T>, RfVariantIntr<A, rf::RChc<A, T>>> {};
} // namespace detail
} // namespace zserio
