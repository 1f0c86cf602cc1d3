// P24: type information of every built-in type against the type's own encoding (one translation unit per allocator).
#pragma once
#include <memory_resource>
#include <set>

#include "pbt.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/ReflectableData.h"
#include "zserio/TypeInfo.h"
#include "zserio/TypeInfoUtil.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

namespace p24
{
using zserio::CppType;
using zserio::SchemaType;
using StdA = std::allocator<uint8_t>;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;

template <class F>
bool throws(F&& f)
{
    try { f(); }
    catch (const zserio::CppRuntimeException&) { return true; }
    return false;
}
#define P24_THROWS(expr, w) CHECKM(p24::throws([&] { (void)(expr); }), #expr " must be refused for " << w)

template <class V>
constexpr CppType intCpp()
{
    if constexpr (std::is_same_v<V, bool>) return CppType::BOOL;
    else if constexpr (std::is_same_v<V, float>) return CppType::FLOAT;
    else if constexpr (std::is_same_v<V, double>) return CppType::DOUBLE;
    else if constexpr (std::is_signed_v<V>) return sizeof(V) == 1 ? CppType::INT8 : sizeof(V) == 2 ? CppType::INT16 : sizeof(V) == 4 ? CppType::INT32 : CppType::INT64;
    else return sizeof(V) == 1 ? CppType::UINT8 : sizeof(V) == 2 ? CppType::UINT16 : sizeof(V) == 4 ? CppType::UINT32 : CppType::UINT64;
}

enum Applies : unsigned { NONE = 0, COMPOUND = 1, CHOICE = 2, UNDER = 4, ENUMS = 8, MASKS = 16, TABLE = 32, DB = 64, TEMPL = 128, PUBSUB = 256, SERVICE = 512, SIZED = 1024 };
// accessors which are not meaningful for the kind of type raise an error
template <class A>
void checkRefused(const zserio::IBasicTypeInfo<A>& ti, unsigned applies, const std::string& w)
{
    if (!(applies & SIZED)) P24_THROWS(ti.getBitSize(), w);
    if (!(applies & COMPOUND))
    {
        P24_THROWS(ti.getFields(), w);
        P24_THROWS(ti.getParameters(), w);
        P24_THROWS(ti.getFunctions(), w);
        P24_THROWS(ti.createInstance(), w);
        P24_THROWS(ti.createInstance(A()), w);
    }
    if (!(applies & CHOICE))
    {
        P24_THROWS(ti.getSelector(), w);
        P24_THROWS(ti.getCases(), w);
    }
    if (!(applies & UNDER)) P24_THROWS(ti.getUnderlyingType(), w);
    if (!(applies & ENUMS)) P24_THROWS(ti.getEnumItems(), w);
    if (!(applies & MASKS)) P24_THROWS(ti.getBitmaskValues(), w);
    if (!(applies & TABLE))
    {
        P24_THROWS(ti.getColumns(), w);
        P24_THROWS(ti.getSqlConstraint(), w);
        P24_THROWS(ti.getVirtualTableUsing(), w);
        P24_THROWS(ti.isWithoutRowId(), w);
    }
    if (!(applies & DB)) P24_THROWS(ti.getTables(), w);
    if (!(applies & TEMPL))
    {
        P24_THROWS(ti.getTemplateName(), w);
        P24_THROWS(ti.getTemplateArguments(), w);
    }
    if (!(applies & PUBSUB)) P24_THROWS(ti.getMessages(), w);
    if (!(applies & SERVICE)) P24_THROWS(ti.getMethods(), w);
}

struct Want
{
    std::string name;
    SchemaType schema;
    CppType cpp;
    int bits; // 0: size depends on the value
    bool integral, sgn, flt;
};

template <class A>
void checkBuiltin(const zserio::IBasicTypeInfo<A>& ti, const Want& x)
{
    using U = zserio::TypeInfoUtil;
    const std::string& w = x.name;
    CHECK_EQM(std::string(ti.getSchemaName()), x.name, "schema name");
    CHECKM(ti.getSchemaType() == x.schema, "schema type of " << w << " is " << static_cast<int>(ti.getSchemaType()));
    CHECKM(ti.getCppType() == x.cpp, "C++ type of " << w << " is " << static_cast<int>(ti.getCppType()));
    if (x.bits) CHECK_EQM(static_cast<int>(ti.getBitSize()), x.bits, "bit size of " << w);
    CHECKM(U::isFixedSize(ti.getSchemaType()) == (x.bits != 0), "fixed size classification of " << w);
    CHECKM(U::isIntegral(ti.getSchemaType()) == x.integral && U::isIntegral(ti.getCppType()) == x.integral, "integral classification of " << w);
    CHECKM(U::isSigned(ti.getSchemaType()) == x.sgn && U::isSigned(ti.getCppType()) == x.sgn, "signed classification of " << w);
    CHECKM(U::isFloatingPoint(ti.getSchemaType()) == x.flt && U::isFloatingPoint(ti.getCppType()) == x.flt, "floating point classification of " << w);
    CHECKM(!U::isCompound(ti.getSchemaType()) && !U::isCompound(ti.getCppType()) && !U::hasChoice(ti.getSchemaType()) && !U::hasChoice(ti.getCppType()), "compound classification of " << w);
    checkRefused(ti, x.bits ? SIZED : NONE, w);
}

template <class A, class T>
void numeric(pbt::Gen& g, const std::string& name, SchemaType schema, int bits)
{
    using V = typename T::ValueType;
    const auto& ti = zserio::typeInfo<T, A>();
    CHECKM(&ti == &(zserio::typeInfo<T, A>()), "type info of " << name << " is not unique");
    checkBuiltin<A>(ti, {name, schema, intCpp<V>(), bits, std::is_integral_v<V>, std::is_signed_v<V>, std::is_floating_point_v<V>});
    // how values are really encoded
    V raw;
    if constexpr (std::is_floating_point_v<V>) raw = static_cast<V>(g.anyFloat(false));
    else if constexpr (std::is_same_v<V, bool>) raw = g.flip();
    else raw = g.within<V>(zserio::NumericLimits<T>::min(), zserio::NumericLimits<T>::max());
    T v(raw);
    zserio::BitBuffer buf(128);
    zserio::BitStreamWriter writer(buf);
    zserio::detail::write(writer, v);
    if (bits) CHECK_EQM(writer.getBitPosition(), static_cast<zserio::BitSize>(bits), "written bits of " << name);
    auto p = zserio::reflectable(v, A());
    CHECKM(&p->getTypeInfo() == &ti, "reflectable of " << name << " has different type info");
}
template <class A, class V>
void dynamic(const char* name)
{
    constexpr bool s = std::is_signed_v<V>;
    const auto& ti = zserio::typeInfo<zserio::detail::DynIntWrapper<V>, A>();
    checkBuiltin<A>(ti, {name, s ? SchemaType::DYNAMIC_SIGNED_BITFIELD : SchemaType::DYNAMIC_UNSIGNED_BITFIELD, intCpp<V>(), 0, true, s, false});
    CHECKM(&ti == &(zserio::typeInfo<zserio::detail::DynIntWrapper<V>, A>()), "type info of " << name << " is not unique");
}
#define P24_64(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(32) \
    X(33) X(34) X(35) X(36) X(37) X(38) X(39) X(40) X(41) X(42) X(43) X(44) X(45) X(46) X(47) X(48) X(49) X(50) X(51) X(52) X(53) X(54) X(55) X(56) X(57) X(58) X(59) X(60) X(61) X(62) X(63) X(64)

template <class A>
void builtinCase(pbt::Gen& g)
{
    uint64_t i = g.below(128 + 24);
    g.note("type " + std::to_string(i));
    switch (i)
    {
#define X(N) \
    case N - 1: return numeric<A, zserio::detail::FixedIntWrapper<N, true>>(g, "int:" #N, SchemaType::INT##N, N); \
    case 63 + N: return numeric<A, zserio::detail::FixedIntWrapper<N, false>>(g, "bit:" #N, SchemaType::UINT##N, N);
        P24_64(X)
#undef X
    case 128: return numeric<A, zserio::Bool>(g, "bool", SchemaType::BOOL, 1);
    case 129: return numeric<A, zserio::VarInt16>(g, "varint16", SchemaType::VARINT16, 0);
    case 130: return numeric<A, zserio::VarInt32>(g, "varint32", SchemaType::VARINT32, 0);
    case 131: return numeric<A, zserio::VarInt64>(g, "varint64", SchemaType::VARINT64, 0);
    case 132: return numeric<A, zserio::VarInt>(g, "varint", SchemaType::VARINT, 0);
    case 133: return numeric<A, zserio::VarUInt16>(g, "varuint16", SchemaType::VARUINT16, 0);
    case 134: return numeric<A, zserio::VarUInt32>(g, "varuint32", SchemaType::VARUINT32, 0);
    case 135: return numeric<A, zserio::VarUInt64>(g, "varuint64", SchemaType::VARUINT64, 0);
    case 136: return numeric<A, zserio::VarUInt>(g, "varuint", SchemaType::VARUINT, 0);
    case 137: return numeric<A, zserio::VarSize>(g, "varsize", SchemaType::VARSIZE, 0);
    case 138: return numeric<A, zserio::Float16>(g, "float16", SchemaType::FLOAT16, 16);
    case 139: return numeric<A, zserio::Float32>(g, "float32", SchemaType::FLOAT32, 32);
    case 140: return numeric<A, zserio::Float64>(g, "float64", SchemaType::FLOAT64, 64);
    case 141: return dynamic<A, int8_t>("int<>");
    case 142: return dynamic<A, int16_t>("int<>");
    case 143: return dynamic<A, int32_t>("int<>");
    case 144: return dynamic<A, int64_t>("int<>");
    case 145: return dynamic<A, uint8_t>("bit<>");
    case 146: return dynamic<A, uint16_t>("bit<>");
    case 147: return dynamic<A, uint32_t>("bit<>");
    case 148: return dynamic<A, uint64_t>("bit<>");
    case 149:
        checkBuiltin<A>(zserio::typeInfo<zserio::BasicString<zserio::RebindAlloc<A, char>>, A>(), {"string", SchemaType::STRING, CppType::STRING, 0, false, false, false});
        return checkBuiltin<A>(zserio::typeInfo<std::string_view, A>(), {"string", SchemaType::STRING, CppType::STRING, 0, false, false, false});
    case 150: return checkBuiltin<A>(zserio::typeInfo<zserio::BasicBytes<A>, A>(), {"bytes", SchemaType::BYTES, CppType::BYTES, 0, false, false, false});
    default: return checkBuiltin<A>(zserio::typeInfo<zserio::BasicBitBuffer<A>, A>(), {"extern", SchemaType::EXTERN, CppType::BIT_BUFFER, 0, false, false, false});
    }
}
} // namespace p24
