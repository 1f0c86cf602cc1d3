// P24: enum and bitmask conversions, classification of all types, user-declared type information of every kind.
#include "P24_builtin.h"
#include "reflcheck.h"
#include "testobj.h"
#include "zserio/DeltaContext.h"
#include "zserio/ZserioTreeCreator.h"

using namespace p24;
using rf::Node;

namespace
{
// ------------------------------------------------------------------------------------------------ classification
enum Cls : unsigned { CMP = 1, CHO = 2, FIX = 4, INTG = 8, SGN = 16, FLTP = 32 };
struct SchemaCls { SchemaType t; unsigned c; };
struct CppCls { CppType t; unsigned c; };

const std::vector<SchemaCls>& schemaTable()
{
    static const std::vector<SchemaCls> v = [] {
        std::vector<SchemaCls> r = {{SchemaType::BOOL, FIX | INTG}, {SchemaType::VARINT16, INTG | SGN}, {SchemaType::VARINT32, INTG | SGN}, {SchemaType::VARINT64, INTG | SGN}, {SchemaType::VARINT, INTG | SGN},
                {SchemaType::VARUINT16, INTG}, {SchemaType::VARUINT32, INTG}, {SchemaType::VARUINT64, INTG}, {SchemaType::VARUINT, INTG}, {SchemaType::VARSIZE, INTG},
                {SchemaType::DYNAMIC_SIGNED_BITFIELD, INTG | SGN}, {SchemaType::DYNAMIC_UNSIGNED_BITFIELD, INTG}, {SchemaType::FLOAT16, FIX | SGN | FLTP}, {SchemaType::FLOAT32, FIX | SGN | FLTP},
                {SchemaType::FLOAT64, FIX | SGN | FLTP}, {SchemaType::BYTES, 0}, {SchemaType::STRING, 0}, {SchemaType::EXTERN, 0}, {SchemaType::ENUM, 0}, {SchemaType::BITMASK, 0}, {SchemaType::STRUCT, CMP},
                {SchemaType::CHOICE, CMP | CHO}, {SchemaType::UNION, CMP | CHO}, {SchemaType::SQL_TABLE, 0}, {SchemaType::SQL_DATABASE, 0}, {SchemaType::SERVICE, 0}, {SchemaType::PUBSUB, 0}};
#define X(N) \
    r.push_back({SchemaType::INT##N, FIX | INTG | SGN}); \
    r.push_back({SchemaType::UINT##N, FIX | INTG});
        P24_64(X)
#undef X
        return r;
    }();
    return v;
}
const std::vector<CppCls>& cppTable()
{
    static const std::vector<CppCls> v = {{CppType::BOOL, FIX | INTG}, {CppType::INT8, FIX | INTG | SGN}, {CppType::INT16, FIX | INTG | SGN}, {CppType::INT32, FIX | INTG | SGN}, {CppType::INT64, FIX | INTG | SGN},
            {CppType::UINT8, FIX | INTG}, {CppType::UINT16, FIX | INTG}, {CppType::UINT32, FIX | INTG}, {CppType::UINT64, FIX | INTG}, {CppType::FLOAT, FIX | SGN | FLTP}, {CppType::DOUBLE, FIX | SGN | FLTP},
            {CppType::BYTES, 0}, {CppType::STRING, 0}, {CppType::BIT_BUFFER, 0}, {CppType::ENUM, 0}, {CppType::BITMASK, 0}, {CppType::STRUCT, CMP}, {CppType::CHOICE, CMP | CHO}, {CppType::UNION, CMP | CHO},
            {CppType::SQL_TABLE, 0}, {CppType::SQL_DATABASE, 0}, {CppType::SERVICE, 0}, {CppType::PUBSUB, 0}};
    return v;
}
template <class T>
void classify(T t, unsigned c)
{
    using U = zserio::TypeInfoUtil;
    const int id = static_cast<int>(t);
    CHECK_EQM(U::isCompound(t), (c & CMP) != 0, "isCompound of type " << id);
    CHECK_EQM(U::hasChoice(t), (c & CHO) != 0, "hasChoice of type " << id);
    CHECK_EQM(U::isFixedSize(t), (c & FIX) != 0, "isFixedSize of type " << id);
    CHECK_EQM(U::isIntegral(t), (c & INTG) != 0, "isIntegral of type " << id);
    CHECK_EQM(U::isSigned(t), (c & SGN) != 0, "isSigned of type " << id);
    CHECK_EQM(U::isFloatingPoint(t), (c & FLTP) != 0, "isFloatingPoint of type " << id);
}

// ------------------------------------------------------------------------------------------------ enums
template <class RAW, class T>
void writeRead(pbt::Gen& g, T value, RAW raw)
{
    const zserio::BitSize off = g.below(17);
    zserio::BitBuffer buf(off + 160);
    zserio::BitStreamWriter w(buf);
    if (off) w.writeUnsignedBits64(0, static_cast<uint8_t>(off));
    zserio::detail::write(w, value);
    const zserio::BitSize size = w.getBitPosition() - off;
    CHECK_EQM(static_cast<zserio::BitSize>(zserio::detail::bitSizeOf(value, off)), size, "bitSizeOf");
    CHECK_EQM(static_cast<zserio::BitSize>(zserio::detail::bitSizeOf(raw, off)), size, "encoded like the underlying type");
    zserio::BitStreamReader r(zserio::Span<const uint8_t>(buf.getBuffer(), buf.getByteSize()));
    r.setBitPosition(off);
    RAW back;
    zserio::detail::read(r, back);
    CHECK_EQM(static_cast<typename RAW::ValueType>(back), static_cast<typename RAW::ValueType>(raw), "underlying value on the wire");
    r.setBitPosition(off);
    T again{};
    zserio::detail::read(r, again);
    CHECKM(again == value, "read back value differs");
    CHECK_EQM(r.getBitPosition(), off + size, "read position");
}
// packed sequence of values (delta coding of the underlying values)
template <class RAW, class T>
void packed(pbt::Gen& g, const std::vector<T>& values, const std::vector<RAW>& raws)
{
    using namespace zserio::detail;
    auto start = [](const auto& vs) {
        zserio::detail::DeltaContext x;
        for (const auto& v : vs) initContext(x, v);
        return x;
    };
    zserio::detail::DeltaContext c = start(values), cr = start(raws);
    zserio::BitSize total = 0, totalRaw = 0;
    for (size_t i = 0; i < values.size(); ++i)
    {
        total += bitSizeOf(c, values[i]);
        totalRaw += bitSizeOf(cr, raws[i]);
    }
    CHECK_EQM(total, totalRaw, "packed size equals packed underlying values");
    c = start(values);
    cr = start(raws);
    zserio::BitBuffer b1(totalRaw + 64), b2(totalRaw + 64);
    zserio::BitStreamWriter w1(b1), w2(b2);
    for (size_t i = 0; i < values.size(); ++i)
    {
        write(c, w1, values[i]);
        write(cr, w2, raws[i]);
    }
    CHECK_EQM(w1.getBitPosition(), total, "packed written size");
    CHECKM(w2.getBitPosition() == total && memcmp(b1.getBuffer(), b2.getBuffer(), b1.getByteSize()) == 0, "packed bits equal packed underlying values");
    zserio::BitStreamReader r(b1.getBuffer(), b1.getByteSize());
    zserio::detail::DeltaContext d;
    for (size_t i = 0; i < values.size(); ++i)
    {
        T v{};
        read(d, r, v);
        CHECKM(v == values[i], "packed element " << i << " differs");
    }
    CHECK_EQM(r.getBitPosition(), total, "packed read size");
    (void)g;
}
std::string mutateName(pbt::Gen& g, std::string s)
{
    switch (g.below(7))
    {
    case 0: return s.substr(0, g.below(s.size() + 1));
    case 1: return s + g.pick<const char*>({" ", "_", "1", "X", "|"});
    case 2: return s + std::string(1, '\0');
    case 3: return " " + s;
    case 4:
        for (auto& c : s) c = static_cast<char>(std::isupper(static_cast<unsigned char>(c)) ? std::tolower(c) : std::toupper(c));
        return s;
    case 5: return s.substr(s.empty() ? 0 : 1);
    default: return g.ascii(8);
    }
}
template <class T, class A>
void enumCase(pbt::Gen& g)
{
    using Tr = zserio::EnumTraits<T>;
    using Z = typename Tr::ZserioType;
    using V = typename Z::ValueType;
    static_assert(std::is_same_v<V, std::underlying_type_t<T>>);
    const size_t count = Tr::values.size();
    const auto& ti = zserio::typeInfo<T, A>();
    g.note(std::string(Tr::enumName));
    // type information and traits describe the same items
    CHECKM(ti.getCppType() == CppType::ENUM && ti.getSchemaType() == SchemaType::ENUM, "kind of " << Tr::enumName);
    CHECKM(&ti.getUnderlyingType() == &(zserio::typeInfo<Z, A>()), "underlying type of " << Tr::enumName);
    CHECK_EQ(ti.getEnumItems().size(), count);
    checkRefused(ti, UNDER | ENUMS, std::string(Tr::enumName));
    const size_t i = g.below(count);
    const T item = Tr::values[i];
    const V raw = static_cast<V>(item);
    CHECK_EQ(std::string(ti.getEnumItems()[i].schemaName), std::string(Tr::names[i]));
    CHECKM(ti.getEnumItems()[i].value == static_cast<uint64_t>(raw), "value of item " << i << " in type info");
    CHECKM(ti.getEnumItems().data()[i].isRemoved == false && ti.getEnumItems()[i].isDeprecated == false, "item flags");
    // mutually inverse
    CHECK_EQ(zserio::enumToOrdinal(item), i);
    CHECK_EQM(static_cast<V>(zserio::enumToValue(item)), raw, "enumToValue");
    CHECK_EQ(std::string(zserio::enumToString(item)), std::string(Tr::names[i]));
    CHECKM(zserio::stringToEnum<T>(Tr::names[i]) == item, "stringToEnum of " << Tr::names[i]);
    CHECKM(zserio::valueToEnum<T>(Z(raw)) == item, "valueToEnum of " << +raw);
    // name in a longer buffer
    std::string longer = std::string(Tr::names[i]) + "XYZ";
    CHECKM(zserio::stringToEnum<T>(std::string_view(longer).substr(0, Tr::names[i].size())) == item, "stringToEnum of a part of a text");
    // everything else is refused
    std::string name = mutateName(g, std::string(Tr::names[i]));
    size_t named = count;
    for (size_t k = 0; k < count; ++k) if (Tr::names[k] == name) named = k;
    g.note("name " + pbt::show(name));
    if (named < count) CHECKM(zserio::stringToEnum<T>(name) == Tr::values[named], "stringToEnum of " << name);
    else CHECKM(throws([&] { (void)zserio::stringToEnum<T>(name); }), "unknown item name accepted: " << pbt::show(name));
    V other = g.within<V>(zserio::NumericLimits<Z>::min(), zserio::NumericLimits<Z>::max());
    if (g.flip()) other = static_cast<V>(static_cast<uint64_t>(raw) + (g.flip() ? 1u : ~uint64_t(0)));
    bool known = false;
    for (auto x : Tr::values) known = known || static_cast<V>(x) == other;
    const bool inRange = other >= zserio::NumericLimits<Z>::min() && other <= zserio::NumericLimits<Z>::max();
    g.note("value " + pbt::show(other));
    if (!known)
    {
        CHECKM(throws([&] { (void)zserio::valueToEnum<T>(Z(other)); }), "unknown value accepted: " << pbt::show(other));
        CHECKM(throws([&] { (void)zserio::enumToString(static_cast<T>(other)); }), "name of an unknown value: " << pbt::show(other));
        CHECKM(throws([&] { (void)(zserio::CppRuntimeException("x") << static_cast<T>(other)); }), "unknown value streamed");
        if (inRange)
        {
            // an unknown value on the wire is refused
            zserio::BitBuffer buf(128);
            zserio::BitStreamWriter w(buf);
            zserio::detail::write(w, Z(other));
            zserio::BitStreamReader r(buf.getBuffer(), buf.getByteSize());
            T v{};
            CHECKM(throws([&] { zserio::detail::read(r, v); }), "unknown value read from the stream: " << pbt::show(other));
            zserio::detail::DeltaContext dc;
            zserio::BitBuffer buf2(128);
            zserio::BitStreamWriter w2(buf2);
            zserio::detail::DeltaContext wc;
            zserio::detail::initContext(wc, Z(other));
            zserio::detail::write(wc, w2, Z(other));
            zserio::BitStreamReader r3(buf2.getBuffer(), buf2.getByteSize());
            CHECKM(throws([&] { zserio::detail::read(dc, r3, v); }), "unknown value read from the packed stream: " << pbt::show(other));
        }
    }
    // text in exception messages is the item name
    std::string pre = g.ascii(10);
    zserio::CppRuntimeException ex(pre.c_str());
    ex << item;
    CHECK_EQ(std::string(ex.what()), std::string(pre.c_str()) + std::string(Tr::names[i]));
    // range validation as for the underlying type
    CHECKM(!throws([&] { zserio::detail::validate(item, "f"); }), "valid item refused");
    CHECK_EQM(throws([&] { zserio::detail::validate(static_cast<T>(other), "f"); }), !inRange, "range validation of " << pbt::show(other));
    // encoding
    writeRead<Z, T>(g, item, Z(raw));
    std::vector<T> vs;
    std::vector<Z> rs;
    for (size_t k = 1 + g.size(12); k > 0; --k)
    {
        vs.push_back(Tr::values[g.below(count)]);
        rs.push_back(Z(static_cast<V>(vs.back())));
    }
    packed<Z, T>(g, vs, rs);
    CHECKM(&zserio::reflectable(item, A())->getTypeInfo() == &ti, "reflectable type info");
    CHECK_EQ(std::string(zserio::reflectable(item, A())->toString()), std::string(Tr::names[i]));
    g.nontrivial(!known && named == count);
}

// ------------------------------------------------------------------------------------------------ bitmasks
template <class T, class A>
std::vector<std::pair<std::string, uint64_t>> maskItems()
{
    std::vector<std::pair<std::string, uint64_t>> r;
    for (const auto& i : zserio::typeInfo<T, A>().getBitmaskValues()) r.emplace_back(std::string(i.schemaName), i.value);
    return r;
}
template <class T, class = void> struct HasOps : std::false_type {};
template <class T> struct HasOps<T, std::void_t<decltype(~std::declval<const T&>())>> : std::true_type {};

template <class T, class A>
void maskCase(pbt::Gen& g)
{
    using Z = typename T::ZserioType;
    using V = typename Z::ValueType;
    const auto& ti = zserio::typeInfo<T, A>();
    const std::string w(ti.getSchemaName());
    g.note(w);
    CHECKM(ti.getCppType() == CppType::BITMASK && ti.getSchemaType() == SchemaType::BITMASK, "kind of " << w);
    CHECKM(&ti.getUnderlyingType() == &(zserio::typeInfo<Z, A>()), "underlying type of " << w);
    checkRefused(ti, UNDER | MASKS, w);
    const auto items = maskItems<T, A>();
    V raw = static_cast<V>(g.ubits(sizeof(V) * 8));
    if (g.flip())
    {
        raw = 0;
        for (const auto& i : items) if (g.flip()) raw = static_cast<V>(raw | i.second);
    }
    const bool inRange = raw <= zserio::NumericLimits<Z>::max();
    T m{Z(raw)};
    g.note("value " + pbt::show(raw));
    CHECK_EQM(static_cast<V>(m.getValue()), raw, "value");
    CHECK_EQM(throws([&] { zserio::detail::validate(m, "f"); }), !inRange, "range validation of " << pbt::show(raw));
    std::string pre = g.ascii(10);
    zserio::CppRuntimeException ex(pre.c_str());
    ex << m;
    CHECK_EQ(std::string(ex.what()), std::string(pre.c_str()) + std::to_string(static_cast<uint64_t>(raw)));
    if constexpr (HasOps<T>::value)
    {
        V raw2 = static_cast<V>(g.ubits(sizeof(V) * 8)), raw3 = static_cast<V>(g.ubits(sizeof(V) * 8));
        const T a{Z(raw)}, b{Z(raw2)}, c{Z(raw3)};
        auto val = [](const T& x) { return static_cast<V>(x.getValue()); };
        CHECK_EQM(val(a | b), static_cast<V>(raw | raw2), "|");
        CHECK_EQM(val(a & b), static_cast<V>(raw & raw2), "&");
        CHECK_EQM(val(a ^ b), static_cast<V>(raw ^ raw2), "^");
        CHECK_EQM(val(~a), static_cast<V>(~raw), "~");
        T x = a; x |= b; CHECKM(x == (a | b), "|=");
        x = a; x &= b; CHECKM(x == (a & b), "&=");
        x = a; x ^= b; CHECKM(x == (a ^ b), "^=");
        CHECKM((a & (b | c)) == ((a & b) | (a & c)) && (a | (b & c)) == ((a | b) & (a | c)) && ~(a | b) == (~a & ~b) && (a ^ a) == T() && (a ^ b) == ((a | b) & ~(a & b)), "set algebra");
        CHECKM((a == b) == (raw == raw2) && (a != b) == (raw != raw2) && (a < b) == (raw < raw2) && (a > b) == (raw > raw2) && (a <= b) == (raw <= raw2) && (a >= b) == (raw >= raw2), "comparison");
        CHECK_EQM(std::hash<T>{}(T{Z(raw)}), std::hash<T>{}(a), "hash");
    }
    CHECKM(&zserio::reflectable(m, A())->getTypeInfo() == &ti, "reflectable type info");
    if (inRange)
    {
        writeRead<Z, T>(g, m, Z(raw));
        std::vector<T> vs;
        std::vector<Z> rs;
        for (size_t k = 1 + g.size(12); k > 0; --k)
        {
            V x = g.within<V>(0, zserio::NumericLimits<Z>::max());
            vs.push_back(T{Z(x)});
            rs.push_back(Z(x));
        }
        packed<Z, T>(g, vs, rs);
    }
    g.nontrivial((raw & (raw - 1)) != 0);
}

// ------------------------------------------------------------------------------------------------ texts parse back
template <class A, class T>
void textBack(pbt::Gen& g, const A& a, const std::string& text, T value, bool accepted)
{
    // through the tree creator which interprets texts according to the type information
    zserio::BasicZserioTreeCreator<A> c(zserio::typeInfo<rf::Rich<A, T>, A>(), a);
    c.beginRoot();
    bool ok = true;
    try
    {
        if (g.flip()) c.setValue("v", std::string_view(text));
        else
        {
            c.setValue("o", std::string_view(text));
            c.setValue("v", std::string_view(text));
        }
    }
    catch (const zserio::CppRuntimeException&) { ok = false; }
    CHECK_EQM(ok, accepted, "text " << pbt::show(text) << " accepted");
    if (!ok) return;
    auto p = c.endRoot();
    auto f = p->getField("v");
    if constexpr (std::is_enum_v<T>) CHECKM(f->getAnyValue().template get<T>() == value, "text " << pbt::show(text) << " gives a different item");
    else CHECKM(f->getAnyValue().template get<T>() == value, "text " << pbt::show(text) << " gives " << f->getAnyValue().template get<T>().text());
}
template <class A, class T>
void textCase(pbt::Gen& g, const A& a)
{
    if constexpr (std::is_enum_v<T>)
    {
        using Tr = zserio::EnumTraits<T>;
        const size_t i = g.below(Tr::values.size());
        T item = Tr::values[i];
        std::string text(zserio::reflectable(item, a)->toString(a));
        CHECK_EQ(text, std::string(Tr::names[i]));
        g.note(text);
        textBack<A, T>(g, a, text, item, true);
        g.nontrivial(i > 0);
    }
    else
    {
        using Z = typename T::ZserioType;
        using V = typename Z::ValueType;
        const auto items = T::items();
        V raw = g.within<V>(0, zserio::NumericLimits<Z>::max());
        if (g.flip())
        {
            raw = 0;
            for (const auto& i : items) if (g.flip()) raw = static_cast<V>(raw | i.value);
        }
        T m{Z(raw)};
        std::string text(zserio::reflectable(m, a)->toString(a));
        CHECK_EQ(text, m.text());
        g.note(text);
        textBack<A, T>(g, a, text, m, true);
        // names only
        V named = 0;
        std::string names;
        std::vector<size_t> order;
        for (size_t i = 0; i < items.size(); ++i) if (g.flip()) order.push_back(i);
        g.shuffle(order);
        for (auto i : order)
        {
            if (!names.empty()) names += g.pick<const char*>({" | ", "|", " |", "| "});
            names += items[i].name;
            named = static_cast<V>(named | items[i].value);
        }
        if (!names.empty()) textBack<A, T>(g, a, names, T{Z(named)}, true);
        // one undeclared name
        if (!names.empty()) textBack<A, T>(g, a, names + " | noSuchBit", T(), false);
        g.nontrivial(order.size() > 1);
    }
}

// ------------------------------------------------------------------------------------------------ declared type information of any kind
template <class A, size_t I>
const zserio::IBasicTypeInfo<A>*& slot()
{
    static const zserio::IBasicTypeInfo<A>* p = nullptr;
    return p;
}
template <class A, size_t I>
const zserio::IBasicTypeInfo<A>& slotGet() { return *slot<A, I>(); }

template <class A>
const zserio::IBasicTypeInfo<A>& someType(pbt::Gen& g)
{
    switch (g.below(6))
    {
    case 0: return zserio::typeInfo<zserio::UInt8, A>();
    case 1: return zserio::typeInfo<zserio::VarInt, A>();
    case 2: return zserio::typeInfo<std::string_view, A>();
    case 3: return zserio::typeInfo<zserio::Float32, A>();
    case 4: return zserio::typeInfo<rf::ES16, A>();
    default: return zserio::typeInfo<rf::M16, A>();
    }
}
template <class A>
zserio::IBasicReflectableDataPtr<A> makeTree(const A& a) { return zserio::typeInfo<rf::Tree<A>, A>().createInstance(a); }
int g_created = 0;
template <class A>
zserio::IBasicReflectableDataPtr<A> makeCounted(const A& a)
{
    ++g_created;
    return zserio::reflectable(zserio::UInt8(7), a);
}

template <class S, class T>
void sameSpan(const S& got, const std::vector<T>& want, const std::string& w)
{
    CHECK_EQM(got.size(), want.size(), w);
    CHECKM(want.empty() || got.data() == want.data(), w << " are different elements");
}
template <class A>
void declaredCase(pbt::Gen& g, const A& a)
{
    using namespace zserio;
    using namespace zserio::detail;
    // names live in one stable pool
    std::vector<std::unique_ptr<std::string>> pool;
    auto text = [&]() -> std::string_view {
        pool.push_back(std::make_unique<std::string>(g.ascii(12)));
        return *pool.back();
    };
    std::vector<BasicFieldInfo<A>> fields;
    std::vector<BasicParameterInfo<A>> params;
    std::vector<BasicFunctionInfo<A>> funcs;
    std::vector<BasicCaseInfo<A>> cases;
    std::vector<BasicTemplateArgumentInfo<A>> targs;
    std::vector<BasicColumnInfo<A>> columns;
    std::vector<BasicTableInfo<A>> tables;
    std::vector<BasicMessageInfo<A>> messages;
    std::vector<BasicMethodInfo<A>> methods;
    std::vector<ItemInfo> items;
    std::vector<std::string_view> exprs;
    const size_t n = g.below(4), m = g.below(3);
    for (size_t i = 0; i < m; ++i) exprs.push_back(text());
    struct FieldWant { std::string_view s[8]; bool b[5]; const IBasicTypeInfo<A>* t; };
    std::vector<FieldWant> fw;
    for (size_t i = 0; i < n; ++i)
    {
        FieldWant f;
        for (auto& s : f.s) s = text();
        for (auto& b : f.b) b = g.flip();
        f.t = &someType<A>(g);
        fw.push_back(f);
        fields.emplace_back(f.s[0], *f.t, exprs, f.b[0], f.s[1], f.s[2], f.s[3], f.b[1], f.s[4], f.s[5], f.b[2], f.s[6], f.b[3], f.b[4]);
        columns.emplace_back(f.s[0], *f.t, exprs, f.s[1], f.s[2], f.b[0]);
        messages.emplace_back(f.s[0], *f.t, f.b[0], f.b[1], f.s[1]);
        tables.push_back({f.s[0], *f.t});
        params.push_back({f.s[0], *f.t});
        funcs.push_back({f.s[0], *f.t, f.s[1]});
        targs.push_back({*f.t});
        methods.push_back({f.s[0], *f.t, someType<A>(g)});
        items.emplace_back(f.s[0], g.ubits(64), f.b[0], f.b[1]);
    }
    for (size_t i = 0; i < n; ++i)
    {
        const auto& f = fields[i];
        const auto& x = fw[i];
        CHECKM(f.schemaName == x.s[0] && &f.typeInfo == x.t && f.typeArguments.size() == m && f.isExtended == x.b[0] && f.alignment == x.s[1] && f.offset == x.s[2] && f.initializer == x.s[3] &&
                f.isOptional == x.b[1] && f.optionalCondition == x.s[4] && f.constraint == x.s[5] && f.isArray == x.b[2] && f.arrayLength == x.s[6] && f.isPacked == x.b[3] && f.isImplicit == x.b[4], "field info");
        const auto& c = columns[i];
        CHECKM(c.schemaName == x.s[0] && &c.typeInfo == x.t && c.typeArguments.size() == m && c.sqlTypeName == x.s[1] && c.sqlConstraint == x.s[2] && c.isVirtual == x.b[0], "column info");
        const auto& ms = messages[i];
        CHECKM(ms.schemaName == x.s[0] && &ms.typeInfo == x.t && ms.isPublished == x.b[0] && ms.isSubscribed == x.b[1] && ms.topic == x.s[1], "message info");
        CHECKM(items[i].schemaName == x.s[0] && items[i].isDeprecated == x.b[0] && items[i].isRemoved == x.b[1], "item info");
        cases.push_back({exprs, g.flip() ? &fields[i] : nullptr});
    }
    const std::string_view name = text(), tmpl = text(), sel = text(), con = text(), vt = text();
    const bool rowid = g.flip();
    const bool canCreate = g.chance(3, 4);
    auto create = canCreate ? &makeCounted<A> : nullptr;
    const auto& under = someType<A>(g);

    std::unique_ptr<IBasicTypeInfo<A>> ti;
    unsigned applies = NONE;
    SchemaType st{};
    CppType ct{};
    const uint64_t kind = g.below(9);
    switch (kind)
    {
    case 0: ti = std::make_unique<StructTypeInfo<A>>(name, create, tmpl, targs, fields, params, funcs); st = SchemaType::STRUCT; ct = CppType::STRUCT; applies = COMPOUND | TEMPL; break;
    case 1: ti = std::make_unique<UnionTypeInfo<A>>(name, create, tmpl, targs, fields, params, funcs); st = SchemaType::UNION; ct = CppType::UNION; applies = COMPOUND | TEMPL; break;
    case 2: ti = std::make_unique<ChoiceTypeInfo<A>>(name, create, tmpl, targs, fields, params, funcs, sel, cases); st = SchemaType::CHOICE; ct = CppType::CHOICE; applies = COMPOUND | TEMPL | CHOICE; break;
    case 3: ti = std::make_unique<EnumTypeInfo<A>>(name, under, items); st = SchemaType::ENUM; ct = CppType::ENUM; applies = UNDER | ENUMS; break;
    case 4: ti = std::make_unique<BitmaskTypeInfo<A>>(name, under, items); st = SchemaType::BITMASK; ct = CppType::BITMASK; applies = UNDER | MASKS; break;
    case 5: ti = std::make_unique<SqlTableTypeInfo<A>>(name, tmpl, targs, columns, con, vt, rowid); st = SchemaType::SQL_TABLE; ct = CppType::SQL_TABLE; applies = TABLE | TEMPL; break;
    case 6: ti = std::make_unique<SqlDatabaseTypeInfo<A>>(name, tables); st = SchemaType::SQL_DATABASE; ct = CppType::SQL_DATABASE; applies = DB; break;
    case 7: ti = std::make_unique<PubsubTypeInfo<A>>(name, messages); st = SchemaType::PUBSUB; ct = CppType::PUBSUB; applies = PUBSUB; break;
    default: ti = std::make_unique<ServiceTypeInfo<A>>(name, methods); st = SchemaType::SERVICE; ct = CppType::SERVICE; applies = SERVICE; break;
    }
    // possibly seen through recursive type infos
    std::vector<std::unique_ptr<IBasicTypeInfo<A>>> chain;
    const IBasicTypeInfo<A>* t = ti.get();
    for (size_t d = g.below(3), i = 0; i < d; ++i)
    {
        if (i == 0) { slot<A, 0>() = t; chain.push_back(std::make_unique<RecursiveTypeInfo<A>>(&slotGet<A, 0>)); }
        else { slot<A, 1>() = t; chain.push_back(std::make_unique<RecursiveTypeInfo<A>>(&slotGet<A, 1>)); }
        t = chain.back().get();
    }
    const std::string w = "kind " + std::to_string(kind) + (chain.empty() ? "" : " (recursive)");
    g.note(w + " items " + std::to_string(n));
    CHECKM(t->getSchemaName() == name, w << " schema name");
    CHECKM(t->getSchemaType() == st && t->getCppType() == ct, w << " kind");
    CHECKM(TypeInfoUtil::isCompound(t->getSchemaType()) == ((applies & COMPOUND) != 0) && TypeInfoUtil::isCompound(t->getCppType()) == ((applies & COMPOUND) != 0), w);
    checkRefused(*t, applies, w);
    if (applies & COMPOUND)
    {
        sameSpan(t->getFields(), fields, w + " fields");
        sameSpan(t->getParameters(), params, w + " parameters");
        sameSpan(t->getFunctions(), funcs, w + " functions");
        for (int i = 0; i < 2; ++i)
        {
            int before = g_created;
            if (!canCreate)
            {
                CHECKM(throws([&] { (void)(i ? t->createInstance() : t->createInstance(a)); }), w << " created without a factory");
                continue;
            }
            auto p = i ? t->createInstance() : t->createInstance(a);
            CHECKM(g_created == before + 1 && p && p->toUInt() == 7, w << " createInstance");
        }
    }
    if (applies & CHOICE)
    {
        CHECKM(t->getSelector() == sel, w << " selector");
        sameSpan(t->getCases(), cases, w + " cases");
        for (size_t i = 0; i < n; ++i) sameSpan(t->getCases()[i].caseExpressions, exprs, w + " case expressions");
    }
    if (applies & UNDER) CHECKM(&t->getUnderlyingType() == &under, w << " underlying type");
    if (applies & ENUMS) sameSpan(t->getEnumItems(), items, w + " items");
    if (applies & MASKS) sameSpan(t->getBitmaskValues(), items, w + " items");
    if (applies & TABLE)
    {
        sameSpan(t->getColumns(), columns, w + " columns");
        CHECKM(t->getSqlConstraint() == con && t->getVirtualTableUsing() == vt && t->isWithoutRowId() == rowid, w << " table properties");
    }
    if (applies & DB) sameSpan(t->getTables(), tables, w + " tables");
    if (applies & PUBSUB) sameSpan(t->getMessages(), messages, w + " messages");
    if (applies & SERVICE) sameSpan(t->getMethods(), methods, w + " methods");
    if (applies & TEMPL)
    {
        CHECKM(t->getTemplateName() == tmpl, w << " template name");
        sameSpan(t->getTemplateArguments(), targs, w + " template arguments");
    }
    g.nontrivial(n > 0);
}

// a fixed size built-in type seen through a recursive type info keeps its size
template <class A>
void recursiveSized(pbt::Gen& g)
{
    const auto& ti = g.flip() ? zserio::typeInfo<zserio::Int9, A>() : zserio::typeInfo<zserio::Float16, A>();
    slot<A, 0>() = &ti;
    zserio::detail::RecursiveTypeInfo<A> r(&slotGet<A, 0>);
    CHECK_EQ(static_cast<int>(r.getBitSize()), static_cast<int>(ti.getBitSize()));
    checkRefused<A>(r, SIZED, "recursive fixed size");
    CHECKM(r.getSchemaType() == ti.getSchemaType() && r.getCppType() == ti.getCppType() && r.getSchemaName() == ti.getSchemaName(), "recursive fixed size");
}

// ------------------------------------------------------------------------------------------------ objects against their type information
template <class A>
void matchType(const Node& n, const zserio::IBasicTypeInfo<A>& ti, const A& a, const std::string& w, int depth)
{
    using U = zserio::TypeInfoUtil;
    if (n.k == Node::STRUCT || n.k == Node::VARIANT)
    {
        CHECKM(ti.getSchemaName() == n.type, w << " type " << ti.getSchemaName() << " for " << n.type);
        CHECKM(U::isCompound(ti.getCppType()) && U::hasChoice(ti.getCppType()) == (n.k == Node::VARIANT) && U::hasChoice(ti.getSchemaType()) == (n.k == Node::VARIANT), w << " kind");
        CHECK_EQM(ti.getFields().size(), n.fields.size(), w << " number of fields");
        for (size_t i = 0; i < n.fields.size(); ++i)
        {
            const auto& fi = ti.getFields()[i];
            const Node& f = n.fields[i].second;
            const std::string fw = w + "." + n.fields[i].first;
            CHECKM(fi.schemaName == n.fields[i].first, fw << " named " << fi.schemaName);
            if (f.k == Node::ABSENT)
            {
                CHECKM(n.k == Node::VARIANT || fi.isOptional || fi.isExtended, fw << " absent but not optional");
                continue;
            }
            CHECKM(fi.isArray == (f.k == Node::ARRAY), fw << " array");
            if (depth > 8) continue;
            if (f.k == Node::ARRAY) for (const auto& e : f.elems) matchType(e, fi.typeInfo, a, fw + "[]", depth + 1);
            else matchType(f, fi.typeInfo, a, fw, depth + 1);
        }
        return;
    }
    Node kind;
    rf::leafKind(ti, kind);
    CHECKM(kind.k == n.k && (n.k == Node::STR || n.k == Node::BYTES || n.k == Node::BITS || kind.width == n.width), w << " kind");
    if (n.k == Node::ENUM)
    {
        CHECKM(ti.getSchemaName() == n.type && kind.sgn == n.sgn, w << " enum");
        bool found = false;
        for (const auto& i : ti.getEnumItems()) found = found || (i.schemaName == n.text && i.value == (n.sgn ? static_cast<uint64_t>(n.i) : n.u));
        CHECKM(found, w << " item " << n.text << " not in type info");
    }
}
template <class A>
void objectCase(pbt::Gen& g, const A& a)
{
    const auto& t = rf::pickType<A>(g);
    rf::Opt2 opt;
    auto o = t.gen(g, a, opt);
    Node n = o->model();
    g.note(t.name);
    matchType(n, o->ti(), a, t.name, 0);
    CHECKM(&o->refl(a)->getTypeInfo() == &o->ti() && &o->crefl(a)->getTypeInfo() == &o->ti() && &o->intr(a)->getTypeInfo() == &o->ti(), "type info of views");
    // instances created from the type information are default objects of the type
    auto p = o->ti().createInstance(a);
    CHECKM(&p->getTypeInfo() == &o->ti(), "created type");
    Node fresh = t.fresh(a)->model();
    std::string d = rf::firstDiff(rf::stripped(o->modelOf(p)), rf::stripped(fresh), t.name);
    CHECKM(d.empty(), "created object is not the default object: " << d);
    g.nontrivial(n.fields.size() > 2);
}
template <class F>
void anyAlloc(pbt::Gen& g, F&& f)
{
    if (g.flip()) f(PmrA{});
    else f(PpmrA{});
}
#define RFE(X) X(rf::ES8) X(rf::EU8) X(rf::ES16) X(rf::EU16) X(rf::ES32) X(rf::EU32) X(rf::ES64) X(rf::EU64)
#define RFM(X) X(rf::M8) X(rf::M16) X(rf::M32) X(rf::M64)
} // namespace

SUBCHECK(classification, 6000, 60000, "schema type and C++ type against an independent table; non-trivial: every case (155 schema types, 23 C++ types)")
{
    const auto& s = schemaTable()[g.below(schemaTable().size())];
    const auto& c = cppTable()[g.below(cppTable().size())];
    g.note(std::to_string(static_cast<int>(s.t)) + " " + std::to_string(static_cast<int>(c.t)));
    classify(s.t, s.c);
    classify(c.t, c.c);
    g.nontrivial();
}
SUBCHECK(enums, 100000, 1500000, "enum item, value and text; non-trivial: an undefined value and an undefined name were tried")
{
    switch (g.below(11))
    {
#define X(T, I) case I: return enumCase<T, StdA>(g);
    X(rf::ES8, 0) X(rf::EU8, 1) X(rf::ES16, 2) X(rf::EU16, 3) X(rf::ES32, 4) X(rf::EU32, 5) X(rf::ES64, 6) X(rf::EU64, 7)
    X(to::Std::CEnum, 8) X(to::Std::REnum, 9) X(to::Std::UEnum, 10)
#undef X
    }
}
SUBCHECK(enums_pmr, 8000, 100000, "same with polymorphic allocators")
{
    switch (g.below(6))
    {
#define X(T, A, I) case I: return enumCase<T, A>(g);
    X(rf::ES16, PmrA, 0) X(to::Pmr::CEnum, PmrA, 1) X(to::Pmr::REnum, PmrA, 2) X(to::Ppmr::CEnum, PpmrA, 3) X(to::Ppmr::UEnum, PpmrA, 4) X(rf::EU64, PpmrA, 5)
#undef X
    }
}
SUBCHECK(bitmasks, 100000, 1500000, "bitmask values; non-trivial: at least two bits set")
{
    switch (g.below(8))
    {
#define X(T, A, I) case I: return maskCase<T, A>(g);
    X(rf::M8, StdA, 0) X(rf::M16, StdA, 1) X(rf::M32, StdA, 2) X(rf::M64, StdA, 3) X(to::Std::CMask, StdA, 4) X(to::Std::UMask, StdA, 5) X(to::Pmr::CMask, PmrA, 6) X(to::Ppmr::UMask, PpmrA, 7)
#undef X
    }
}
SUBCHECK(texts, 40000, 200000, "texts of enum items and bitmask values parsed back; non-trivial: several bitmask names / not the first item")
{
    auto run = [&](auto a) {
        using A = decltype(a);
        switch (g.below(12))
        {
#define X(T, I) case I: return textCase<A, T>(g, a);
        X(rf::ES8, 0) X(rf::EU8, 1) X(rf::ES16, 2) X(rf::EU16, 3) X(rf::ES32, 4) X(rf::EU32, 5) X(rf::ES64, 6) X(rf::EU64, 7) X(rf::M8, 8) X(rf::M16, 9) X(rf::M32, 10) X(rf::M64, 11)
#undef X
        }
    };
    run(StdA{});
}
SUBCHECK(declared_std, 20000, 300000, "type information of any kind declared with generated content, directly and through recursive type infos; non-trivial: not empty") { declaredCase(g, StdA{}); recursiveSized<StdA>(g); }
SUBCHECK(declared_pmr, 6000, 60000, "same with polymorphic allocators") { anyAlloc(g, [&](auto a) { declaredCase(g, a); recursiveSized<decltype(a)>(g); }); }
SUBCHECK(objects_std, 15000, 80000, "generated object against the type information of its type; non-trivial: compound with several fields") { objectCase(g, StdA{}); }
SUBCHECK(objects_pmr, 2000, 30000, "same with polymorphic allocators") { anyAlloc(g, [&](auto a) { objectCase(g, a); }); }
