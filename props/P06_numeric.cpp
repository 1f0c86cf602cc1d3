#include "pbt.h"
#include "ref.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/HashCodeUtil.h"
#include "zserio/Types.h"
#include "zserio/View.h"

using namespace zserio;
typedef __int128 i128;

namespace
{
template <class V>
V nearValue(pbt::Gen& g, i128 lo, i128 hi)
{
    switch (g.below(4))
    {
    case 0: return g.integral<V>();
    case 1: return static_cast<V>(hi + g.range(-3, 3));
    case 2: return static_cast<V>(lo + g.range(-3, 3));
    default: return static_cast<V>(lo + static_cast<i128>(g.edge(static_cast<uint64_t>(hi - lo))));
    }
}
template <class V>
std::string num(V v) { return std::to_string(v); }

// acceptance of one value by every entry point
template <class W, class SIZE>
void accept(pbt::Gen& g, const char* name, i128 lo, i128 hi, SIZE&& size)
{
    using V = typename W::ValueType;
    V v = nearValue<V>(g, lo, hi);
    const bool ok = static_cast<i128>(v) >= lo && static_cast<i128>(v) <= hi;
    g.note(std::string(name) + " " + num(v) + (ok ? "" : " (out of range)"));
    const bool checked = static_cast<i128>(std::numeric_limits<V>::min()) < lo || static_cast<i128>(std::numeric_limits<V>::max()) > hi;
    g.nontrivial(checked && (v == static_cast<V>(lo) || v == static_cast<V>(hi) || !ok));
    CHECKM(static_cast<i128>(static_cast<V>(NumericLimits<W>::min())) == lo, "min of " << name);
    CHECKM(static_cast<i128>(static_cast<V>(NumericLimits<W>::max())) == hi, "max of " << name);
    W w(v);
    CHECK_EQ(static_cast<V>(w), v);
    if (ok)
    {
        CHECK_EQ(static_cast<V>(fromCheckedValue<W>(v)), v);
        CHECK_EQ(toCheckedValue(w), v);
        detail::validate(w, "field");
    }
    else
    {
        CHECK_THROWS(OutOfRangeException, fromCheckedValue<W>(v));
        CHECK_THROWS(OutOfRangeException, toCheckedValue(w));
        CHECK_THROWS(OutOfRangeException, detail::validate(w, "field"));
        std::string what;
        try { detail::validate(w, "theField"); }
        catch (const OutOfRangeException& e) { what = e.what(); }
        CHECKM(what.find("theField") != std::string::npos && what.find(num(v)) != std::string::npos, what);
    }
    ref::ExactBuf buf(24, 0);
    size_t start = g.below(9);
    BitStreamWriter wr(buf.data(), 192, BitsTag());
    wr.setBitPosition(start);
    if (ok)
    {
        detail::write(wr, w);
        CHECK_EQ(wr.getBitPosition(), start + size(v));
        CHECK_EQ(static_cast<size_t>(detail::bitSizeOf(w, 3)), size(v));
        BitStreamReader r(buf.data(), 192, BitsTag());
        r.setBitPosition(start);
        W back;
        detail::read(r, back);
        CHECK_EQ(static_cast<V>(back), v);
        CHECK(back == w);
    }
    else
    {
        CHECK_THROWS(CppRuntimeException, detail::write(wr, w));
        CHECK_EQ(wr.getBitPosition(), start);
    }
}
template <unsigned N>
void fixedU(pbt::Gen& g)
{
    accept<UInt<N>>(g, ("uint" + std::to_string(N)).c_str(), 0, (static_cast<i128>(1) << N) - 1, [](auto) { return static_cast<size_t>(N); });
}
template <unsigned N>
void fixedS(pbt::Gen& g)
{
    accept<Int<N>>(g, ("int" + std::to_string(N)).c_str(), -(static_cast<i128>(1) << (N - 1)), (static_cast<i128>(1) << (N - 1)) - 1, [](auto) { return static_cast<size_t>(N); });
}
template <size_t... I>
void fixedDispatch(pbt::Gen& g, size_t n, bool s, std::index_sequence<I...>)
{
    using F = void (*)(pbt::Gen&);
    static const F fu[] = {fixedU<I + 1>...};
    static const F fs[] = {fixedS<I + 1>...};
    (s ? fs : fu)[n](g);
}
template <class W>
void varOne(pbt::Gen& g, const ref::VarSpec& spec)
{
    using V = typename W::ValueType;
    const bool full = spec.maxBytes == 9;
    i128 hi = full && spec.isSigned ? static_cast<i128>(INT64_MAX) : static_cast<i128>(ref::varMax(spec));
    i128 lo = spec.isSigned ? (full ? static_cast<i128>(INT64_MIN) : -hi) : 0;
    accept<W>(g, spec.name, lo, hi, [&](V v) {
        if (full && spec.isSigned && static_cast<i128>(v) == INT64_MIN) return static_cast<size_t>(8);
        return static_cast<size_t>(8 * ref::varBytes(spec, spec.isSigned ? ref::magnitude(static_cast<int64_t>(v)) : static_cast<uint64_t>(v)));
    });
}
template <class W>
void dynOne(pbt::Gen& g)
{
    using V = typename W::ValueType;
    constexpr bool S = std::is_signed_v<V>;
    constexpr unsigned maxBits = sizeof(V) * 8;
    unsigned n = g.chance(1, 8) ? static_cast<unsigned>(g.edge(255)) : 1 + static_cast<unsigned>(g.edge(maxBits - 1));
    const bool goodBits = n >= 1 && n <= maxBits;
    const unsigned b = goodBits ? n : 1;
    i128 lo = S ? -(static_cast<i128>(1) << (b - 1)) : 0, hi = (static_cast<i128>(1) << (S ? b - 1 : b)) - 1;
    V v = nearValue<V>(g, lo, hi);
    bool ok = goodBits && static_cast<i128>(v) >= lo && static_cast<i128>(v) <= hi;
    g.note((S ? "dynamic int " : "dynamic uint ") + std::to_string(n) + " bits of " + std::to_string(maxBits) + ": " + num(v));
    g.nontrivial(!ok || n == maxBits || v == static_cast<V>(lo) || v == static_cast<V>(hi));
    W w(v);
    View<W> view(w, static_cast<uint8_t>(n));
    CHECK_EQ(static_cast<V>(view), v);
    if (goodBits)
    {
        CHECK(static_cast<i128>(static_cast<V>(NumericLimits<W>::min(n))) == lo);
        CHECK(static_cast<i128>(static_cast<V>(NumericLimits<W>::max(n))) == hi);
    }
    else CHECK_THROWS(OutOfRangeException, NumericLimits<W>::max(n));
    ref::ExactBuf buf(16, 0);
    BitStreamWriter wr(buf.data(), 128, BitsTag());
    if (ok)
    {
        CHECK_EQ(static_cast<V>(fromCheckedValue<W>(v, n)), v);
        CHECK_EQ(toCheckedValue(w, n), v);
        detail::validate(w, n, "field");
        detail::validate(view, "field");
        detail::write(wr, view);
        CHECK_EQ(wr.getBitPosition(), n);
        BitStreamReader r(buf.data(), 128, BitsTag());
        W back;
        detail::read(r, back, static_cast<uint8_t>(n));
        CHECK_EQ(static_cast<V>(back), v);
    }
    else
    {
        CHECK_THROWS(OutOfRangeException, fromCheckedValue<W>(v, n));
        CHECK_THROWS(OutOfRangeException, toCheckedValue(w, n));
        CHECK_THROWS(OutOfRangeException, detail::validate(w, n, "field"));
        CHECK_THROWS(OutOfRangeException, detail::validate(view, "field"));
        // a width larger than the underlying type is a misuse which only validation has to detect
        if (goodBits || n == 0 || n > 64)
        {
            CHECK_THROWS(CppRuntimeException, detail::write(wr, view));
            CHECK_EQ(wr.getBitPosition(), 0U);
        }
    }
}
template <class V>
bool same(V a, V b) { return std::is_floating_point_v<V> ? ((a != a && b != b) || memcmp(&a, &b, sizeof a) == 0) : a == b; }
// wrapper arithmetic, comparison and hashing against the native type
template <class W>
void native(pbt::Gen& g, const char* name)
{
    using V = typename W::ValueType;
    auto gen = [&]() -> V {
        if constexpr (std::is_same_v<V, float>) return g.anyFloat();
        else if constexpr (std::is_same_v<V, double>) return g.anyDouble();
        else return g.integral<V>();
    };
    V a = gen(), b = g.chance(1, 6) ? a : gen();
    g.note(std::string(name) + " " + pbt::show(a) + ", " + pbt::show(b));
    W wa(a), wb(b);
    CHECK(same<V>(static_cast<V>(W()), V()));
    CHECK(same<V>(wa, a));
    {
        W c(wb);
        c = wa;
        CHECK(same<V>(c, a));
        c = b; // assignment from the native value
        CHECK(same<V>(c, b));
    }
#define REL(OP) CHECK_EQ(static_cast<bool>(wa OP wb), static_cast<bool>(a OP b)); 
    REL(==) REL(!=) REL(<) REL(>) REL(<=) REL(>=)
#undef REL
    CHECK_EQ(calcHashCode(HASH_SEED, wa), calcHashCode(HASH_SEED, a));
    if (a == b) CHECK_EQ(calcHashCode(7U, wa), calcHashCode(7U, wb));
    if constexpr (std::is_same_v<V, bool>)
    {
        W c(wa);
        c &= b; CHECK_EQ(static_cast<V>(c), static_cast<V>(a & b));
        c = wa; c |= b; CHECK_EQ(static_cast<V>(c), static_cast<V>(a | b));
        c = wa; c ^= b; CHECK_EQ(static_cast<V>(c), static_cast<V>(a ^ b));
        g.nontrivial();
        return;
    }
    else
    {
#define STEP(OP, COND) \
    if (COND) { V e(a); W c(wa); e OP b; auto& ret = (c OP b); CHECKM(same<V>(c, e), #OP); CHECK(static_cast<const void*>(&ret) == &c); }
        constexpr bool F = std::is_floating_point_v<V>;
        bool safeMul = true, safeAdd = true, safeSub = true, safeDiv = F || b != 0;
        if constexpr (!F)
        {
            V t{};
            if constexpr (sizeof(V) >= 4 && std::is_signed_v<V>)
            {
                safeAdd = !__builtin_add_overflow(a, b, &t);
                safeSub = !__builtin_sub_overflow(a, b, &t);
                safeMul = !__builtin_mul_overflow(a, b, &t);
                safeDiv = b != 0 && !(a == std::numeric_limits<V>::min() && b == -1);
            }
            if (sizeof(V) == 2 && !std::is_signed_v<V>) safeMul = static_cast<uint64_t>(a) * static_cast<uint64_t>(b) <= INT32_MAX; // promoted to int
        }
        g.nontrivial(a != b);
        STEP(+=, safeAdd) STEP(-=, safeSub) STEP(*=, safeMul)
        if constexpr (F) { STEP(/=, true) }
        else
        {
            STEP(/=, safeDiv) STEP(%=, safeDiv)
            STEP(&=, true) STEP(|=, true) STEP(^=, true)
            unsigned sh = static_cast<unsigned>(g.below(sizeof(V) * 8));
            V b2 = static_cast<V>(sh);
            if (!(std::is_signed_v<V> && (a < 0 || sh >= sizeof(V) * 8 - 1 || a > (std::numeric_limits<V>::max() >> sh))))
            { V e(a); W c(wa); e = static_cast<V>(e << b2); c <<= b2; CHECK(same<V>(c, e)); }
            { V e(a); W c(wa); e = static_cast<V>(e >> b2); c >>= b2; CHECK(same<V>(c, e)); }
        }
        bool inc = F || a != std::numeric_limits<V>::max() || !std::is_signed_v<V>, dec = F || a != std::numeric_limits<V>::min() || !std::is_signed_v<V>;
        if (inc)
        {
            V e(a); W c(wa), d(wa);
            V eo = e++;
            V old = c++;
            auto& ref = ++d;
            CHECK(same<V>(old, eo)); CHECK(same<V>(c, e)); CHECK(same<V>(d, e)); CHECK(static_cast<const void*>(&ref) == &d);
        }
        if (dec)
        {
            V e(a); W c(wa), d(wa);
            V eo = e--;
            V old = c--;
            auto& ref = --d;
            CHECK(same<V>(old, eo)); CHECK(same<V>(c, e)); CHECK(same<V>(d, e)); CHECK(static_cast<const void*>(&ref) == &d);
        }
    }
}
} // namespace

SUBCHECK(fixed_types, 600000, 20000000,
        "every signed and unsigned fixed width 1..64: limits, checked construction, validation, writing and size for values around and outside the range; non-trivial: limit or out of range value")
{
    size_t n = g.below(64);
    fixedDispatch(g, n, g.flip(), std::make_index_sequence<64>());
}
SUBCHECK(variable_types, 400000, 10000000, "every variable-length integer type, values around and outside the range; non-trivial: limit or out of range value")
{
    switch (g.below(9))
    {
    case 0: varOne<VarInt16>(g, ref::VARINT16); break;
    case 1: varOne<VarInt32>(g, ref::VARINT32); break;
    case 2: varOne<VarInt64>(g, ref::VARINT64); break;
    case 3: varOne<VarInt>(g, ref::VARINT); break;
    case 4: varOne<VarUInt16>(g, ref::VARUINT16); break;
    case 5: varOne<VarUInt32>(g, ref::VARUINT32); break;
    case 6: varOne<VarUInt64>(g, ref::VARUINT64); break;
    case 7: varOne<VarUInt>(g, ref::VARUINT); break;
    default: varOne<VarSize>(g, ref::VARSIZE); break;
    }
}
SUBCHECK(dynamic_types, 400000, 10000000, "dynamic bit fields with every run-time width, also invalid widths; non-trivial: limit, full width or rejected value")
{
    switch (g.below(8))
    {
    case 0: dynOne<DynInt8>(g); break;
    case 1: dynOne<DynInt16>(g); break;
    case 2: dynOne<DynInt32>(g); break;
    case 3: dynOne<DynInt64>(g); break;
    case 4: dynOne<DynUInt8>(g); break;
    case 5: dynOne<DynUInt16>(g); break;
    case 6: dynOne<DynUInt32>(g); break;
    default: dynOne<DynUInt64>(g); break;
    }
}
SUBCHECK(native_behaviour, 600000, 15000000, "conversion, assignment, arithmetic, increments, comparison and hash of wrappers against the native type (operations defined for the native type only); non-trivial: different operands")
{
    switch (g.below(23))
    {
    case 0: native<Bool>(g, "bool"); break;
    case 1: native<Int8>(g, "int8"); break;
    case 2: native<Int16>(g, "int16"); break;
    case 3: native<Int32>(g, "int32"); break;
    case 4: native<Int64>(g, "int64"); break;
    case 5: native<UInt8>(g, "uint8"); break;
    case 6: native<UInt16>(g, "uint16"); break;
    case 7: native<UInt32>(g, "uint32"); break;
    case 8: native<UInt64>(g, "uint64"); break;
    case 9: native<Int13>(g, "int13"); break;
    case 10: native<UInt57>(g, "uint57"); break;
    case 11: native<VarInt16>(g, "varint16"); break;
    case 12: native<VarInt32>(g, "varint32"); break;
    case 13: native<VarInt>(g, "varint"); break;
    case 14: native<VarUInt16>(g, "varuint16"); break;
    case 15: native<VarUInt64>(g, "varuint64"); break;
    case 16: native<VarSize>(g, "varsize"); break;
    case 17: native<DynInt8>(g, "dynint8"); break;
    case 18: native<DynInt64>(g, "dynint64"); break;
    case 19: native<DynUInt16>(g, "dynuint16"); break;
    case 20: native<Float16>(g, "float16"); break;
    case 21: native<Float32>(g, "float32"); break;
    default: native<Float64>(g, "float64"); break;
    }
}
SUBCHECK(floats_and_bool, 200000, 4000000, "booleans and floats accept every native value, floats other than float16 are written exactly; views of dynamic fields compare by width then value; non-trivial: always")
{
    g.nontrivial();
    static_assert(!detail::needs_range_check_v<Bool> && !detail::needs_range_check_v<Float16> && !detail::needs_range_check_v<Float32> && !detail::needs_range_check_v<Float64>, "");
    CHECK(static_cast<bool>(NumericLimits<Bool>::max()) && !static_cast<bool>(NumericLimits<Bool>::min()));
    CHECK_EQ(static_cast<float>(NumericLimits<Float16>::max()), static_cast<float>(ref::halfToDouble(0x7BFF)));
    CHECK_EQ(static_cast<float>(NumericLimits<Float16>::min()), static_cast<float>(ref::halfToDouble(0x0400)));
    CHECK_EQ(static_cast<float>(NumericLimits<Float32>::max()), ref::u2f(0x7F7FFFFF));
    CHECK_EQ(static_cast<float>(NumericLimits<Float32>::min()), ref::u2f(0x00800000));
    CHECK_EQ(static_cast<double>(NumericLimits<Float64>::max()), ref::u2d(0x7FEFFFFFFFFFFFFFULL));
    CHECK_EQ(static_cast<double>(NumericLimits<Float64>::min()), ref::u2d(0x0010000000000000ULL));
    bool b = g.flip();
    float f = g.anyFloat();
    double d = g.anyDouble();
    g.note(pbt::show(b) + " " + pbt::show(f) + " " + pbt::show(d));
    detail::validate(Bool(b), "b");
    detail::validate(Float16(f), "f");
    detail::validate(Float32(f), "f");
    detail::validate(Float64(d), "d");
    CHECK_EQ(static_cast<bool>(fromCheckedValue<Bool>(b)), b);
    CHECK(same<float>(fromCheckedValue<Float32>(f), f));
    CHECK(same<double>(toCheckedValue(Float64(d)), d));
    ref::ExactBuf buf(16, 0);
    BitStreamWriter w(buf.data(), 128, BitsTag());
    detail::write(w, Bool(b));
    detail::write(w, Float32(f));
    detail::write(w, Float64(d));
    detail::write(w, Float16(f));
    CHECK_EQ(w.getBitPosition(), 113U);
    BitStreamReader r(buf.data(), 113, BitsTag());
    Bool rb; Float32 rf; Float64 rd; Float16 rh;
    detail::read(r, rb); detail::read(r, rf); detail::read(r, rd); detail::read(r, rh);
    CHECK_EQ(static_cast<bool>(rb), b);
    CHECK(same<float>(rf, f));
    CHECK(same<double>(rd, d));
    using W = DynInt32;
    int32_t x = static_cast<int32_t>(g.sbits(32)), y = g.chance(1, 3) ? x : static_cast<int32_t>(g.sbits(32));
    uint8_t n = static_cast<uint8_t>(1 + g.below(32)), m = g.flip() ? n : static_cast<uint8_t>(1 + g.below(32));
    View<W> u(W(x), n), v(W(y), m);
    auto ku = std::make_pair(n, x), kv = std::make_pair(m, y);
    CHECK_EQ(u == v, ku == kv); CHECK_EQ(u != v, ku != kv); CHECK_EQ(u < v, ku < kv); CHECK_EQ(u > v, ku > kv); CHECK_EQ(u <= v, ku <= kv); CHECK_EQ(u >= v, ku >= kv);
    if (u == v) CHECK_EQ(std::hash<View<W>>()(u), std::hash<View<W>>()(v));
}
