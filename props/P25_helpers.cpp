// P25: helper computations, text conversion and exception messages against exact arithmetic and plain concatenation.
#include <cmath>
#include <deque>
#include <memory>
#include <optional>

#include "pbt.h"
#include "zserio/ArrayLengthException.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitFieldUtil.h"
#include "zserio/BitPositionUtil.h"
#include "zserio/Bitmasks.h"
#include "zserio/BuiltInOperators.h"
#include "zserio/ChoiceCaseException.h"
#include "zserio/ConstraintException.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/Enums.h"
#include "zserio/ExtendedFieldException.h"
#include "zserio/JsonParser.h"
#include "zserio/MissedOptionalException.h"
#include "zserio/OutOfRangeException.h"
#include "zserio/PubsubException.h"
#include "zserio/ServiceException.h"
#include "zserio/SizeConvertUtil.h"
#include "zserio/SqliteException.h"
#include "zserio/StringConvertUtil.h"
#include "zserio/Types.h"
#include "zserio/UnexpectedOptionalException.h"
#include "zserio/UnionCaseException.h"
#include "zserio/pmr/Vector.h"
#include "zserio/ppmr/Vector.h"

// a small enumeration and bitmask in the shape of generated code
namespace p25
{
enum class Col : int16_t
{
    RED = -32768,
    GREEN = 0,
    BLUE = 32767
};
class Bits
{
public:
    using ZserioType = zserio::UInt32;
    enum class Values : uint32_t
    {
        A = 1,
        B = 2
    };
    constexpr Bits() noexcept : m_value(0) {}
    constexpr explicit Bits(uint32_t v) noexcept : m_value(v) {}
    constexpr uint32_t getValue() const { return m_value; }
    Bits operator&(const Bits& o) const { return Bits(m_value & o.m_value); }
    bool operator==(const Bits& o) const { return m_value == o.m_value; }

private:
    uint32_t m_value;
};
} // namespace p25

namespace zserio
{
template <>
struct EnumTraits<p25::Col>
{
    using ZserioType = Int16;
    static constexpr std::array<std::string_view, 3> names = {{"RED", "GREEN", "BLUE"}};
    static constexpr std::array<p25::Col, 3> values = {{p25::Col::RED, p25::Col::GREEN, p25::Col::BLUE}};
};
template <>
inline size_t enumToOrdinal<p25::Col>(p25::Col v)
{
    switch (v)
    {
    case p25::Col::RED: return 0;
    case p25::Col::GREEN: return 1;
    case p25::Col::BLUE: return 2;
    default: throw OutOfRangeException("Unknown value for enumeration Col: ") << static_cast<int16_t>(v) << "!";
    }
}
} // namespace zserio

namespace
{
using I128 = __int128;
using U128 = unsigned __int128;
using zserio::CppRuntimeException;

template <class F>
bool raises(F f)
{
    try
    {
        f();
    }
    catch (const CppRuntimeException&)
    {
        return true;
    }
    return false;
}
std::string show128(I128 v)
{
    if (v == 0) return "0";
    const bool neg = v < 0;
    U128 u = neg ? -static_cast<U128>(v) : static_cast<U128>(v);
    std::string s;
    while (u > 0)
    {
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
        u /= 10;
    }
    return neg ? "-" + s : s;
}

// ------------------------------------------------------------------------------------------------ arithmetic
SUBCHECK(num_bits, 360000, 9000000, "numBits(n) for any n is the least number of bits able to hold n different values (0 for 0, 1 for 1); non-trivial: n > 2")
{
    uint64_t n = g.ubits(64);
    if (g.chance(1, 2))
    { // around powers of two
        const unsigned k = static_cast<unsigned>(g.below(64));
        n = (UINT64_C(1) << k) + static_cast<uint64_t>(g.range(-2, 2));
    }
    g.note("n=" + std::to_string(n));
    g.nontrivial(n > 2);
    unsigned e = n == 0 ? 0 : 1;
    while (n != 0 && (static_cast<U128>(1) << e) < n) ++e;
    CHECK_EQM(static_cast<unsigned>(zserio::builtin::numBits(n)), e, "numBits(" << n << ")");
}

SUBCHECK(bit_field_bounds, 240000, 4500000, "bounds of a signed or unsigned bit field of any length: exact for 1 to 64 bits, an error otherwise; non-trivial: a valid length")
{
    size_t len = g.chance(5, 6) ? g.below(70) : static_cast<size_t>(g.ubits(64));
    const bool sg = g.flip();
    g.note("length=" + std::to_string(len) + (sg ? " signed" : " unsigned"));
    if (len == 0 || len > 64)
    {
        CHECKM(raises([&] { (void)zserio::getBitFieldLowerBound(len, sg); }), "lower bound of length " << len << " accepted");
        CHECKM(raises([&] { (void)zserio::getBitFieldUpperBound(len, sg); }), "upper bound of length " << len << " accepted");
        return;
    }
    g.nontrivial();
    const I128 one = 1;
    const I128 lo = sg ? -(one << (len - 1)) : 0;
    const I128 hi = sg ? (one << (len - 1)) - 1 : (one << len) - 1;
    CHECK_EQM(show128(zserio::getBitFieldLowerBound(len, sg)), show128(lo), "lower bound");
    CHECK_EQM(show128(zserio::getBitFieldUpperBound(len, sg)), show128(hi), "upper bound");
}

SUBCHECK(align_to, 360000, 9000000, "alignTo(a, p) is the least multiple of a not below p (p itself for a = 0) whenever it fits the type; non-trivial: p is moved")
{
    using zserio::BitSize;
    const BitSize a = g.chance(3, 4) ? static_cast<BitSize>(g.below(130)) : static_cast<BitSize>(g.ubits(32));
    const BitSize p = static_cast<BitSize>(g.ubits(32));
    g.note("a=" + std::to_string(a) + " p=" + std::to_string(p));
    const uint64_t e = a == 0 ? p : (static_cast<uint64_t>(p) + a - 1) / a * a;
    if (e > UINT32_MAX) throw pbt::Discard{};
    g.nontrivial(e != p);
    CHECK_EQM(static_cast<uint64_t>(zserio::alignTo(a, p)), e, "alignTo(" << a << "," << p << ")");
}

SUBCHECK(size_narrowing, 180000, 3000000, "convertSizeToUInt32 returns the same number or raises an error, convertUInt64ToSize likewise; non-trivial: value above 2^16")
{
    uint64_t v = g.ubits(64);
    if (g.chance(1, 3)) v = (UINT64_C(1) << 32) + static_cast<uint64_t>(g.range(-3, 3));
    g.note("v=" + std::to_string(v));
    g.nontrivial(v > 65536);
    CHECK_EQM(raises([&] { CHECK_EQ(static_cast<uint64_t>(zserio::convertSizeToUInt32(v)), v); }), v > UINT32_MAX, "convertSizeToUInt32(" << v << ")");
    CHECK_EQM(static_cast<uint64_t>(zserio::convertUInt64ToSize(v)), v, "convertUInt64ToSize");
}

SUBCHECK(is_set_value_of, 180000, 3000000, "isset on bitmasks is true exactly when every bit of the required mask is present; valueOf gives the underlying number; non-trivial: both masks non-zero")
{
    uint32_t a = static_cast<uint32_t>(g.ubits(32));
    uint32_t m = g.chance(1, 2) ? (a & static_cast<uint32_t>(g.ubits(32))) : static_cast<uint32_t>(g.ubits(32));
    if (g.chance(1, 4)) m = a & (a - 1);
    if (g.chance(1, 4)) a = ~(UINT32_C(1) << g.below(32));
    g.nontrivial(a != 0 && m != 0);
    bool e = true;
    for (int i = 0; i < 32; ++i) e = e && (((m >> i) & 1) == 0 || ((a >> i) & 1) != 0);
    CHECK_EQM(zserio::builtin::isSet(p25::Bits(a), p25::Bits(m)), e, "isSet(" << a << "," << m << ")");
    CHECK_EQ(zserio::builtin::valueOf(p25::Bits(a)), a);
    const p25::Col c = static_cast<p25::Col>(g.integral<int16_t>());
    CHECK_EQ(static_cast<int>(static_cast<int16_t>(zserio::builtin::valueOf(c))), static_cast<int>(c));
}

// ------------------------------------------------------------------------------------------------ integers to text
template <class T>
void intText(pbt::Gen& g)
{
    T v = g.integral<T>();
    if (g.chance(1, 3))
    { // around powers of ten
        U128 p = 1;
        const size_t k = g.below(20);
        for (size_t i = 0; i < k; ++i) p *= 10;
        v = static_cast<T>(static_cast<T>(p) + static_cast<T>(g.range(-2, 2)));
    }
    std::string e;
    if constexpr (std::is_signed_v<T>) e = std::to_string(static_cast<long long>(v));
    else e = std::to_string(static_cast<unsigned long long>(v));
    g.note(e);
    g.nontrivial(e.size() > 2);
    std::array<char, 24> buf;
    buf.fill('#');
    CHECK_EQM(std::string(zserio::convertIntToString(buf, v)), e, "convertIntToString");
    CHECK_EQM(std::string(zserio::toString(v)), e, "toString");
    std::pmr::polymorphic_allocator<uint8_t> al;
    CHECK_EQM(std::string(std::string_view(zserio::toString(v, al))), e, "toString with an allocator");
    CHECK_EQM(std::string((CppRuntimeException("x") << v).what()), "x" + e, "exception text");
}
SUBCHECK(int_text, 720000, 15000000, "any integer of any width as text (conversion buffer, toString, exception) shows its exact decimal value; non-trivial: more than two characters")
{
    switch (g.below(10))
    {
    case 0: return intText<int8_t>(g);
    case 1: return intText<int16_t>(g);
    case 2: return intText<int32_t>(g);
    case 3: return intText<int64_t>(g);
    case 4: return intText<uint8_t>(g);
    case 5: return intText<uint16_t>(g);
    case 6: return intText<uint32_t>(g);
    case 7: return intText<uint64_t>(g);
    case 8: return intText<long long>(g);
    default: return intText<unsigned long long>(g);
    }
}

template <class W>
void wrapText(pbt::Gen& g)
{
    using T = typename W::ValueType;
    const T v = g.integral<T>();
    std::string e;
    if constexpr (std::is_same_v<T, bool>) e = v ? "true" : "false";
    else if constexpr (std::is_signed_v<T>) e = std::to_string(static_cast<long long>(v));
    else e = std::to_string(static_cast<unsigned long long>(v));
    g.note(e);
    g.nontrivial(e.size() > 2);
    const W w(v);
    CHECK_EQM(std::string(zserio::toString<std::allocator<char>>(w)), e, "toString of a wrapper");
    CHECK_EQM(std::string((CppRuntimeException() << w).what()), e, "exception text of a wrapper");
}
SUBCHECK(wrapper_text, 360000, 6000000, "any value of any numeric wrapper as text shows its exact value; non-trivial: more than two characters")
{
    switch (g.below(12))
    {
    case 0: return wrapText<zserio::Bool>(g);
    case 1: return wrapText<zserio::Int8>(g);
    case 2: return wrapText<zserio::Int16>(g);
    case 3: return wrapText<zserio::Int33>(g);
    case 4: return wrapText<zserio::Int64>(g);
    case 5: return wrapText<zserio::UInt5>(g);
    case 6: return wrapText<zserio::UInt16>(g);
    case 7: return wrapText<zserio::UInt32>(g);
    case 8: return wrapText<zserio::UInt64>(g);
    case 9: return wrapText<zserio::VarInt>(g);
    case 10: return wrapText<zserio::VarUInt>(g);
    default: return wrapText<zserio::VarSize>(g);
    }
}

SUBCHECK(string_text, 120000, 1500000, "bool and any part of a text converted by toString is the same text; non-trivial: a part not ending with NUL")
{
    const bool b = g.flip();
    CHECK_EQ(std::string(zserio::toString(b)), std::string(b ? "true" : "false"));
    CHECK_EQ(std::string(zserio::toString<std::allocator<char>>(b)), std::string(b ? "true" : "false"));
    CHECK_EQ(std::string(zserio::convertBoolToString(b)), std::string(b ? "true" : "false"));
    const std::string s = g.bytes(80);
    const size_t a = g.below(s.size() + 1);
    const size_t n = g.below(s.size() - a + 1);
    g.nontrivial(a + n < s.size());
    const std::string_view v = std::string_view(s).substr(a, n);
    CHECK_EQ(std::string(zserio::toString<std::allocator<char>>(v)), std::string(v));
}

// ------------------------------------------------------------------------------------------------ floats to text
// accepted texts: 3 digits of the fraction cut off, allowing the rounding of one multiplication
template <class F>
std::vector<std::string> floatTexts(F v)
{
    if (std::isnan(v)) return {"NaN"};
    const F lim = std::ldexp(static_cast<F>(1), 63);
    if (v >= lim) return {"+Inf"};
    if (v <= -lim) return {"-Inf"};
    const F ip = std::trunc(v);
    const F fr = std::fabs(v - ip); // exact
    std::string s = std::to_string(static_cast<long long>(ip));
    if (ip == 0 && std::signbit(v)) s = "-0";
    std::vector<std::string> r;
    const long double ex = static_cast<long double>(fr) * 1000;
    const long double eps = sizeof(F) == 4 ? 1e-4L : 2e-13L;
    for (long double d : {0.0L, eps})
    {
        const int q = static_cast<int>(std::floor(ex + d));
        char b[8];
        snprintf(b, sizeof b, "%03d", q);
        r.push_back(s + "." + (q == 0 ? "0" : b));
    }
    if (v == 0 && std::signbit(v)) r.push_back("0.0"); // negative zero may be shown without its sign
    return r;
}
template <class F>
F anyFloating(pbt::Gen& g)
{
    switch (g.below(6))
    {
    case 0: return static_cast<F>(g.sbits(40)) / 1000;
    case 1: return static_cast<F>(g.range(-2000, 2000)) / 1000;
    case 2: return static_cast<F>(g.sbits(64));
    case 3: return static_cast<F>(g.range(-99999, 99999)) / 4096;
    default: break;
    }
    if constexpr (sizeof(F) == 4) return g.anyFloat();
    else return g.anyDouble();
}
bool among(const std::string& s, const std::vector<std::string>& v)
{
    for (const auto& x : v)
        if (x == s) return true;
    return false;
}
SUBCHECK(float_text, 480000, 12000000, "any float as text: exact integer part with sign, fraction cut to three digits, Inf and NaN; non-trivial: non-zero fraction")
{
    const float v = anyFloating<float>(g);
    g.note(pbt::show(v));
    g.nontrivial(std::isfinite(v) && std::trunc(v) != v);
    std::array<char, 24> a;
    std::array<char, 24> b;
    a.fill('#');
    b.fill('#');
    const char* ip = nullptr;
    const char* fp = "unset";
    zserio::convertFloatToString(a, b, v, ip, fp);
    CHECKM(ip != nullptr, "no integer part");
    std::string got = ip;
    if (fp != nullptr) got += std::string(".") + fp;
    const auto exp = floatTexts(v);
    CHECKM(among(got, exp), pbt::show(v) << " shown as " << got << ", expected " << exp.front());
    const std::string ex = (CppRuntimeException() << v).what();
    CHECKM(ex == got, "exception shows " << ex << ", conversion gives " << got);
}
SUBCHECK(double_text, 480000, 12000000, "any double streamed to an exception: exact integer part with sign, fraction cut to three digits, Inf and NaN; non-trivial: a value a float cannot hold")
{
    const double v = anyFloating<double>(g);
    g.note(pbt::show(v));
    g.nontrivial(std::isfinite(v) && std::fabs(v) < 1e30 && static_cast<double>(static_cast<float>(v)) != v);
    const auto exp = floatTexts(v);
    const std::string ex = (CppRuntimeException() << v).what();
    CHECKM(among(ex, exp), pbt::show(v) << " shown as " << ex << ", expected " << exp.front());
}

// ------------------------------------------------------------------------------------------------ messages
constexpr size_t CAP = 511;

// text without NUL, of a length that reaches the capacity often
std::string piece(pbt::Gen& g, size_t soFar)
{
    size_t n = g.below(12);
    if (g.chance(1, 4)) n = g.below(200);
    if (g.chance(1, 5) && soFar <= CAP) n = CAP - soFar + static_cast<size_t>(g.below(5)) - std::min<size_t>(2, CAP - soFar);
    if (g.chance(1, 30)) n = g.below(3000);
    std::string s(n, 'a');
    for (auto& c : s) c = static_cast<char>('a' + (&c - s.data()) % 23);
    if (n > 0) s[g.below(n)] = static_cast<char>(1 + g.below(255));
    return s;
}
template <class E>
void append(pbt::Gen& g, E& e, std::string& model)
{
    CppRuntimeException& ex = e;
    std::string s;
    switch (g.below(17))
    {
    case 0: {
        s = piece(g, model.size());
        g.note("cstr " + std::to_string(s.size()));
        ex << s.c_str();
        break;
    }
    case 1: {
        s = piece(g, model.size());
        g.note("append " + std::to_string(s.size()));
        ex.append(s.c_str());
        break;
    }
    case 2: { // only the first n characters
        const std::string all = piece(g, model.size());
        const size_t n = g.below(all.size() + 1);
        s = all.substr(0, n);
        g.note("append n " + std::to_string(n));
        ex.append(all.data(), n);
        break;
    }
    case 3: { // a view which is not terminated, in memory that ends right behind it
        s = piece(g, model.size());
        const std::vector<char> mem(s.begin(), s.end());
        g.note("view " + std::to_string(s.size()));
        ex << std::string_view(mem.data(), mem.size());
        break;
    }
    case 4: {
        s = piece(g, model.size());
        g.note("string " + std::to_string(s.size()));
        ex << s;
        break;
    }
    case 5: {
        s = piece(g, model.size());
        const std::pmr::string p(s.begin(), s.end());
        ex << p;
        break;
    }
    case 6: {
        const bool b = g.flip();
        s = b ? "true" : "false";
        ex << b;
        break;
    }
    case 7: {
        const int64_t v = g.integral<int64_t>();
        s = std::to_string(v);
        ex << v;
        break;
    }
    case 8: {
        const uint64_t v = g.integral<uint64_t>();
        s = std::to_string(v);
        ex << v;
        break;
    }
    case 9: {
        const uint8_t v = g.integral<uint8_t>();
        s = std::to_string(v);
        ex << v;
        break;
    }
    case 10: {
        const double v = static_cast<double>(g.range(-1000000, 1000000)) / 8;
        s = floatTexts(v).front();
        if (g.flip()) ex << v;
        else ex << static_cast<float>(v);
        break;
    }
    case 11: {
        const size_t n = g.below(40);
        s = "vector([...], " + std::to_string(n) + ")";
        switch (g.below(3))
        {
        case 0: ex << std::vector<uint32_t>(n); break;
        case 1: ex << std::vector<bool>(n); break;
        default: ex << zserio::pmr::Vector<std::string>(n); break;
        }
        break;
    }
    case 12: {
        const p25::Col c = g.pick({p25::Col::RED, p25::Col::GREEN, p25::Col::BLUE});
        s = c == p25::Col::RED ? "RED" : c == p25::Col::GREEN ? "GREEN" : "BLUE";
        ex << c;
        break;
    }
    case 13: {
        const zserio::VarInt64 w(g.integral<int64_t>());
        s = std::to_string(static_cast<int64_t>(w));
        ex << w;
        break;
    }
    case 14: {
        const size_t n = g.below(100);
        zserio::BitBuffer b(n);
        s = "BitBuffer([...], " + std::to_string(n) + ")";
        ex << b;
        break;
    }
    case 15: {
        const int code = static_cast<int>(g.below(30));
        s = sqlite3_errstr(code);
        ex << zserio::SqliteErrorCode(code);
        break;
    }
    default: { // embedded empty pieces
        ex << "" << std::string_view() << std::string();
        ex.append(nullptr, 0);
        break;
    }
    }
    model += s;
}
void same(const CppRuntimeException& e, const std::string& model, const char* what)
{
    const std::string got = e.what();
    const std::string exp = model.substr(0, CAP);
    CHECK_EQM(got.size(), exp.size(), what << ": length of the text");
    CHECK_EQM(got, exp, what);
}
SUBCHECK(messages, 360000, 9000000, "a history of appends of every streamable kind, copies, moves and assignments over several exceptions: each shows exactly the concatenation of its pieces, cut at 511 characters; non-trivial: the capacity is reached or an exception is copied")
{
    struct X
    {
        std::unique_ptr<CppRuntimeException> e;
        std::string model;
    };
    std::deque<X> xs;
    auto add = [&] {
        X x;
        if (g.flip()) x.e = std::make_unique<CppRuntimeException>();
        else
        {
            x.model = piece(g, 0);
            x.e = std::make_unique<CppRuntimeException>(x.model.c_str());
        }
        xs.push_back(std::move(x));
    };
    add();
    const size_t steps = 1 + g.below(24);
    for (size_t i = 0; i < steps; ++i)
    {
        const size_t k = g.below(xs.size());
        switch (g.below(12))
        {
        case 0:
            if (xs.size() < 4) add();
            break;
        case 1: {
            g.note("copy");
            g.nontrivial();
            X x;
            x.e = std::make_unique<CppRuntimeException>(*xs[k].e);
            x.model = xs[k].model;
            xs.push_back(std::move(x));
            break;
        }
        case 2: {
            g.note("assign");
            g.nontrivial();
            const size_t m = g.below(xs.size());
            *xs[k].e = *static_cast<const CppRuntimeException*>(xs[m].e.get());
            xs[k].model = xs[m].model;
            break;
        }
        case 3: { // the source is not used any more
            g.note("move");
            X x;
            x.e = std::make_unique<CppRuntimeException>(std::move(*xs[k].e));
            x.model = xs[k].model;
            xs.erase(xs.begin() + static_cast<long>(k));
            xs.push_back(std::move(x));
            break;
        }
        case 4: { // thrown and caught by value
            try
            {
                throw *xs[k].e;
            }
            catch (const CppRuntimeException& c)
            {
                same(c, xs[k].model, "thrown exception");
            }
            break;
        }
        default: append(g, *xs[k].e, xs[k].model); break;
        }
        for (const auto& x : xs)
        {
            same(*x.e, x.model, "text");
            if (x.model.size() >= CAP) g.nontrivial();
        }
        if (xs.size() > 6) xs.pop_front();
    }
}

// streaming into a temporary keeps the concrete type and what it shows
template <class E, class BASE>
void concrete(pbt::Gen& g)
{
    const std::string a = piece(g, 0);
    const uint32_t v = static_cast<uint32_t>(g.ubits(32));
    const std::string b = piece(g, a.size());
    const std::vector<char> mem(b.begin(), b.end());
    const std::string model = a + std::to_string(v) + b + "false";
    g.nontrivial(model.size() > 20);
    try
    {
        throw E(a.c_str()) << v << std::string_view(mem.data(), mem.size()) << false;
    }
    catch (const E& e)
    {
        same(e, model, "text of the concrete exception");
        CHECKM(typeid(e) == typeid(E), "the concrete type is lost");
        CHECKM(dynamic_cast<const BASE*>(&e) != nullptr, "base type");
    }
    catch (const CppRuntimeException&)
    {
        CHECKM(false, "the concrete type is lost");
    }
    bool std_caught = false;
    try
    {
        throw E(a.c_str()) << mem.size();
    }
    catch (const std::exception& e)
    {
        std_caught = true;
        CHECK_EQM(std::string(e.what()), (a + std::to_string(mem.size())).substr(0, CAP), "text seen as std::exception");
    }
    CHECK(std_caught);
}
SUBCHECK(concrete_types, 240000, 4500000, "streaming into a temporary exception of every library type keeps the type and the exact text; non-trivial: more than 20 characters")
{
    using namespace zserio;
    switch (g.below(14))
    {
    case 0: return concrete<CppRuntimeException, std::exception>(g);
    case 1: return concrete<ValidationException, CppRuntimeException>(g);
    case 2: return concrete<OutOfRangeException, ValidationException>(g);
    case 3: return concrete<ConstraintException, ValidationException>(g);
    case 4: return concrete<ArrayLengthException, ValidationException>(g);
    case 5: return concrete<UnionCaseException, ValidationException>(g);
    case 6: return concrete<ChoiceCaseException, ValidationException>(g);
    case 7: return concrete<MissedOptionalException, ValidationException>(g);
    case 8: return concrete<UnexpectedOptionalException, ValidationException>(g);
    case 9: return concrete<ExtendedFieldException, ValidationException>(g);
    case 10: return concrete<ServiceException, CppRuntimeException>(g);
    case 11: return concrete<PubsubException, CppRuntimeException>(g);
    case 12: return concrete<SqliteException, CppRuntimeException>(g);
    default: return concrete<JsonParserException, CppRuntimeException>(g);
    }
}
} // namespace
