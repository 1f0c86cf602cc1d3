#include "streamops.h"

using namespace ops;
using namespace zserio;

SUBCHECK(encode_exact, 1200000, 40000000,
        "one to a few values of random kind written at a random bit offset into a zeroed buffer; bytes equal the independent reference encoding; non-trivial: unaligned start or value needing more than one byte")
{
    size_t start = g.edge(70);
    ref::Bits b;
    for (size_t i = 0; i < start; ++i) b.put(0, 1);
    std::vector<Op> list;
    size_t n = 1 + g.draw(4);
    for (size_t i = 0; i < n; ++i)
    {
        list.push_back(genOp(g, 24));
        refPut(b, list.back());
        if (g.noting()) g.note(show(list.back()));
    }
    g.nontrivial(start % 8 != 0 || b.size() - start > 8);
    ref::ExactBuf buf((b.size() + 7) / 8, 0);
    BitStreamWriter w(buf.data(), b.size(), BitsTag());
    w.setBitPosition(start);
    for (auto& o : list) writeOp(w, o);
    CHECK_EQ(w.getBitPosition(), b.size());
    CHECK_EQ(pbt::hex(buf.data(), buf.n), pbt::hex(b.bytes()));
}

// decoding of every permitted (also non-shortest) encoding
SUBCHECK(decode_exact, 1500000, 50000000,
        "a reference encoding (shortest or longer variable-length form) placed at a random bit offset with random bits around it decodes to the denoted value and consumes exactly the encoding; non-trivial: non-shortest form, negative or multi-byte")
{
    size_t start = g.edge(70);
    ref::Bits b;
    for (size_t i = 0; i < start; ++i) b.put(g.flip(), 1);
    int which = static_cast<int>(g.below(9));
    const ref::VarSpec* specs[] = {&ref::VARINT16, &ref::VARINT32, &ref::VARINT64, &ref::VARINT, &ref::VARUINT16, &ref::VARUINT32,
            &ref::VARUINT64, &ref::VARUINT, &ref::VARSIZE};
    const ref::VarSpec& s = *specs[which];
    unsigned len = 1 + static_cast<unsigned>(g.draw(s.maxBytes - 1));
    unsigned bits = ref::varBits(s, len);
    uint64_t mag = g.ubits(bits > 64 ? 64 : bits);
    bool neg = s.isSigned && g.flip();
    ref::putVarN(b, s, neg, mag, len);
    size_t end = b.size();
    size_t tail = g.edge(70);
    for (size_t i = 0; i < tail; ++i) b.put(g.flip(), 1);
    g.nontrivial(len > 1 || neg);
    if (g.noting()) g.note(std::string(s.name) + " len " + std::to_string(len) + (neg ? " -" : " ") + std::to_string(mag) + " at " + std::to_string(start));
    ref::ExactBuf buf(b.bytes(static_cast<uint8_t>(g.flip() ? 0xFF : 0)));
    BitStreamReader r(buf.data(), b.size(), BitsTag());
    r.setBitPosition(start);
    if (&s == &ref::VARSIZE && mag > 0x7FFFFFFF)
    {
        CHECK_THROWSM(CppRuntimeException, r.readVarSize(), "value " << mag << " exceeds the permitted length range");
        return;
    }
    bool minZero = &s == &ref::VARINT && neg && mag == 0 && len == 1; // minimum value special code
    int64_t expS = minZero ? INT64_MIN : (neg ? static_cast<int64_t>(0 - mag) : static_cast<int64_t>(mag));
    switch (which)
    {
    case 0: CHECK_EQ(static_cast<int64_t>(r.readVarInt16()), expS); break;
    case 1: CHECK_EQ(static_cast<int64_t>(r.readVarInt32()), expS); break;
    case 2: CHECK_EQ(static_cast<int64_t>(r.readVarInt64()), expS); break;
    case 3:
        if (neg && mag == 0 && len > 1) throw pbt::Discard(); // over-long negative zero: not defined
        CHECK_EQ(static_cast<int64_t>(r.readVarInt()), expS);
        break;
    case 4: CHECK_EQ(static_cast<uint64_t>(r.readVarUInt16()), mag); break;
    case 5: CHECK_EQ(static_cast<uint64_t>(r.readVarUInt32()), mag); break;
    case 6: CHECK_EQ(static_cast<uint64_t>(r.readVarUInt64()), mag); break;
    case 7: CHECK_EQ(static_cast<uint64_t>(r.readVarUInt()), mag); break;
    default: CHECK_EQ(static_cast<uint64_t>(r.readVarSize()), mag); break;
    }
    CHECK_EQ(r.getBitPosition(), end);
}

SUBCHECK(decode_fixed, 700000, 20000000,
        "random bits decoded as fixed fields, floats and booleans at a random offset denote the value computed from the bits; non-trivial: unaligned")
{
    size_t start = g.edge(70);
    ref::Bits b;
    for (size_t i = 0; i < start; ++i) b.put(g.flip(), 1);
    unsigned n = 1 + static_cast<unsigned>(g.edge(63));
    uint64_t pattern = g.ubits(n);
    b.put(pattern, n);
    size_t tail = g.edge(70);
    for (size_t i = 0; i < tail; ++i) b.put(g.flip(), 1);
    g.nontrivial(start % 8 != 0);
    ref::ExactBuf buf(b.bytes());
    BitStreamReader r(buf.data(), b.size(), BitsTag());
    r.setBitPosition(start);
    uint8_t nb = static_cast<uint8_t>(n);
    int64_t s = static_cast<int64_t>(pattern << (64 - n)) >> (64 - n);
    if (g.noting()) g.note("width " + std::to_string(n) + " pattern " + std::to_string(pattern) + " at " + std::to_string(start));
    switch (g.draw(4))
    {
    case 0: CHECK_EQ(r.readUnsignedBits64(nb), pattern); break;
    case 1: CHECK_EQ(r.readSignedBits64(nb), s); break;
    case 2:
        if (n <= 32) { CHECK_EQ(r.readUnsignedBits32(nb), static_cast<uint32_t>(pattern)); }
        else
        {
            CHECK_THROWS(CppRuntimeException, r.readUnsignedBits32(nb));
            CHECK_EQ(r.getBitPosition(), start);
            CHECK_EQ(r.readUnsignedBits64(nb), pattern);
        }
        break;
    case 3:
        if (n <= 32) { CHECK_EQ(r.readSignedBits32(nb), static_cast<int32_t>(s)); }
        else
        {
            CHECK_THROWS(CppRuntimeException, r.readSignedBits32(nb));
            CHECK_EQ(r.readSignedBits64(nb), s);
        }
        break;
    default:
        if (n == 64) { CHECK_EQ(ref::d2u(static_cast<double>(r.readFloat64())), pattern); }
        else if (n == 32) { CHECK_EQ(ref::f2u(r.readFloat32()), static_cast<uint32_t>(pattern)); }
        else if (n == 1) { CHECK_EQ(static_cast<bool>(r.readBool()), pattern != 0); }
        else { CHECK_EQ(r.readUnsignedBits64(nb), pattern); }
        break;
    }
    CHECK_EQ(r.getBitPosition(), start + n);
    // invalid widths are refused
    CHECK_THROWS(CppRuntimeException, r.readUnsignedBits64(0));
    CHECK_THROWS(CppRuntimeException, r.readSignedBits64(static_cast<uint8_t>(65 + g.draw(190))));
    CHECK_THROWS(CppRuntimeException, r.readUnsignedBits32(static_cast<uint8_t>(33 + g.draw(222))));
}

// typed write()/read() entry points used by generated code agree with the same reference
template <unsigned N>
static void typedOne(pbt::Gen& g)
{
    ref::Bits b;
    size_t start = g.edge(20);
    for (size_t i = 0; i < start; ++i) b.put(0, 1);
    uint64_t u = g.ubits(N);
    int64_t s = g.sbits(N);
    b.put(u, N);
    b.put(static_cast<uint64_t>(s), N);
    ref::ExactBuf buf((b.size() + 7) / 8, 0);
    BitStreamWriter w(buf.data(), b.size(), BitsTag());
    w.setBitPosition(start);
    detail::write(w, UInt<N>(static_cast<typename UInt<N>::ValueType>(u)));
    detail::write(w, Int<N>(static_cast<typename Int<N>::ValueType>(s)));
    CHECK_EQ(pbt::hex(buf.data(), buf.n), pbt::hex(b.bytes()));
    BitStreamReader r(buf.data(), b.size(), BitsTag());
    r.setBitPosition(start);
    UInt<N> ru;
    Int<N> rs;
    detail::read(r, ru);
    detail::read(r, rs);
    CHECK_EQ(static_cast<uint64_t>(static_cast<typename UInt<N>::ValueType>(ru)), u);
    CHECK_EQ(static_cast<int64_t>(static_cast<typename Int<N>::ValueType>(rs)), s);
}
template <size_t... I>
static void typedDispatch(pbt::Gen& g, size_t n, std::index_sequence<I...>)
{
    using F = void (*)(pbt::Gen&);
    static const F f[] = {typedOne<I + 1>...};
    f[n](g);
}
SUBCHECK(typed_fields, 500000, 15000000,
        "typed write/read of fixed-width types of every width 1..64, signed and unsigned, at random offsets against the reference bits; non-trivial: width not a multiple of 8")
{
    size_t n = g.below(64);
    g.nontrivial((n + 1) % 8 != 0);
    g.note("width " + std::to_string(n + 1));
    typedDispatch(g, n, std::make_index_sequence<64>());
}
template <class T>
static void dynOne(pbt::Gen& g)
{
    using V = typename T::ValueType;
    unsigned n = 1 + static_cast<unsigned>(g.edge(sizeof(V) * 8 - 1));
    ref::Bits b;
    size_t start = g.edge(20);
    for (size_t i = 0; i < start; ++i) b.put(0, 1);
    V v = std::is_signed_v<V> ? static_cast<V>(g.sbits(n)) : static_cast<V>(g.ubits(n));
    b.put(static_cast<uint64_t>(v), n);
    ref::ExactBuf buf((b.size() + 7) / 8, 0);
    BitStreamWriter w(buf.data(), b.size(), BitsTag());
    w.setBitPosition(start);
    detail::write(w, T(v), static_cast<uint8_t>(n));
    CHECK_EQ(pbt::hex(buf.data(), buf.n), pbt::hex(b.bytes()));
    BitStreamReader r(buf.data(), b.size(), BitsTag());
    r.setBitPosition(start);
    T rv;
    detail::read(r, rv, static_cast<uint8_t>(n));
    CHECK_EQ(static_cast<V>(rv), v);
}
SUBCHECK(typed_dynamic, 300000, 10000000, "typed write/read of dynamic-width types with a run-time width; non-trivial: always")
{
    g.nontrivial();
    switch (g.draw(7))
    {
    case 0: dynOne<DynInt8>(g); break;
    case 1: dynOne<DynInt16>(g); break;
    case 2: dynOne<DynInt32>(g); break;
    case 3: dynOne<DynInt64>(g); break;
    case 4: dynOne<DynUInt8>(g); break;
    case 5: dynOne<DynUInt16>(g); break;
    case 6: dynOne<DynUInt32>(g); break;
    default: dynOne<DynUInt64>(g); break;
    }
}
