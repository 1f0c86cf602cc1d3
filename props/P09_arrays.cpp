#include "arrcase.h"
#include "zserio/ArrayLengthException.h"
#include "zserio/OutOfRangeException.h"

using namespace el;
using zserio::detail::ArrayType;

namespace
{
template <class E>
std::string showVec(const zserio::Vector<typename E::T>& v)
{
    return E::name() + "x" + std::to_string(v.size());
}
} // namespace

SUBCHECK(round_trip, 400000, 12000000,
        "array of one of 48 element types and one of 5 array kinds at a random bit position: reference bits, read back, truncation; non-trivial: >=2 elements at an unaligned start")
{
    ArrCase c = genCase(g, 0);
    const size_t start = g.edge(g.chance(1, 5) ? 90 : 8);
    g.nontrivial(c.n >= 2 && start % 8 != 0);
    c.validate();
    Bits expected = c.expected(start);
    CHECK_EQ(c.bitSize(start), expected.size());
    // junk follows the array unless it is implicit
    const size_t slack = c.kind == IMPLICIT ? g.below(c.elemBits) : g.below(20);
    const size_t total = start + expected.size() + slack;
    ref::ExactBuf buf((total + 7) / 8);
    {
        zserio::BitStreamWriter w(buf.data(), total, zserio::BitsTag());
        w.setBitPosition(start);
        c.write(w);
        CHECK_EQ(w.getBitPosition(), start + expected.size());
        for (size_t i = 0; i < expected.size(); ++i)
            CHECKM(ref::bitAt(buf.data(), start + i) == expected.b[i], "bit " << i << " of " << expected.size());
        for (size_t i = 0; i < slack; ++i) if (g.flip()) { size_t k = start + expected.size() + i; buf.data()[k / 8] = static_cast<uint8_t>(buf.data()[k / 8] | (1U << (7 - k % 8))); }
    }
    auto limit = g.flip() ? zserio::ArrayPreallocation() : zserio::ArrayPreallocation(g.edge(200));
    zserio::BitStreamReader r(buf.data(), total, zserio::BitsTag(), limit);
    r.setBitPosition(start);
    if (g.flip()) c.prefill(g.below(8));
    c.read(r, c.n);
    CHECK_EQ(c.backSize(), c.n);
    CHECK(c.equal());
    CHECK_EQ(r.getBitPosition(), start + expected.size());
    // cut anywhere before the end: must fail (non implicit)
    if (c.kind != IMPLICIT && expected.size() > 0)
    {
        size_t cut = start + g.below(expected.size());
        ref::ExactBuf shortBuf((cut + 7) / 8);
        memcpy(shortBuf.data(), buf.data(), (cut + 7) / 8);
        zserio::BitStreamReader r2(shortBuf.data(), cut, zserio::BitsTag());
        r2.setBitPosition(start);
        CHECK_THROWS(zserio::CppRuntimeException, c.read(r2, c.n));
    }
}

SUBCHECK(long_arrays, 300, 20000,
        "arrays with lengths around the length prefix width changes (127/128, 16383/16384, ...), bytes and strings too; non-trivial: length >= 128")
{
    size_t n = g.pick<size_t>({126, 127, 128, 129, 255, 256, 1000, 16383, 16384, 16385, 40000, 65534, 65535}) + g.below(3);
    g.nontrivial(n >= 128);
    size_t start = g.below(9);
    auto run = [&](auto e, auto make) {
        using E = decltype(e);
        zserio::Vector<typename E::T> v;
        for (size_t i = 0; i < n; ++i) v.push_back(make(i));
        Bits ex = refArray<E>(v, 0, start, true, false);
        auto view = makeView<E>(v, 0);
        CHECK_EQ(zserio::detail::bitSizeOf<ArrayType::AUTO>(view, static_cast<zserio::BitSize>(start)), ex.size());
        ref::ExactBuf buf((start + ex.size() + 7) / 8);
        zserio::BitStreamWriter w(buf.data(), start + ex.size(), zserio::BitsTag());
        w.setBitPosition(start);
        zserio::detail::write<ArrayType::AUTO>(w, view);
        CHECK_EQ(w.getBitPosition(), start + ex.size());
        for (size_t i = 0; i < ex.size(); ++i) CHECKM(ref::bitAt(buf.data(), start + i) == ex.b[i], "bit " << i);
        zserio::BitStreamReader r(buf.data(), start + ex.size(), zserio::BitsTag());
        r.setBitPosition(start);
        zserio::Vector<typename E::T> back;
        zserio::detail::read<ArrayType::AUTO>(r, back);
        CHECK(back == v);
    };
    uint64_t salt = g.ubits(16);
    switch (g.below(4))
    {
    case 0: run(IntE<3, false>{}, [&](size_t i) { return zserio::UInt3(static_cast<uint8_t>((i + salt) % 8)); }); break;
    case 1: run(IntE<8, true>{}, [&](size_t i) { return zserio::Int8(static_cast<int8_t>(i * salt)); }); break;
    case 2: run(BoolE{}, [&](size_t i) { return zserio::Bool(((i * salt) >> 3) & 1); }); break;
    default: run(VarE<zserio::VarUInt16, ref::VARUINT16>{}, [&](size_t i) { return zserio::VarUInt16(static_cast<uint16_t>((i * salt) & 0x7FFF)); }); break;
    }
}

SUBCHECK(validation, 60000, 2000000,
        "valid array with the declared length is accepted, wrong length or one out-of-range element rejected; non-trivial: a defect was injected")
{
    size_t k = g.below(6);
    auto body = [&](auto e, auto bad, bool canBeBad) {
        using E = decltype(e);
        uint8_t p = genParam<E>(g);
        auto v = genVec<E>(g, p, 12);
        auto view = makeView<E>(v, p);
        size_t len = v.size();
        g.note(showVec<E>(v));
        zserio::detail::validate<ArrayType::NORMAL>(view, "f", len);
        zserio::detail::validate<ArrayType::ALIGNED>(view, "f", len);
        zserio::detail::validate<ArrayType::AUTO>(view, "f");
        zserio::detail::validate<ArrayType::ALIGNED_AUTO>(view, "f");
        size_t wrong = g.flip() ? len + 1 + g.size(100) : (len ? len - 1 - g.below(len) : 1);
        CHECK_THROWS(zserio::ArrayLengthException, zserio::detail::validate<ArrayType::NORMAL>(view, "f", wrong));
        CHECK_THROWS(zserio::ArrayLengthException, zserio::detail::validate<ArrayType::ALIGNED>(view, "f", wrong));
        if (!v.empty() && canBeBad && p != 32)
        {
            g.nontrivial();
            size_t at = g.below(v.size());
            v[at] = bad(p);
            auto view2 = makeView<E>(v, p);
            CHECK_THROWS(zserio::OutOfRangeException, zserio::detail::validate<ArrayType::NORMAL>(view2, "f", len));
            CHECK_THROWS(zserio::OutOfRangeException, zserio::detail::validate<ArrayType::ALIGNED>(view2, "f", len));
            CHECK_THROWS(zserio::OutOfRangeException, zserio::detail::validate<ArrayType::AUTO>(view2, "f"));
            CHECK_THROWS(zserio::OutOfRangeException, zserio::detail::validate<ArrayType::ALIGNED_AUTO>(view2, "f"));
            CHECK_THROWS(zserio::OutOfRangeException, zserio::detail::validate<ArrayType::IMPLICIT>(view2, "f"));
        }
    };
    switch (k)
    {
    case 0: body(IntE<7, false>{}, [&](uint8_t) { return zserio::UInt7(static_cast<uint8_t>(128 + g.below(128))); }, true); break;
    case 1: body(IntE<27, true>{}, [&](uint8_t) { return zserio::detail::FixedIntWrapper<27, true>(static_cast<int32_t>(g.flip() ? (1 << 26) + static_cast<int>(g.size(1000)) : -(1 << 26) - 1 - static_cast<int>(g.size(1000)))); }, true); break;
    case 2: body(VarE<zserio::VarUInt16, ref::VARUINT16>{}, [&](uint8_t) { return zserio::VarUInt16(static_cast<uint16_t>(32768 + g.size(32767))); }, true); break;
    case 3: body(DynE<zserio::DynUInt32>{}, [&](uint8_t p) { return zserio::DynUInt32(static_cast<uint32_t>(1ULL << (p % 32))); }, true); break;
    case 4: body(PermE{}, [&](uint8_t) { return sch::Perm(zserio::UInt3(static_cast<uint8_t>(8 + g.below(248)))); }, true); break;
    default: body(VarE<zserio::VarSize, ref::VARSIZE>{}, [&](uint8_t) { return zserio::VarSize(0x80000000U + static_cast<uint32_t>(g.size(1000000))); }, true); break;
    }
}

SUBCHECK(view_model, 60000, 2500000,
        "array view operations (size, at, [], front/back, forward/reverse iteration, iterator arithmetic and comparison, relational operators) against a vector model; non-trivial: >=3 elements")
{
    using T = zserio::Int16;
    zserio::Vector<T> v;
    size_t n = g.size(12);
    for (size_t i = 0; i < n; ++i) v.push_back(T(static_cast<int16_t>(g.range(-3, 3))));
    g.nontrivial(n >= 3);
    zserio::ArrayView<const T> a{zserio::Span<const T>(v)};
    CHECK_EQ(a.size(), n);
    CHECK_EQ(a.empty(), n == 0);
    CHECK(a.zserioData().data() == v.data());
    for (size_t i = 0; i < n; ++i)
    {
        CHECK(a[i] == v[i]);
        CHECK(a.at(i) == v[i]);
        CHECK(a.begin()[static_cast<ptrdiff_t>(i)] == v[i]);
        CHECK(*(a.begin() + static_cast<ptrdiff_t>(i)) == v[i]);
        CHECK(*(static_cast<ptrdiff_t>(i) + a.begin()) == v[i]);
        CHECK(*(a.end() - static_cast<ptrdiff_t>(n - i)) == v[i]);
    }
    size_t bad = n + g.edge(UINT64_MAX - n);
    CHECK_THROWS(zserio::CppRuntimeException, a.at(bad));
    if (n) { CHECK(a.front() == v.front()); CHECK(a.back() == v.back()); }
    else { CHECK_THROWS(zserio::CppRuntimeException, a.front()); CHECK_THROWS(zserio::CppRuntimeException, a.back()); }
    {
        size_t i = 0;
        for (auto x : a) { CHECK(i < n); CHECK(x == v[i]); ++i; }
        CHECK_EQ(i, n);
        i = n;
        for (auto it = a.rbegin(); it != a.rend(); ++it) { CHECK(i > 0); CHECK(*it == v[i - 1]); --i; }
        CHECK_EQ(i, size_t(0));
        zserio::Vector<T> c(a.begin(), a.end());
        CHECK(c == v);
        zserio::Vector<T> rc(a.crbegin(), a.crend());
        CHECK((rc == zserio::Vector<T>(v.rbegin(), v.rend())));
        CHECK_EQ(std::distance(a.cbegin(), a.cend()), static_cast<ptrdiff_t>(n));
    }
    // iterator walk against an index
    auto it = a.begin();
    ptrdiff_t pos = 0;
    size_t steps = g.size(12);
    for (size_t s = 0; s < steps; ++s)
    {
        ptrdiff_t d = 0;
        switch (g.below(6))
        {
        case 0: if (pos < static_cast<ptrdiff_t>(n)) { auto& r = ++it; CHECK(&r == &it); ++pos; } break;
        case 1: if (pos < static_cast<ptrdiff_t>(n)) { auto o = it++; CHECK(o - a.begin() == pos); ++pos; } break;
        case 2: if (pos > 0) { --it; --pos; } break;
        case 3: if (pos > 0) { auto o = it--; CHECK(o - a.begin() == pos); --pos; } break;
        case 4: d = g.range(-pos, static_cast<int64_t>(n) - pos); it += d; pos += d; break;
        default: d = g.range(-pos, static_cast<int64_t>(n) - pos); it -= -d; pos += d; break;
        }
        CHECK_EQ(it - a.begin(), pos);
        CHECK_EQ(a.end() - it, static_cast<ptrdiff_t>(n) - pos);
        if (pos < static_cast<ptrdiff_t>(n)) { CHECK(*it == v[static_cast<size_t>(pos)]); }
        ptrdiff_t q = g.range(0, static_cast<int64_t>(n));
        auto other = a.begin() + q;
        // every way from here to there, in both directions
        CHECK(it + (q - pos) == other && (q - pos) + it == other && it - (pos - q) == other);
        CHECK_EQ(other - it, q - pos);
        if (q < static_cast<ptrdiff_t>(n))
        {
            CHECK(it[q - pos] == v[static_cast<size_t>(q)]);
            CHECK(*((q - pos) + it) == v[static_cast<size_t>(q)]);
        }
        CHECK_EQ(it == other, pos == q);
        CHECK_EQ(it != other, pos != q);
        CHECK_EQ(it < other, pos < q);
        CHECK_EQ(it <= other, pos <= q);
        CHECK_EQ(it > other, pos > q);
        CHECK_EQ(it >= other, pos >= q);
    }
    // relational operators are those of the sequences
    zserio::Vector<T> w = v;
    if (g.flip() && !w.empty()) w[g.below(w.size())] = T(static_cast<int16_t>(g.range(-3, 3)));
    if (g.chance(1, 3)) w.push_back(T(static_cast<int16_t>(g.range(-3, 3))));
    else if (g.chance(1, 3) && !w.empty()) w.pop_back();
    zserio::ArrayView<const T> b{zserio::Span<const T>(w)};
    CHECK_EQ(a == b, v == w);
    CHECK_EQ(a != b, v != w);
    CHECK_EQ(a < b, v < w);
    CHECK_EQ(a <= b, v <= w);
    CHECK_EQ(a > b, v > w);
    CHECK_EQ(a >= b, v >= w);
    CHECK_EQ(b < a, w < v);
    if (v == w) CHECK_EQ(zserio::calcHashCode(zserio::HASH_SEED, a), zserio::calcHashCode(zserio::HASH_SEED, b));
}

SUBCHECK(object_views, 20000, 800000,
        "views of object arrays with parameters give the element at each index with its owner's parameter; non-trivial: >=2 elements")
{
    uint8_t p = static_cast<uint8_t>(1 + g.below(32));
    auto v = genVec<InnerE>(g, p, 6);
    g.nontrivial(v.size() >= 2);
    auto a = makeView<InnerE>(v, p);
    size_t i = 0;
    for (auto x : a)
    {
        CHECK(&x.zserioData() == &v[i]);
        CHECK_EQ(static_cast<uint8_t>(x.len()), p);
        CHECK(&a.at(i).zserioData() == &v[i]);
        CHECK(a.begin()[static_cast<ptrdiff_t>(i)] == a[i]);
        CHECK_EQ(static_cast<uint8_t>((a.begin() + static_cast<ptrdiff_t>(i))->len()), p);
        ++i;
    }
    CHECK_EQ(i, v.size());
    auto w = v;
    auto b = makeView<InnerE>(w, p);
    CHECK(a == b);
    CHECK(!(a < b) && !(b < a));
    if (!w.empty())
    {
        size_t k = g.below(w.size());
        w[k].vi = static_cast<int32_t>(w[k].vi) + 1;
        CHECK(a != b);
        CHECK(a < b && b > a && a <= b && !(a >= b));
        if (p < 32) { auto c = makeView<InnerE>(v, static_cast<uint8_t>(p + 1)); CHECK(a != c); CHECK(a < c); }
    }
}

namespace
{
template <class S, class It>
void sameSeq(const S& s, It b, size_t n)
{
    CHECK_EQ(s.size(), n);
    CHECK_EQ(s.empty(), n == 0);
    CHECK_EQ(s.size_bytes(), n * sizeof(int));
    CHECK_EQ(static_cast<size_t>(s.end() - s.begin()), n);
    if (n)
    {
        CHECK(&s.front() == &*b);
        CHECK(&s.back() == &*(b + static_cast<ptrdiff_t>(n) - 1));
        CHECK(s.data() == &*b);
    }
    size_t i = n;
    for (auto it = s.rbegin(); it != s.rend(); ++it) { CHECK(i > 0); --i; CHECK(&*it == &*(b + static_cast<ptrdiff_t>(i))); }
    CHECK_EQ(i, size_t(0));
    for (i = 0; i < n; ++i) CHECK(&s[i] == &*(b + static_cast<ptrdiff_t>(i)));
}
} // namespace
SUBCHECK(span_model, 60000, 2000000,
        "spans (dynamic and fixed extent) and their sub-ranges refer to exactly the elements of the underlying memory; non-trivial: a proper sub-range")
{
    std::vector<int> v(g.size(20));
    for (auto& x : v) x = static_cast<int>(g.below(5));
    if (v.empty()) { zserio::Span<int> e; CHECK(e.empty() && e.size() == 0); v.resize(1); }
    zserio::Span<int> s(v);
    zserio::Span<const int> cs(static_cast<const std::vector<int>&>(v));
    zserio::Span<const int> conv(s);
    sameSeq(s, v.begin(), v.size());
    sameSeq(cs, v.cbegin(), v.size());
    sameSeq(conv, v.cbegin(), v.size());
    sameSeq(zserio::Span<int>(v.data(), v.data() + v.size()), v.begin(), v.size());
    size_t n = g.below(v.size() + 1);
    g.nontrivial(n > 0 && n < v.size());
    sameSeq(s.first(n), v.begin(), n);
    sameSeq(s.last(n), v.begin() + static_cast<ptrdiff_t>(v.size() - n), n);
    size_t off = g.below(v.size() + 1);
    sameSeq(s.subspan(off), v.begin() + static_cast<ptrdiff_t>(off), v.size() - off);
    size_t cnt = g.below(v.size() - off + 1);
    sameSeq(s.subspan(off, cnt), v.begin() + static_cast<ptrdiff_t>(off), cnt);
    if (v.size() >= 5)
    {
        sameSeq(s.first<3>(), v.begin(), 3);
        sameSeq(s.last<3>(), v.begin() + static_cast<ptrdiff_t>(v.size() - 3), 3);
        sameSeq(s.subspan<2>(), v.begin() + 2, v.size() - 2);
        sameSeq(s.subspan<1, 4>(), v.begin() + 1, 4);
        zserio::Span<int, 5> f(v.data(), 5);
        sameSeq(f, v.begin(), 5);
        sameSeq(f.first<2>(), v.begin(), 2);
        sameSeq(f.last<2>(), v.begin() + 3, 2);
        sameSeq(f.subspan<1>(), v.begin() + 1, 4);
        sameSeq(f.subspan<1, 2>(), v.begin() + 1, 2);
        sameSeq(f.subspan(1, 3), v.begin() + 1, 3);
        sameSeq(f.last(4), v.begin() + 1, 4);
        sameSeq(f.first(4), v.begin(), 4);
    }
    int carr[4] = {1, 2, 3, 4};
    sameSeq(zserio::Span<int>(carr), static_cast<int*>(carr), 4);
    sameSeq(zserio::Span<int, 4>(carr), static_cast<int*>(carr), 4);
    std::array<int, 3> sarr{{1, 2, 3}};
    sameSeq(zserio::Span<int>(sarr), sarr.begin(), 3);
    const std::array<int, 3>& csarr = sarr;
    sameSeq(zserio::Span<const int, 3>(csarr), csarr.begin(), 3);
}
