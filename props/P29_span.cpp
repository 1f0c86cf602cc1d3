// P29: a Span is exactly the sub-sequence it was made of. Oracle: address and length in an underlying buffer.
#include <array>
#include <memory_resource>
#include <numeric>
#include <utility>
#include <vector>

#include "pbt.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/Bytes.h"
#include "zserio/Span.h"

using zserio::Span;
constexpr size_t DYN = zserio::dynamic_extent;

namespace
{
struct Odd // size which is no power of two
{
    uint8_t b[3];
    bool operator==(const Odd& o) const { return b[0] == o.b[0] && b[1] == o.b[1] && b[2] == o.b[2]; }
    bool operator!=(const Odd& o) const { return !(*this == o); }
};
template <class T>
T make(pbt::Gen& g)
{
    if constexpr (std::is_same_v<T, std::string>) return g.ascii(20);
    else if constexpr (std::is_same_v<T, Odd>) return Odd{{g.integral<uint8_t>(), g.integral<uint8_t>(), g.integral<uint8_t>()}};
    else return g.integral<T>();
}

// everything observable of a span which has to cover n elements beginning at p
template <class T, size_t E>
void check(const Span<T, E>& s, T* p, size_t n, const char* w)
{
    using S = Span<T, E>;
    static_assert(S::extent == E);
    static_assert(std::is_same_v<typename S::element_type, T> && std::is_same_v<typename S::value_type, std::remove_cv_t<T>>);
    static_assert(std::is_same_v<typename S::reference, T&> && std::is_same_v<typename S::iterator, T*>);
    CHECK_EQM(s.size(), n, w);
    CHECKM(s.size_bytes() == n * sizeof(T) && s.empty() == (n == 0), w);
    CHECKM((n == 0 || s.data() == p), w << ": begins at another element");
    CHECKM(static_cast<size_t>(s.end() - s.begin()) == n && s.begin() == s.data() && s.end() == s.data() + n, w);
    size_t i = 0;
    for (T& e : s)
    {
        CHECKM(&e == p + i && &s[i] == p + i, w << " element " << i);
        ++i;
    }
    CHECK_EQM(i, n, w);
    i = 0;
    for (auto it = s.rbegin(); it != s.rend(); ++it)
    {
        ++i;
        CHECKM(&*it == p + (n - i), w << " reverse element " << i);
    }
    CHECK_EQM(i, n, w);
    if (n > 0) CHECKM(&s.front() == p && &s.back() == p + (n - 1), w << " front/back");
    const S copy(s);
    CHECKM(copy.data() == s.data() && copy.size() == n, w << " copy");
    S moved(std::move(const_cast<S&>(copy)));
    CHECKM(moved.data() == s.data() && moved.size() == n, w << " move");
    // conversions keep the range
    const Span<const T> c(s);
    CHECKM(c.size() == n && (n == 0 || c.data() == p), w << " const conversion");
    const Span<T> d(s);
    CHECKM(d.size() == n && (n == 0 || d.data() == p), w << " dynamic conversion");
    const Span<const T, E> ce(s);
    CHECKM(ce.size() == n && (n == 0 || ce.data() == p), w << " const conversion with the same extent");
}
template <class T>
using Ptr = T*;

// every static offset / count up to N on a span of n >= N elements
template <size_t Off, class T, size_t E, size_t... C>
void counts(const Span<T, E>& s, T* p, size_t n, std::index_sequence<C...>)
{
    (check(s.template subspan<Off, C>(), p + Off, C, "subspan<o, c>"), ...);
    if constexpr (E != DYN)
    {
        static_assert(std::is_same_v<decltype(s.template subspan<Off>()), Span<T, E - Off>>);
        static_assert(((decltype(s.template subspan<Off, C>())::extent == C) && ...));
    }
    else
    {
        static_assert(std::is_same_v<decltype(s.template subspan<Off>()), Span<T>>);
    }
    check(s.template subspan<Off>(), p + Off, n - Off, "subspan<o>");
}
template <size_t N, class T, size_t E, size_t... O>
void statics(const Span<T, E>& s, T* p, size_t n, std::index_sequence<O...>)
{
    (counts<O>(s, p, n, std::make_index_sequence<N - O + 1>()), ...);
    (check(s.template first<O>(), p, O, "first<c>"), ...);
    (check(s.template last<O>(), p + (n - O), O, "last<c>"), ...);
    static_assert(((decltype(s.template first<O>())::extent == O && decltype(s.template last<O>())::extent == O) && ...));
}
template <class T, size_t E>
void dynamics(pbt::Gen& g, const Span<T, E>& s, T* p, size_t n)
{
    const size_t c = g.below(n + 1);
    const size_t o = g.below(n + 1);
    const size_t oc = g.below(n - o + 1);
    check(s.first(c), p, c, "first(c)");
    check(s.last(c), p + (n - c), c, "last(c)");
    check(s.subspan(o), p + o, n - o, "subspan(o)");
    check(s.subspan(o, oc), p + o, oc, "subspan(o, c)");
    check(s.subspan(o, DYN), p + o, n - o, "subspan(o, dynamic)");
    check(s.first(0), p, 0, "first(0)");
    check(s.last(0), p + n, 0, "last(0)");
    check(s.first(n), p, n, "first(all)");
    check(s.last(n), p, n, "last(all)");
    check(s.subspan(n), p + n, 0, "subspan(end)");
}
template <class T, size_t N>
void fixed(pbt::Gen& g)
{
    std::array<T, N + 1> mem{}; // one more behind
    for (auto& e : mem) e = make<T>(g);
    const std::array<T, N + 1> before = mem;
    Span<T, N> s(mem.data(), N);
    check(s, mem.data(), N, "pointer, count");
    check(Span<T, N>(mem.data(), mem.data() + N), mem.data(), N, "pointer, pointer");
    check(Span<const T, N>(mem.data(), N), static_cast<const T*>(mem.data()), N, "const pointer, count");
    statics<N>(s, mem.data(), N, std::make_index_sequence<N + 1>());
    dynamics(g, s, mem.data(), N);
    dynamics(g, Span<const T, N>(s), static_cast<const T*>(mem.data()), N);
    if constexpr (N > 0)
    {
        std::array<T, N> a;
        std::copy_n(mem.begin(), N, a.begin());
        const std::array<T, N> ca = a;
        T raw[N];
        std::copy_n(mem.begin(), N, raw);
        check(Span<T, N>(a), a.data(), N, "array");
        check(Span<T>(a), a.data(), N, "array");
        check(Span<const T, N>(a), static_cast<const T*>(a.data()), N, "array");
        check(Span<const T, N>(ca), ca.data(), N, "const array");
        check(Span<const T>(ca), ca.data(), N, "const array");
        check(Span<T, N>(raw), raw, N, "C array");
        check(Span<T>(raw), raw, N, "C array");
        static_assert(std::is_same_v<decltype(Span(raw)), Span<T, N>> || std::is_same_v<decltype(Span(raw)), Span<T, DYN>>);
        // what does not fit has to be refused by the types
        static_assert(!std::is_constructible_v<Span<T, N>, std::array<T, N + 1>&>);
        static_assert(!std::is_constructible_v<Span<T>, const std::array<T, N>&>);
        static_assert(!std::is_convertible_v<Span<const T, N>, Span<T, N>>);
        static_assert(!std::is_convertible_v<Span<T, N + 1>, Span<T, N>>);
        // writes go to the underlying elements
        const size_t i = g.below(N);
        const T v = make<T>(g);
        s[i] = v;
        CHECK(mem[i] == v);
        for (size_t k = 0; k <= N; ++k)
            if (k != i) CHECK(mem[k] == before[k]);
        Span<T, N> other(a);
        other = s;
        check(other, mem.data(), N, "assigned");
    }
    else
    {
        check(Span<T, 0>(), static_cast<T*>(nullptr), 0, "default");
    }
}
template <class T>
void one(pbt::Gen& g)
{
    switch (g.below(7))
    {
    case 0: fixed<T, 0>(g); break;
    case 1: fixed<T, 1>(g); break;
    case 2: fixed<T, 2>(g); break;
    case 3: fixed<T, 3>(g); break;
    case 4: fixed<T, 5>(g); break;
    case 5: fixed<T, 8>(g); break;
    default: fixed<T, 11>(g); break;
    }
}
SUBCHECK(static_extent, 150000, 2000000, "spans of a static extent (0, 1, 2, 3, 5, 8, 11; four element types) over generated arrays: all constructors and conversions, every static first / last / subspan, generated dynamic ones: address, length, elements, both iteration directions, write through; non-trivial: always")
{
    g.nontrivial();
    switch (g.below(4))
    {
    case 0: one<uint8_t>(g); break;
    case 1: one<uint64_t>(g); break;
    case 2: one<Odd>(g); break;
    default: one<std::string>(g); break;
    }
}

template <class T, class V>
void chain(pbt::Gen& g)
{
    std::pmr::monotonic_buffer_resource mr;
    V v = [&] {
        if constexpr (std::is_constructible_v<V, std::pmr::polymorphic_allocator<T>> && !std::is_same_v<typename V::allocator_type, std::allocator<T>>) return V(std::pmr::polymorphic_allocator<T>(&mr));
        else return V();
    }();
    const size_t n = g.size(60);
    for (size_t i = 0; i < n; ++i) v.push_back(make<T>(g));
    const V before(v);
    Span<T> s(v);
    const Span<const T> cs(v);
    const V& cv = v;
    check(s, v.data(), n, "vector");
    check(cs, static_cast<const T*>(v.data()), n, "const span of a vector");
    check(Span<const T>(cv), cv.data(), n, "const vector");
    static_assert(!std::is_constructible_v<Span<T>, const V&>);
    static_assert(!std::is_constructible_v<Span<T, 3>, V&>);
    static_assert(!std::is_convertible_v<Span<const T>, Span<T>>);
    if (n >= 4) statics<4>(s, v.data(), n, std::make_index_sequence<5>());
    size_t off = 0;
    size_t len = n;
    const size_t steps = g.below(8);
    for (size_t i = 0; i < steps; ++i)
    {
        dynamics(g, s, v.data() + off, len);
        switch (g.below(4))
        {
        case 0: {
            const size_t c = g.below(len + 1);
            s = s.first(c);
            len = c;
            break;
        }
        case 1: {
            const size_t c = g.below(len + 1);
            s = s.last(c);
            off += len - c;
            len = c;
            break;
        }
        case 2: {
            const size_t o = g.below(len + 1);
            s = s.subspan(o);
            off += o;
            len -= o;
            break;
        }
        default: {
            const size_t o = g.below(len + 1);
            const size_t c = g.below(len - o + 1);
            s = s.subspan(o, c);
            off += o;
            len = c;
        }
        }
        g.note("[" + std::to_string(off) + ", " + std::to_string(off + len) + ") of " + std::to_string(n));
        check(s, v.data() + off, len, "after a step");
    }
    g.nontrivial(steps > 0 && n > 0);
    CHECKM(v == before, "elements changed");
    if (len > 0)
    {
        const size_t i = g.below(len);
        const T x = make<T>(g);
        s[i] = x;
        V want(before);
        want[off + i] = x;
        CHECKM(v == want, "write through the span");
    }
    Span<T> empty;
    check(empty, static_cast<T*>(nullptr), 0, "default");
    empty = s;
    check(empty, v.data() + off, len, "assigned");
}
SUBCHECK(dynamic_extent, 300000, 3000000, "chains of first / last / subspan on spans of generated vectors (std and pmr, four element types): after every step exactly the expected elements; non-trivial: at least one step on a non-empty vector")
{
    switch (g.below(6))
    {
    case 0: chain<uint8_t, std::vector<uint8_t>>(g); break;
    case 1: chain<uint64_t, std::vector<uint64_t>>(g); break;
    case 2: chain<Odd, std::vector<Odd>>(g); break;
    case 3: chain<std::string, std::vector<std::string>>(g); break;
    case 4: chain<uint16_t, std::pmr::vector<uint16_t>>(g); break;
    default: chain<int8_t, std::pmr::vector<int8_t>>(g); break;
    }
}

// Bytes views are spans with comparison; comparison is that of the sequences
SUBCHECK(bytes_view, 300000, 3000000, "BytesView over generated byte strings (with common prefixes): ==, !=, <, <=, >, >= follow the sequences, spans converted from and to; non-trivial: both non-empty")
{
    std::string a = g.bytes(12);
    std::string b = g.flip() ? a : g.bytes(12);
    if (g.flip() && !b.empty()) b.resize(g.below(b.size() + 1));
    if (g.flip() && !b.empty()) b[g.below(b.size())] = static_cast<char>(g.below(256));
    g.nontrivial(!a.empty() && !b.empty());
    const std::vector<uint8_t> va(a.begin(), a.end());
    const std::vector<uint8_t> vb(b.begin(), b.end());
    const zserio::BytesView x(va);
    const zserio::BytesView y(vb);
    CHECK_EQ(x == y, va == vb);
    CHECK_EQ(x != y, va != vb);
    CHECK_EQ(x < y, va < vb);
    CHECK_EQ(x > y, va > vb);
    CHECK_EQ(x <= y, va <= vb);
    CHECK_EQ(x >= y, va >= vb);
    const Span<const uint8_t> s(x);
    CHECK(s.size() == va.size() && (va.empty() || s.data() == va.data()));
    const zserio::BytesView back(s);
    CHECK(back == x);
    // a reader over a span sees exactly the span
    zserio::BitStreamReader r(s);
    for (size_t i = 0; i < va.size(); ++i) CHECK_EQ(r.readUnsignedBits32(8), static_cast<uint32_t>(va[i]));
    CHECK_EQ(r.getBitPosition(), va.size() * 8);
    bool thrown = false;
    try
    {
        (void)r.readBool();
    }
    catch (const zserio::CppRuntimeException&)
    {
        thrown = true;
    }
    CHECK(thrown);
}
} // namespace
