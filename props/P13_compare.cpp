#include <memory_resource>
#include <optional>
#include <variant>
#include "schema.h"
#include "testobj.h"
#include "zserio/Extended.h"
#include "zserio/Optional.h"
#include "zserio/SerializeUtil.h"
#include "zserio/Variant.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

using namespace zserio;
using StdA = std::allocator<uint8_t>;

namespace
{
// laws over all pairs and triples of the given values; six operators
template <class T>
void laws(const std::vector<const T*>& v, const char* what)
{
    const size_t n = v.size();
    for (size_t i = 0; i < n; ++i)
    {
        const T& a = *v[i];
        CHECKM(a == a && !(a != a), what);
        CHECKM(!(a < a) && !(a > a) && a <= a && a >= a, what);
        for (size_t j = 0; j < n; ++j)
        {
            const T& b = *v[j];
            const bool eq = a == b, lt = a < b, gt = b < a;
            CHECKM(eq == (b == a), what);
            CHECKM((a != b) == !eq, what);
            CHECKM(static_cast<int>(eq) + static_cast<int>(lt) + static_cast<int>(gt) == 1, what << " trichotomy eq=" << eq << " lt=" << lt << " gt=" << gt);
            CHECKM((a > b) == gt, what);
            CHECKM((a <= b) == (lt || eq), what);
            CHECKM((a >= b) == (gt || eq), what);
            for (size_t k = 0; k < n; ++k)
            {
                const T& c = *v[k];
                if (eq && b == c) CHECKM(a == c, what);
                if (lt && b < c) CHECKM(a < c, what);
                if (eq && b < c) CHECKM(a < c, what);
                if (lt && b == c) CHECKM(a < c, what);
            }
        }
    }
}
template <class T>
void hashLaws(const std::vector<const T*>& v, const char* what)
{
    for (auto a : v)
        for (auto b : v)
            if (*a == *b) CHECK_EQM(std::hash<T>()(*a), std::hash<T>()(*b), what);
}
template <class T>
std::vector<const T*> ptrs(const std::vector<T>& v)
{
    std::vector<const T*> r;
    for (auto& e : v) r.push_back(&e);
    return r;
}
template <class T>
void allLaws(const std::vector<T>& v, const char* what)
{
    laws(ptrs(v), what);
    hashLaws(ptrs(v), what);
}
// comparison agrees with a model (any type with == and <) for every pair
template <class T, class M>
void agrees(const std::vector<T>& v, const std::vector<M>& m, const char* what)
{
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < v.size(); ++j)
        {
            CHECK_EQM(v[i] == v[j], m[i] == m[j], what);
            CHECK_EQM(v[i] < v[j], m[i] < m[j], what);
        }
}

// ---- single field mutations of the sample types: the result always differs ----
template <class S>
void changeText(pbt::Gen& g, S& s)
{
    switch (s.empty() ? 0 : g.below(3))
    {
    case 0: s.push_back(static_cast<char>('a' + g.below(26))); break;
    case 1: s.pop_back(); break;
    default: { size_t i = g.below(s.size()); s[i] = static_cast<char>(s[i] ^ (1 << g.below(7))); }
    }
}
template <class B>
void changeBits(pbt::Gen& g, B& b)
{
    if (b.getBitSize() > 0 && g.chance(2, 3))
    {
        size_t i = g.below(b.getBitSize());
        b.getBuffer()[i / 8] = static_cast<uint8_t>(b.getBuffer()[i / 8] ^ (0x80 >> (i % 8)));
    }
    else
    {
        auto v = b.getBytes();
        v.push_back(static_cast<uint8_t>(g.below(256)));
        b = B(std::move(v), b.getBitSize() + 1 + g.below(7));
    }
}
template <class V, class F, class MK>
void changeVec(pbt::Gen& g, V& v, F&& change, MK&& make)
{
    switch (v.empty() ? 0 : g.below(3))
    {
    case 0: v.insert(v.begin() + static_cast<ptrdiff_t>(g.below(v.size() + 1)), make()); break;
    case 1: v.erase(v.begin() + static_cast<ptrdiff_t>(g.below(v.size()))); break;
    default: change(v[g.below(v.size())]);
    }
}
template <class N>
void mutCNest(pbt::Gen& g, typename N::CNest& d)
{
    switch (g.below(6))
    {
    case 0: d.value = static_cast<uint32_t>(d.value) ^ (1U << g.below(32)); break;
    case 1: changeText(g, d.text); break;
    case 2: changeBits(g, d.externData); break;
    case 3: changeVec(g, d.bytesData, [&](auto& b) { b = static_cast<uint8_t>(b ^ (1 << g.below(8))); }, [&] { return static_cast<uint8_t>(g.below(256)); }); break;
    case 4:
    {
        auto& vals = zserio::EnumTraits<typename N::CEnum>::values;
        size_t o = zserio::enumToOrdinal(d.creatorEnum);
        d.creatorEnum = vals[(o + 1 + g.below(vals.size() - 1)) % vals.size()];
        break;
    }
    default: d.creatorBitmask = typename N::CMask(zserio::UInt8(static_cast<uint8_t>(static_cast<uint8_t>(d.creatorBitmask.getValue()) ^ (1 << g.below(2)))));
    }
}
template <class N>
void mutCObj(pbt::Gen& g, typename N::CObj& d, const typename N::Alloc& a)
{
    switch (g.below(9))
    {
    case 0: d.value = static_cast<uint32_t>(d.value) ^ (1U << g.below(32)); break;
    case 1: mutCNest<N>(g, d.nested); break;
    case 2: changeText(g, d.text); break;
    case 3: changeVec(g, d.nestedArray, [&](auto& e) { mutCNest<N>(g, e); }, [&] { return to::genCNest<N>(g, a); }); 
        break;
    case 4: changeVec(g, d.textArray, [&](auto& e) { changeText(g, e); }, [&] { return typename std::decay_t<decltype(d.textArray)>::value_type("#new", a); }); break;
    case 5:
        if (!d.externArray.has_value()) d.externArray.emplace();
        else if (g.flip() || d.externArray->empty()) d.externArray.reset();
        else changeBits(g, (*d.externArray)[g.below(d.externArray->size())]);
        break;
    case 6:
        if (!d.bytesArray.has_value()) d.bytesArray.emplace();
        else if (g.flip()) d.bytesArray.reset();
        else d.bytesArray->emplace_back();
        break;
    case 7:
        if (!d.optionalBool.has_value()) d.optionalBool = zserio::Bool(g.flip());
        else if (g.flip()) d.optionalBool.reset();
        else d.optionalBool = zserio::Bool(!*d.optionalBool);
        break;
    default:
        if (!d.optionalNested.has_value()) d.optionalNested = to::genCNest<N>(g, a);
        else if (g.flip()) d.optionalNested.reset();
        else mutCNest<N>(g, *d.optionalNested);
    }
}
template <class N>
void mutWUni(pbt::Gen& g, typename N::WUni& u, const typename N::Alloc& a)
{
    using Tag = typename N::WUni::Tag;
    if (g.chance(1, 3))
    {
        auto old = u.index();
        do u = to::genWUni<N>(g, a);
        while (u.index() == old && !g.exhausted());
        if (u.index() == old)
        {
            if (old == Tag::value) u.template emplace<Tag::text>();
            else u.template emplace<Tag::value>(0U);
        }
        return;
    }
    switch (u.index())
    {
    case Tag::value: { auto& x = u.template get<Tag::value>(); x = static_cast<uint32_t>(x) ^ (1U << g.below(32)); break; }
    case Tag::text: changeText(g, u.template get<Tag::text>()); break;
    default: changeVec(g, u.template get<Tag::nestedArray>(), [&](auto& e) { changeText(g, e.text); }, [&] { typename N::WNest w(a); to::genText(g, w.text, 4); return w; });
    }
}
template <class N>
void mutWObj(pbt::Gen& g, typename N::WObj& d, const typename N::Alloc& a)
{
    using Tag = typename N::WChc::Tag;
    switch (g.below(6))
    {
    case 0: d.identifier = static_cast<uint32_t>(d.identifier) ^ (1U << g.below(32)); break;
    case 1: if (d.nested.has_value()) { if (g.flip()) d.nested.reset(); else changeText(g, d.nested->text); } else d.nested.emplace(); break;
    case 2: changeText(g, d.text); break;
    case 3: changeVec(g, d.unionArray, [&](auto& e) { mutWUni<N>(g, e, a); }, [&] { return to::genWUni<N>(g, a); }); break;
    case 4:
        if (!d.optionalUnionArray.has_value()) d.optionalUnionArray.emplace();
        else if (g.flip()) d.optionalUnionArray.reset();
        else changeVec(g, *d.optionalUnionArray, [&](auto& e) { mutWUni<N>(g, e, a); }, [&] { return to::genWUni<N>(g, a); });
        break;
    default:
        if (d.choiceField.index() == Tag::value8) d.choiceField.template emplace<Tag::value16>(static_cast<uint16_t>(1));
        else d.choiceField.template emplace<Tag::value8>(static_cast<uint8_t>(g.below(256)));
    }
}
template <class N>
struct AllocOf
{
    std::pmr::monotonic_buffer_resource res;
    typename N::Alloc a() { return {}; }
};
// content-neutral rebuilding: copy, copy with allocator, moved copy, assigned
template <class T>
T rebuild(pbt::Gen& g, const T& d, const typename T::allocator_type& a)
{
    switch (g.below(5))
    {
    case 0: return T(d);
    case 1: return T(d, a);
    case 2: { T c(d); return T(std::move(c)); }
    case 3: { T c(d); return T(std::move(c), a); }
    default: { T c(a); c = d; return c; }
    }
}
template <class T, class... P>
void objectLaws(pbt::Gen& g, const std::vector<T>& v, bool bitsOracle, const char* what, P... params)
{
    allLaws(v, what);
    std::vector<View<T>> views;
    for (auto& d : v) views.emplace_back(d, params...);
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < v.size(); ++j)
        {
            if (v[i] == v[j])
            {
                CHECKM(views[i] == views[j], what);
                CHECK_EQM(std::hash<View<T>>()(views[i]), std::hash<View<T>>()(views[j]), what);
            }
            if (bitsOracle)
            {
                CHECK_EQM(views[i] == views[j], v[i] == v[j], what);
                CHECK_EQM(zserio::serialize(views[i]) == zserio::serialize(views[j]), v[i] == v[j], what);
            }
        }
    if (bitsOracle) allLaws(views, what);
    (void)g;
}
template <class N>
void sample(pbt::Gen& g)
{
    typename N::Alloc a{};
    const size_t n = 3;
    switch (g.below(5))
    {
    case 0:
    {
        std::vector<typename N::CObj> v;
        v.push_back(to::genCObj<N>(g, a));
        for (size_t i = 1; i < n; ++i)
        {
            auto c = rebuild(g, v[g.below(v.size())], a);
            CHECK(c == v[0] || i > 1);
            if (g.flip())
            {
                auto before = c;
                mutCObj<N>(g, c, a);
                CHECKM(!(c == before), "single change of CreatorObject");
                CHECK(c != before);
                g.nontrivial();
            }
            v.push_back(std::move(c));
        }
        objectLaws(g, v, true, "CreatorObject");
        break;
    }
    case 1:
    {
        std::vector<typename N::WObj> v;
        v.push_back(to::genWObj<N>(g, a));
        bool valid = true;
        for (size_t i = 1; i < n; ++i)
        {
            auto c = rebuild(g, v[g.below(v.size())], a);
            if (g.flip())
            {
                auto before = c;
                mutWObj<N>(g, c, a);
                CHECKM(!(c == before), "single change of WalkerObject");
                g.nontrivial();
                valid = false;
            }
            else if (g.flip()) c = to::genWObj<N>(g, a);
            v.push_back(std::move(c));
        }
        if (valid) objectLaws(g, v, true, "WalkerObject");
        else allLaws(v, "WalkerObject(unchecked)");
        break;
    }
    case 2:
    {
        std::vector<typename N::WUni> v;
        v.push_back(to::genWUni<N>(g, a));
        for (size_t i = 1; i < n; ++i)
        {
            auto c = rebuild(g, v[g.below(v.size())], a);
            if (g.flip())
            {
                auto before = c;
                mutWUni<N>(g, c, a);
                CHECKM(!(c == before), "single change of WalkerUnion");
                g.nontrivial();
            }
            v.push_back(std::move(c));
        }
        objectLaws(g, v, true, "WalkerUnion");
        break;
    }
    case 3:
    {
        std::vector<typename N::RObj> v;
        for (size_t i = 0; i < n; ++i)
        {
            if (!v.empty() && g.flip()) v.push_back(rebuild(g, v[g.below(v.size())], a));
            else v.push_back(to::genRObj<N>(g, a));
        }
        g.nontrivial(!(v[0] == v[1]));
        objectLaws(g, v, true, "ReflectableObject");
        break;
    }
    default:
    {
        std::vector<typename N::UUni> v;
        for (size_t i = 0; i < n; ++i)
        {
            if (!v.empty() && g.flip()) v.push_back(rebuild(g, v[g.below(v.size())], a));
            else v.push_back(to::genUUni<N>(g, a));
        }
        g.nontrivial(!(v[0] == v[1]));
        objectLaws(g, v, true, "ReflectableUtilUnion");
    }
    }
}
} // namespace

SUBCHECK(sample_objects, 40000, 1500000,
        "triples of sample generated objects in std/pmr/ppmr flavours derived from each other by copies and single-field changes: laws, hash, data/view/serialized-bits agreement; non-trivial: a field was changed")
{
    switch (g.below(3))
    {
    case 0: sample<to::Std>(g); break;
    case 1: sample<to::Pmr>(g); break;
    default: sample<to::Ppmr>(g); break;
    }
}

SUBCHECK(flavour_hash, 25000, 900000,
        "the same content in std, pmr and ppmr flavours hashes equally (data and view) and serializes equally; non-trivial: object with at least 200 bits")
{
    auto run = [&](auto data, auto pmr, auto ppmr) {
        using T = decltype(data);
        using P = decltype(pmr);
        using Q = decltype(ppmr);
        auto bits = zserio::serialize(data);
        g.nontrivial(bits.getBitSize() >= 200);
        auto bytes = zserio::serializeToBytes(data);
        Span<const uint8_t> span(bytes.data(), bytes.size());
        zserio::deserializeFromBytes(span, pmr);
        zserio::deserializeFromBytes(span, ppmr);
        CHECK_EQ(std::hash<T>()(data), std::hash<P>()(pmr));
        CHECK_EQ(std::hash<T>()(data), std::hash<Q>()(ppmr));
        CHECK_EQ(std::hash<View<T>>()(View<T>(data)), std::hash<View<P>>()(View<P>(pmr)));
        CHECK_EQ(std::hash<View<T>>()(View<T>(data)), std::hash<View<Q>>()(View<Q>(ppmr)));
        auto b2 = zserio::serializeToBytes(pmr);
        auto b3 = zserio::serializeToBytes(ppmr);
        CHECK(std::equal(b2.begin(), b2.end(), bytes.begin(), bytes.end()));
        CHECK(std::equal(b3.begin(), b3.end(), bytes.begin(), bytes.end()));
    };
    switch (g.below(5))
    {
    case 0: run(to::genCObj<to::Std>(g, {}), to::Pmr::CObj{}, to::Ppmr::CObj{}); break;
    case 1: run(to::genWObj<to::Std>(g, {}), to::Pmr::WObj{}, to::Ppmr::WObj{}); break;
    case 2: run(to::genWUni<to::Std>(g, {}), to::Pmr::WUni{}, to::Ppmr::WUni{}); break;
    case 3: run(to::genRObj<to::Std>(g, {}), to::Pmr::RObj{}, to::Ppmr::RObj{}); break;
    default: run(to::genUUni<to::Std>(g, {}), to::Pmr::UUni{}, to::Ppmr::UUni{}); break;
    }
}

SUBCHECK(param_views, 40000, 1500000,
        "views of parameterized types (different parameters over equal data, arrays with owners, dynamic bit fields) and schema unions: laws, parameter changes make views unequal; non-trivial: parameters differ")
{
    using A = StdA;
    switch (g.below(3))
    {
    case 0:
    {
        std::vector<sch::Inner<A>> data;
        std::vector<uint8_t> par;
        for (size_t i = 0; i < 3; ++i)
        {
            if (i > 0 && g.chance(2, 3)) data.push_back(data[g.below(i)]);
            else data.push_back(sch::genInner<A>(g, 1, A{}));
            par.push_back(static_cast<uint8_t>(1 + g.below(3)));
        }
        // floats compare by value, so NaN has to be left out
        std::vector<View<sch::Inner<A>>> v;
        for (size_t i = 0; i < 3; ++i) v.emplace_back(data[i], UInt8(par[i]));
        for (size_t i = 0; i < 3; ++i)
            for (size_t j = 0; j < 3; ++j)
            {
                CHECK_EQ(v[i] == v[j], par[i] == par[j] && data[i] == data[j]);
                if (v[i] == v[j]) CHECK_EQ(std::hash<View<sch::Inner<A>>>()(v[i]), std::hash<View<sch::Inner<A>>>()(v[j]));
                int rel = static_cast<int>(v[i] < v[j]) + static_cast<int>(v[j] < v[i]) + static_cast<int>(v[i] == v[j]);
                CHECK_EQ(rel, 1);
                for (size_t k = 0; k < 3; ++k) if (v[i] < v[j] && v[j] < v[k]) CHECK(v[i] < v[k]);
            }
        g.nontrivial(par[0] != par[1] || par[1] != par[2]);
        break;
    }
    case 1:
    {
        auto run = [&](auto tag) {
            using V = decltype(tag);
            using W = zserio::detail::DynIntWrapper<V>;
            std::vector<View<W>> v;
            std::vector<std::pair<uint8_t, V>> m;
            std::vector<W> data;
            for (size_t i = 0; i < 4; ++i) data.push_back(W(static_cast<V>(g.chance(2, 3) ? g.below(4) : g.integral<V>())));
            for (size_t i = 0; i < 4; ++i)
            {
                uint8_t b = static_cast<uint8_t>(1 + g.below(g.flip() ? 3 : sizeof(V) * 8));
                v.emplace_back(data[i], b);
                m.emplace_back(b, static_cast<V>(data[i]));
            }
            allLaws(v, "dynamic bit field view");
            for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 4; ++j) CHECK_EQ(v[i] == v[j], m[i] == m[j]);
            g.nontrivial(m[0] != m[1]);
        };
        switch (g.below(8))
        {
        case 0: run(uint8_t{}); break;
        case 1: run(int8_t{}); break;
        case 2: run(uint16_t{}); break;
        case 3: run(int16_t{}); break;
        case 4: run(uint32_t{}); break;
        case 5: run(int32_t{}); break;
        case 6: run(uint64_t{}); break;
        default: run(int64_t{}); break;
        }
        break;
    }
    default:
    {
        std::vector<sch::Uni<A>> v;
        for (size_t i = 0; i < 3; ++i)
        {
            if (i > 0 && g.flip()) v.push_back(v[g.below(i)]);
            else v.push_back(sch::genUni<A>(g, A{}));
        }
        for (size_t i = 0; i < 3; ++i)
            for (size_t j = 0; j < 3; ++j)
            {
                View<sch::Uni<A>> a(v[i]), b(v[j]);
                CHECK_EQ(a == b, v[i] == v[j]);
                if (v[i] == v[j]) CHECK_EQ(std::hash<sch::Uni<A>>()(v[i]), std::hash<sch::Uni<A>>()(v[j]));
                CHECK_EQ(static_cast<int>(v[i] < v[j]) + static_cast<int>(v[j] < v[i]) + static_cast<int>(v[i] == v[j]), 1);
                CHECK_EQ(static_cast<int>(a < b) + static_cast<int>(b < a) + static_cast<int>(a == b), 1);
            }
        g.nontrivial(!(v[0] == v[1]));
    }
    }
}

namespace
{
// one heap stored, one inline stored payload with the same meaning
struct Fat
{
    using allocator_type = StdA;
    int64_t pad[5] = {1, 2, 3, 4, 5};
    int x = 0;
    Fat() = default;
    explicit Fat(int v) : x(v) {}
    explicit Fat(const StdA&) {}
    Fat(int v, const StdA&) : x(v) {}
    Fat(const Fat&) = default;
    Fat(const Fat& o, const StdA&) : x(o.x) {}
    Fat(Fat&&) = default;
    Fat(Fat&& o, const StdA&) : x(o.x) {}
    Fat& operator=(const Fat&) = default;
    Fat& operator=(Fat&&) = default;
};
bool operator==(const Fat& a, const Fat& b) { return a.x == b.x; }
bool operator!=(const Fat& a, const Fat& b) { return a.x != b.x; }
bool operator<(const Fat& a, const Fat& b) { return a.x < b.x; }
bool operator>(const Fat& a, const Fat& b) { return a.x > b.x; }
bool operator<=(const Fat& a, const Fat& b) { return a.x <= b.x; }
bool operator>=(const Fat& a, const Fat& b) { return a.x >= b.x; }
} // namespace
namespace std
{
template <>
struct hash<Fat>
{
    size_t operator()(const Fat& f) const { return static_cast<size_t>(f.x); }
};
} // namespace std
namespace
{
template <class O, class MK, class M>
void optionalCase(pbt::Gen& g, MK make, M)
{
    using T = std::decay_t<decltype(*std::declval<O&>())>;
    std::vector<O> v;
    std::vector<std::optional<M>> m;
    std::vector<T> vals;
    for (size_t i = 0; i < 4; ++i)
    {
        M x{};
        T t = make(x);
        vals.push_back(t);
        if (g.chance(1, 3)) { v.emplace_back(); m.emplace_back(); }
        else { v.emplace_back(); v.back() = t; m.emplace_back(x); }
    }
    g.nontrivial(m[0].has_value() != m[1].has_value() || m[0] != m[1]);
    allLaws(v, "optional");
    agrees(v, m, "optional");
    for (size_t i = 0; i < 4; ++i)
    {
        const O& o = v[i];
        const bool has = m[i].has_value();
        CHECK_EQ(o == std::nullopt, !has);
        CHECK_EQ(std::nullopt == o, !has);
        CHECK_EQ(o != std::nullopt, has);
        CHECK_EQ(std::nullopt != o, has);
        CHECK_EQ(o < std::nullopt, false);
        CHECK_EQ(std::nullopt < o, has);
        CHECK_EQ(o <= std::nullopt, !has);
        CHECK_EQ(std::nullopt <= o, true);
        CHECK_EQ(o > std::nullopt, has);
        CHECK_EQ(std::nullopt > o, false);
        CHECK_EQ(o >= std::nullopt, true);
        CHECK_EQ(std::nullopt >= o, !has);
        for (size_t j = 0; j < 4; ++j)
        {
            // against a plain value: the same as against an optional holding it
            const T& t = vals[j];
            O h; h = t;
            CHECK_EQ(o == t, o == h);
            CHECK_EQ(t == o, h == o);
            CHECK_EQ(o != t, o != h);
            CHECK_EQ(t != o, h != o);
            CHECK_EQ(o < t, o < h);
            CHECK_EQ(t < o, h < o);
            CHECK_EQ(o > t, o > h);
            CHECK_EQ(t > o, h > o);
            CHECK_EQ(o <= t, o <= h);
            CHECK_EQ(t <= o, h <= o);
            CHECK_EQ(o >= t, o >= h);
            CHECK_EQ(t >= o, h >= o);
        }
    }
}
} // namespace

SUBCHECK(optionals, 60000, 2500000,
        "optionals (inline and heap stored, strings, vectors) against std::optional and against plain values and nullopt, all operator forms; non-trivial: presence or value differ")
{
    switch (g.below(5))
    {
    case 0: optionalCase<Optional<Int32>>(g, [&](int& m) { m = static_cast<int>(g.range(-2, 2)); return Int32(m); }, int{}); break;
    case 1: optionalCase<Optional<Fat>>(g, [&](int& m) { m = static_cast<int>(g.range(-2, 2)); return Fat(m); }, int{}); break;
    case 2: optionalCase<Optional<String>>(g, [&](std::string& m) { m = g.bytes(3); return String(m); }, std::string{}); break;
    case 3: optionalCase<Optional<BitBuffer>>(g, [&](std::pair<std::string, size_t>& m) {
        size_t bits = g.below(10);
        std::vector<uint8_t> d((bits + 7) / 8);
        for (auto& x : d) x = static_cast<uint8_t>(g.below(3));
        if (bits % 8) d.back() = static_cast<uint8_t>(d.back() & (0xFF << (8 - bits % 8)));
        m = {std::string(d.begin(), d.end()), bits};
        return BitBuffer(Vector<uint8_t>(d.begin(), d.end()), bits); }, std::pair<std::string, size_t>{});
        break;
    default: optionalCase<Optional<Vector<UInt8>>>(g, [&](std::vector<int>& m) {
        Vector<UInt8> t;
        for (size_t n = g.below(4); n > 0; --n) { t.push_back(UInt8(static_cast<uint8_t>(g.below(3)))); m.push_back(t.back()); }
        return t; }, std::vector<int>{});
    }
    // two optionals with different element type and storage
    {
        Optional<Int32> a;
        Optional<VarInt> b;
        std::optional<int> ma, mb;
        if (g.flip()) { ma = static_cast<int>(g.range(-2, 2)); a = Int32(*ma); }
        if (g.flip()) { mb = static_cast<int>(g.range(-2, 2)); b = VarInt(*mb); }
        CHECK_EQ(a == b, ma == mb);
        CHECK_EQ(a != b, ma != mb);
        CHECK_EQ(a < b, ma < mb);
        CHECK_EQ(a <= b, ma <= mb);
        CHECK_EQ(a > b, ma > mb);
        CHECK_EQ(a >= b, ma >= mb);
    }
}

namespace
{
enum class Ix : size_t { none, num, text, fat, list };
using Var = BasicVariant<StdA, Ix, std::monostate, Int32, String, Fat, Vector<UInt8>>;
using MVar = std::variant<std::monostate, int, std::string, Fat, std::vector<int>>;
} // namespace

SUBCHECK(variants, 60000, 2500000,
        "variants over inline and heap stored alternatives against std::variant, including moved-from ones: laws, hash; non-trivial: at least two different cases")
{
    std::vector<Var> v;
    std::vector<MVar> m;
    for (size_t i = 0; i < 4; ++i)
    {
        v.emplace_back();
        m.emplace_back();
        switch (g.below(5))
        {
        case 0: break;
        case 1: { int x = static_cast<int>(g.range(-1, 1)); v.back().emplace<Ix::num>(x); m.back().emplace<1>(x); break; }
        case 2: { std::string s = g.ascii(2); v.back().emplace<Ix::text>(s); m.back().emplace<2>(s); break; }
        case 3: { int x = static_cast<int>(g.range(-1, 1)); v.back().emplace<Ix::fat>(x); m.back().emplace<3>(x); break; }
        default:
        {
            auto& t = v.back().emplace<Ix::list>();
            auto& mt = m.back().emplace<4>();
            for (size_t n = g.below(3); n > 0; --n) { t.push_back(UInt8(static_cast<uint8_t>(g.below(2)))); mt.push_back(t.back()); }
        }
        }
    }
    g.nontrivial(m[0].index() != m[1].index());
    allLaws(v, "variant");
    agrees(v, m, "variant");
    if (g.chance(1, 4))
    {
        Var sink(std::move(v[0]));
        if (v[0].valueless_by_exception())
        {
            // a valueless variant is equal to itself and to nothing which holds a value
            CHECK(v[0] == v[0]);
            CHECK(!(v[0] != v[0]) && !(v[0] < v[0]) && v[0] <= v[0] && v[0] >= v[0]);
            CHECK(!(v[0] == sink) && v[0] != sink);
            CHECK((v[0] < sink) != (sink < v[0]));
        }
    }
}

SUBCHECK(extended, 60000, 2500000,
        "extended fields (present or not, any inner value) against a model where absent ones are all equal and lower: laws, hash; non-trivial: presence differs")
{
    auto run = [&](auto proto, auto make) {
        using T = decltype(proto);
        std::vector<Extended<T>> v;
        std::vector<std::optional<T>> m;
        for (size_t i = 0; i < 4; ++i)
        {
            T t = make();
            v.emplace_back(t);
            m.emplace_back(t);
            if (g.chance(1, 3)) { v.back().setPresent(false); m.back().reset(); }
        }
        allLaws(v, "extended");
        agrees(v, m, "extended");
        g.nontrivial(m[0].has_value() != m[1].has_value());
    };
    switch (g.below(4))
    {
    case 0: run(UInt32(), [&] { return UInt32(static_cast<uint32_t>(g.below(3))); }); break;
    case 1: run(String(), [&] { return String(g.ascii(2)); }); break;
    case 2: run(Optional<Int8>(), [&] { Optional<Int8> o; if (g.flip()) o = Int8(static_cast<int8_t>(g.below(2))); return o; }); break;
    default: run(Float32(), [&] { return Float32(g.pick<float>({0.0F, -0.0F, 1.0F, -1.0F})); }); break;
    }
}

SUBCHECK(sequences, 60000, 2500000,
        "array views, byte views, strings and bit buffer views against lexicographic models; equal views of different storage hash equally; non-trivial: a common prefix of at least 1")
{
    using T = Int16;
    std::vector<Vector<T>> d;
    std::vector<std::vector<int>> m;
    for (size_t i = 0; i < 4; ++i)
    {
        Vector<T> x;
        if (i > 0 && g.flip()) x = d[g.below(i)];
        if (g.flip()) for (size_t n = g.below(4); n > 0; --n) x.push_back(T(static_cast<int16_t>(g.range(-1, 1))));
        if (!x.empty() && g.flip()) x.pop_back();
        d.push_back(x);
        m.emplace_back();
        for (auto e : x) m.back().push_back(e);
    }
    g.nontrivial(!m[0].empty() && !m[1].empty() && m[0][0] == m[1][0]);
    std::vector<ArrayView<const T>> v;
    for (auto& x : d) v.emplace_back(x);
    laws(ptrs(v), "array view");
    agrees(v, m, "array view");
    for (size_t i = 0; i < 4; ++i)
        for (size_t j = 0; j < 4; ++j)
            if (v[i] == v[j]) CHECK_EQ(calcHashCode(HASH_SEED, v[i]), calcHashCode(HASH_SEED, v[j]));
    for (size_t i = 0; i < 4; ++i) CHECK_EQ(calcHashCode(HASH_SEED, v[i]), calcHashCode(HASH_SEED, d[i]));
    // bytes and strings
    std::vector<std::string> s;
    for (size_t i = 0; i < 4; ++i)
    {
        std::string x;
        if (i > 0 && g.flip()) x = s[g.below(i)];
        x += g.bytes(3);
        if (!x.empty() && g.flip()) x.pop_back();
        s.push_back(x);
    }
    std::vector<Bytes> b;
    std::vector<std::vector<uint8_t>> bm;
    for (auto& x : s) { b.emplace_back(x.begin(), x.end()); bm.emplace_back(x.begin(), x.end()); }
    std::vector<BytesView> bv;
    for (auto& x : b) bv.emplace_back(x);
    for (size_t i = 0; i < 4; ++i)
        for (size_t j = 0; j < 4; ++j)
        {
            CHECK_EQ(bv[i] == bv[j], bm[i] == bm[j]);
            CHECK_EQ(bv[i] != bv[j], bm[i] != bm[j]);
            CHECK_EQ(bv[i] < bv[j], bm[i] < bm[j]);
            CHECK_EQ(bv[i] > bv[j], bm[i] > bm[j]);
            CHECK_EQ(bv[i] <= bv[j], bm[i] <= bm[j]);
            CHECK_EQ(bv[i] >= bv[j], bm[i] >= bm[j]);
            if (bm[i] == bm[j]) CHECK_EQ(calcHashCode(HASH_SEED, bv[i]), calcHashCode(HASH_SEED, bv[j]));
        }
    for (size_t i = 0; i < 4; ++i)
    {
        CHECK_EQ(calcHashCode(HASH_SEED, bv[i]), calcHashCode(HASH_SEED, b[i]));
        String zs(s[i].begin(), s[i].end());
        pmr::String ps(s[i].begin(), s[i].end());
        CHECK_EQ(calcHashCode(HASH_SEED, zs), calcHashCode(HASH_SEED, std::string_view(s[i])));
        CHECK_EQ(calcHashCode(HASH_SEED, zs), calcHashCode(HASH_SEED, ps));
        BitBuffer bb{Vector<uint8_t>(b[i])};
        BitBufferView bbv(bb);
        CHECK_EQ(std::hash<BitBuffer>()(bb), std::hash<BitBufferView>()(bbv));
        BitBuffer bb2(Span<const uint8_t>(b[i].data(), b[i].size()));
        BitBufferView bbv2(bb2);
        CHECK(bbv == bbv2 && !(bbv != bbv2) && !(bbv < bbv2) && bbv <= bbv2 && bbv >= bbv2 && !(bbv > bbv2));
        CHECK_EQ(std::hash<BitBufferView>()(bbv2), std::hash<BitBufferView>()(bbv));
    }
    // the hash of a sequence depends on the order and on every element (folding with the seed, no shortcuts)
    CHECK_EQ(calcHashCode(HASH_SEED, Bool(true)), calcHashCode(HASH_SEED, true));
}
