// Type erased objects over the types of refl.h and over the repository's sample types: generator, independent model
// (direct member access), reflection, introspection, typed equality. Registered from several translation units.
#pragma once
#include <algorithm>
#include <memory_resource>

#include "refl.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

namespace rf
{
template <class A> using Ptr = zserio::IBasicReflectableDataPtr<A>;
template <class A> using CPtr = zserio::IBasicReflectableDataConstPtr<A>;
template <class A> using VPtr = zserio::IBasicIntrospectableViewConstPtr<A>;
struct Opt2
{
    bool finite = true;     // no NaN / infinities
    bool nul = true;        // text may contain NUL
    size_t maxElems = 4;
    int depth = 0;
};

template <class T, class A>
T genT(pbt::Gen& g, const A& a, uint8_t par, const Opt2& o);

template <class T, class A>
Vec<A, T> genVec(pbt::Gen& g, const A& a, uint8_t par, Opt2 o)
{
    Vec<A, T> v{RebindAlloc<A, T>(a)};
    size_t max = o.depth > 2 ? 0 : IsCompound<T>::value ? std::min<size_t>(o.maxElems, 3) : o.maxElems;
    o.depth++;
    size_t n = max == 0 ? 0 : g.size(max);
    for (size_t i = 0; i < n; ++i) v.push_back(genT<T, A>(g, a, par, o));
    return v;
}
template <class T> struct IsRich : std::false_type {};
template <class A, class T> struct IsRich<Rich<A, T>> : std::true_type { using E = T; };
template <class T> struct IsUni : std::false_type {};
template <class A, class T> struct IsUni<RUni<A, T>> : std::true_type { using E = T; };
template <class T> struct IsChc : std::false_type {};
template <class A, class T> struct IsChc<RChc<A, T>> : std::true_type { using E = T; };
template <class T> struct IsTree : std::false_type {};
template <class A> struct IsTree<Tree<A>> : std::true_type {};

template <class A>
Str<A> genStr(pbt::Gen& g, const A& a, const Opt2& o)
{
    std::string s = g.utf8(10, o.nul);
    return Str<A>(s.data(), s.size(), RebindAlloc<A, char>(a));
}
template <class T, class A>
T genT(pbt::Gen& g, const A& a, uint8_t par, const Opt2& o)
{
    using namespace zserio;
    if constexpr (std::is_same_v<T, Bool>) return Bool(g.flip());
    else if constexpr (IsDyn<T>::value)
    {
        using V = typename T::ValueType;
        unsigned bits = dynBits<T>(UInt8(par));
        if constexpr (std::is_signed_v<V>) return T(static_cast<V>(g.sbits(bits)));
        else return T(static_cast<V>(g.ubits(bits)));
    }
    else if constexpr (std::is_same_v<T, Float16>) return T(static_cast<float>(ref::halfToDouble(static_cast<uint16_t>(g.ubits(16) & (o.finite ? 0xFBFF : 0xFFFF)))));
    else if constexpr (std::is_same_v<T, Float32>) return T(g.anyFloat(!o.finite));
    else if constexpr (std::is_same_v<T, Float64>) return T(g.anyDouble(!o.finite));
    else if constexpr (is_numeric_wrapper_v<T>)
    {
        using V = typename T::ValueType;
        return T(g.within<V>(static_cast<V>(NumericLimits<T>::min()), static_cast<V>(NumericLimits<T>::max())));
    }
    else if constexpr (std::is_enum_v<T>) return g.pick(std::vector<T>(EnumTraits<T>::values.begin(), EnumTraits<T>::values.end()));
    else if constexpr (is_bitmask_v<T>)
    {
        uint64_t v = 0;
        for (const auto& it : T::items()) if (g.flip()) v |= it.value;
        return T(typename T::ZserioType(static_cast<typename T::ZserioType::ValueType>(v)));
    }
    else if constexpr (IsStr<T>::value) return genStr<A>(g, a, o);
    else if constexpr (IsByt<T>::value)
    {
        std::string s = g.bytes(8);
        return T(s.begin(), s.end(), typename T::allocator_type(a));
    }
    else if constexpr (IsBits<T>::value)
    {
        size_t bits = g.size(30);
        typename T::allocator_type al(a);
        Vector<uint8_t, typename T::allocator_type> v((bits + 7) / 8, 0, al);
        for (auto& x : v) x = static_cast<uint8_t>(g.below(256));
        if (bits % 8) v.back() = static_cast<uint8_t>(v.back() & (0xFF << (8 - bits % 8)));
        return T(std::move(v), bits, al);
    }
    else if constexpr (IsRich<T>::value)
    {
        using E = typename IsRich<T>::E;
        T d(a);
        Opt2 in = o;
        in.depth++;
        d.v = genT<E, A>(g, a, par, in);
        if (g.flip()) d.o = genT<E, A>(g, a, par, in);
        d.a = genVec<E, A>(g, a, par, in);
        if (g.flip()) d.oa = genVec<E, A>(g, a, par, in);
        d.n = VarInt32(g.within<int32_t>(-268435455, 268435455));
        return d;
    }
    else if constexpr (IsUni<T>::value || IsChc<T>::value)
    {
        using E = typename std::conditional_t<IsUni<T>::value, IsUni<T>, IsChc<T>>::E;
        using Tag = typename T::Tag;
        T d(a);
        Opt2 in = o;
        in.depth++;
        unsigned c = IsUni<T>::value ? static_cast<unsigned>(g.below(3)) : par == 1 ? 0 : (par == 2 || par == 4) ? 1 : par == 3 ? 3 : 2;
        if (c == 0) d.template emplace<Tag::v>(genT<E, A>(g, a, par, in));
        else if (c == 1) d.template emplace<Tag::a>(genVec<E, A>(g, a, par, in));
        else if (c == 2) d.template emplace<Tag::s>(genStr<A>(g, a, in));
        return d;
    }
    else
    {
        static_assert(IsTree<T>::value);
        T d(a);
        Opt2 in = o;
        in.depth++;
        d.id = UInt16(static_cast<uint16_t>(g.ubits(16)));
        d.name = genStr<A>(g, a, in);
        if (o.depth < 3 && g.chance(1, 3)) d.left = genT<T, A>(g, a, par, in);
        d.kids = genVec<T, A>(g, a, par, in);
        return d;
    }
}

template <class A, class T>
Node modelT(const T& v, uint8_t par);
template <class A, class V>
Node modelVec(const V& v, uint8_t par)
{
    Node n;
    n.k = Node::ARRAY;
    for (const auto& e : v) n.elems.push_back(modelT<A, typename V::value_type>(e, par));
    return n;
}
inline Node textNode(std::string_view s)
{
    Node n;
    n.k = Node::STR;
    n.s.assign(s);
    return n;
}
template <class A, class T>
Node modelT(const T& v, uint8_t par)
{
    using namespace zserio;
    Node n;
    if constexpr (std::is_same_v<T, Bool>) { n.k = Node::BOOL; n.u = static_cast<bool>(v); n.width = 1; }
    else if constexpr (is_numeric_wrapper_v<T>)
    {
        using V = typename T::ValueType;
        n.width = sizeof(V);
        if constexpr (std::is_floating_point_v<V>) { n.k = Node::FLT; n.d = static_cast<double>(static_cast<V>(v)); }
        else if constexpr (std::is_signed_v<V>) { n.k = Node::INT; n.i = static_cast<V>(v); }
        else { n.k = Node::UINT; n.u = static_cast<V>(v); }
    }
    else if constexpr (isItem<T>)
    {
        auto raw = rawOf(v);
        n.k = std::is_enum_v<T> ? Node::ENUM : Node::MASK;
        n.width = sizeof raw;
        n.sgn = std::is_signed_v<decltype(raw)>;
        if (n.sgn) n.i = static_cast<int64_t>(raw);
        else n.u = static_cast<uint64_t>(raw);
        n.type = detail::rfName<T, A>();
        if constexpr (std::is_enum_v<T>)
        {
            for (size_t i = 0; i < EnumTraits<T>::values.size(); ++i)
                if (EnumTraits<T>::values[i] == v) n.text = EnumTraits<T>::names[i];
        }
        else n.text = v.text();
    }
    else if constexpr (IsStr<T>::value) return textNode(v);
    else if constexpr (IsByt<T>::value) { n.k = Node::BYTES; n.s.assign(v.begin(), v.end()); }
    else if constexpr (IsBits<T>::value)
    {
        n.k = Node::BITS;
        n.bits = v.getBitSize();
        n.s.assign(reinterpret_cast<const char*>(v.getData().data()), (n.bits + 7) / 8);
    }
    else if constexpr (IsRich<T>::value)
    {
        using E = typename IsRich<T>::E;
        n.k = Node::STRUCT;
        n.type = "rf.Rich_" + detail::rfName<E, A>();
        n.fields = {{"v", modelT<A, E>(v.v, par)}, {"o", v.o.has_value() ? modelT<A, E>(*v.o, par) : Node()}, {"a", modelVec<A>(v.a, par)},
                {"oa", v.oa.has_value() ? modelVec<A>(*v.oa, par) : Node()}, {"n", modelT<A>(v.n, par)}};
        n.funcs.emplace_back("len", modelT<A>(UInt32(static_cast<uint32_t>(v.a.size())), par));
        n.funcs.emplace_back("first", v.a.empty() ? Node() : n.fields[2].second.elems[0]);
        n.params.emplace_back("par", modelT<A>(UInt8(par), par));
    }
    else if constexpr (IsUni<T>::value || IsChc<T>::value)
    {
        using E = typename std::conditional_t<IsUni<T>::value, IsUni<T>, IsChc<T>>::E;
        using Tag = typename T::Tag;
        n.k = Node::VARIANT;
        n.type = (IsUni<T>::value ? "rf.RUni_" : "rf.RChc_") + detail::rfName<E, A>();
        n.fields = {{"v", Node()}, {"a", Node()}, {"s", Node()}};
        switch (v.index())
        {
        case Tag::v: n.choice = "v"; n.fields[0].second = modelT<A, E>(get<Tag::v>(v), par); break;
        case Tag::a: n.choice = "a"; n.fields[1].second = modelVec<A>(get<Tag::a>(v), par); break;
        case Tag::s: n.choice = "s"; n.fields[2].second = textNode(get<Tag::s>(v)); break;
        default: break;
        }
        n.params.emplace_back("par", modelT<A>(UInt8(par), par));
    }
    else
    {
        static_assert(IsTree<T>::value);
        n.k = Node::STRUCT;
        n.type = "rf.Tree";
        n.fields = {{"id", modelT<A>(v.id, par)}, {"name", textNode(v.name)}, {"left", v.left.has_value() ? modelT<A, T>(*v.left, par) : Node()},
                {"kids", modelVec<A>(v.kids, par)}};
        n.params.emplace_back("par", modelT<A>(UInt8(par), par));
    }
    return n;
}

// ------------------------------------------------------------------------------------------------ type erasure
template <class A>
struct IObj
{
    uint8_t par = 0;
    virtual ~IObj() = default;
    virtual const zserio::IBasicTypeInfo<A>& ti() const = 0;
    virtual Ptr<A> refl(const A& a) = 0;
    virtual CPtr<A> crefl(const A& a) const = 0;
    virtual VPtr<A> intr(const A& a) const = 0;
    virtual Node model() const = 0;
    virtual std::unique_ptr<IObj> clone() const = 0;
    virtual bool equals(const IObj& other) const = 0;
    // the typed object behind a reflectable of the same type (e.g. one created by the tree creator)
    virtual Node modelOf(const Ptr<A>& r) const = 0;
    virtual bool sameAs(const Ptr<A>& r) const = 0;
    virtual zserio::BasicBitBuffer<A> serialize(const A& a) = 0;
    // setField of the whole field / setAt / append with a generated value of the exact C++ type; returns false if not applicable
    virtual bool assignField(pbt::Gen& g, const Ptr<A>& r, const std::string& name, const A& a, Node& expected) const = 0;
    // getAnyValue / ReflectableUtil::getValue of the object and its direct fields give the typed members
    virtual void checkAny(const A& a) = 0;
};
template <class A, class E>
void anyLeaf(const Ptr<A>& p, const CPtr<A>& c, const VPtr<A>& v, const E& e, const A& a)
{
    using namespace zserio;
    using RU = ReflectableUtil;
    if constexpr (IsStr<E>::value)
    {
        CHECK(p->getAnyValue(a).template get<std::string_view>() == std::string_view(e));
        CHECK(c->getAnyValue(a).template get<std::string_view>() == std::string_view(e));
        CHECK((RU::getValue<std::string_view, A>(p, a) == std::string_view(e)));
        CHECK(v->getAnyValue(a).template get<std::string_view>() == std::string_view(e));
    }
    else if constexpr (IsByt<E>::value)
    {
        for (BytesView b : {p->getAnyValue(a).template get<BytesView>(), c->getAnyValue(a).template get<BytesView>(), v->getAnyValue(a).template get<BytesView>()})
            CHECK(b.size() == e.size() && std::equal(b.begin(), b.end(), e.begin()));
    }
    else if constexpr (IsBits<E>::value)
    {
        CHECK((&RU::getValue<E, A>(p, a) == &e));
        CHECK((&RU::getValue<E, A>(c, a) == &e));
        CHECK(&v->getAnyValue(a).template get<BasicBitBufferView<A>>().get() == &e);
    }
    else if constexpr (IsCompound<E>::value)
    {
        CHECK((&RU::getValue<E, A>(p, a) == &e));
        CHECK((&RU::getValue<E, A>(c, a) == &e));
        CHECK(&v->getAnyValue(a).template get<View<E>>().zserioData() == &e);
    }
    else
    {
        Node want = modelT<A, E>(e, 0);
        CHECK((modelT<A, E>(RU::getValue<E, A>(p, a), 0) == want));
        CHECK((modelT<A, E>(RU::getValue<E, A>(c, a), 0) == want));
        if constexpr (IsDyn<E>::value) CHECK((modelT<A, E>(E(v->getAnyValue(a).template get<VT<E>>().value()), 0) == want));
        else CHECK((modelT<A, E>(v->getAnyValue(a).template get<VT<E>>(), 0) == want));
    }
}
template <class A, class V>
void anyArr(const Ptr<A>& p, const CPtr<A>& c, const V& e, const A& a)
{
    CHECK((&zserio::ReflectableUtil::getValue<V, A>(p, a) == &e));
    CHECK((&zserio::ReflectableUtil::getValue<V, A>(c, a) == &e));
    CHECK(p->getAnyValue(a).template isType<std::reference_wrapper<V>>());
    CHECK(c->getAnyValue(a).template isType<std::reference_wrapper<const V>>());
}
template <class A>
struct IType
{
    std::string name;
    std::unique_ptr<IObj<A>> (*gen)(pbt::Gen&, const A&, const Opt2&);
    std::unique_ptr<IObj<A>> (*fresh)(const A&);
    std::pair<zserio::BasicAny<A>, Node> (*genAny)(pbt::Gen&, const A&, const Opt2&);
};
template <class A>
std::vector<IType<A>>& types()
{
    static std::vector<IType<A>> v;
    return v;
}
template <class A>
const IType<A>* findType(std::string_view name)
{
    for (const auto& t : types<A>()) if (t.name == name) return &t;
    return nullptr;
}
template <class A>
const IType<A>& pickType(pbt::Gen& g)
{
    static const bool sorted = (std::sort(types<A>().begin(), types<A>().end(), [](const auto& x, const auto& y) { return x.name < y.name; }), true);
    (void)sorted;
    return types<A>()[g.below(types<A>().size())];
}
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;

// how an owner type is viewed and modelled
template <class A, class T>
struct Ops
{
    static uint8_t genPar(pbt::Gen& g) { return static_cast<uint8_t>(g.flip() ? g.below(6) : g.below(256)); }
    static T gen(pbt::Gen& g, const A& a, uint8_t par, const Opt2& o) { return genT<T, A>(g, a, par, o); }
    static Node model(const T& t, uint8_t par) { return modelT<A, T>(t, par); }
    static zserio::View<T> view(const T& t, uint8_t par) { return zserio::View<T>(t, zserio::UInt8(par)); }
    static zserio::BasicBitBuffer<A> serialize(T& t, uint8_t par, const A& a)
    {
        zserio::View<T> v(t, zserio::UInt8(par));
        zserio::BasicBitBuffer<A> b(zserio::detail::ObjectTraits<T>::bitSizeOf(v, 0), a);
        zserio::BitStreamWriter w(b);
        zserio::detail::ObjectTraits<T>::write(w, v);
        return b;
    }
    static bool assignField(pbt::Gen& g, const Ptr<A>& r, const std::string& name, const A& a, uint8_t par, Node& expected)
    {
        if constexpr (IsTree<T>::value)
        {
            if (name == "left") { T v = genT<T, A>(g, a, par, Opt2{true, true, 2, 2}); expected = modelT<A, T>(v, par); r->setField(name, zserio::BasicAny<A>(std::move(v), a)); return true; }
            if (name == "kids") { auto v = genVec<T, A>(g, a, par, Opt2{true, true, 2, 2}); expected = modelVec<A>(v, par); r->setField(name, zserio::BasicAny<A>(std::move(v), a)); return true; }
        }
        else
        {
            using E = typename std::conditional_t<IsRich<T>::value, IsRich<T>, std::conditional_t<IsUni<T>::value, IsUni<T>, IsChc<T>>>::E;
            Opt2 o;
            o.depth = 1;
            if (name == "v" || name == "o") { E v = genT<E, A>(g, a, par, o); expected = modelT<A, E>(v, par); r->setField(name, zserio::BasicAny<A>(std::move(v), a)); return true; }
            if (name == "a" || name == "oa") { auto v = genVec<E, A>(g, a, par, o); expected = modelVec<A>(v, par); r->setField(name, zserio::BasicAny<A>(std::move(v), a)); return true; }
        }
        return false;
    }
    static void checkAny(const T& d, const Ptr<A>& p, const CPtr<A>& c, const VPtr<A>& v, const A& a)
    {
        anyLeaf<A, T>(p, c, v, d, a);
        if constexpr (IsTree<T>::value)
        {
            anyLeaf<A>(p->getField("name"), c->getField("name"), v->getField("name"), d.name, a);
            if (d.left.has_value()) anyLeaf<A, T>(p->getField("left"), c->getField("left"), v->getField("left"), *d.left, a);
            anyArr<A>(p->getField("kids"), c->getField("kids"), d.kids, a);
        }
        else if constexpr (IsRich<T>::value)
        {
            using E = typename IsRich<T>::E;
            anyLeaf<A, E>(p->getField("v"), c->getField("v"), v->getField("v"), d.v, a);
            if (d.o.has_value()) anyLeaf<A, E>(p->getField("o"), c->getField("o"), v->getField("o"), *d.o, a);
            anyArr<A>(p->getField("a"), c->getField("a"), d.a, a);
            if (d.oa.has_value()) anyArr<A>(p->getField("oa"), c->getField("oa"), *d.oa, a);
            for (size_t i = 0; i < d.a.size(); ++i) anyLeaf<A, E>(p->getField("a")->at(i), c->getField("a")->at(i), v->getField("a")->at(i), d.a[i], a);
        }
    }
};
template <class A, class T>
struct Obj : IObj<A>
{
    using O = Ops<A, T>;
    T d;
    explicit Obj(T&& t) : d(std::move(t)) {}
    const zserio::IBasicTypeInfo<A>& ti() const override { return zserio::typeInfo<T, A>(); }
    Ptr<A> refl(const A& a) override { return zserio::reflectable(d, a); }
    CPtr<A> crefl(const A& a) const override { return zserio::reflectable(d, a); }
    VPtr<A> intr(const A& a) const override { return zserio::introspectable(O::view(d, this->par), a); }
    Node model() const override { return O::model(d, this->par); }
    std::unique_ptr<IObj<A>> clone() const override
    {
        auto r = std::make_unique<Obj>(T(d));
        r->par = this->par;
        return r;
    }
    bool equals(const IObj<A>& o) const override { return d == static_cast<const Obj&>(o).d; }
    Node modelOf(const Ptr<A>& r) const override { return O::model(zserio::ReflectableUtil::getValue<T, A>(r), this->par); }
    bool sameAs(const Ptr<A>& r) const override { return zserio::ReflectableUtil::getValue<T, A>(r) == d; }
    zserio::BasicBitBuffer<A> serialize(const A& a) override { return O::serialize(d, this->par, a); }
    bool assignField(pbt::Gen& g, const Ptr<A>& r, const std::string& name, const A& a, Node& e) const override { return O::assignField(g, r, name, a, this->par, e); }
    void checkAny(const A& a) override { O::checkAny(d, refl(a), crefl(a), intr(a), a); }
};
template <class A, class T>
struct Register
{
    Register()
    {
        types<A>().push_back({std::string(zserio::typeInfo<T, A>().getSchemaName()),
                [](pbt::Gen& g, const A& a, const Opt2& o) -> std::unique_ptr<IObj<A>> {
                    uint8_t par = Ops<A, T>::genPar(g);
                    auto r = std::make_unique<Obj<A, T>>(Ops<A, T>::gen(g, a, par, o));
                    r->par = par;
                    return r;
                },
                [](const A& a) -> std::unique_ptr<IObj<A>> { return std::make_unique<Obj<A, T>>(T(a)); },
                [](pbt::Gen& g, const A& a, const Opt2& o) -> std::pair<zserio::BasicAny<A>, Node> {
                    uint8_t par = Ops<A, T>::genPar(g);
                    T t = Ops<A, T>::gen(g, a, par, o);
                    Node n = Ops<A, T>::model(t, par);
                    return {zserio::BasicAny<A>(std::move(t), a), n};
                }});
    }
};
template <class A, class... T>
struct RegisterAll
{
    RegisterAll() { (void)std::initializer_list<int>{(Register<A, T>(), 0)...}; }
};
using StdA = std::allocator<uint8_t>;
} // namespace rf
