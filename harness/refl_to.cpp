// Registers the repository's sample types (all allocator flavours) as type erased objects.
#include "reflobj.h"
#include "testobj.h"

namespace rf
{
template <class N> struct NsName;
template <> struct NsName<to::Std> { static constexpr const char* v = "test_object.std_allocator."; };
template <> struct NsName<to::Pmr> { static constexpr const char* v = "test_object.pmr_allocator."; };
template <> struct NsName<to::Ppmr> { static constexpr const char* v = "test_object.ppmr_allocator."; };

template <class A, class T>
Node leaf(const T& v) { return modelT<A, T>(v, 0); }
inline Node strct(const std::string& type)
{
    Node n;
    n.k = Node::STRUCT;
    n.type = type;
    return n;
}
inline Node variant(const std::string& type, std::initializer_list<const char*> names)
{
    Node n;
    n.k = Node::VARIANT;
    n.type = type;
    for (auto s : names) n.fields.emplace_back(s, Node());
    return n;
}
inline void choose(Node& n, const char* name, Node v)
{
    n.choice = name;
    for (auto& f : n.fields) if (f.first == name) f.second = std::move(v);
}
template <class T> Node enumNode(T v, const std::string& type)
{
    Node n;
    n.k = Node::ENUM;
    n.type = type;
    auto raw = static_cast<std::underlying_type_t<T>>(v);
    n.width = sizeof raw;
    n.sgn = std::is_signed_v<decltype(raw)>;
    if (n.sgn) n.i = static_cast<int64_t>(raw);
    else n.u = static_cast<uint64_t>(raw);
    for (size_t i = 0; i < zserio::EnumTraits<T>::values.size(); ++i) if (zserio::EnumTraits<T>::values[i] == v) n.text = zserio::EnumTraits<T>::names[i];
    return n;
}
template <class T> Node maskNode(T v, const std::string& type)
{
    Node n;
    n.k = Node::MASK;
    n.type = type;
    n.width = 1;
    n.u = static_cast<uint8_t>(v.getValue());
    n.text = std::to_string(n.u) + "[" + ((n.u & 1) ? "READ" : "") + ((n.u & 3) == 3 ? " | " : "") + ((n.u & 2) ? "WRITE" : "") + "]";
    return n;
}
template <class N, class A>
Node mCNest(const typename N::CNest& d, uint32_t param)
{
    const std::string ns = NsName<N>::v;
    Node n = strct(ns + "CreatorNested");
    n.fields = {{"value", leaf<A>(d.value)}, {"text", textNode(d.text)}, {"externData", leaf<A>(d.externData)}, {"bytesData", leaf<A>(d.bytesData)},
            {"creatorEnum", enumNode(d.creatorEnum, ns + "CreatorEnum")}, {"creatorBitmask", maskNode(d.creatorBitmask, ns + "CreatorBitmask")}};
    n.params.emplace_back("param", leaf<A>(zserio::UInt32(param)));
    return n;
}
template <class N, class A>
Node mWNest(const typename N::WNest& d)
{
    Node n = strct(std::string(NsName<N>::v) + "WalkerNested");
    n.fields = {{"text", textNode(d.text)}};
    return n;
}
template <class N, class A>
Node mWUni(const typename N::WUni& d)
{
    using Tag = typename N::WUni::Tag;
    Node n = variant(std::string(NsName<N>::v) + "WalkerUnion", {"value", "text", "nestedArray"});
    switch (d.index())
    {
    case Tag::value: choose(n, "value", leaf<A>(zserio::get<Tag::value>(d))); break;
    case Tag::text: choose(n, "text", textNode(zserio::get<Tag::text>(d))); break;
    case Tag::nestedArray:
    {
        Node a;
        a.k = Node::ARRAY;
        for (const auto& e : zserio::get<Tag::nestedArray>(d)) a.elems.push_back(mWNest<N, A>(e));
        choose(n, "nestedArray", a);
        break;
    }
    default: break;
    }
    return n;
}
template <class N> struct TOps { using A = typename N::Alloc; static uint8_t genPar(pbt::Gen&) { return 0; }
    static bool assignField(pbt::Gen&, const Ptr<A>&, const std::string&, const A&, uint8_t, Node&) { return false; } };
template <class N, class T>
struct TOpsT : TOps<N>
{
    using A = typename N::Alloc;
    static zserio::View<T> view(const T& t, uint8_t) { return zserio::View<T>(t); }
    static void checkAny(const T& d, const Ptr<A>& p, const CPtr<A>& c, const VPtr<A>& v, const A& a)
    {
        CHECK((&zserio::ReflectableUtil::getValue<T, A>(p, a) == &d));
        CHECK((&zserio::ReflectableUtil::getValue<T, A>(c, a) == &d));
        CHECK(&v->getAnyValue(a).template get<zserio::View<T>>().zserioData() == &d);
    }
    static zserio::BasicBitBuffer<A> serialize(T& t, uint8_t, const A& a) { return zserio::serialize(t, a); }
};
template <class N, class = typename N::CObj>
struct OpsC : TOpsT<N, typename N::CObj>
{
    using A = typename N::Alloc;
    using T = typename N::CObj;
    static T gen(pbt::Gen& g, const A& a, uint8_t, const Opt2&) { return to::genCObj<N>(g, a); }
    static Node model(const T& d, uint8_t)
    {
        Node n = strct(std::string(NsName<N>::v) + "CreatorObject");
        auto nested = [&](const typename N::CNest& c) { return mCNest<N, A>(c, d.value); };
        Node na, ta, ea, ba;
        na.k = ta.k = Node::ARRAY;
        for (const auto& e : d.nestedArray) na.elems.push_back(nested(e));
        for (const auto& e : d.textArray) ta.elems.push_back(textNode(e));
        if (d.externArray.has_value()) ea = modelVec<A>(*d.externArray, 0);
        if (d.bytesArray.has_value()) ba = modelVec<A>(*d.bytesArray, 0);
        n.fields = {{"value", leaf<A>(d.value)}, {"nested", nested(d.nested)}, {"text", textNode(d.text)}, {"nestedArray", na}, {"textArray", ta},
                {"externArray", ea}, {"bytesArray", ba}, {"optionalBool", d.optionalBool.has_value() ? leaf<A>(*d.optionalBool) : Node()},
                {"optionalNested", d.optionalNested.has_value() ? nested(*d.optionalNested) : Node()}};
        return n;
    }
};
template <class N>
struct OpsW : TOpsT<N, typename N::WObj>
{
    using A = typename N::Alloc;
    using T = typename N::WObj;
    static T gen(pbt::Gen& g, const A& a, uint8_t, const Opt2&) { return to::genWObj<N>(g, a); }
    static Node model(const T& d, uint8_t)
    {
        const std::string ns = NsName<N>::v;
        Node n = strct(ns + "WalkerObject");
        Node ua, oa;
        ua.k = Node::ARRAY;
        for (const auto& e : d.unionArray) ua.elems.push_back(mWUni<N, A>(e));
        if (d.optionalUnionArray.has_value())
        {
            oa.k = Node::ARRAY;
            for (const auto& e : *d.optionalUnionArray) oa.elems.push_back(mWUni<N, A>(e));
        }
        using Tag = typename N::WChc::Tag;
        Node c = variant(ns + "WalkerChoice", {"value8", "value16", "value32", "value64"});
        switch (d.choiceField.index())
        {
        case Tag::value8: choose(c, "value8", leaf<A>(zserio::get<Tag::value8>(d.choiceField))); break;
        case Tag::value16: choose(c, "value16", leaf<A>(zserio::get<Tag::value16>(d.choiceField))); break;
        case Tag::value32: choose(c, "value32", leaf<A>(zserio::get<Tag::value32>(d.choiceField))); break;
        case Tag::value64: choose(c, "value64", leaf<A>(zserio::get<Tag::value64>(d.choiceField))); break;
        default: break;
        }
        c.params.emplace_back("selector", leaf<A>(d.choiceSelector));
        n.fields = {{"identifier", leaf<A>(d.identifier)}, {"nested", d.nested.has_value() ? mWNest<N, A>(*d.nested) : Node()}, {"text", textNode(d.text)},
                {"unionArray", ua}, {"optionalUnionArray", oa}, {"choiceSelector", leaf<A>(d.choiceSelector)}, {"choiceField", c}};
        return n;
    }
};
template <class N>
struct OpsR : TOpsT<N, typename N::RObj>
{
    using A = typename N::Alloc;
    using T = typename N::RObj;
    static T gen(pbt::Gen& g, const A& a, uint8_t, const Opt2&) { return to::genRObj<N>(g, a); }
    static Node model(const T& d, uint8_t)
    {
        const std::string ns = NsName<N>::v;
        Node n = strct(ns + "ReflectableObject");
        Node nest = strct(ns + "ReflectableNested");
        nest.fields = {{"value", leaf<A>(d.reflectableNested.value)}};
        nest.params = {{"dummyParam", leaf<A>(zserio::Int31(13))}, {"stringParam", textNode(d.stringField)}};
        nest.funcs = {{"getValue", leaf<A>(d.reflectableNested.value)}};
        using CTag = typename std::decay_t<decltype(d.reflectableChoice)>::Tag;
        using UTag = typename std::decay_t<decltype(d.reflectableUnion)>::Tag;
        Node e = enumNode(d.reflectableEnum, ns + "ReflectableEnum");
        Node c = variant(ns + "ReflectableChoice", {"valueStr", "value32"});
        if (d.reflectableChoice.index() == CTag::valueStr) choose(c, "valueStr", textNode(zserio::get<CTag::valueStr>(d.reflectableChoice)));
        if (d.reflectableChoice.index() == CTag::value32) choose(c, "value32", leaf<A>(zserio::get<CTag::value32>(d.reflectableChoice)));
        c.params = {{"param", e}};
        Node u = variant(ns + "ReflectableUnion", {"value32", "valueStr"});
        if (d.reflectableUnion.index() == UTag::valueStr) choose(u, "valueStr", textNode(zserio::get<UTag::valueStr>(d.reflectableUnion)));
        if (d.reflectableUnion.index() == UTag::value32) choose(u, "value32", leaf<A>(zserio::get<UTag::value32>(d.reflectableUnion)));
        n.fields = {{"stringField", textNode(d.stringField)}, {"reflectableNested", nest}, {"reflectableEnum", e}, {"reflectableChoice", c}, {"reflectableUnion", u}};
        return n;
    }
};
template <class N>
struct OpsU : TOpsT<N, typename N::UUni>
{
    using A = typename N::Alloc;
    using T = typename N::UUni;
    static T gen(pbt::Gen& g, const A& a, uint8_t, const Opt2&) { return to::genUUni<N>(g, a); }
    static Node model(const T& d, uint8_t)
    {
        const std::string ns = NsName<N>::v;
        using Tag = typename T::Tag;
        Node n = variant(ns + "ReflectableUtilUnion", {"reflectableUtilEnum", "reflectableUtilBitmask", "reflectableUtilObject"});
        switch (d.index())
        {
        case Tag::reflectableUtilEnum: choose(n, "reflectableUtilEnum", enumNode(zserio::get<Tag::reflectableUtilEnum>(d), ns + "ReflectableUtilEnum")); break;
        case Tag::reflectableUtilBitmask: choose(n, "reflectableUtilBitmask", maskNode(zserio::get<Tag::reflectableUtilBitmask>(d), ns + "ReflectableUtilBitmask")); break;
        case Tag::reflectableUtilObject:
        {
            const auto& o = zserio::get<Tag::reflectableUtilObject>(d);
            Node s = strct(ns + "ReflectableUtilObject");
            Node c = variant(ns + "ReflectableUtilChoice", {"array"});
            if (o.reflectableUtilChoice.index() == N::UChc::Tag::array) choose(c, "array", modelVec<A>(zserio::get<N::UChc::Tag::array>(o.reflectableUtilChoice), 0));
            c.params = {{"param", leaf<A>(o.choiceParam)}};
            s.fields = {{"choiceParam", leaf<A>(o.choiceParam)}, {"reflectableUtilChoice", c}};
            choose(n, "reflectableUtilObject", s);
            break;
        }
        default: break;
        }
        return n;
    }
};
#define RF_TO(N) \
    template <> struct Ops<to::N::Alloc, to::N::CObj> : OpsC<to::N> {}; \
    template <> struct Ops<to::N::Alloc, to::N::WObj> : OpsW<to::N> {}; \
    template <> struct Ops<to::N::Alloc, to::N::RObj> : OpsR<to::N> {}; \
    template <> struct Ops<to::N::Alloc, to::N::UUni> : OpsU<to::N> {}; \
    static RegisterAll<to::N::Alloc, to::N::CObj, to::N::WObj, to::N::RObj, to::N::UUni> reg##N;
RF_TO(Std)
RF_TO(Pmr)
RF_TO(Ppmr)
} // namespace rf
