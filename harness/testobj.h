// Generators for the repository's sample generated types (runtime/test/test_object) in all allocator flavours.
#pragma once
#include "pbt.h"
#include <test_object/std_allocator/CreatorObject.h>
#include <test_object/std_allocator/DebugStringParamObject.h>
#include <test_object/std_allocator/ReflectableObject.h>
#include <test_object/std_allocator/ReflectableUtilUnion.h>
#include <test_object/std_allocator/WalkerObject.h>
#ifndef TESTOBJ_STD_ONLY
#include <test_object/pmr_allocator/CreatorObject.h>
#include <test_object/pmr_allocator/ReflectableObject.h>
#include <test_object/pmr_allocator/ReflectableUtilUnion.h>
#include <test_object/pmr_allocator/WalkerObject.h>
#include <test_object/ppmr_allocator/CreatorObject.h>
#include <test_object/ppmr_allocator/ReflectableObject.h>
#include <test_object/ppmr_allocator/ReflectableUtilUnion.h>
#include <test_object/ppmr_allocator/WalkerObject.h>
#endif

namespace to
{
#define TO_NS(NAME, NSNAME) \
    struct NAME \
    { \
        using CObj = test_object::NSNAME::CreatorObject; \
        using CNest = test_object::NSNAME::CreatorNested; \
        using CEnum = test_object::NSNAME::CreatorEnum; \
        using CMask = test_object::NSNAME::CreatorBitmask; \
        using WObj = test_object::NSNAME::WalkerObject; \
        using WNest = test_object::NSNAME::WalkerNested; \
        using WUni = test_object::NSNAME::WalkerUnion; \
        using WChc = test_object::NSNAME::WalkerChoice; \
        using RObj = test_object::NSNAME::ReflectableObject; \
        using REnum = test_object::NSNAME::ReflectableEnum; \
        using UUni = test_object::NSNAME::ReflectableUtilUnion; \
        using UObj = test_object::NSNAME::ReflectableUtilObject; \
        using UChc = test_object::NSNAME::ReflectableUtilChoice; \
        using UEnum = test_object::NSNAME::ReflectableUtilEnum; \
        using UMask = test_object::NSNAME::ReflectableUtilBitmask; \
        using Alloc = typename CObj::allocator_type; \
    };
TO_NS(Std, std_allocator)
#ifndef TESTOBJ_STD_ONLY
TO_NS(Pmr, pmr_allocator)
TO_NS(Ppmr, ppmr_allocator)
#endif

template <class S>
void genText(pbt::Gen& g, S& s, size_t max = 12)
{
    std::string t = g.utf8(max);
    s.assign(t.data(), t.size());
}
template <class B, class A>
B genBits(pbt::Gen& g, size_t maxBits, const A& a)
{
    size_t bits = g.size(maxBits);
    typename B::allocator_type al(a);
    zserio::Vector<uint8_t, typename B::allocator_type> v((bits + 7) / 8, 0, al);
    for (auto& x : v) x = static_cast<uint8_t>(g.below(256));
    if (bits % 8) v.back() = static_cast<uint8_t>(v.back() & (0xFF << (8 - bits % 8)));
    return B(std::move(v), bits, al);
}
template <class N>
typename N::CNest genCNest(pbt::Gen& g, const typename N::Alloc& a)
{
    typename N::CNest d(a);
    d.value = static_cast<uint32_t>(g.ubits(32));
    genText(g, d.text);
    d.externData = genBits<std::decay_t<decltype(d.externData)>>(g, 40, a);
    std::string b = g.bytes(10);
    d.bytesData.assign(b.begin(), b.end());
    d.creatorEnum = zserio::EnumTraits<typename N::CEnum>::values[g.below(3)];
    d.creatorBitmask = typename N::CMask(zserio::UInt8(static_cast<uint8_t>(g.below(4))));
    return d;
}
template <class N>
typename N::CObj genCObj(pbt::Gen& g, const typename N::Alloc& a)
{
    typename N::CObj d(a);
    d.value = static_cast<uint32_t>(g.ubits(32));
    d.nested = genCNest<N>(g, a);
    genText(g, d.text);
    size_t n = g.size(4);
    for (size_t i = 0; i < n; ++i) d.nestedArray.push_back(genCNest<N>(g, a));
    n = g.size(4);
    for (size_t i = 0; i < n; ++i) { d.textArray.emplace_back(); genText(g, d.textArray.back()); }
    if (g.flip())
    {
        d.externArray.emplace();
        n = g.size(4);
        for (size_t i = 0; i < n; ++i) d.externArray->push_back(genBits<typename std::decay_t<decltype(*d.externArray)>::value_type>(g, 30, a));
    }
    if (g.flip())
    {
        d.bytesArray.emplace();
        n = g.size(4);
        for (size_t i = 0; i < n; ++i) { std::string b = g.bytes(8); d.bytesArray->emplace_back(b.begin(), b.end()); }
    }
    if (g.flip()) d.optionalBool = zserio::Bool(g.flip());
    if (g.flip()) d.optionalNested = genCNest<N>(g, a);
    return d;
}
template <class N>
typename N::WUni genWUni(pbt::Gen& g, const typename N::Alloc& a)
{
    using Tag = typename N::WUni::Tag;
    typename N::WUni u(a);
    switch (g.below(3))
    {
    case 0: u.template emplace<Tag::value>(static_cast<uint32_t>(g.ubits(32))); break;
    case 1: { std::string s = g.utf8(8); u.template emplace<Tag::text>(s.data(), s.size()); break; }
    default:
    {
        auto& v = u.template emplace<Tag::nestedArray>();
        size_t n = g.size(4);
        for (size_t i = 0; i < n; ++i) { typename N::WNest w(a); genText(g, w.text, 6); v.push_back(std::move(w)); }
    }
    }
    return u;
}
template <class N>
typename N::WObj genWObj(pbt::Gen& g, const typename N::Alloc& a)
{
    typename N::WObj d(a);
    d.identifier = static_cast<uint32_t>(g.chance(1, 3) ? 0 : g.ubits(32));
    if (d.identifier != 0) { d.nested.emplace(); genText(g, d.nested->text); }
    genText(g, d.text);
    size_t n = g.size(5);
    for (size_t i = 0; i < n; ++i) d.unionArray.push_back(genWUni<N>(g, a));
    if (g.flip())
    {
        d.optionalUnionArray.emplace();
        n = g.size(4);
        for (size_t i = 0; i < n; ++i) d.optionalUnionArray->push_back(genWUni<N>(g, a));
    }
    d.choiceSelector = g.pick<uint8_t>({8, 16, 32, 64, 0, 9});
    using Tag = typename N::WChc::Tag;
    switch (static_cast<uint8_t>(d.choiceSelector))
    {
    case 8: d.choiceField.template emplace<Tag::value8>(static_cast<uint8_t>(g.ubits(8))); break;
    case 16: d.choiceField.template emplace<Tag::value16>(static_cast<uint16_t>(g.ubits(16))); break;
    case 32: d.choiceField.template emplace<Tag::value32>(static_cast<uint32_t>(g.ubits(32))); break;
    case 64: d.choiceField.template emplace<Tag::value64>(g.ubits(64)); break;
    default: break;
    }
    return d;
}
template <class N>
typename N::RObj genRObj(pbt::Gen& g, const typename N::Alloc& a)
{
    typename N::RObj d(a);
    genText(g, d.stringField);
    d.reflectableNested.value = zserio::UInt31(static_cast<uint32_t>(g.ubits(31)));
    d.reflectableEnum = zserio::EnumTraits<typename N::REnum>::values[g.below(3)];
    using CT = std::decay_t<decltype(d.reflectableChoice)>;
    using UT = std::decay_t<decltype(d.reflectableUnion)>;
    if (d.reflectableEnum == N::REnum::VALUE1) { std::string s = g.utf8(8); d.reflectableChoice.template emplace<CT::Tag::valueStr>(s.data(), s.size()); }
    else if (d.reflectableEnum == N::REnum::VALUE2) d.reflectableChoice.template emplace<CT::Tag::value32>(static_cast<uint32_t>(g.ubits(32)));
    if (g.flip()) d.reflectableUnion.template emplace<UT::Tag::value32>(static_cast<uint32_t>(g.ubits(32)));
    else { std::string s = g.utf8(8); d.reflectableUnion.template emplace<UT::Tag::valueStr>(s.data(), s.size()); }
    return d;
}
template <class N>
typename N::UUni genUUni(pbt::Gen& g, const typename N::Alloc& a)
{
    using Tag = typename N::UUni::Tag;
    typename N::UUni u(a);
    switch (g.below(3))
    {
    case 0: u.template emplace<Tag::reflectableUtilEnum>(zserio::EnumTraits<typename N::UEnum>::values[g.below(2)]); break;
    case 1: u.template emplace<Tag::reflectableUtilBitmask>(typename N::UMask(zserio::UInt8(static_cast<uint8_t>(g.below(4))))); break;
    default:
    {
        typename N::UObj o(a);
        o.choiceParam = static_cast<uint8_t>(g.below(4));
        if (o.choiceParam == 1 || o.choiceParam == 2)
        {
            auto& v = o.reflectableUtilChoice.template emplace<N::UChc::Tag::array>();
            size_t n = g.size(5);
            for (size_t i = 0; i < n; ++i) v.emplace_back(static_cast<uint32_t>(g.ubits(32)));
        }
        u.template emplace<Tag::reflectableUtilObject>(std::move(o));
    }
    }
    return u;
}
} // namespace to
