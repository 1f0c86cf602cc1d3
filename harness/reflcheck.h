// Comparison of reflectables / introspectables with the independent model of refl.h (shared by P20-P23).
#pragma once
#include <set>

#include "reflobj.h"

namespace rf
{
inline void stripText(Node& n)
{
    // textual forms of enum / bitmask values and derived parts are not part of mirrored models
    if (n.k == Node::ENUM || n.k == Node::MASK) n.text.clear();
    n.params.clear();
    n.funcs.clear();
    for (auto& f : n.fields) stripText(f.second);
    for (auto& e : n.elems) stripText(e);
}
inline Node stripped(Node n)
{
    stripText(n);
    return n;
}
inline std::string firstDiff(const Node& a, const Node& b, const std::string& path = "")
{
    if (a == b) return "";
    if (a.k == b.k && a.type == b.type && a.choice == b.choice)
    {
        if ((a.k == Node::STRUCT || a.k == Node::VARIANT) && a.fields.size() == b.fields.size())
            for (size_t i = 0; i < a.fields.size(); ++i)
            {
                std::string d = firstDiff(a.fields[i].second, b.fields[i].second, path + "." + a.fields[i].first);
                if (!d.empty()) return d;
            }
        if (a.k == Node::ARRAY && a.elems.size() == b.elems.size())
            for (size_t i = 0; i < a.elems.size(); ++i)
            {
                std::string d = firstDiff(a.elems[i], b.elems[i], path + "[" + std::to_string(i) + "]");
                if (!d.empty()) return d;
            }
    }
    return path + ": " + show(a) + " <> " + show(b) + (a.type != b.type ? " types " + a.type + "/" + b.type : "");
}

template <class F>
bool throwsCpp(F&& f)
{
    try { f(); }
    catch (const zserio::CppRuntimeException&) { return true; }
    return false;
}
#define RF_THROWS(expr, where) CHECKM(rf::throwsCpp([&] { (void)(expr); }), #expr " must throw at " << where)

struct CheckOpt
{
    bool params = false;    // parameters and functions (introspection only)
    uint8_t par = 0;
};

// exactly the getters / conversions meaningful for the value succeed, with the exact value
template <class P, class A>
void checkValue(const P& p, const Node& n, const A& a, const std::string& w)
{
    using namespace zserio;
    CHECKM(!p->isArray(), w);
    RF_THROWS(p->size(), w);
    RF_THROWS(p->at(0), w);
    RF_THROWS((*p)[size_t(0)], w);
    RF_THROWS(p->getField("v"), w);
    RF_THROWS(p->getChoice(), w);
    CHECKM(p->find("v") == nullptr && p->find("") == nullptr && (*p)["a.b"] == nullptr, w);
    const bool item = n.k == Node::ENUM || n.k == Node::MASK;
    const bool isInt = n.k == Node::INT || (item && n.sgn);
    const bool isUInt = n.k == Node::UINT || (item && !n.sgn);
#define RF_GET(cond, expr, want) do { if (cond) CHECKM((expr) == (want), #expr " at " << w << " for " << show(n)); else RF_THROWS(expr, w << " (" << show(n) << ")"); } while (0)
    RF_GET(n.k == Node::BOOL, p->getBool(), n.u != 0);
    RF_GET(isInt && n.width == 1, p->getInt8(), n.i);
    RF_GET(isInt && n.width == 2, p->getInt16(), n.i);
    RF_GET(isInt && n.width == 4, p->getInt32(), n.i);
    RF_GET(isInt && n.width == 8, p->getInt64(), n.i);
    RF_GET(isUInt && n.width == 1, p->getUInt8(), n.u);
    RF_GET(isUInt && n.width == 2, p->getUInt16(), n.u);
    RF_GET(isUInt && n.width == 4, p->getUInt32(), n.u);
    RF_GET(isUInt && n.width == 8, p->getUInt64(), n.u);
    if (n.k == Node::FLT && n.width == 4) CHECKM(sameDouble(p->getFloat(), n.d), w << show(n)); else RF_THROWS(p->getFloat(), w);
    if (n.k == Node::FLT && n.width == 8) CHECKM(sameDouble(p->getDouble(), n.d), w << show(n)); else RF_THROWS(p->getDouble(), w);
    RF_GET(n.k == Node::STR, p->getStringView(), std::string_view(n.s));
    if (n.k == Node::BYTES)
    {
        BytesView b = p->getBytes();
        CHECKM(b.size() == n.s.size() && std::equal(b.begin(), b.end(), reinterpret_cast<const uint8_t*>(n.s.data())), w << show(n));
    }
    else RF_THROWS(p->getBytes(), w);
    if (n.k == Node::BITS)
    {
        const auto& b = p->getBitBuffer();
        CHECKM(b.getBitSize() == n.bits, w << show(n));
        CHECKM(std::string(reinterpret_cast<const char*>(b.getData().data()), (n.bits + 7) / 8) == n.s, w << show(n));
    }
    else RF_THROWS(p->getBitBuffer(), w);
    RF_GET(isInt, p->toInt(), n.i);
    RF_GET(isUInt || n.k == Node::BOOL, p->toUInt(), n.u);
    double d = isInt ? static_cast<double>(n.i) : (isUInt || n.k == Node::BOOL) ? static_cast<double>(n.u) : n.d;
    if (isInt || isUInt || n.k == Node::BOOL || n.k == Node::FLT) CHECKM(sameDouble(p->toDouble(), d), w << show(n)); else RF_THROWS(p->toDouble(), w);
    bool unknownEnum = n.k == Node::ENUM && n.text.empty();
    if (n.k == Node::BOOL || n.k == Node::INT || n.k == Node::UINT || n.k == Node::STR || (item && !unknownEnum))
    {
        std::string want = n.k == Node::BOOL ? (n.u ? "true" : "false") : n.k == Node::INT ? std::to_string(n.i) : n.k == Node::UINT ? std::to_string(n.u) : n.k == Node::STR ? n.s : n.text;
        auto got = p->toString(a);
        CHECKM(std::string_view(got) == want, w << " toString " << pbt::show(std::string_view(got)) << " want " << pbt::show(want));
        if constexpr (std::is_same_v<A, std::allocator<uint8_t>>) CHECKM(std::string_view(p->toString()) == want, w);
    }
    else RF_THROWS(p->toString(a), w);
}
template <class P, class A>
void checkNoValue(const P& p, const A& a, const std::string& w)
{
    RF_THROWS(p->getBool(), w);
    RF_THROWS(p->getInt8(), w);
    RF_THROWS(p->getInt16(), w);
    RF_THROWS(p->getInt32(), w);
    RF_THROWS(p->getInt64(), w);
    RF_THROWS(p->getUInt8(), w);
    RF_THROWS(p->getUInt16(), w);
    RF_THROWS(p->getUInt32(), w);
    RF_THROWS(p->getUInt64(), w);
    RF_THROWS(p->getFloat(), w);
    RF_THROWS(p->getDouble(), w);
    RF_THROWS(p->getBytes(), w);
    RF_THROWS(p->getStringView(), w);
    RF_THROWS(p->getBitBuffer(), w);
    RF_THROWS(p->toInt(), w);
    RF_THROWS(p->toUInt(), w);
    RF_THROWS(p->toDouble(), w);
    RF_THROWS(p->toString(a), w);
}
template <class P>
constexpr bool isView = !std::is_same_v<std::void_t<decltype(std::declval<P>()->getTypeInfo())>, int>;

template <class P, class A, bool INTR>
void checkTree(const P& p, const Node& n, const A& a, const std::string& w, bool full)
{
    using namespace zserio;
    if (n.k == Node::ABSENT)
    {
        CHECKM(p == nullptr, w << " must be absent");
        return;
    }
    CHECKM(p != nullptr, w << " must be present: " << show(n));
    if (n.k == Node::ARRAY)
    {
        CHECKM(p->isArray(), w);
        CHECK_EQM(p->size(), n.elems.size(), w);
        for (size_t i = 0; i < n.elems.size(); ++i)
        {
            checkTree<P, A, INTR>(i % 2 ? P((*p)[i]) : P(p->at(i)), n.elems[i], a, w + "[" + std::to_string(i) + "]", full);
        }
        if (full)
        {
            for (size_t bad : {n.elems.size(), n.elems.size() + 1, SIZE_MAX})
            {
                RF_THROWS(p->at(bad), w);
                RF_THROWS((*p)[bad], w);
            }
            RF_THROWS(p->getField("v"), w);
            RF_THROWS(p->getChoice(), w);
            CHECKM(p->find("v") == nullptr && p->find("") == nullptr && (*p)[std::string_view("v")] == nullptr, w);
            checkNoValue(p, a, w);
            if constexpr (INTR)
            {
                RF_THROWS(p->getParameter("par"), w);
                RF_THROWS(p->callFunction("len"), w);
                RF_THROWS(p->serialize(a), w);
            }
        }
        return;
    }
    if (n.k == Node::STRUCT || n.k == Node::VARIANT)
    {
        CHECKM(!p->isArray(), w);
        CHECK_EQM(std::string(p->getTypeInfo().getSchemaName()), n.type, w);
        if (n.k == Node::VARIANT) CHECK_EQM(std::string(p->getChoice()), n.choice, w);
        else if (full) RF_THROWS(p->getChoice(), w);
        for (const auto& f : n.fields)
        {
            if (n.k == Node::VARIANT && f.first != n.choice)
            {
                RF_THROWS(p->getField(f.first), w << "." << f.first);
                CHECKM(p->find(f.first) == nullptr, w << "." << f.first);
                continue;
            }
            P c = p->getField(f.first);
            checkTree<P, A, INTR>(c, f.second, a, w + "." + f.first, full);
        }
        if (full)
        {
            RF_THROWS(p->getField("noSuchField"), w);
            RF_THROWS(p->getField(""), w);
            CHECKM(p->find("noSuchField") == nullptr && p->find("") == nullptr, w);
            RF_THROWS(p->size(), w);
            RF_THROWS(p->at(0), w);
            RF_THROWS((*p)[size_t(0)], w);
            checkNoValue(p, a, w);
        }
        if constexpr (INTR)
        {
            for (const auto& f : n.params) checkTree<P, A, INTR>(p->getParameter(f.first), f.second, a, w + ".(" + f.first + ")", full);
            for (const auto& f : n.funcs)
            {
                if (f.second.k == Node::ABSENT) RF_THROWS(p->callFunction(f.first), w);
                else checkTree<P, A, INTR>(p->callFunction(f.first), f.second, a, w + "." + f.first + "()", full);
            }
            if (full)
            {
                RF_THROWS(p->getParameter("noSuchParameter"), w);
                RF_THROWS(p->callFunction("noSuchFunction"), w);
            }
        }
        return;
    }
    if (full)
    {
        checkValue(p, n, a, w);
        std::string with, without;
        const bool failed = throwsCpp([&] { const auto t = p->toString(a); with.assign(t.data(), t.size()); });
        CHECKM(throwsCpp([&] { const auto t = p->toString(); without.assign(t.data(), t.size()); }) == failed && with == without,
                "toString without an allocator differs at " << w);
    }
    else
    {
        CHECKM(!p->isArray(), w);
        switch (n.k)
        {
        case Node::BOOL: CHECKM(p->getBool() == (n.u != 0), w); break;
        case Node::STR: CHECKM(p->getStringView() == n.s, w); break;
        case Node::INT: CHECKM(p->toInt() == n.i, w); break;
        case Node::UINT: CHECKM(p->toUInt() == n.u, w); break;
        case Node::FLT: CHECKM(sameDouble(p->toDouble(), n.d), w); break;
        case Node::ENUM:
        case Node::MASK: CHECKM(n.sgn ? p->toInt() == n.i : p->toUInt() == n.u, w); break;
        default: break;
        }
    }
    if (n.k == Node::ENUM || n.k == Node::MASK) CHECK_EQM(std::string(p->getTypeInfo().getSchemaName()), n.type, w);
    if constexpr (INTR)
    {
        if (full)
        {
            RF_THROWS(p->getParameter("par"), w);
            RF_THROWS(p->callFunction("len"), w);
            RF_THROWS(p->serialize(a), w);
        }
    }
}

// ---------------------------------------------------------------------------------------------- paths
// every dotted path that resolves through fields (and parameters / functions when withCalls) to a node
inline void allPaths(const Node& n, const std::string& prefix, bool withCalls, std::vector<std::pair<std::string, const Node*>>& out, int depth = 0)
{
    if ((n.k != Node::STRUCT && n.k != Node::VARIANT) || depth > 6) return;
    std::set<std::string> taken;
    auto add = [&](const std::pair<std::string, Node>& f) {
        if (f.second.k == Node::ABSENT || !taken.insert(f.first).second) return;
        std::string p = prefix.empty() ? f.first : prefix + "." + f.first;
        out.emplace_back(p, &f.second);
        allPaths(f.second, p, withCalls, out, depth + 1);
    };
    for (const auto& f : n.fields) add(f);
    if (!withCalls) return;
    for (const auto& f : n.params) add(f);
    for (const auto& f : n.funcs) add(f);
}
// independent path resolution
inline const Node* resolve(const Node& n, std::string_view path, bool withCalls)
{
    size_t dot = path.find('.');
    std::string name(path.substr(0, dot));
    if (n.k != Node::STRUCT && n.k != Node::VARIANT) return nullptr;
    const Node* c = nullptr;
    bool blocked = false;
    for (const auto& f : n.fields)
        if (f.first == name)
        {
            if (f.second.k != Node::ABSENT) c = &f.second;
            else if (n.k == Node::VARIANT) blocked = true; // inactive: error, nothing found
        }
    if (!c && !blocked && withCalls)
    {
        for (const auto& f : n.params) if (!c && f.first == name && f.second.k != Node::ABSENT) c = &f.second;
        for (const auto& f : n.funcs) if (!c && f.first == name && f.second.k != Node::ABSENT) c = &f.second;
    }
    if (!c) return nullptr;
    return dot == std::string_view::npos ? c : resolve(*c, path.substr(dot + 1), withCalls);
}
inline std::string genPath(pbt::Gen& g, const Node& n, bool withCalls)
{
    std::vector<std::pair<std::string, const Node*>> all;
    allPaths(n, "", withCalls, all);
    std::string p = all.empty() ? "v" : all[g.below(all.size())].first;
    static const std::vector<std::string> tails = {"v", "o", "a", "oa", "n", "s", "id", "left", "kids", "par", "len", "first", "", "x", "value", "nested"};
    if (g.chance(1, 4)) p += "." + g.pick(tails);
    if (g.chance(1, 8) && !p.empty()) p.erase(g.below(p.size()), 1);
    if (g.chance(1, 8)) p.insert(g.below(p.size() + 1), ".");
    return p;
}

// ---------------------------------------------------------------------------------------------- values for fields
struct Odd { int x = 0; };

template <class A>
Node leafDefault(const zserio::IBasicTypeInfo<A>& ti);

template <class A>
void leafKind(const zserio::IBasicTypeInfo<A>& ti, Node& n)
{
    using zserio::CppType;
    auto num = [&](CppType t) {
        switch (t)
        {
        case CppType::BOOL: n.k = Node::BOOL; n.width = 1; break;
        case CppType::INT8: n.k = Node::INT; n.width = 1; break;
        case CppType::INT16: n.k = Node::INT; n.width = 2; break;
        case CppType::INT32: n.k = Node::INT; n.width = 4; break;
        case CppType::INT64: n.k = Node::INT; n.width = 8; break;
        case CppType::UINT8: n.k = Node::UINT; n.width = 1; break;
        case CppType::UINT16: n.k = Node::UINT; n.width = 2; break;
        case CppType::UINT32: n.k = Node::UINT; n.width = 4; break;
        case CppType::UINT64: n.k = Node::UINT; n.width = 8; break;
        case CppType::FLOAT: n.k = Node::FLT; n.width = 4; break;
        case CppType::DOUBLE: n.k = Node::FLT; n.width = 8; break;
        case CppType::STRING: n.k = Node::STR; break;
        case CppType::BYTES: n.k = Node::BYTES; break;
        case CppType::BIT_BUFFER: n.k = Node::BITS; break;
        default: CHECKM(false, "kind"); break;
        }
    };
    if (ti.getCppType() == CppType::ENUM || ti.getCppType() == CppType::BITMASK)
    {
        num(ti.getUnderlyingType().getCppType());
        n.sgn = n.k == Node::INT;
        n.k = ti.getCppType() == CppType::ENUM ? Node::ENUM : Node::MASK;
        n.type = std::string(ti.getSchemaName());
    }
    else num(ti.getCppType());
}
template <class A>
Node leafDefault(const zserio::IBasicTypeInfo<A>& ti)
{
    Node n;
    leafKind(ti, n);
    return n;
}
// default object of a type; false if the harness has no independent model of it
template <class A>
bool defaultNode(const zserio::IBasicTypeInfo<A>& ti, const A& a, Node& n)
{
    if (!zserio::TypeInfoUtil::isCompound(ti.getCppType()))
    {
        n = leafDefault(ti);
        return true;
    }
    const auto* t = findType<A>(ti.getSchemaName());
    if (!t) return false;
    n = stripped(t->fresh(a)->model());
    return true;
}
template <class A, class V>
zserio::BasicAny<A> rawAny(const Node& n, const A& a)
{
    if constexpr (std::is_signed_v<V>) return zserio::BasicAny<A>(static_cast<V>(n.i), a);
    else return zserio::BasicAny<A>(static_cast<V>(n.u), a);
}
template <class A>
zserio::BasicAny<A> intAny(const Node& n, bool sgn, const A& a)
{
    switch (n.width * (sgn ? -1 : 1))
    {
    case -1: return rawAny<A, int8_t>(n, a);
    case -2: return rawAny<A, int16_t>(n, a);
    case -4: return rawAny<A, int32_t>(n, a);
    case -8: return rawAny<A, int64_t>(n, a);
    case 1: return rawAny<A, uint8_t>(n, a);
    case 2: return rawAny<A, uint16_t>(n, a);
    case 4: return rawAny<A, uint32_t>(n, a);
    default: return rawAny<A, uint64_t>(n, a);
    }
}
// value of the plain C++ type of a field together with its model
template <class A>
bool genAnyFor(pbt::Gen& g, const zserio::IBasicTypeInfo<A>& ti, const A& a, zserio::BasicAny<A>& any, Node& n)
{
    using zserio::BasicAny;
    if (zserio::TypeInfoUtil::isCompound(ti.getCppType()))
    {
        const auto* t = findType<A>(ti.getSchemaName());
        if (!t) return false;
        Opt2 o;
        o.depth = 2;
        auto r = t->genAny(g, a, o);
        any = std::move(r.first);
        n = stripped(r.second);
        return true;
    }
    n = Node();
    leafKind(ti, n);
    switch (n.k)
    {
    case Node::BOOL: n.u = g.flip(); any = BasicAny<A>(n.u != 0, a); break;
    case Node::INT: n.i = g.sbits(static_cast<unsigned>(n.width * 8)); any = intAny<A>(n, true, a); break;
    case Node::UINT: n.u = g.ubits(static_cast<unsigned>(n.width * 8)); any = intAny<A>(n, false, a); break;
    case Node::FLT:
        if (n.width == 4) { float f = g.anyFloat(true); n.d = static_cast<double>(f); any = BasicAny<A>(f, a); }
        else { n.d = g.anyDouble(true); any = BasicAny<A>(n.d, a); }
        break;
    case Node::STR: { n.s = g.utf8(12); any = BasicAny<A>(Str<A>(n.s.data(), n.s.size(), RebindAlloc<A, char>(a)), a); break; }
    case Node::BYTES: { n.s = g.bytes(8); any = BasicAny<A>(Byt<A>(n.s.begin(), n.s.end(), typename Byt<A>::allocator_type(a)), a); break; }
    case Node::BITS:
    {
        Bbf<A> b = genT<Bbf<A>, A>(g, a, 0, Opt2{});
        Node m = modelT<A, Bbf<A>>(b, 0);
        n = m;
        any = BasicAny<A>(std::move(b), a);
        break;
    }
    case Node::ENUM:
    {
        const auto items = ti.getEnumItems();
        n.u = items[g.below(items.size())].value;
        if (n.sgn) { n.i = static_cast<int64_t>(n.u); n.u = 0; }
        any = intAny<A>(n, n.sgn, a);
        break;
    }
    default:
        if (n.sgn) n.i = g.sbits(static_cast<unsigned>(n.width * 8));
        else n.u = g.ubits(static_cast<unsigned>(n.width * 8));
        any = intAny<A>(n, n.sgn, a);
        break;
    }
    return true;
}
// a value no field of the type accepts
template <class A>
zserio::BasicAny<A> wrongAny(pbt::Gen& g, const zserio::IBasicTypeInfo<A>& ti, bool optional, bool array, const A& a)
{
    using zserio::BasicAny;
    using zserio::CppType;
    CppType t = ti.getCppType();
    if (t == CppType::ENUM || t == CppType::BITMASK)
    {
        if (t == CppType::ENUM && !array && g.flip())
        {
            Node n;
            leafKind(ti, n);
            for (int tries = 0; tries < 4; ++tries)
            {
                n.u = n.sgn ? static_cast<uint64_t>(g.sbits(static_cast<unsigned>(n.width * 8))) : g.ubits(static_cast<unsigned>(n.width * 8));
                n.i = static_cast<int64_t>(n.u);
                bool used = false;
                for (const auto& it : ti.getEnumItems()) used = used || it.value == n.u;
                if (!used) return intAny<A>(n, n.sgn, a);
            }
        }
        t = ti.getUnderlyingType().getCppType();
    }
    if (array) t = CppType::STRUCT;
    for (;;)
    {
        switch (g.below(10))
        {
        case 0: return BasicAny<A>(Odd{}, a);
        case 1: if (optional) break; return BasicAny<A>(nullptr, a);
        case 2: if (t == CppType::INT8) break; return BasicAny<A>(int8_t(1), a);
        case 3: if (t == CppType::UINT16) break; return BasicAny<A>(uint16_t(1), a);
        case 4: if (t == CppType::UINT64) break; return BasicAny<A>(uint64_t(1), a);
        case 5: if (t == CppType::INT64) break; return BasicAny<A>(int64_t(1), a);
        case 6: if (t == CppType::DOUBLE) break; return BasicAny<A>(1.0, a);
        case 7: if (t == CppType::BOOL) break; return BasicAny<A>(true, a);
        case 8: return BasicAny<A>(std::string_view("text"), a);
        default: return BasicAny<A>(a); // no value at all
        }
    }
}

} // namespace rf
