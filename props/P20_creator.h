#pragma once
// P20: driving the tree builder builds exactly the described object; illegal steps fail and change nothing.
// Oracle: an independent model mirrored step by step (never through reflection), read back by direct member access.
#include <cfloat>

#include "reflcheck.h"
#include "zserio/ZserioTreeCreator.h"

using namespace rf;

namespace rf
{
inline zserio::CppRuntimeException& operator<<(zserio::CppRuntimeException& e, ES16 v) { return e << static_cast<int16_t>(v); }
inline zserio::CppRuntimeException& operator<<(zserio::CppRuntimeException& e, EU64 v) { return e << static_cast<uint64_t>(v); }
inline zserio::CppRuntimeException& operator<<(zserio::CppRuntimeException& e, M16 v) { return e << static_cast<uint16_t>(v.getValue()); }
inline zserio::CppRuntimeException& operator<<(zserio::CppRuntimeException& e, M64 v) { return e << static_cast<uint64_t>(v.getValue()); }
} // namespace rf

namespace
{
template <class A>
struct Put
{
    zserio::BasicZserioTreeCreator<A>& c;
    const Str<A>* name = nullptr; // null: array element
    template <class V>
    void operator()(V&& v) const
    {
        if (name) c.setValue(*name, std::forward<V>(v));
        else c.addValueElement(std::forward<V>(v));
    }
};
// hands a generated value of one of many C++ types to the builder
template <class A>
struct Values
{
    using P = Put<A>;
    pbt::Gen& g;
    A a;
    std::string desc;

    template <class V, class PP>
    bool native(const Node& v, bool sgn, PP&& put)
    {
        using L = std::numeric_limits<V>;
        if constexpr (std::is_signed_v<V>)
        {
            if (sgn ? (v.i < static_cast<int64_t>(L::min()) || v.i > static_cast<int64_t>(L::max())) : v.u > static_cast<uint64_t>(L::max())) return false;
        }
        else if (sgn ? (v.i < 0 || static_cast<uint64_t>(v.i) > L::max()) : v.u > L::max()) return false;
        put(sgn ? static_cast<V>(v.i) : static_cast<V>(v.u));
        return true;
    }
    void integer(const Node& v, bool sgn, const P& put)
    {
        using namespace zserio;
        for (;;)
        {
            bool ok = false;
            unsigned how = static_cast<unsigned>(g.below(20));
            desc = "int form " + std::to_string(how);
            switch (how)
            {
            case 0: ok = native<int64_t>(v, sgn, put); break;
            case 1: ok = native<uint64_t>(v, sgn, put); break;
            case 2: ok = native<int8_t>(v, sgn, put); break;
            case 3: ok = native<uint8_t>(v, sgn, put); break;
            case 4: ok = native<int16_t>(v, sgn, put); break;
            case 5: ok = native<uint16_t>(v, sgn, put); break;
            case 6: ok = native<int32_t>(v, sgn, put); break;
            case 7: ok = native<uint32_t>(v, sgn, put); break;
            case 8: ok = native<int64_t>(v, sgn, [&](int64_t x) { put(static_cast<long long>(x)); }); break;
            case 9: ok = native<uint64_t>(v, sgn, [&](uint64_t x) { put(static_cast<unsigned long long>(x)); }); break;
            case 10: ok = native<int8_t>(v, sgn, [&](int8_t x) { put(Int8(x)); }); break;
            case 11: ok = native<uint8_t>(v, sgn, [&](uint8_t x) { put(UInt8(x)); }); break;
            case 12: ok = native<int16_t>(v, sgn, [&](int16_t x) { put(Int16(x)); }); break;
            case 13: ok = native<uint16_t>(v, sgn, [&](uint16_t x) { put(VarUInt16(x)); }); break;
            case 14: ok = native<int32_t>(v, sgn, [&](int32_t x) { put(VarInt32(x)); }); break;
            case 15: ok = native<uint32_t>(v, sgn, [&](uint32_t x) { put(UInt32(x)); }); break;
            case 16: ok = native<int64_t>(v, sgn, [&](int64_t x) { put(VarInt64(x)); }); break;
            case 17: ok = native<uint64_t>(v, sgn, [&](uint64_t x) { put(UInt64(x)); }); break;
            case 18: ok = native<int64_t>(v, sgn, [&](int64_t x) { const int64_t c = x; put(c); }); break;
            default: put(intAny<A>(v, sgn, a)); ok = true; break;
            }
            if (ok) return;
        }
    }
    void text(const std::string& s, const P& put)
    {
        using S = Str<A>;
        S str(s.data(), s.size(), RebindAlloc<A, char>(a));
        switch (s.find('\0') == std::string::npos ? g.below(5) : g.below(4))
        {
        case 0: put(std::string_view(s)); break;
        case 1: put(str); CHECKM(std::string_view(str) == s, "lvalue string modified"); break;
        case 2: put(std::move(str)); break;
        case 3: { const S c(str); put(c); break; }
        default: put(s.c_str()); break;
        }
    }
    // text of a bitmask value as the union of declared names, or empty
    std::string maskText(const zserio::IBasicTypeInfo<A>& ti, uint64_t v)
    {
        std::vector<std::pair<std::string, uint64_t>> use;
        uint64_t have = 0;
        for (const auto& it : ti.getBitmaskValues())
            if ((v & it.value) == it.value && (it.value != 0 || v == 0)) { use.emplace_back(std::string(it.schemaName), it.value); have |= it.value; }
        if (use.empty() || have != v) return "";
        for (size_t i = use.size(); i > 1; --i) std::swap(use[i - 1], use[g.below(i)]);
        std::string r;
        uint64_t got = 0;
        for (size_t i = 0; i < use.size(); ++i)
        {
            if (i > 0 && got == v && g.flip()) break;
            if (i > 0) r += std::string(g.below(3), ' ') + "|" + std::string(g.below(3), ' ');
            r += use[i].first;
            got |= use[i].second;
        }
        return r;
    }
    // value v of a leaf in any admissible form
    void leaf(const zserio::IBasicTypeInfo<A>& ti, const Node& v, zserio::BasicAny<A>&& any, const P& put)
    {
        using namespace zserio;
        desc.clear();
        if (g.chance(1, 8)) { desc = "any"; put(std::move(any)); return; }
        switch (v.k)
        {
        case Node::BOOL:
            if (g.flip()) put(v.u != 0);
            else { desc = "Bool"; put(Bool(v.u != 0)); }
            break;
        case Node::INT: integer(v, true, put); break;
        case Node::UINT: integer(v, false, put); break;
        case Node::FLT:
        {
            double r = std::abs(v.d) < 1e6 ? std::trunc(v.d) : 0.5;
            bool integral = sameDouble(r, v.d) && !(v.d == 0 && std::signbit(v.d));
            bool asFloat = v.width == 4 || (std::isfinite(v.d) && std::abs(v.d) <= FLT_MAX && sameDouble(static_cast<double>(static_cast<float>(v.d)), v.d));
            // (the numeric wrappers Float16/32/64 are not accepted by setValue at compile time)
            switch (g.below(integral ? 5 : 3))
            {
            case 0: put(v.d); break;
            case 1: { const double d = v.d; put(d); break; }
            case 2: if (asFloat) put(static_cast<float>(v.d)); else put(v.d); break;
            case 3: put(static_cast<int32_t>(v.d)); break;
            default: put(static_cast<int64_t>(v.d)); break;
            }
            break;
        }
        case Node::STR: text(v.s, put); break;
        case Node::BYTES: put(Byt<A>(v.s.begin(), v.s.end(), typename Byt<A>::allocator_type(a))); break;
        case Node::BITS:
        {
            auto b = any.template get<Bbf<A>>();
            if (g.flip()) put(b);
            else put(std::move(b));
            break;
        }
        case Node::ENUM:
        {
            std::string name;
            uint64_t raw = v.sgn ? static_cast<uint64_t>(v.i) : v.u;
            for (const auto& it : ti.getEnumItems()) if (it.value == raw) name = it.schemaName;
            if (g.flip()) { desc = "name " + name; text(name, put); }
            else integer(v, v.sgn, put);
            break;
        }
        case Node::MASK:
        {
            std::string t = maskText(ti, v.u);
            unsigned how = static_cast<unsigned>(g.below(3));
            if (how == 0 && !t.empty()) { desc = "text '" + t + "'"; text(t, put); }
            else if (how == 1) { desc = "numeric text"; text(std::to_string(v.u), put); }
            else integer(v, v.sgn, put);
            break;
        }
        default: put(std::move(any)); break;
        }
    }
    // a value that must be refused by a leaf of this type
    void wrong(const zserio::IBasicTypeInfo<A>& ti, const P& put)
    {
        using namespace zserio;
        Node n;
        leafKind(ti, n);
        desc = "wrong any";
        if (g.chance(1, 5)) { put(wrongAny<A>(g, ti, true, false, a)); return; }
        switch (n.k)
        {
        case Node::BOOL:
            switch (g.below(6))
            {
            case 0: desc = "1 into bool"; put(1); break;
            case 1: desc = "0 into bool"; put(uint8_t(0)); break;
            case 2: desc = "1.0 into bool"; put(1.0); break;
            case 3: desc = "text into bool"; put("true"); break;
            case 4: desc = "sv into bool"; put(std::string_view("0")); break;
            default: desc = "UInt8 into bool"; put(UInt8(1)); break;
            }
            break;
        case Node::INT:
        case Node::UINT: wrongInt(n, n.k == Node::INT, put); break;
        case Node::FLT:
            switch (g.below(5))
            {
            case 4: desc = "Bool into float"; put(Bool(false)); break;
            case 0: desc = "text into float"; put("1.0"); break;
            case 1: desc = "bool into float"; put(true); break;
            case 2: desc = "sv into float"; put(std::string_view("nan")); break;
            default: desc = "buffer into float"; put(Bbf<A>(8, a)); break;
            }
            break;
        case Node::STR:
            switch (g.below(4))
            {
            case 0: desc = "int into string"; put(13); break;
            case 1: desc = "double into string"; put(1.5); break;
            case 2: desc = "bool into string"; put(false); break;
            default: desc = "buffer into string"; put(Bbf<A>(8, a)); break;
            }
            break;
        case Node::BYTES:
        case Node::BITS:
            switch (g.below(4))
            {
            case 0: desc = "int into binary"; put(13); break;
            case 1: desc = "text into binary"; put("text"); break;
            case 2: desc = "bool into binary"; put(false); break;
            default:
                desc = "other binary kind";
                if (n.k == Node::BYTES) put(Bbf<A>(8, a));
                else put(Byt<A>(typename Byt<A>::allocator_type(a)));
                break;
            }
            break;
        case Node::ENUM: wrongEnum(ti, n, put); break;
        default: wrongMask(ti, n, put); break;
        }
    }
    void wrongInt(const Node& n, bool sgn, const P& put, bool withText = true)
    {
        unsigned bits = static_cast<unsigned>(n.width * 8);
        switch (g.below(11))
        {
        case 0: if (!withText) break; desc = "text into int"; put("1"); return;
        case 1: if (!withText) break; desc = "sv into int"; put(std::string_view("0")); return;
        case 2: desc = "bool into int"; put(true); return;
        case 3: desc = "double into int"; put(1.0); return;
        case 4: desc = "float into int"; put(0.0f); return;
        case 5: desc = "buffer into int"; put(Bbf<A>(8, a)); return;
        case 6: desc = "Bool into int"; put(zserio::Bool(true)); return;
        default: break;
        }
        // out of range
        if (!sgn && (bits == 64 || g.flip()))
        {
            int64_t v = -1 - static_cast<int64_t>(g.edge(INT64_MAX));
            desc = std::to_string(v) + " into unsigned " + std::to_string(bits);
            Node x;
            x.i = v;
            nativeOut(x, true, put);
            return;
        }
        Node x;
        bool xs = false;
        if (sgn && bits < 64 && g.flip())
        {
            int64_t min = -(int64_t(1) << (bits - 1));
            x.i = min - 1 - static_cast<int64_t>(g.edge(static_cast<uint64_t>(min - INT64_MIN) - 1));
            xs = true;
        }
        else
        {
            uint64_t max = sgn ? (uint64_t(1) << (bits - 1)) - 1 : (uint64_t(1) << bits) - 1;
            x.u = max + 1 + g.edge(UINT64_MAX - max - 1);
        }
        desc = (xs ? std::to_string(x.i) : std::to_string(x.u)) + " into " + (sgn ? "signed " : "unsigned ") + std::to_string(bits);
        nativeOut(x, xs, put);
    }
    void nativeOut(const Node& x, bool xs, const P& put)
    {
        using namespace zserio;
        for (;;)
        {
            bool ok = false;
            switch (g.below(9))
            {
            case 0: ok = native<int64_t>(x, xs, put); break;
            case 1: ok = native<uint64_t>(x, xs, put); break;
            case 2: ok = native<int8_t>(x, xs, put); break;
            case 3: ok = native<uint8_t>(x, xs, put); break;
            case 4: ok = native<int16_t>(x, xs, put); break;
            case 5: ok = native<uint16_t>(x, xs, put); break;
            case 6: ok = native<int32_t>(x, xs, [&](int32_t v) { put(Int32(v)); }); break;
            case 7: ok = native<uint32_t>(x, xs, [&](uint32_t v) { put(VarUInt32(v)); }); break;
            default: ok = native<int64_t>(x, xs, [&](int64_t v) { put(Int64(v)); }) || native<uint64_t>(x, xs, [&](uint64_t v) { put(VarUInt(v)); }); break;
            }
            if (ok) return;
        }
    }
    void wrongEnum(const zserio::IBasicTypeInfo<A>& ti, Node n, const P& put)
    {
        const auto items = ti.getEnumItems();
        if (g.flip())
        {
            std::string name(items[g.below(items.size())].schemaName);
            switch (g.below(8))
            {
            case 0: name.clear(); break;
            case 1: name += 'x'; break;
            case 2: name.pop_back(); break;
            case 3: name += ' '; break;
            case 4: name = ' ' + name; break;
            case 5: name += '\0'; break;
            case 6: name = std::to_string(items[g.below(items.size())].value); break;
            default: name[0] = static_cast<char>(name[0] ^ 0x20); break;
            }
            bool isItem = false;
            for (const auto& it : items) isItem = isItem || it.schemaName == name;
            if (!isItem) { desc = "enum text " + pbt::show(name); text(name, put); return; }
        }
        if (g.flip())
            for (int tries = 0; tries < 8; ++tries)
            {
                unsigned bits = static_cast<unsigned>(n.width * 8);
                if (n.sgn) n.i = g.sbits(bits);
                else n.u = g.ubits(bits);
                uint64_t raw = n.sgn ? static_cast<uint64_t>(n.i) : n.u;
                bool isItem = false;
                for (const auto& it : items) isItem = isItem || it.value == raw;
                if (isItem) continue;
                integer(n, n.sgn, put);
                desc = "not an item " + std::to_string(raw);
                return;
            }
        for (;;)
        {
            // kinds never convertible to an enum
            switch (g.below(4))
            {
            case 0: desc = "double into enum"; put(1.0); return;
            case 1: desc = "bool into enum"; put(true); return;
            case 2: desc = "buffer into enum"; put(Bbf<A>(8, a)); return;
            default: desc = "bytes into enum"; put(Byt<A>(typename Byt<A>::allocator_type(a))); return;
            }
        }
    }
    void wrongMask(const zserio::IBasicTypeInfo<A>& ti, const Node& n, const P& put)
    {
        const auto items = ti.getBitmaskValues();
        std::string x(items[g.below(items.size())].schemaName), y(items[g.below(items.size())].schemaName);
        std::string t;
        switch (g.below(16))
        {
        case 0: t = ""; break;
        case 1: t = " "; break;
        case 2: t = x + " |"; break;
        case 3: t = x + " | "; break;
        case 4: t = "| " + x; break;
        case 5: t = x + " || " + y; break;
        case 6: t = x + " "; break;
        case 7: t = x + ", " + y; break;
        case 8: t = x + " " + y; break;
        case 9: t = x + "|" + y + "#"; break;
        case 10: t = x + " | noSuchName"; break;
        case 11: t = "noSuchName | " + x; break;
        case 12: t = " " + x; break;
        case 13: t = "-1"; break;
        case 14: t = n.width == 8 ? "18446744073709551616" : std::to_string((uint64_t(1) << (n.width * 8)) + g.below(3)); break;
        default:
            switch (g.below(3))
            {
            case 0: desc = "double into mask"; put(1.0); return;
            case 1: desc = "bool into mask"; put(true); return;
            default: wrongInt(n, n.sgn, put, false);
                return;
            }
        }
        desc = "mask text " + pbt::show(t);
        text(t, put);
    }
};

template <class A>
struct Builder
{
    using P = Put<A>;
    using FI = zserio::BasicFieldInfo<A>;
    enum Kind { ROOT, FIELD, ELEM, ARRAY };
    struct Frame
    {
        Kind kind;
        Node* n;
        const zserio::IBasicTypeInfo<A>* ti;
    };
    pbt::Gen& g;
    A a;
    const IObj<A>& o;
    zserio::BasicZserioTreeCreator<A> c;
    Values<A> val;
    std::vector<Frame> st;
    Node m;
    unsigned done = 0, failed = 0;

    Builder(pbt::Gen& gen, const A& al, const IObj<A>& obj) : g(gen), a(al), o(obj), c(obj.ti(), al), val{gen, al, {}} {}
    Str<A> nm(std::string_view s) const { return Str<A>(s.data(), s.size(), RebindAlloc<A, char>(a)); }
    template <class F>
    void mustThrow(const std::string& what, F&& f)
    {
        bool t = throwsCpp(f);
        CHECKM(t, what << " must throw, at depth " << st.size() << " " << val.desc);
        ++failed;
        g.note("!" + what);
        probe();
    }
    void ok(const std::string& what) { g.note(what); ++done; }
    // the builder is in the state the history says
    void probe()
    {
        bool inArray = !st.empty() && st.back().kind == ARRAY;
        if (inArray) CHECKM(&c.getElementType() == st.back().ti, "element type");
        else if (!st.empty() && !st.back().n->fields.empty())
        {
            const auto& f = g.pick(st.back().n->fields);
            CHECKM(&c.getFieldType(nm(f.first)) == &field(f.first)->typeInfo, "field type " << f.first);
        }
        if (!inArray) RF_THROWS(c.getElementType(), "probe");
        else RF_THROWS(c.getFieldType(nm("v")), "probe");
    }
    const FI* field(const std::string& name) const
    {
        for (const auto& f : st.back().ti->getFields()) if (f.schemaName == name) return &f;
        CHECKM(false, "field info of " << name);
        return nullptr;
    }
    bool known(const zserio::IBasicTypeInfo<A>& ti) const
    {
        return !zserio::TypeInfoUtil::isCompound(ti.getCppType()) || findType<A>(ti.getSchemaName()) != nullptr;
    }
    Node deflt(const zserio::IBasicTypeInfo<A>& ti) const
    {
        Node d;
        CHECK(defaultNode<A>(ti, a, d));
        return stripped(d);
    }
    static void assign(Node& n, size_t i, Node v)
    {
        if (n.k == Node::VARIANT)
        {
            for (auto& f : n.fields) f.second = Node();
            n.choice = n.fields[i].first;
        }
        n.fields[i].second = std::move(v);
    }
    void begin()
    {
        c.beginRoot();
        m = deflt(o.ti());
        st.push_back({ROOT, &m, &o.ti()});
        g.note("beginRoot");
    }
    Ptr<A> end()
    {
        while (st.size() > 1) close();
        Ptr<A> r = c.endRoot();
        st.clear();
        CHECK(r != nullptr);
        Node t = stripped(o.modelOf(r));
        CHECKM(t == m, "built tree differs " << firstDiff(m, t));
        return r;
    }
    void close()
    {
        switch (st.back().kind)
        {
        case FIELD: c.endCompound(); g.note("endCompound"); break;
        case ELEM: c.endCompoundElement(); g.note("endElement"); break;
        case ARRAY: c.endArray(); g.note("endArray"); break;
        default: return;
        }
        st.pop_back();
    }
    bool openArray(const std::string& name, size_t i, const FI& fi)
    {
        c.beginArray(nm(name));
        Node d;
        d.k = Node::ARRAY;
        assign(*st.back().n, i, d);
        st.push_back({ARRAY, &st.back().n->fields[i].second, &fi.typeInfo});
        ok("beginArray " + name);
        return true;
    }
    bool openCompound(const std::string& name, size_t i, const FI& fi)
    {
        if (!known(fi.typeInfo)) return false;
        Node& n = *st.back().n;
        bool fresh = fi.isOptional || n.k == Node::VARIANT;
        if (n.k == Node::VARIANT || fi.isOptional) assign(n, i, deflt(fi.typeInfo));
        (void)fresh;
        c.beginCompound(nm(name));
        st.push_back({FIELD, &n.fields[i].second, &fi.typeInfo});
        ok("beginCompound " + name);
        return true;
    }
    void openElement()
    {
        c.beginCompoundElement();
        Node& n = *st.back().n;
        n.elems.push_back(deflt(*st.back().ti));
        st.push_back({ELEM, &n.elems.back(), st.back().ti});
        ok("beginElement");
    }
    void setLeaf(const std::string& name, size_t i, const FI& fi)
    {
        zserio::BasicAny<A> any(a);
        Node v;
        if (!genAnyFor<A>(g, fi.typeInfo, a, any, v)) return;
        setTo(name, i, fi, v, std::move(any));
    }
    void setTo(const std::string& name, size_t i, const FI& fi, const Node& v, zserio::BasicAny<A>&& any)
    {
        const auto key = nm(name);
        val.leaf(fi.typeInfo, v, std::move(any), P{c, &key});
        assign(*st.back().n, i, v);
        ok("set " + name + "=" + show(v) + " " + val.desc);
    }
    void add(const zserio::IBasicTypeInfo<A>& ti, const Node& v, zserio::BasicAny<A>&& any)
    {
        val.leaf(ti, v, std::move(any), P{c});
        st.back().n->elems.push_back(v);
        ok("add " + show(v) + " " + val.desc);
    }
    void setNull(const std::string& name, size_t i, const FI& fi)
    {
        Node d;
        if (!fi.isOptional)
        {
            if (fi.isArray) d.k = Node::ARRAY;
            else if (!known(fi.typeInfo)) return;
            else d = deflt(fi.typeInfo);
        }
        c.setValue(nm(name), nullptr);
        assign(*st.back().n, i, d);
        ok("null " + name);
    }
    // one step which is not allowed in the current state
    void illegal()
    {
        bool before = st.empty();
        Kind k = before ? ROOT : st.back().kind;
        bool comp = !before && k != ARRAY, arr = !before && k == ARRAY;
        bool compElems = arr && zserio::TypeInfoUtil::isCompound(st.back().ti->getCppType());
        std::string leafF = "noSuchField", arrF = leafF, compF = leafF;
        if (comp)
            for (const auto& f : st.back().ti->getFields())
            {
                bool isC = zserio::TypeInfoUtil::isCompound(f.typeInfo.getCppType());
                if (f.isArray) arrF = f.schemaName;
                else if (isC) compF = f.schemaName;
                else leafF = f.schemaName;
            }
        else
            for (const auto& f : o.ti().getFields()) { leafF = f.schemaName; if (f.isArray) arrF = f.schemaName; }
        for (;;)
        {
            switch (g.below(24))
            {
            case 0: if (before) break; mustThrow("beginRoot", [&] { c.beginRoot(); }); return;
            case 1: if (comp && k == ROOT) break; mustThrow("endRoot", [&] { c.endRoot(); }); return;
            case 2: if (arr) break; mustThrow("endArray", [&] { c.endArray(); }); return;
            case 3: if (comp && k == FIELD) break; mustThrow("endCompound", [&] { c.endCompound(); }); return;
            case 4: if (comp && k == ELEM) break; mustThrow("endCompoundElement", [&] { c.endCompoundElement(); }); return;
            case 5: if (arr && compElems) break; mustThrow("beginCompoundElement", [&] { c.beginCompoundElement(); }); return;
            case 6: if (arr && !compElems) break; mustThrow("addValueElement", [&] { c.addValueElement(13); }); return;
            case 7: if (arr) break; mustThrow("addValueElement text", [&] { c.addValueElement("text"); }); return;
            case 8: if (arr) break; mustThrow("getElementType", [&] { c.getElementType(); }); return;
            case 9: mustThrow("beginArray unknown", [&] { c.beginArray(nm("noSuchField")); }); return;
            case 10: mustThrow("beginCompound unknown", [&] { c.beginCompound(nm("noSuchField")); }); return;
            case 11: mustThrow("setValue unknown", [&] { c.setValue(nm("noSuchField"), 13); }); return;
            case 12: mustThrow("setValue unknown null", [&] { c.setValue(nm("noSuchField"), nullptr); }); return;
            case 13: mustThrow("getFieldType unknown", [&] { c.getFieldType(nm("noSuchField")); }); return;
            case 14: mustThrow("beginArray of leaf " + leafF, [&] { c.beginArray(nm(leafF)); }); return;
            case 15: mustThrow("beginCompound of leaf " + leafF, [&] { c.beginCompound(nm(leafF)); }); return;
            case 16: mustThrow("beginCompound of array " + arrF, [&] { c.beginCompound(nm(arrF)); }); return;
            case 17: mustThrow("beginArray of compound " + compF, [&] { c.beginArray(nm(comp ? compF : leafF)); }); return;
            case 18: mustThrow("setValue of array " + arrF, [&] { c.setValue(nm(arrF), 13); }); return;
            case 19: mustThrow("setValue of compound " + compF, [&] { c.setValue(nm(comp ? compF : leafF), std::string_view("text")); if (!comp) return; }); return;
            case 20: if (comp) break; mustThrow("setValue in " + std::to_string(k), [&] { c.setValue(nm(leafF), nullptr); }); return;
            case 21: if (comp) break; mustThrow("beginArray in wrong state", [&] { c.beginArray(nm(arrF)); }); return;
            case 22: if (!arr) break; mustThrow("wrong element any", [&] { c.addValueElement(wrongAny<A>(g, *st.back().ti, false, false, a)); }); return;
            default: if (!arr || compElems) break; mustThrow("wrong element", [&] { val.wrong(*st.back().ti, P{c}); }); return;
            }
        }
    }
    void step()
    {
        if (g.chance(1, 5)) { illegal(); return; }
        if (st.back().kind == ARRAY)
        {
            bool compElems = zserio::TypeInfoUtil::isCompound(st.back().ti->getCppType());
            if (st.back().n->elems.size() >= 4 || g.chance(1, 4)) { close(); return; }
            if (compElems && known(*st.back().ti) && g.chance(3, 4) && st.size() < 8) { openElement(); return; }
            zserio::BasicAny<A> any(a);
            Node v;
            if (genAnyFor<A>(g, *st.back().ti, a, any, v)) add(*st.back().ti, v, std::move(any));
            return;
        }
        Node& n = *st.back().n;
        if (n.fields.empty() || (st.size() > 1 && g.chance(1, 5))) { close(); return; }
        size_t i = g.below(n.fields.size());
        const std::string name = n.fields[i].first;
        const FI& fi = *field(name);
        bool isC = zserio::TypeInfoUtil::isCompound(fi.typeInfo.getCppType());
        switch (g.below(6))
        {
        case 0: setNull(name, i, fi); break;
        case 1:
            if (fi.isArray || isC) mustThrow("wrong any " + name, [&] { c.setValue(nm(name), wrongAny<A>(g, fi.typeInfo, true, fi.isArray, a)); });
            else { const auto key = nm(name); mustThrow("wrong " + name, [&] { val.wrong(fi.typeInfo, P{c, &key}); }); }
            break;
        default:
            if (fi.isArray) { if (st.size() < 9) openArray(name, i, fi); }
            else if (isC && st.size() < 8 && g.chance(3, 4)) openCompound(name, i, fi);
            else setLeaf(name, i, fi);
            break;
        }
    }
    // ------------------------------------------------------------------------------ building a given object
    static zserio::BasicAny<A> exactAny(const Node& v, const A& a)
    {
        using namespace zserio;
        switch (v.k)
        {
        case Node::BOOL: return BasicAny<A>(v.u != 0, a);
        case Node::FLT: return v.width == 4 ? BasicAny<A>(static_cast<float>(v.d), a) : BasicAny<A>(v.d, a);
        case Node::STR: return BasicAny<A>(Str<A>(v.s.data(), v.s.size(), RebindAlloc<A, char>(a)), a);
        case Node::BYTES: return BasicAny<A>(Byt<A>(v.s.begin(), v.s.end(), typename Byt<A>::allocator_type(a)), a);
        case Node::BITS:
        {
            Vector<uint8_t, RebindAlloc<A, uint8_t>> b(v.s.begin(), v.s.end(), RebindAlloc<A, uint8_t>(a));
            return BasicAny<A>(Bbf<A>(std::move(b), v.bits, a), a);
        }
        default: return intAny<A>(v, v.k == Node::INT || v.sgn, a);
        }
    }
    void buildCompound(const Node& want)
    {
        std::vector<size_t> order(want.fields.size());
        for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
        for (size_t i : order)
        {
            const auto& [name, v] = want.fields[i];
            if (want.k == Node::VARIANT && name != want.choice) continue;
            const FI& fi = *field(name);
            if (g.chance(1, 10)) illegal();
            if (v.k == Node::ABSENT)
            {
                if (g.flip() || st.back().n->fields[i].second.k != Node::ABSENT) setNull(name, i, fi);
            }
            else if (v.k == Node::ARRAY)
            {
                CHECK(openArray(name, i, fi));
                for (const auto& e : v.elems)
                {
                    if (g.chance(1, 20)) illegal();
                    if (e.k == Node::STRUCT || e.k == Node::VARIANT) { openElement(); buildCompound(e); close(); }
                    else add(fi.typeInfo, e, exactAny(e, a));
                }
                close();
            }
            else if (v.k == Node::STRUCT || v.k == Node::VARIANT)
            {
                CHECK(openCompound(name, i, fi));
                buildCompound(v);
                close();
            }
            else setTo(name, i, fi, v, exactAny(v, a));
        }
    }
};
// every compound type inside has an independent model of its default (undefined choices cannot be built explicitly)
inline bool buildable(const Node& n)
{
    if (n.k == Node::VARIANT && n.choice.empty()) return false;
    for (const auto& f : n.fields) if (!buildable(f.second)) return false;
    for (const auto& e : n.elems) if (!buildable(e)) return false;
    return true;
}
template <class A>
bool allKnown(const Node& n)
{
    if ((n.k == Node::STRUCT || n.k == Node::VARIANT) && !findType<A>(n.type)) return false;
    for (const auto& f : n.fields) if (!allKnown<A>(f.second)) return false;
    for (const auto& e : n.elems) if (!allKnown<A>(e)) return false;
    return true;
}
template <class A>
void histCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    auto o = t.fresh(a);
    Builder<A> b(g, a, *o);
    g.note(t.name);
    std::vector<std::pair<Ptr<A>, Node>> results;
    size_t rounds = g.chance(1, 4) ? 2 : 1;
    for (size_t r = 0; r < rounds; ++r)
    {
        if (g.chance(1, 4)) b.illegal();
        b.begin();
        size_t steps = 1 + g.size(24);
        for (size_t i = 0; i < steps; ++i) b.step();
        Ptr<A> p = b.end();
        checkTree<Ptr<A>, A, false>(p, o->modelOf(p), a, "built", false);
        results.emplace_back(p, b.m);
        if (g.chance(1, 4)) b.illegal();
    }
    // earlier results are independent of later builds
    for (const auto& [p, m] : results) CHECKM(stripped(o->modelOf(p)) == m, "earlier result changed");
    g.nontrivial(b.done >= 4 && b.failed >= 1);
}
template <class A>
void buildCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    auto o = t.gen(g, a, Opt2{});
    Node want = stripped(o->model());
    if (!buildable(want) || !allKnown<A>(want)) throw pbt::Discard();
    g.note(t.name + " " + show(want));
    Builder<A> b(g, a, *o);
    b.begin();
    if (g.chance(1, 3))
    {
        // rubbish first: building the object afterwards replaces every part of it
        size_t steps = g.size(8);
        for (size_t i = 0; i < steps; ++i) b.step();
        while (b.st.size() > 1) b.close();
    }
    b.buildCompound(want);
    Ptr<A> p = b.end();
    Node got = stripped(o->modelOf(p));
    CHECKM(got == want, "built object differs " << firstDiff(want, got));
    CHECKM(o->sameAs(p), "built object does not compare equal: " << show(got));
    g.nontrivial(b.done >= 4);
}
// typed enums, bitmasks and numeric wrappers handed over directly
template <class A, class T>
void typedCase(pbt::Gen& g, const A& a)
{
    using R = Rich<A, T>;
    zserio::BasicZserioTreeCreator<A> c(zserio::typeInfo<R, A>(), a);
    auto nm = [&](const char* s) { return Str<A>(s, RebindAlloc<A, char>(a)); };
    R want(a);
    c.beginRoot();
    if (g.flip()) { want.v = genT<T, A>(g, a, 0, Opt2{}); c.setValue(nm("v"), want.v); }
    if (g.flip()) { want.o = genT<T, A>(g, a, 0, Opt2{}); c.setValue(nm("o"), T(*want.o)); }
    if (g.flip())
    {
        want.n = zserio::VarInt32(g.within<int32_t>(-268435455, 268435455));
        c.setValue(nm("n"), want.n);
    }
    c.beginArray(nm("a"));
    size_t n = g.size(4);
    for (size_t i = 0; i < n; ++i)
    {
        want.a.push_back(genT<T, A>(g, a, 0, Opt2{}));
        const T& e = want.a.back();
        c.addValueElement(e);
    }
    c.endArray();
    auto p = c.endRoot();
    g.note(show(modelT<A, R>(want, 0)));
    CHECKM((zserio::ReflectableUtil::getValue<R, A>(p) == want), show(modelT<A, R>(zserio::ReflectableUtil::getValue<R, A>(p), 0)));
    g.nontrivial(n > 0);
}
template <class A>
void typedAny(pbt::Gen& g, const A& a)
{
    using namespace zserio;
    switch (g.below(12))
    {
    case 0: typedCase<A, ES16>(g, a); break;
    case 1: typedCase<A, EU64>(g, a); break;
    case 2: typedCase<A, M16>(g, a); break;
    case 3: typedCase<A, M64>(g, a); break;
    case 4: typedCase<A, Bool>(g, a); break;
    case 5: typedCase<A, Int8>(g, a); break;
    case 6: typedCase<A, UInt16>(g, a); break;
    case 7: typedCase<A, Int64>(g, a); break;
    case 8: typedCase<A, VarUInt>(g, a); break;
    case 9: typedCase<A, Str<A>>(g, a); break;
    case 10: typedCase<A, Byt<A>>(g, a); break;
    default: typedCase<A, Bbf<A>>(g, a); break;
    }
}
} // namespace

