// P23: introspection views mirror the typed view read-only; deep comparison holds exactly for equal content.
#include "reflcheck.h"

// a compound type with compound parameters and functions returning compounds, so that paths can lead through them
namespace rel
{
struct Rel
{
    zserio::UInt32 own{0};
    const Rel* peer = nullptr;  // the parameter
    const Rel* other = nullptr; // result of the function
};
} // namespace rel
namespace zserio
{
template <>
class View<rel::Rel>
{
public:
    explicit View(const rel::Rel& d) : m_d(&d) {}
    const rel::Rel& d() const { return *m_d; }

private:
    const rel::Rel* m_d;
};
namespace detail
{
template <class A>
struct TypeInfo<rel::Rel, A>
{
    static const IBasicTypeInfo<A>& get()
    {
        static const RecursiveTypeInfo<A> recursive(&TypeInfo<rel::Rel, A>::get);
        static const std::array<BasicFieldInfo<A>, 1> fields = {rfField<A>("own", typeInfo<UInt32, A>(), false, false)};
        static const std::array<BasicParameterInfo<A>, 2> params = {
                BasicParameterInfo<A>{"twice", typeInfo<UInt32, A>()}, BasicParameterInfo<A>{"peer", recursive}};
        static const std::array<BasicFunctionInfo<A>, 2> funcs = {
                BasicFunctionInfo<A>{"other", recursive, "other"}, BasicFunctionInfo<A>{"next", typeInfo<UInt32, A>(), "own + 1"}};
        static const StructTypeInfo<A> ti = {"rel.Rel", nullptr, {}, {}, fields, params, funcs};
        return ti;
    }
};
template <class A>
struct RelIntr : IntrospectableViewBase<View<rel::Rel>, A>
{
    using P = IBasicIntrospectableViewConstPtr<A>;
    RelIntr(const rel::Rel& d, const A& al) : IntrospectableViewBase<View<rel::Rel>, A>(typeInfo<rel::Rel, A>(), View<rel::Rel>(d)), m_al(al) {}
    static P to(const rel::Rel* d, const A& al)
    {
        if (d == nullptr) throw CppRuntimeException("Rel: not available!");
        return std::allocate_shared<RelIntr>(al, *d, al);
    }
    P getField(std::string_view name) const override
    {
        if (name == "own") return introspectable(this->getValue().d().own, m_al);
        throw CppRuntimeException("Rel: no such field!");
    }
    P getParameter(std::string_view name) const override
    {
        if (name == "peer") return to(this->getValue().d().peer, m_al);
        if (name == "twice") return introspectable(UInt32(this->getValue().d().own * 2), m_al);
        throw CppRuntimeException("Rel: no such parameter!");
    }
    P callFunction(std::string_view name) const override
    {
        if (name == "other") return to(this->getValue().d().other, m_al);
        if (name == "next") return introspectable(UInt32(this->getValue().d().own + 1), m_al);
        throw CppRuntimeException("Rel: no such function!");
    }
    A m_al;
};
} // namespace detail
} // namespace zserio

using namespace rf;

namespace
{
// paths through parameters and function results of a graph of objects
template <class A>
void relationsCase(pbt::Gen& g, const A& a)
{
    std::vector<rel::Rel> nodes(1 + g.size(6));
    for (size_t i = 0; i < nodes.size(); ++i)
    {
        nodes[i].own = static_cast<uint32_t>(10 * i + 1);
        if (g.chance(4, 5)) nodes[i].peer = &nodes[g.below(nodes.size())];
        if (g.chance(4, 5)) nodes[i].other = &nodes[g.below(nodes.size())];
    }
    const size_t root = g.below(nodes.size());
    const VPtr<A> v = zserio::detail::RelIntr<A>::to(&nodes[root], a);
    for (int k = 0; k < 4; ++k)
    {
        // the path and what it leads to: a node, a number or nothing
        std::string path;
        const rel::Rel* at = &nodes[root];
        bool isNumber = false, found = true;
        uint32_t number = 0;
        const size_t steps = 1 + g.size(6);
        for (size_t i = 0; i < steps; ++i)
        {
            static const std::vector<std::string> names = {"peer", "other", "peer", "other", "own", "twice", "next", "none", ""};
            const std::string& name = names[g.chance(1, 2) ? g.below(4) : g.below(names.size())];
            path += (i ? "." : "") + name;
            if (!found) continue;
            if (isNumber) { found = false; continue; }
            if (name == "peer") found = (at = at->peer) != nullptr;
            else if (name == "other") found = (at = at->other) != nullptr;
            else if (name == "own" || name == "twice" || name == "next")
            {
                isNumber = true;
                number = name == "own" ? static_cast<uint32_t>(at->own) : name == "twice" ? at->own * 2 : at->own + 1;
            }
            else found = false;
        }
        g.note(path + (found ? isNumber ? "=" + std::to_string(number) : "=node" : "=-"));
        for (int way = 0; way < 2; ++way)
        {
            const VPtr<A> r = way ? (*v)[std::string_view(path)] : v->find(path);
            CHECKM((r != nullptr) == found, "path '" << path << "' " << (found ? "must lead to a value" : "leads nowhere"));
            if (!found) continue;
            if (isNumber) CHECK_EQM(r->getUInt32(), number, path);
            else
            {
                CHECKM(std::string(r->getTypeInfo().getSchemaName()) == "rel.Rel", path);
                CHECK_EQM(r->getField("own")->getUInt32(), static_cast<uint32_t>(at->own), path);
            }
        }
        g.nontrivial(found && steps >= 2);
    }
}
} // namespace

namespace
{
template <class A>
void viewCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    Opt2 opt;
    opt.finite = g.flip();
    auto o = t.gen(g, a, opt);
    Node n = o->model();
    g.note(t.name + "(" + std::to_string(o->par) + ") " + show(n));
    VPtr<A> v = o->intr(a);
    checkTree<VPtr<A>, A, true>(v, n, a, t.name, true);
    CHECK(&v->getTypeInfo() == &o->ti());
    // an equal object gives equal content
    auto c = o->clone();
    checkTree<VPtr<A>, A, true>(c->intr(a), n, a, "clone " + t.name, false);
    CHECKM(o->model() == n, "introspection modified the object");
    g.nontrivial(!n.params.empty() || n.fields.size() > 2);
}
template <class A>
void serializeCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    auto o = t.gen(g, a, Opt2{});
    bool variantWithoutChoice = o->model().k == Node::VARIANT && o->model().choice.empty();
    VPtr<A> v = o->intr(a);
    g.note(t.name + " " + show(o->model()));
    bool ok = true, okV = true;
    zserio::BasicBitBuffer<A> want(a), got(a);
    try { want = o->serialize(a); }
    catch (const zserio::CppRuntimeException&) { ok = false; }
    try { got = v->serialize(a); }
    catch (const zserio::CppRuntimeException&) { okV = false; }
    CHECK_EQM(okV, ok, "introspection serializes iff the typed view does");
    if (ok) CHECKM(got.getBitSize() == want.getBitSize() && got == want, "serialized bits " << got.getBitSize() << " want " << want.getBitSize());
    g.nontrivial(ok && !variantWithoutChoice && want.getBitSize() > 16);
}
template <class A>
void findCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    auto o = t.gen(g, a, Opt2{});
    Node n = o->model();
    VPtr<A> v = o->intr(a);
    for (int i = 0; i < 6; ++i)
    {
        std::string path = genPath(g, n, true);
        const Node* want = resolve(n, path, true);
        g.note(path + (want ? "=" + show(*want) : "=-"));
        checkTree<VPtr<A>, A, true>(v->find(path), want ? *want : Node(), a, "find " + path, false);
        checkTree<VPtr<A>, A, true>((*v)[std::string_view(path)], want ? *want : Node(), a, "[] " + path, false);
        g.nontrivial(want != nullptr && (path.find('.') != std::string::npos || path == "par" || path == "len" || path == "first"));
    }
}

// 1 equal, 0 different, -1 undecided (floating point values within a few units in the last place)
inline int contentEqual(const Node& x, const Node& y)
{
    if (x.k != y.k || x.type != y.type || x.choice != y.choice || x.fields.size() != y.fields.size() || x.elems.size() != y.elems.size()) return 0;
    if (x.k == Node::FLT)
    {
        if (std::isnan(x.d) || std::isnan(y.d)) return std::isnan(x.d) && std::isnan(y.d);
        if (x.d == y.d) return 1;
        if (std::isinf(x.d) || std::isinf(y.d)) return 0;
        long double diff = std::fabs(static_cast<long double>(x.d) - static_cast<long double>(y.d));
        long double mag = std::max(std::fabs(static_cast<long double>(x.d)), std::fabs(static_cast<long double>(y.d)));
        if (diff > mag * 16 * std::numeric_limits<double>::epsilon() && diff > 16 * std::numeric_limits<double>::min()) return 0;
        return -1;
    }
    if (x.isValue()) return x.i == y.i && x.u == y.u && x.s == y.s && x.bits == y.bits;
    int r = 1;
    for (size_t i = 0; i < x.fields.size(); ++i)
    {
        int e = contentEqual(x.fields[i].second, y.fields[i].second);
        if (e == 0) return 0;
        if (e < 0) r = -1;
    }
    for (size_t i = 0; i < x.elems.size(); ++i)
    {
        int e = contentEqual(x.elems[i], y.elems[i]);
        if (e == 0) return 0;
        if (e < 0) r = -1;
    }
    return r;
}
// changes one random part of the object through the reflectable
template <class A>
bool mutateOne(pbt::Gen& g, Ptr<A> p, const Node& root, const A& a)
{
    const Node* n = &root;
    for (int depth = 0; depth < 8; ++depth)
    {
        if (n->k == Node::ARRAY)
        {
            if (n->elems.empty() || g.chance(1, 5)) { p->resize(g.size(5)); return true; }
            size_t i = g.below(n->elems.size());
            if (n->elems[i].isValue())
            {
                zserio::BasicAny<A> any(a);
                Node v;
                if (!genAnyFor<A>(g, p->getTypeInfo(), a, any, v)) return false;
                p->setAt(any, i);
                return true;
            }
            p = p->at(i);
            n = &n->elems[i];
            continue;
        }
        if (n->fields.empty()) return false;
        size_t i = g.below(n->fields.size());
        const auto& f = n->fields[i];
        const zserio::BasicFieldInfo<A>* fi = nullptr;
        for (const auto& x : p->getTypeInfo().getFields()) if (x.schemaName == f.first) fi = &x;
        if (f.second.k == Node::ABSENT) { p->createField(f.first); return true; }
        if (fi->isOptional && g.chance(1, 4)) { p->setField(f.first, zserio::BasicAny<A>(nullptr, a)); return true; }
        if (f.second.isValue())
        {
            zserio::BasicAny<A> any(a);
            Node v;
            if (!genAnyFor<A>(g, fi->typeInfo, a, any, v)) return false;
            p->setField(f.first, any);
            return true;
        }
        p = p->getField(f.first);
        n = &f.second;
    }
    return false;
}
template <class A>
void equalCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    Opt2 opt;
    opt.finite = g.chance(2, 3);
    auto x = t.gen(g, a, opt);
    std::unique_ptr<IObj<A>> y;
    switch (g.below(6))
    {
    case 0: y = x->clone(); break;
    case 1: y = t.gen(g, a, opt); break;
    case 2: y = pickType<A>(g).gen(g, a, opt); break;
    default:
        y = x->clone();
        mutateOne<A>(g, y->refl(a), y->model(), a);
        break;
    }
    Node nx = x->model(), ny = y->model();
    g.note(t.name + " " + show(nx) + " ? " + show(ny));
    auto eq = [&](const CPtr<A>& l, const CPtr<A>& r, const Node& l2, const Node& r2, const std::string& w) {
        int want = contentEqual(l2, r2);
        bool got = zserio::ReflectableUtil::equal<A>(l, r);
        bool back = zserio::ReflectableUtil::equal<A>(r, l);
        CHECKM(got == back, "symmetry at " << w << ": " << show(l2) << " ? " << show(r2));
        if (want >= 0) CHECKM(got == (want == 1), "deep equality " << got << " at " << w << ": " << show(l2) << " ? " << show(r2) << " " << firstDiff(l2, r2));
    };
    eq(x->crefl(a), y->crefl(a), nx, ny, "root");
    eq(x->crefl(a), x->crefl(a), nx, nx, "self");
    eq(x->crefl(a), nullptr, nx, Node(), "null");
    eq(nullptr, nullptr, Node(), Node(), "null");
    // field by field (also pairs of different kinds)
    if (!nx.fields.empty() && !ny.fields.empty())
    {
        for (int i = 0; i < 4; ++i)
        {
            const auto& fx = g.pick(nx.fields);
            const auto& fy = g.flip() && ny.field(fx.first) ? *std::find_if(ny.fields.begin(), ny.fields.end(), [&](const auto& f) { return f.first == fx.first; }) : g.pick(ny.fields);
            if (fx.second.k == Node::ABSENT || fy.second.k == Node::ABSENT) continue;
            // the schema type of plain values is part of the comparison
            CPtr<A> px = x->crefl(a)->getField(fx.first), py = y->crefl(a)->getField(fy.first);
            if (fx.second.isValue() && px->getTypeInfo().getSchemaName() != py->getTypeInfo().getSchemaName())
            {
                CHECKM(!zserio::ReflectableUtil::equal<A>(px, py), fx.first + " " + fy.first);
                continue;
            }
            if (fx.second.k == Node::ARRAY && fy.second.k == Node::ARRAY && px->getTypeInfo().getSchemaName() != py->getTypeInfo().getSchemaName())
            {
                CHECKM(!zserio::ReflectableUtil::equal<A>(px, py), fx.first + " " + fy.first);
                continue;
            }
            eq(px, py, fx.second, fy.second, fx.first + " " + fy.first);
        }
    }
    g.nontrivial(nx.type == ny.type && nx.fields.size() > 1);
}
// floating point values of all magnitudes
void doublesCase(pbt::Gen& g)
{
    double x = g.anyDouble(true), y = 0;
    switch (g.below(5))
    {
    case 0: y = x; break;
    case 1: y = -x; break;
    case 2: y = x * (1 + static_cast<double>(g.range(1, 1000)) / 4096.0); break;
    case 3: y = std::nextafter(x, 0.0); break;
    default: y = g.anyDouble(true); break;
    }
    Node nx, ny;
    nx.k = ny.k = Node::FLT;
    nx.width = ny.width = 8;
    bool single = g.chance(1, 3);
    if (single) { x = static_cast<double>(static_cast<float>(std::isfinite(x) && std::fabs(x) > 3e38 ? 1e38 : x)); y = static_cast<double>(static_cast<float>(std::isfinite(y) && std::fabs(y) > 3e38 ? 3e38 : y)); }
    nx.d = x;
    ny.d = y;
    CPtr<StdA> px = single ? CPtr<StdA>(zserio::reflectable(zserio::Float32(static_cast<float>(x)))) : CPtr<StdA>(zserio::reflectable(zserio::Float64(x)));
    CPtr<StdA> py = single ? CPtr<StdA>(zserio::reflectable(zserio::Float32(static_cast<float>(y)))) : CPtr<StdA>(zserio::reflectable(zserio::Float64(y)));
    g.note(show(nx) + " ? " + show(ny));
    int want = contentEqual(nx, ny);
    bool got = zserio::ReflectableUtil::equal<StdA>(px, py);
    if (want >= 0) CHECKM(got == (want == 1), "deep equality of " << show(nx) << " and " << show(ny) << " is " << got);
    CHECKM(got == zserio::ReflectableUtil::equal<StdA>(py, px), "symmetry " << show(nx) << " " << show(ny));
    g.nontrivial(x != 0 && y != 0 && !std::isnan(x) && !std::isnan(y));
}
} // namespace

#define RF_SUB3(NAME, Q, T, WHAT, FN) \
    SUBCHECK(NAME##_std, Q, T, WHAT) { FN(g, StdA{}); } \
    SUBCHECK(NAME##_pmr, Q / 3, T / 3, WHAT) { if (g.flip()) FN(g, PmrA{}); else FN(g, PpmrA{}); }
RF_SUB3(view, 4000, 60000, "object view of a random type, every accessor, parameter and function of every node; non-trivial: parameters or several fields", viewCase)
RF_SUB3(serialize, 4000, 60000, "introspection serializes what the typed view serializes; non-trivial: more than 16 bits", serializeCase)
RF_SUB3(find, 5000, 80000, "path lookups through fields, parameters and functions; non-trivial: resolves beyond a plain field", findCase)
RF_SUB3(relations, 20000, 400000, "paths through compound parameters and functions of a random object graph, also to missing names and through values; non-trivial: several steps which lead to a value", relationsCase)
RF_SUB3(equal, 8000, 120000, "pairs of objects, mostly one difference; non-trivial: same type, several fields", equalCase)
SUBCHECK(doubles, 60000, 1000000, "pairs of floating point values; non-trivial: both numbers other than zero") { doublesCase(g); }
