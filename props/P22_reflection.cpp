// P22: reflection reads and writes the same object the typed API sees.
// Oracle: an independent model built by direct member access; for histories the model is mirrored operation by operation.
#include "reflcheck.h"

using namespace rf;

namespace
{
template <class A>
struct Hist
{
    pbt::Gen& g;
    A a;
    IObj<A>& o;
    Ptr<A> root;
    Node m;
    bool owner;
    unsigned changed = 0, failed = 0;

    Node typed() const { return stripped(owner ? o.modelOf(root) : o.model()); }
    void verify(const std::string& what)
    {
        Node t = typed();
        CHECKM(t == m, what << firstDiff(m, t));
    }
    template <class F>
    void mustThrow(const std::string& what, F f)
    {
        CHECKM(throwsCpp(f), what << " must throw");
        ++failed;
        verify("unchanged after failed " + what);
    }
    void step()
    {
        // navigate to a random compound or array
        Ptr<A> p = root;
        Node* n = &m;
        std::string path;
        const zserio::BasicFieldInfo<A>* fi = nullptr;
        for (int depth = 0; depth < 6 && g.chance(2, 3); ++depth)
        {
            if (n->k == Node::ARRAY)
            {
                if (n->elems.empty()) break;
                size_t i = g.below(n->elems.size());
                Node& c = n->elems[i];
                if (c.k != Node::STRUCT && c.k != Node::VARIANT) break;
                p = g.flip() ? p->at(i) : (*p)[i];
                n = &c;
                path += "[" + std::to_string(i) + "]";
                continue;
            }
            std::vector<size_t> c;
            for (size_t i = 0; i < n->fields.size(); ++i)
                if (n->fields[i].second.k == Node::STRUCT || n->fields[i].second.k == Node::VARIANT || n->fields[i].second.k == Node::ARRAY) c.push_back(i);
            if (c.empty()) break;
            size_t i = g.pick(c);
            const std::string name = n->fields[i].first;
            fi = nullptr;
            for (const auto& f : p->getTypeInfo().getFields()) if (f.schemaName == name) fi = &f;
            CHECK(fi != nullptr);
            switch (g.below(3))
            {
            case 0: p = p->getField(name); break;
            case 1: p = p->find(name); break;
            default: p = (*p)[std::string_view(name)]; break;
            }
            CHECKM(p != nullptr, path + "." + name);
            n = &n->fields[i].second;
            path += "." + name;
        }
        if (n->k == Node::ARRAY) arrayStep(p, *n, path);
        else compoundStep(p, *n, path, n == &m);
    }
    void arrayStep(const Ptr<A>& p, Node& n, const std::string& path)
    {
        const auto& ti = p->getTypeInfo();
        switch (g.below(7))
        {
        case 0:
        {
            size_t s = g.size(6);
            Node d;
            if (!defaultNode<A>(ti, a, d)) return;
            p->resize(s);
            n.elems.resize(s, d);
            done(path + " resize " + std::to_string(s));
            CHECK_EQ(p->size(), s);
            break;
        }
        case 1:
        case 2:
        {
            zserio::BasicAny<A> any(a);
            Node v;
            if (n.elems.size() > 8 || !genAnyFor<A>(g, ti, a, any, v)) return;
            p->append(any);
            n.elems.push_back(v);
            done(path + " append " + show(v));
            break;
        }
        case 3:
        case 4:
        {
            zserio::BasicAny<A> any(a);
            Node v;
            if (!genAnyFor<A>(g, ti, a, any, v)) return;
            if (n.elems.empty() || g.chance(1, 6))
            {
                size_t bad = g.pick({n.elems.size(), n.elems.size() + 1, size_t(SIZE_MAX)});
                mustThrow(path + " setAt out of range", [&] { p->setAt(any, bad); });
                return;
            }
            size_t i = g.below(n.elems.size());
            p->setAt(any, i);
            n.elems[i] = v;
            done(path + " setAt " + std::to_string(i) + " " + show(v));
            break;
        }
        case 5:
        {
            auto any = wrongAny<A>(g, ti, false, false, a);
            if (n.elems.empty() || g.flip()) mustThrow(path + " append wrong kind", [&] { p->append(any); });
            else mustThrow(path + " setAt wrong kind", [&] { p->setAt(any, g.below(n.elems.size())); });
            break;
        }
        default:
            mustThrow(path + " setField on array", [&] { p->setField("v", zserio::BasicAny<A>(uint8_t(1), a)); });
            mustThrow(path + " createField on array", [&] { p->createField("v"); });
            mustThrow(path + " getField on array", [&] { p->getField("v"); });
            mustThrow(path + " at out of range", [&] { p->at(n.elems.size()); });
            break;
        }
    }
    void assign(Node& n, size_t i, Node v)
    {
        if (n.k == Node::VARIANT)
        {
            for (auto& f : n.fields) f.second = Node();
            n.choice = n.fields[i].first;
        }
        n.fields[i].second = std::move(v);
    }
    void compoundStep(const Ptr<A>& p, Node& n, const std::string& path, bool isRoot)
    {
        if (n.fields.empty()) return;
        size_t i = g.below(n.fields.size());
        const std::string name = n.fields[i].first;
        const zserio::BasicFieldInfo<A>* fi = nullptr;
        for (const auto& f : p->getTypeInfo().getFields()) if (f.schemaName == name) fi = &f;
        CHECKM(fi != nullptr, name);
        const auto& ti = fi->typeInfo;
        switch (g.below(9))
        {
        case 0:
        case 1:
        case 2:
        {
            if (isRoot && g.flip())
            {
                Node v;
                if (o.assignField(g, p, name, a, v))
                {
                    assign(n, i, stripped(v));
                    done(path + " assign " + name + " " + show(v));
                    return;
                }
            }
            zserio::BasicAny<A> any(a);
            Node v;
            if (fi->isArray || !genAnyFor<A>(g, ti, a, any, v)) return;
            p->setField(name, any);
            assign(n, i, v);
            done(path + " setField " + name + " " + show(v));
            break;
        }
        case 3:
        case 4:
        {
            Node d;
            if (fi->isArray) d.k = Node::ARRAY;
            else if (!defaultNode<A>(ti, a, d)) return;
            Ptr<A> c = p->createField(name);
            CHECKM(c != nullptr && c->isArray() == fi->isArray, name);
            assign(n, i, d);
            done(path + " createField " + name);
            checkTree<Ptr<A>, A, false>(c, stripped(d), a, "created " + name, false);
            break;
        }
        case 5:
            if (!fi->isOptional) return;
            p->setField(name, zserio::BasicAny<A>(nullptr, a));
            assign(n, i, Node());
            done(path + " reset " + name);
            CHECK(p->getField(name) == nullptr);
            CHECK(p->find(name) == nullptr);
            break;
        case 6:
        case 7:
        {
            auto any = wrongAny<A>(g, ti, fi->isOptional, fi->isArray, a);
            mustThrow(path + " setField " + name + " wrong kind", [&] { p->setField(name, any); });
            break;
        }
        default:
            mustThrow(path + " setField unknown", [&] { p->setField("noSuchField", zserio::BasicAny<A>(uint8_t(1), a)); });
            mustThrow(path + " createField unknown", [&] { p->createField("noSuchField"); });
            mustThrow(path + " resize", [&] { p->resize(1); });
            mustThrow(path + " append", [&] { p->append(zserio::BasicAny<A>(uint8_t(1), a)); });
            mustThrow(path + " setAt", [&] { p->setAt(zserio::BasicAny<A>(uint8_t(1), a), 0); });
            mustThrow(path + " at", [&] { p->at(0); });
            // a single value has neither fields nor elements
            if (n.fields[i].second.isValue())
            {
                Ptr<A> leaf = p->getField(name);
                CHECKM(leaf != nullptr, name);
                const std::string w = path + "." + name;
                mustThrow(w + " getField of a value", [&] { leaf->getField("v"); });
                mustThrow(w + " setField of a value", [&] { leaf->setField("v", zserio::BasicAny<A>(uint8_t(1), a)); });
                mustThrow(w + " createField of a value", [&] { leaf->createField("v"); });
                mustThrow(w + " resize of a value", [&] { leaf->resize(1); });
                mustThrow(w + " append to a value", [&] { leaf->append(zserio::BasicAny<A>(uint8_t(1), a)); });
                mustThrow(w + " setAt of a value", [&] { leaf->setAt(zserio::BasicAny<A>(uint8_t(1), a), 0); });
                mustThrow(w + " at of a value", [&] { leaf->at(0); });
                mustThrow(w + " [] of a value", [&] { (*leaf)[size_t(0)]; });
                CHECKM(leaf->find("v") == nullptr && (*leaf)[std::string_view("v")] == nullptr, w);
            }
            break;
        }
    }
    void done(const std::string& what)
    {
        g.note(what);
        ++changed;
        verify(what + ": ");
    }
};

template <class A>
void readCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    Opt2 opt;
    opt.finite = g.flip();
    auto o = t.gen(g, a, opt);
    Node n = o->model();
    g.note(t.name + " " + show(n));
    checkTree<Ptr<A>, A, false>(o->refl(a), n, a, t.name, true);
    checkTree<CPtr<A>, A, false>(o->crefl(a), n, a, "const " + t.name, true);
    o->checkAny(a);
    // the const view of a mutable reflectable
    CPtr<A> c = o->refl(a);
    checkTree<CPtr<A>, A, false>(c, n, a, "const of mutable " + t.name, false);
    // nothing was modified by reading
    CHECKM(o->model() == n, "reading modified the object");
    g.nontrivial(n.fields.size() > 1);
}
template <class A>
void findCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    auto o = t.gen(g, a, Opt2{});
    Node n = o->model();
    Ptr<A> p = o->refl(a);
    CPtr<A> c = o->crefl(a);
    for (int i = 0; i < 6; ++i)
    {
        std::string path = genPath(g, n, false);
        const Node* want = resolve(n, path, false);
        g.note(path + (want ? "=" + show(*want) : "=-"));
        checkTree<Ptr<A>, A, false>(p->find(path), want ? *want : Node(), a, "find " + path, false);
        checkTree<Ptr<A>, A, false>((*p)[std::string_view(path)], want ? *want : Node(), a, "[] " + path, false);
        checkTree<CPtr<A>, A, false>(c->find(path), want ? *want : Node(), a, "const find " + path, false);
        checkTree<CPtr<A>, A, false>((*c)[std::string_view(path)], want ? *want : Node(), a, "const [] " + path, false);
        g.nontrivial(want != nullptr && path.find('.') != std::string::npos);
    }
}
template <class A>
void histCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    Opt2 opt;
    opt.maxElems = 3;
    auto o = t.gen(g, a, opt);
    Hist<A> h{g, a, *o, nullptr, Node(), g.chance(1, 3), 0, 0};
    h.root = h.owner ? o->ti().createInstance(a) : o->refl(a);
    h.m = h.typed();
    g.note(t.name + (h.owner ? " owner " : " ") + show(h.m));
    checkTree<Ptr<A>, A, false>(h.root, h.typed(), a, "start", false);
    size_t steps = 1 + g.size(14);
    for (size_t i = 0; i < steps; ++i) h.step();
    Node end = h.owner ? o->modelOf(h.root) : o->model();
    checkTree<Ptr<A>, A, false>(h.root, end, a, "end", true);
    checkTree<CPtr<A>, A, false>(CPtr<A>(h.root), end, a, "end, constant", true);
    for (int i = 0; i < 2; ++i)
    {
        std::string path = genPath(g, end, false);
        const Node* want = resolve(end, path, false);
        checkTree<Ptr<A>, A, false>(h.root->find(path), want ? *want : Node(), a, "find " + path, false);
        checkTree<Ptr<A>, A, false>((*h.root)[std::string_view(path)], want ? *want : Node(), a, "[] " + path, false);
        CPtr<A> c = h.root;
        checkTree<CPtr<A>, A, false>(c->find(path), want ? *want : Node(), a, "const find " + path, false);
        checkTree<CPtr<A>, A, false>((*c)[std::string_view(path)], want ? *want : Node(), a, "const [] " + path, false);
    }
    g.nontrivial(h.changed >= 2 && h.changed + h.failed >= 4);
}
// constant reflectables can be read but not modified, at any depth
template <class A>
void constCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    auto o = t.gen(g, a, Opt2{});
    Node n = o->model();
    // a constant reflectable behind a mutable pointer: every mutating member must refuse
    auto p = std::const_pointer_cast<zserio::IBasicReflectableData<A>>(o->crefl(a));
    std::string where = t.name;
    const Node* cur = &n;
    for (int depth = 0;; ++depth)
    {
        if (cur->k == Node::ARRAY)
        {
            RF_THROWS(p->resize(cur->elems.size() + 1), where);
            RF_THROWS(p->resize(0), where);
            for (size_t i : {size_t(0), cur->elems.size()})
            {
                RF_THROWS(p->at(i), where);
                RF_THROWS((*p)[i], where);
                RF_THROWS(p->setAt(zserio::BasicAny<A>(uint8_t(1), a), i), where);
            }
            RF_THROWS(p->append(zserio::BasicAny<A>(uint8_t(1), a)), where);
            RF_THROWS(p->getAnyValue(a), where);
            if (cur->elems.empty() || !g.flip()) break;
            size_t i = g.below(cur->elems.size());
            if (cur->elems[i].isValue()) break;
            p = std::const_pointer_cast<zserio::IBasicReflectableData<A>>(CPtr<A>(p)->at(i));
            cur = &cur->elems[i];
            where += "[" + std::to_string(i) + "]";
            continue;
        }
        for (const auto& f : cur->fields)
        {
            RF_THROWS(p->getField(f.first), where + "." + f.first);
            RF_THROWS(p->createField(f.first), where + "." + f.first);
            RF_THROWS(p->setField(f.first, zserio::BasicAny<A>(uint8_t(1), a)), where + "." + f.first);
            RF_THROWS(p->setField(f.first, zserio::BasicAny<A>(nullptr, a)), where + "." + f.first);
            CHECKM(p->find(f.first) == nullptr, where + "." + f.first);
        }
        RF_THROWS(p->getAnyValue(a), where);
        std::vector<const std::pair<std::string, Node>*> next;
        for (const auto& f : cur->fields)
            if (f.second.k != Node::ABSENT && !f.second.isValue()) next.push_back(&f);
        if (next.empty()) break;
        auto f = g.pick(next);
        p = std::const_pointer_cast<zserio::IBasicReflectableData<A>>(CPtr<A>(p)->getField(f->first));
        cur = &f->second;
        where += "." + f->first;
        g.nontrivial();
    }
    g.note(where);
    CHECKM(o->model() == n, "constant reflectable modified the object");
}
} // namespace

SUBCHECK(read_std, 4000, 60000, "object of a random type, every accessor of every node; non-trivial: compound with several fields") { readCase(g, StdA{}); }
SUBCHECK(read_pmr, 1500, 20000, "same with polymorphic allocators") { if (g.flip()) readCase(g, PmrA{}); else readCase(g, PpmrA{}); }
SUBCHECK(find_std, 6000, 80000, "path lookups; non-trivial: a multi-level path that resolves") { findCase(g, StdA{}); }
SUBCHECK(find_pmr, 2000, 30000, "same with polymorphic allocators") { if (g.flip()) findCase(g, PmrA{}); else findCase(g, PpmrA{}); }
SUBCHECK(mutate_std, 8000, 120000, "mutation history mirrored by the model; non-trivial: >= 2 changes and >= 4 effective steps") { histCase(g, StdA{}); }
SUBCHECK(mutate_pmr, 3000, 40000, "same with polymorphic allocators") { if (g.flip()) histCase(g, PmrA{}); else histCase(g, PpmrA{}); }
SUBCHECK(constant, 3000, 40000, "mutations through constant reflectables; non-trivial: nested level reached")
{
    switch (g.below(3))
    {
    case 0: constCase(g, StdA{}); break;
    case 1: constCase(g, PmrA{}); break;
    default: constCase(g, PpmrA{}); break;
    }
}
