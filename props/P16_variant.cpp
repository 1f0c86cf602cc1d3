// Variant against a reference (index, value) over operation histories, storage kinds, allocators and throw points.
#include <vector>
#include "tracked.h"
#include "zserio/Variant.h"

void p16_a0(pbt::Gen&, bool);
void p16_a1(pbt::Gen&, bool);
void p16_a2(pbt::Gen&, bool);
void p16_a3(pbt::Gen&, bool);
void p16_a4(pbt::Gen&, bool);
void p16_a5(pbt::Gen&, bool);
void p16_a6(pbt::Gen&, bool);
void p16_a7(pbt::Gen&, bool);

namespace
{
void any(pbt::Gen& g, bool faults)
{
    switch (g.below(8))
    {
    case 0: p16_a0(g, faults); break;
    case 1: p16_a1(g, faults); break;
    case 2: p16_a2(g, faults); break;
    case 3: p16_a3(g, faults); break;
    case 4: p16_a4(g, faults); break;
    case 5: p16_a5(g, faults); break;
    case 6: p16_a6(g, faults); break;
    default: p16_a7(g, faults); break;
    }
}
} // namespace

SUBCHECK(histories, 30000, 1500000, "1-26 operations over 3 variants, 7 alternatives x 8 allocator kinds; nontrivial: at least 4 steps")
{
    any(g, false);
}
SUBCHECK(fault_histories, 30000, 1500000, "same with throwing values and failing allocations; nontrivial: at least 4 steps or something threw")
{
    any(g, true);
}

namespace
{
using namespace zserio;
using namespace trk;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;

// trees of variants: a value is a number, a text or the rest of the list
template <class ALLOC>
struct Node;
enum class Kind : size_t
{
    END,
    NUMBER,
    NODE,
    WIDE
};
template <class ALLOC>
struct Wide
{
    int v;
    Tr<40, true> t{0};
};
// a node holds its parts in a vector, the element type of which may be incomplete
template <class ALLOC>
struct Node
{
    using V = BasicVariant<ALLOC, Kind, std::monostate, int, Node<ALLOC>, Wide<ALLOC>>;
    explicit Node(int x) : v(x) {}
    int v;
    Tr<1, true> t{0};
    std::vector<V> parts;
};
struct Tree
{
    Kind kind = Kind::END;
    int v = 0;
    std::vector<Tree> parts;
};
template <class ALLOC>
using VariantOf = typename Node<ALLOC>::V;

template <class ALLOC>
VariantOf<ALLOC> makeTree(pbt::Gen& g, Tree& m, size_t depth)
{
    m = Tree();
    m.kind = static_cast<Kind>(g.draw(3));
    if (depth == 3 || (depth > 0 && g.flip())) m.kind = Kind::NODE;
    if (depth == 0 && m.kind == Kind::NODE) m.kind = Kind::WIDE;
    m.v = m.kind == Kind::END ? 0 : static_cast<int>(g.below(100));
    const ALLOC a = AK<ALLOC>::make(static_cast<int>(1 + g.below(2)));
    switch (m.kind)
    {
    case Kind::END: return VariantOf<ALLOC>(a);
    case Kind::NUMBER: return VariantOf<ALLOC>(zserio::in_place_index<Kind::NUMBER>, a, m.v);
    case Kind::WIDE: return VariantOf<ALLOC>(zserio::in_place_index<Kind::WIDE>, a, Wide<ALLOC>{m.v});
    default:
    {
        Node<ALLOC> n(m.v);
        const size_t c = g.draw(3);
        for (size_t i = 0; i < c; ++i)
        {
            m.parts.emplace_back();
            n.parts.push_back(makeTree<ALLOC>(g, m.parts.back(), depth - 1));
        }
        return VariantOf<ALLOC>(zserio::in_place_index<Kind::NODE>, a, std::move(n));
    }
    }
}
template <class ALLOC>
size_t expectTree(const VariantOf<ALLOC>& v, const Tree& m)
{
    CHECK_EQ(static_cast<int>(v.index()), static_cast<int>(m.kind));
    switch (m.kind)
    {
    case Kind::END: return 0;
    case Kind::NUMBER: CHECK_EQ(zserio::get<Kind::NUMBER>(v), m.v); return 0;
    case Kind::WIDE: CHECK_EQ(zserio::get<Kind::WIDE>(v).v, m.v); return 1;
    default: break;
    }
    const auto& n = zserio::get<Kind::NODE>(v);
    CHECK_EQ(n.v, m.v);
    CHECK_EQ(n.parts.size(), m.parts.size());
    size_t r = 1;
    for (size_t i = 0; i < m.parts.size(); ++i) r += expectTree<ALLOC>(n.parts[i], m.parts[i]);
    return r;
}
template <class ALLOC>
void trees(pbt::Gen& g)
{
    using V = VariantOf<ALLOC>;
    Tree model;
    V root = makeTree<ALLOC>(g, model, 3);
    const size_t steps = 1 + g.size(12);
    size_t own = 0;
    for (size_t st = 0; st < steps; ++st)
    {
        // a random place and, if it is a node, one of its parts
        V* p = &root;
        Tree* m = &model;
        while (m->kind == Kind::NODE && !m->parts.empty() && g.flip())
        {
            const size_t i = g.below(m->parts.size());
            p = &zserio::get<Kind::NODE>(*p).parts[i];
            m = &m->parts[i];
        }
        const size_t op = g.draw(5);
        if (g.noting()) g.note("op" + std::to_string(op) + " at " + std::to_string(static_cast<int>(m->kind)));
        if (op <= 1 || op == 5)
        {
            if (m->kind == Kind::NODE && !m->parts.empty())
            {
                const size_t i = g.below(m->parts.size());
                V& part = zserio::get<Kind::NODE>(*p).parts[i];
                if (op == 0) *p = std::move(part);
                else if (op == 1) *p = static_cast<const V&>(part);
                else p->swap(*std::make_unique<V>(part));
                Tree t = m->parts[i];
                *m = std::move(t);
                ++own;
            }
        }
        else if (op == 2)
        {
            Tree t;
            *p = makeTree<ALLOC>(g, t, 1 + g.draw(2));
            *m = std::move(t);
        }
        else if (op == 3)
        {
            const int v = static_cast<int>(g.below(100));
            p->template emplace<Kind::NUMBER>(v);
            *m = Tree();
            m->kind = Kind::NUMBER;
            m->v = v;
        }
        else *p = *static_cast<V*>(p);
        CHECK_EQ(expectTree<ALLOC>(root, model), world().live.size());
    }
    g.nontrivial(own > 0 && steps >= 3);
}
} // namespace

SUBCHECK(tree_edits, 30000, 600000, "1-13 edits of trees of variants through assignments of a part to its whole, against a reference tree; nontrivial: at least one such assignment")
{
    if (g.flip()) trees<std::allocator<uint8_t>>(g);
    else
    {
        Pool pool;
        trees<PmrA>(g);
        for (auto& r : pool.res) CHECK_EQ(r.live(), 0U);
    }
    CHECK_EQ(world().live.size(), 0U);
    expectClean("tree_edits");
}
