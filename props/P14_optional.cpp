// Optional against a reference optional over operation histories, storage kinds, allocators and throw points.
#include <functional>
#include <optional>
#include "tracked.h"
#include "zserio/Optional.h"

using namespace zserio;
using namespace trk;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;

void p14_a0(pbt::Gen&, bool);
void p14_a1(pbt::Gen&, bool);
void p14_a2(pbt::Gen&, bool);
void p14_a3(pbt::Gen&, bool);
void p14_a4(pbt::Gen&, bool);
void p14_a5(pbt::Gen&, bool);
void p14_a6(pbt::Gen&, bool);
void p14_a7(pbt::Gen&, bool);

namespace
{
void any(pbt::Gen& g, bool faults)
{
    switch (g.below(10))
    {
    case 0: p14_a0(g, faults); break;
    case 1:
    case 2: p14_a1(g, faults); break;
    case 3:
    case 4: p14_a2(g, faults); break;
    case 5: p14_a3(g, faults); break;
    case 6: p14_a4(g, faults); break;
    case 7: p14_a5(g, faults); break;
    case 8: p14_a6(g, faults); break;
    default: p14_a7(g, faults); break;
    }
}
// recursive optional: lists built, copied, moved and popped
struct Node
{
    using IS_RECURSIVE = void;
    explicit Node(int x) : v(x) {}
    int v;
    Tr<1, true> t{0};
    Optional<Node> next;
};
struct PmrNode
{
    using IS_RECURSIVE = void;
    using allocator_type = PmrA;
    explicit PmrNode(int x, const PmrA& a = {}) : v(x), next(a) {}
    PmrNode(const PmrNode& o) = default;
    PmrNode(PmrNode&& o) = default;
    PmrNode(const PmrNode& o, const PmrA& a) : v(o.v), t(o.t), next(o.next, a) {}
    PmrNode(PmrNode&& o, const PmrA& a) : v(o.v), t(std::move(o.t)), next(std::move(o.next), a) {}
    PmrNode& operator=(const PmrNode& o) = default;
    PmrNode& operator=(PmrNode&& o) = default;
    int v;
    Tr<1, true> t{0};
    BasicOptional<PmrA, PmrNode> next;
};
} // namespace

SUBCHECK(histories, 60000, 1500000, "1-26 operations over 3 optionals, 7 element kinds x 9 allocator kinds; nontrivial: at least 4 steps")
{
    any(g, false);
}
SUBCHECK(fault_histories, 60000, 1500000, "same with throwing values and failing allocations; nontrivial: at least 4 steps or something threw")
{
    any(g, true);
}

namespace
{
// lists edited through assignments from their own parts
template <class N, class L>
void lists(pbt::Gen& g, const std::function<L(int)>& makeEmpty, const std::function<N(int, int)>& makeNode)
{
    L head = makeEmpty(static_cast<int>(1 + g.below(2)));
    std::vector<int> model;
    const size_t steps = 1 + g.size(20);
    size_t own = 0;
    for (size_t st = 0; st < steps; ++st)
    {
        // the optional at position `at`
        const size_t at = model.empty() ? 0 : g.below(model.size() + 1);
        L* p = &head;
        for (size_t i = 0; i < at; ++i) p = &(*p)->next;
        const auto pos = model.begin() + static_cast<ptrdiff_t>(at);
        const size_t op = g.draw(8);
        const bool engaged = at < model.size();
        const bool two = at + 1 < model.size();
        if (g.noting()) g.note("op" + std::to_string(op) + "@" + std::to_string(at) + "/" + std::to_string(model.size()));
        switch (op)
        {
        case 0: // insert
        case 1:
        {
            const int v = static_cast<int>(g.below(100));
            N n = makeNode(v, static_cast<int>(1 + g.below(2)));
            if (op == 0) n.next = std::move(*p);
            else n.next = *p;
            *p = std::move(n);
            model.insert(pos, v);
            break;
        }
        case 2: // remove the node
            if (!engaged) break;
            *p = std::move((*p)->next);
            model.erase(pos);
            ++own;
            break;
        case 3:
            if (!engaged) break;
            *p = static_cast<const L&>((*p)->next);
            model.erase(pos);
            ++own;
            break;
        case 4:
            if (!two) break;
            *p = std::move(*(*p)->next);
            model.erase(pos);
            ++own;
            break;
        case 5:
            if (!two) break;
            *p = static_cast<const N&>(*(*p)->next);
            model.erase(pos);
            ++own;
            break;
        case 6: // the rest of the list follows itself once more
        {
            if (model.size() > 8) break;
            L rest(*p);
            L* q = p;
            while (q->has_value()) q = &(*q)->next;
            *q = rest;
            const std::vector<int> tail(pos, model.end());
            model.insert(model.end(), tail.begin(), tail.end());
            break;
        }
        case 7: *p = *static_cast<L*>(p); break;
        default: // cut
            p->reset();
            model.erase(pos, model.end());
        }
        const L* q = &head;
        for (int v : model)
        {
            CHECKM(q->has_value(), "list too short");
            CHECK_EQ((*q)->v, v);
            q = &(*q)->next;
        }
        CHECKM(!q->has_value(), "list too long");
        CHECK_EQ(world().live.size(), model.size());
    }
    g.nontrivial(own > 0 && steps >= 3);
}
} // namespace

SUBCHECK(list_edits, 40000, 800000, "1-21 edits of a linked list of recursive optionals through assignments from its own parts, against a vector; nontrivial: at least one such assignment")
{
    if (g.flip())
    {
        lists<Node, Optional<Node>>(g, [](int) { return Optional<Node>(); }, [](int v, int) { return Node(v); });
    }
    else
    {
        Pool pool;
        using L = BasicOptional<PmrA, PmrNode>;
        lists<PmrNode, L>(g, [](int r) { return L(AK<PmrA>::make(r)); }, [](int v, int r) { return PmrNode(v, AK<PmrA>::make(r)); });
        for (auto& r : pool.res) CHECK_EQ(r.live(), 0U);
    }
    CHECK_EQ(world().live.size(), 0U);
    expectClean("list_edits");
}

SUBCHECK(recursive, 10000, 200000, "lists of recursive optionals built, copied, moved and compared to a vector; nontrivial: at least 3 nodes")
{
    Pool pool;
    {
        std::vector<int> model;
        BasicOptional<PmrA, PmrNode> head(AK<PmrA>::make(1));
        const size_t n = g.size(12);
        for (size_t i = 0; i < n; ++i)
        {
            const int v = static_cast<int>(g.below(100));
            model.insert(model.begin(), v);
            PmrNode node(v, AK<PmrA>::make(g.flip() ? 1 : 2));
            node.next = std::move(head);
            head = std::move(node);
        }
        g.nontrivial(n >= 3);
        auto same = [&](const BasicOptional<PmrA, PmrNode>& h, int res) {
            const BasicOptional<PmrA, PmrNode>* p = &h;
            for (int v : model)
            {
                CHECK(p->has_value());
                CHECK_EQ((*p)->v, v);
                if (res >= 0) CHECK_EQ(AK<PmrA>::id(p->get_allocator()), res);
                p = &(*p)->next;
            }
            CHECK(!p->has_value());
        };
        same(head, 1);
        CHECK_EQ(world().live.size(), n);
        {
            BasicOptional<PmrA, PmrNode> copy(head, AK<PmrA>::make(2));
            same(copy, 2);
            same(head, 1);
            CHECK_EQ(world().live.size(), 2 * n);
            CHECK_EQ(pool.res[2].live(), n);
            BasicOptional<PmrA, PmrNode> moved(std::move(copy), AK<PmrA>::make(1));
            same(moved, 1);
            head = moved;
            same(head, 1);
        }
        CHECK_EQ(world().live.size(), n);
        CHECK_EQ(pool.res[1].live(), n);
        CHECK_EQ(pool.res[0].live() + pool.res[2].live(), 0U);
    }
    CHECK_EQ(world().live.size(), 0U);
    for (auto& r : pool.res) CHECK_EQ(r.live(), 0U);
    {
        Optional<Node> h;
        for (int i = 0; i < 5; ++i)
        {
            Node nn(i);
            nn.next = h;
            h = nn;
        }
        CHECK_EQ(world().live.size(), 5U);
    }
    CHECK_EQ(world().live.size(), 0U);
    expectClean("recursive");
}
